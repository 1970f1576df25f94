#include "raise.hpp"
#include "spine/eventsystem/eventsystem.hpp"
#include <functional>
using namespace spn::core;
using L = long;
struct Ev { size_t id; int kind; L val; };
struct Sched { L when; Ev e; };
static Event::Data mk(int kind, L v) { switch (kind) { case 1: return Event::Data(float(v) / 4); case 2: return Event::Data(uint32_t(v)); case 3: return Event::Data(k_time_s(v)); case 4: return Event::Data(k_time_ms(v)); } return {}; }
static Ev read(const Event& e) { return {e.id(), 0, 0}; }
struct W { EventSystem* s = nullptr; std::vector<std::string> log; std::function<void(int, const Event&)> on; };
struct H : EventHandler { W& w; int n; H(W& w, int n, EventSystem* s) : EventHandler(s), w(w), n(n) {} void handle_event(const Event& e) override { w.on(n, e); } };
static std::string str(int h, const Ev& e) { return "handler" + std::to_string(h) + "(id " + std::to_string(e.id) + ", data " + std::to_string(e.kind) + ":" + std::to_string(e.val) + ")"; }
int main() {
    drv::arm(); auto now = [] { return HAL::millis().raw(); };
    while (drv::time_left()) for (int rep = 0; rep < 50; ++rep) {
        drv::history.clear(); ++drv::cases; EventSystem::Config c{1 + drv::rnd(4), 1 + drv::rnd(6), 1 + drv::rnd(4), drv::coin()}; L mn = drv::rnd(drv::coin() ? 5 : 300), mx = drv::rnd(drv::coin() ? 10 : 2000); c.min_delay_between_ticks = k_time_ms(mn); c.max_delay_between_ticks = k_time_ms(mx);
        std::vector<std::shared_ptr<Event>> held; std::vector<std::shared_ptr<Event>> after;
        { auto sys = std::make_unique<EventSystem>(c); drv::note("EventSystem(ids " + std::to_string(c.events_count) + ", events " + std::to_string(c.events_cap) + ", handlers " + std::to_string(c.handler_cap) + (c.delay_between_ticks ? ", delays " + std::to_string(mn) + ".." + std::to_string(mx) : "") + ") at " + std::to_string(now()));
        W w; std::vector<std::unique_ptr<H>> hs; for (int i = 0; i < 3; ++i) hs.push_back(std::make_unique<H>(w, i, sys.get()));
        std::vector<std::vector<int>> at(c.events_count); size_t inflight = 0; std::vector<Sched> pipe; int budget = 0; L lim = drv::coin() ? 4 : drv::rnd(6) ? 1500 : L(1) << (32 + drv::rnd(6));
        auto attach = [&] { size_t id = drv::rnd(c.events_count); int h = drv::rnd(3); if (at[id].size() < c.handler_cap) { drv::note("attach handler " + std::to_string(h) + " to " + std::to_string(id)); sys->attach(id, hs[h].get()); at[id].push_back(h); } };
        auto freeev = [&] { return c.events_cap - held.size() - pipe.size() - inflight; };
        auto insert = [&](L when, Ev e) { size_t i = 0; while (i < pipe.size() && pipe[i].when <= when) ++i; pipe.insert(pipe.begin() + i, {when, e}); };
        auto schedule = [&] { Ev e{drv::rnd(c.events_count), int(drv::rnd(5)), L(drv::rnd(100000))}; if (!e.kind) e.val = 0; L d = drv::rnd(lim); bool ok = freeev() > 0; drv::note("schedule id " + std::to_string(e.id) + " in " + std::to_string(d) + "ms data " + std::to_string(e.kind) + ":" + std::to_string(e.val) + (ok ? "" : " (no event left)"));
            if (drv::coin()) { if (e.kind == 0 && drv::coin()) sys->schedule(e.id, k_time_ms(d)); else sys->schedule(e.id, k_time_ms(d), mk(e.kind, e.val)); } else { auto ev = e.kind == 0 && drv::coin() ? sys->event(e.id, k_time_ms(d)) : sys->event(e.id, k_time_ms(d), mk(e.kind, e.val)); CHECK(bool(ev) == ok, "event() hands out " << (ev ? "an event in use" : "nothing though an event is free")); sys->schedule(std::move(ev)); }
            if (ok) insert(now() + d, e); };
        std::vector<std::string> want; int depth = 0; std::vector<std::pair<int, Ev>> expect; size_t pos = 0;
        w.on = [&](int n, const Event& e) {
            CHECK(pos < expect.size(), "handler " << n << " is called for id " << e.id() << " though nothing is due"); Ev x = expect[pos].second; CHECK(n == expect[pos].first && e.id() == x.id, "handler " << n << " is called with id " << e.id() << ", expected " << str(expect[pos].first, x));
            CHECK(e.data().has_value() == (x.kind != 0), "event lost its data"); switch (x.kind) { case 0: CHECK(e.data().value() == 0 && e.data().unsigned_value() == 0 && e.data().ms().raw() == 0 && e.data().s().raw() == 0, "no data is 0"); break; case 1: CHECK(e.data().value() == float(x.val) / 4, "float data is " << e.data().value()); break; case 2: CHECK(e.data().unsigned_value() == x.val, "number data is " << e.data().unsigned_value()); break; case 3: CHECK(e.data().s().raw() == x.val, "seconds are " << e.data().s().raw()); break; case 4: CHECK(e.data().ms().raw() == x.val, "milliseconds are " << e.data().ms().raw()); }
            ++pos; if (budget > 0 && depth == 1 && drv::rnd(3) == 0) { --budget; drv::note("(in handler)"); if (drv::rnd(3)) schedule(); else if (!held.empty()) { held.pop_back(); drv::note("release an event"); } else { HAL::delay(k_time_ms(1)); drv::note("delay 1"); } } };
        auto fire = [&](Ev e) { expect.clear(); pos = 0; for (int h : at[e.id]) expect.push_back({h, e}); };
        // loop() is followed step by step: handlers find what is due from the model
        auto loop = [&](int b = 4) { drv::note("loop"); budget = b; depth = 1; L t = now();
            auto inner = w.on; bool open = false; std::vector<std::string> dummy;
            w.on = [&](int n, const Event& e) {
                if (!open || pos == expect.size()) { if (open) { --inflight; open = false; } // the next due event that has handlers
                    for (;;) { CHECK(!pipe.empty() && pipe[0].when <= now(), "handler " << n << " is called for id " << e.id() << " though nothing is due"); Ev x = pipe[0].e; pipe.erase(pipe.begin()); fire(x); if (!expect.empty()) break; }
                    ++inflight; open = true; }
                inner(n, e); };
            sys->loop(); w.on = inner; if (open) { CHECK(pos == expect.size(), "a handler of id " << expect[pos].second.id << " was not called"); --inflight; } (void)t; depth = 0;
        };
        for (int k = drv::rnd(2 * c.handler_cap + 3); k--;) attach();
        for (int k = 0; k < 25; ++k) {
            switch (drv::rnd(8)) {
            case 0: case 1: schedule(); break;
            case 2: { Ev e{drv::rnd(c.events_count), int(drv::rnd(5)), L(drv::rnd(1000))}; if (!e.kind) e.val = 0; bool ok = freeev() > 0; drv::note("trigger id " + std::to_string(e.id) + (ok ? "" : " (no event left)")); expect.clear(); pos = 0; if (ok) fire(e); if (e.kind == 0 && drv::coin()) sys->trigger(e.id); else sys->trigger(e.id, mk(e.kind, e.val)); CHECK(pos == expect.size(), "a handler of id " << e.id << " was not called"); break; }
            case 3: if (freeev() > 0 && held.size() < 3) { Ev e{drv::rnd(c.events_count), 2, 7}; auto ev = sys->event(e.id, k_time_ms(5), mk(2, 7)); CHECK(ev && ev.use_count() == 2, "event"); drv::note("hold an event of id " + std::to_string(e.id)); fire(e); if (drv::coin()) sys->trigger(ev); else sys->trigger(*ev); CHECK(pos == expect.size(), "a handler of id " << e.id << " was not called"); held.push_back(ev); } break;
            case 4: if (!held.empty()) { drv::note("release"); held.erase(held.begin() + drv::rnd(held.size())); } break;
            case 5: { L d = drv::rnd(lim + 2); drv::note("delay " + std::to_string(d)); HAL::delay(k_time_ms(d)); break; }
            default: { loop(); L t1 = now();
                // events without handlers pass unseen; what is left is not due at the moment the loop stopped looking
                (void)t1; }
                { L end = now(); // the moment before the closing delay: now minus the delay expected
                  auto drop = [&](L t) { auto q = pipe; while (!q.empty() && q[0].when <= t && at[q[0].e.id].empty()) q.erase(q.begin()); return q; };
                  bool good = false; for (L wait = 0; wait <= 2100 && !good; ++wait) { L t = end - wait; auto q = drop(t); if (!q.empty() && q[0].when <= t) continue; L d = !c.delay_between_ticks ? 0 : q.empty() ? mn : std::min(q[0].when - t, mx); if (d == wait && sys->_pipeline.pipe().size() == q.size()) { pipe = q; good = true; } }
                  CHECK(good, "after loop at " << end << " there are " << sys->_pipeline.pipe().size() << " of " << pipe.size() << " events waiting, " << (pipe.empty() ? -1 : pipe[0].when) << " is the next; the delay does not fit"); }
            }
            CHECK(sys->_pipeline.pipe().size() == pipe.size(), "pipeline has " << sys->_pipeline.pipe().size() << " events, expected " << pipe.size());
            for (size_t j = 0; j < pipe.size(); ++j) { auto* e = static_cast<Event*>(sys->_pipeline.pipe()[j].get()); CHECK(e->future().raw() == pipe[j].when && e->id() == pipe[j].e.id, "place " << j << " of the pipeline: id " << e->id() << " at " << e->future().raw() << ", expected id " << pipe[j].e.id << " at " << pipe[j].when); }
        }
        // drain the pipeline: everything scheduled is delivered
        std::vector<std::weak_ptr<Future>> gone; if (drv::rnd(3)) {
        for (int k = 0; !sys->_pipeline.pipe().empty() && k < 50; ++k) { HAL::delay(k_time_ms(lim + 5)); loop(0); }
        CHECK(sys->_pipeline.pipe().empty(), "events are left in the pipeline"); for (auto& q : pipe) CHECK(at[q.e.id].empty(), "an event of id " << q.e.id << " was never delivered");
        } else for (size_t j = 0; j < sys->_pipeline.pipe().size(); ++j) gone.push_back(sys->_pipeline.pipe()[j]);
        drv::note("destroy"); after = held; sys.reset(); for (auto& g : gone) CHECK(g.expired(), "the destroyed event system leaves an event behind that was waiting in the pipeline"); }
        held.clear(); for (auto& e : after) CHECK(e.use_count() == 1, "the destroyed event system still holds an event");
    }
    drv::done("random histories of attaching, scheduling, triggering and looping compared with a simulated list of pending events");
}

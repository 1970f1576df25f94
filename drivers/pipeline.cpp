#include "raise.hpp"
#include "spine/eventsystem/pipeline.hpp"
#include <memory>
using namespace spn::eventsystem;
using L = long;
struct M { std::shared_ptr<Future> f; L per, when; bool gone; int in; };
int main() {
    drv::arm(); auto now = [] { return HAL::millis().raw(); };
    while (drv::time_left()) for (int rep = 0; rep < 100; ++rep) {
        drv::history.clear(); ++drv::cases; size_t cap = 1 + drv::rnd(6); std::vector<M> all; { Pipeline p(cap); drv::note("Pipeline(" + std::to_string(cap) + ") at " + std::to_string(now())); std::vector<size_t> in;
        L lim = drv::coin() ? 4 : drv::rnd(6) ? 1000 : L(1) << (32 + drv::rnd(6)); auto delay = [&] { return L(drv::rnd(lim)) - (drv::rnd(8) ? 0 : 2); };
        for (int k = 0; k < 40; ++k) {
            switch (drv::rnd(9)) {
            case 0: case 1: case 2: { // push a new or an old future
                size_t i = all.size(); std::vector<size_t> out; for (size_t j = 0; j < all.size(); ++j) if (!all[j].in) out.push_back(j);
                if (drv::coin() && !out.empty()) i = out[drv::rnd(out.size())]; else { L d = delay(); all.push_back({d || drv::coin() ? std::make_shared<Future>(k_time_ms(d)) : std::make_shared<Future>(), d, now() + d, false, 0}); drv::note("new Future " + std::to_string(i) + " in " + std::to_string(d) + "ms"); }
                M& m = all[i]; if (drv::rnd(4) == 0) { L d = delay(); if (drv::rnd(4) == 0) d = 0; drv::note("reschedule " + std::to_string(i) + " in " + std::to_string(d)); if (d || drv::coin()) m.f->reschedule(k_time_ms(d)); else m.f->reschedule(); if (d) m.per = d; m.when = now() + m.per; m.gone = false; CHECK(m.f->future().raw() == m.when && m.f->time_until_future().raw() == m.per, "rescheduled future fires at " << m.f->future().raw() << " expected " << m.when); }
                if (drv::rnd(4) == 0) { L d = drv::rnd(4) ? drv::rnd(3) : drv::rnd(lim); HAL::delay(k_time_ms(d)); drv::note("delay " + std::to_string(d)); }
                drv::note("push " + std::to_string(i)); auto c = m.f; bool room = in.size() < cap; p.push(std::move(c)); m.when = now() + m.per; m.gone = false;
                if (room) { size_t at = 0; while (at < in.size() && all[in[at]].when <= m.when) ++at; in.insert(in.begin() + at, i); m.in = 1; c.reset(); } else c.reset();
                break; }
            case 3: { L d = drv::coin() ? 1 : drv::rnd(lim); drv::note("delay " + std::to_string(d)); HAL::delay(k_time_ms(d)); break; }
            case 4: if (!all.empty()) { size_t i = drv::rnd(all.size()); M& m = all[i]; drv::note("future " + std::to_string(i) + " expired?"); bool e = m.gone || m.when <= now(); CHECK(m.f->expired() == e, "future " << i << " expired is " << !e); m.gone = e; } break;
            case 5: if (drv::coin()) { bool e = !in.empty() && (all[in[0]].gone || all[in[0]].when <= now()); drv::note("contains expired?"); CHECK(p.contains_expired_futures() == e, "contains_expired_futures is " << !e); break; } [[fallthrough]];
            case 8: if (!in.empty() && !drv::rnd(4)) { size_t i = in[drv::rnd(in.size())]; M& m = all[i]; L d = drv::rnd(lim) + 1; drv::note("reschedule " + std::to_string(i) + " (in the pipeline) in " + std::to_string(d)); m.f->reschedule(k_time_ms(d)); m.per = d; m.when = now() + d; m.gone = false; } break;
            default: { drv::note("expire"); bool e = !in.empty() && (all[in[0]].gone || all[in[0]].when <= now()); auto f = p.expire(); CHECK(bool(f) == e, (e ? "a ready future is not handed out" : "a future that is not ready is handed out"));
                if (e) { CHECK(f == all[in[0]].f, "another future than the first is handed out"); all[in[0]].in = 0; all[in[0]].gone = true; in.erase(in.begin()); } }
            }
            CHECK(p.contains_futures() == !in.empty() && p.pipe().size() == in.size(), "pipeline holds " << p.pipe().size() << " futures, expected " << in.size());
            for (size_t j = 0; j < in.size(); ++j) CHECK(p.pipe()[j] == all[in[j]].f, "place " << j << " of the pipeline holds another future than expected");
            L u = in.empty() ? 0 : std::max(0L, all[in[0]].when - now()); CHECK(p.time_until_next_future().raw() == u, "time until the next future is " << p.time_until_next_future().raw() << " expected " << u);
            if (all.size() > 1) { auto &a = all[drv::rnd(all.size())], &b = all[drv::rnd(all.size())]; CHECK((*a.f == *b.f) == (a.when == b.when) && (*a.f < *b.f) == (a.when < b.when), "futures at " << a.when << " and " << b.when << " compare wrongly"); }
            for (auto& m : all) CHECK(m.f.use_count() == 1 + m.in && m.f->future().raw() == m.when, "future has " << m.f.use_count() << " holders, fires at " << m.f->future().raw() << ", expected " << 1 + m.in << " and " << m.when);
        }
        if (drv::coin()) while (!in.empty()) { HAL::delay(k_time_ms(lim + 1000)); CHECK(p.expire() == all[in[0]].f, "drain"); in.erase(in.begin()); }
        drv::note("destroy with " + std::to_string(in.size()) + " futures in it"); }
        for (auto& m : all) CHECK(m.f.use_count() == 1, "the destroyed pipeline still holds a future");
    }
    drv::done("random histories of pushing, expiring and rescheduling futures compared with a list ordered by moment");
}

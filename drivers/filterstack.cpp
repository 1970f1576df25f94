#include "raise.hpp"
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/ewma.hpp"
using namespace spn::filter;
static std::map<int, int> alive; static std::vector<std::pair<int, double>> calls;
// order-dependent and stateful, exact in float for small numbers
template<class V> struct Probe : Filter<V> {
    int id; V last = 0, add, flip; Probe(int id) : id(id), add(id % 7), flip(id % 3 ? 1 : -1) { ++alive[id]; } ~Probe() override { --alive[id]; }
    V value(V x) override { calls.emplace_back(id, x); return last = flip * x + add; } V value() const override { return last; } void new_sample(V x) override { value(x); } void reset_to(V x) override { calls.emplace_back(-id, x); last = x + add; }
};
template<class V> void run() {
    drv::history.clear(); alive.clear(); ++drv::cases; int next = 1; struct M { int id; V last, add, flip; }; std::vector<M> m; std::vector<std::unique_ptr<Filter<V>>> out; unsigned slots = drv::rnd(8); if (!drv::rnd(30)) slots = 255;
    drv::note("stack of " + std::to_string(slots));
    {
        Stack<V> s(slots); CHECK(s.filter_slots() == slots && s.filter_slots_occupied() == 0, "a new stack has " << s.filter_slots() << " slots, " << s.filter_slots_occupied() << " in use"); CHECK(s.value() == 0, "value of an empty stack");
        for (int k = 0; k < 60; ++k) {
            int op = drv::rnd(8); calls.clear();
            if (op < 2 || (slots > 100 && op < 6)) {
                int id = next++; auto f = std::make_unique<Probe<V>>(id); V a = f->add, fl = f->flip; drv::note("attach " + std::to_string(id)); bool full = m.size() == slots; bool r = drv::raises([&] { s.attach_filter(std::move(f)); });
                if (!full) { CHECK(!r, "raised"); m.push_back({id, 0, a, fl}); } CHECK(alive[id] == (full ? alive[id] : 1), "attached filter lives " << alive[id] << " times");
            } else if (op == 2) {
                unsigned i = drv::rnd(m.size() + 2); drv::note("detach " + std::to_string(i)); bool ok = i < m.size(); std::unique_ptr<Filter<V>> f; drv::raises([&] { f = s.detach_filter(i); });
                if (ok) { CHECK(f && static_cast<Probe<V>*>(f.get())->id == m[i].id, "detached the wrong filter"); CHECK(alive[m[i].id] == 1, "detached filter is destroyed"); m.erase(m.begin() + i); out.push_back(std::move(f)); } else CHECK(!f, "detached something from an unused slot");
            } else if (op == 3) {
                V x = (int)drv::rnd(50) - 25; drv::note("reset to " + std::to_string(x)); s.reset_to(x); CHECK(calls.size() == m.size(), calls.size() << " filters reset"); for (size_t i = 0; i < m.size(); ++i) { CHECK(calls[i].first == -m[i].id && calls[i].second == x, "filter " << m[i].id); m[i].last = x + m[i].add; }
            } else {
                V x = (int)drv::rnd(50) - 25; drv::note("sample " + std::to_string(x)); V want = x, got; std::vector<std::pair<int, double>> w; for (auto& f : m) { w.emplace_back(f.id, want); f.last = want = f.flip * want + f.add; }
                if (drv::coin()) { got = s.value(x); CHECK(got == want, got << " expected " << want); } else s.new_sample(x); CHECK(calls == w, "the filters saw other samples, or in another order");
            }
            CHECK(s.filter_slots() == slots && s.filter_slots_occupied() == m.size(), s.filter_slots_occupied() << " of " << s.filter_slots() << " slots in use, expected " << m.size() << " of " << slots); if (!m.empty() || slots < 100) CHECK(s.value() == (m.empty() ? 0 : m.back().last), "filtered value " << s.value());
            for (auto& f : m) CHECK(alive[f.id] == 1, "filter " << f.id << " in the stack was destroyed");
        }
    }
    for (auto& f : m) CHECK(alive[f.id] == 0, "filter " << f.id << " was not destroyed with the stack"); out.clear(); for (auto& [id, n] : alive) CHECK(n == 0, "filter " << id << " lives on");
    // values keep the precision of the value type through the stack
    Stack<V> t(1); struct Id : Filter<V> { V v = 0; V value(V x) override { return v = x; } V value() const override { return v; } void new_sample(V x) override { v = x; } void reset_to(V x) override { v = x; } }; drv::history = "one passthrough; "; t.attach_filter(std::make_unique<Id>()); V x = (V)(1 + 1e-9 * (double)drv::rnd(1000) + 1e-3 * (double)drv::rnd(1000)); CHECK(t.value(x) == x && t.value() == x, "value " << t.value() << " for " << x);
}
int main() {
    drv::arm();
    while (drv::time_left()) for (int rep = 0; rep < 50; ++rep) { run<float>(); run<double>(); }
    drv::done("random histories of attach, detach, sample, reset and destruction over recording filters compared with a plain list of filters");
}

#include "driver.hpp"
#include "spine/structure/ringbuffer.hpp"
#include <deque>
using spn::structure::RingBuffer;
struct Model { size_t cap; std::deque<int> q; size_t ow = 0; };
template<class RB, class T> void compare(RB& rb, Model& m) {
    CHECK(rb.capacity() == m.cap, "capacity");
    CHECK(rb.used_space() == m.q.size(), "used_space " << rb.used_space() << " expected " << m.q.size());
    CHECK(rb.free_space() == m.cap - m.q.size(), "free_space " << rb.free_space());
    CHECK(rb.empty() == m.q.empty(), "empty"); CHECK(rb.full() == (m.q.size() == m.cap), "full");
    CHECK(rb.overrun_space() == m.ow, "overrun_space " << rb.overrun_space() << " expected " << m.ow);
    for (size_t i = 0; i < m.q.size(); ++i) { T v = -1; CHECK(rb.peek_at(v, i) && v == (T)m.q[i], "element " << i << " is " << +v << " expected " << +(T)m.q[i]);
        T* p = nullptr; CHECK(rb.peek_at(&p, i) && *p == (T)m.q[i], "pointer to element " << i); }
    T v = 7; CHECK(!rb.peek_at(v, m.q.size()) && v == 7, "peek beyond the end");
    T* p = nullptr; CHECK(!rb.peek_at(&p, m.q.size()) && !p, "pointer peek beyond the end");
    for (size_t far : {size_t(256), size_t(65536), size_t(1) << 32, ~size_t(0)}) if (far >= m.q.size()) CHECK(!rb.peek_at(v, far) && v == 7 && !rb.peek_at(&p, far) && !p, "peek at " << far);
}
template<class T> void step(RingBuffer<T>& rb, Model& m, int op, size_t n, int& next) {
    switch (op) {
    case 0: case 1: { bool roll = op; T v = next++; drv::note("push(" + std::to_string(+v) + (roll ? ",rollover)" : ")"));
        bool exp = roll || m.q.size() < m.cap; bool r = roll || v % 2 ? rb.push(v, roll) : rb.push(v);
        if (exp) { if (m.q.size() == m.cap) { m.q.pop_front(); ++m.ow; } m.q.push_back(v); }
        CHECK(r == exp, "push returned " << r); break; }
    case 2: case 3: { bool roll = op == 3; std::vector<T> b(n); for (auto& x : b) x = next++; drv::note("push_many(" + std::to_string(n) + (roll ? ",rollover)" : ")"));
        size_t exp = roll ? n : std::min(n, m.cap - m.q.size()); size_t r = roll || next % 2 ? rb.push(b.data(), n, roll) : rb.push(b.data(), n);
        for (size_t i = 0; i < exp; ++i) { if (m.q.size() == m.cap) { m.q.pop_front(); ++m.ow; } m.q.push_back(b[i]); }
        CHECK(r == exp, "push of " << n << " returned " << r << " expected " << exp); break; }
    case 4: { T v = 99; drv::note("pop(v)"); bool exp = !m.q.empty(); bool r = rb.pop(v); CHECK(r == exp, "pop returned " << r);
        if (exp) { CHECK(v == (T)m.q.front(), "popped " << +v << " expected " << +(T)m.q.front()); m.q.pop_front(); m.ow = 0; } else CHECK(v == 99, "failed pop wrote"); break; }
    case 5: { drv::note("pop()"); bool exp = !m.q.empty(); CHECK(rb.pop() == exp, "pop()"); if (exp) { m.q.pop_front(); m.ow = 0; } break; }
    case 6: { std::vector<T> b(n, 99); drv::note("pop_many(" + std::to_string(n) + ")"); size_t exp = m.q.size() < n ? 0 : n; size_t r = rb.pop(b.data(), n); CHECK(r == exp, "pop of " << n << " returned " << r);
        for (size_t i = 0; i < exp; ++i) { CHECK(b[i] == (T)m.q.front(), "pop_many element " << i); m.q.pop_front(); m.ow = 0; } break; }
    case 7: case 8: { bool last = op == 7; drv::note((last ? "drop_last(" : "drop_first(") + std::to_string(n) + ")"); size_t exp = std::min(n, m.q.size()); size_t r = !n ? (last ? rb.drop_last() : rb.drop_first()) : last ? rb.drop_last(n) : rb.drop_first(n);
        CHECK(r == exp, "drop returned " << r << " expected " << exp); for (size_t i = 0; i < exp; ++i) { if (last) m.q.pop_back(); else m.q.pop_front(); }
        CHECK(rb.overrun_space() <= m.ow, "overrun count grew to " << rb.overrun_space() << " by dropping"); m.ow = rb.overrun_space(); break; }
    case 9: drv::note("clear()"); rb.clear(); m.q.clear(); CHECK(rb.overrun_space() <= m.ow, "overrun count grew by clear"); m.ow = rb.overrun_space(); break;
    case 10: { drv::note("peek_contiguous(" + std::to_string(n) + ")"); T* p = nullptr; bool r = rb.peek_contiguous(&p, n); CHECK(r == (n <= m.q.size()), "peek_contiguous returned " << r); CHECK(r == (p != nullptr), "pointer of peek_contiguous");
        if (r) for (size_t i = 0; i < n; ++i) CHECK(p[i] == (T)m.q[i], "contiguous element " << i << " is " << +p[i] << " expected " << +(T)m.q[i]); CHECK(!rb.peek_contiguous(nullptr, n), "peek_contiguous without a pointer"); break; }
    }
    compare<RingBuffer<T>, T>(rb, m); ++drv::cases;
}
template<class T> void exhaustive(size_t cap, int depth) {
    // every sequence of `depth` operations; block sizes 0, 1, capacity, capacity+1
    std::vector<std::pair<int, size_t>> ops;
    for (int op : {0, 1, 4, 5, 9}) ops.push_back({op, 0});
    for (int op : {2, 3, 6, 7, 8, 10}) for (size_t n : {size_t(0), size_t(1), size_t(2), cap, cap + 1}) ops.push_back({op, n});
    std::vector<size_t> ix(depth, 0);
    for (;;) {
        drv::history = "capacity " + std::to_string(cap) + "; ";
        RingBuffer<T> rb(cap); Model m{cap}; int next = 1; compare<RingBuffer<T>, T>(rb, m);
        for (int d = 0; d < depth; ++d) step<T>(rb, m, ops[ix[d]].first, ops[ix[d]].second, next);
        int d = depth - 1; while (d >= 0 && ++ix[d] == ops.size()) ix[d--] = 0;
        if (d < 0) return;
        if (!drv::time_left(0.5)) return;
    }
}
int main() {
    for (size_t cap : {1, 2, 3}) exhaustive<int>(cap, 3);
    exhaustive<char>(2, 2); exhaustive<uint8_t>(2, 2);
    exhaustive<int>(2, 4);
    while (drv::time_left()) {
        size_t cap = 1 + drv::rnd(drv::coin() ? 4 : 17); drv::history = "capacity " + std::to_string(cap) + "; ";
        RingBuffer<uint8_t> rb(cap); Model m{cap}; int next = 1;
        for (int i = 0; i < 60; ++i) step<uint8_t>(rb, m, drv::rnd(11), drv::rnd(cap + 3), next);
    }
    // capacities and counts beyond 8, 16 and 32 bits
    for (int round = 0; round < 40; ++round) {
        size_t cap = round % 4 ? 250 + drv::rnd(300) : 65530 + drv::rnd(5000); drv::history = "capacity " + std::to_string(cap) + "; ";
        RingBuffer<int> rb(cap); Model m{cap}; int next = 1;
        for (int i = 0; i < 8; ++i) { int op = i ? drv::rnd(11) : 2; size_t n = drv::coin() ? drv::rnd(cap + 3) : cap - drv::rnd(3); if (op >= 7 && drv::coin()) n = drv::pick({size_t(256), size_t(65536), size_t(65537), (size_t(1) << 32) + drv::rnd(3), ~size_t(0)}); step<int>(rb, m, op, n, next); }
    }
    drv::done("operation sequences on buffers of capacity 1..17 and some of several hundred to 70000 compared with a reference queue after every operation");
}

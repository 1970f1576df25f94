#include "driver.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/stack.hpp"
#include <deque>
#include <memory>
#include <string>
using spn::structure::Vector; using spn::structure::Stack;
struct M { size_t cap; std::deque<int> q; };
// element types: plain, with non-trivial ownership, with non-trivial value
template<class T> T mk(int i); template<class T> int un(const T& t);
template<> int mk<int>(int i) { return i; } template<> int un<int>(const int& t) { return t; }
template<> char mk<char>(int i) { return (char)(i % 120); } template<> int un<char>(const char& t) { return t; }
using SP = std::shared_ptr<int>;
template<> SP mk<SP>(int i) { return std::make_shared<int>(i); } template<> int un<SP>(const SP& t) { return t ? *t : -1; }
template<class T> int id(int i) { return i; } template<> int id<char>(int i) { return i % 120; }
template<class T> void compare(Vector<T>& v, M& m) {
    const Vector<T>& k = v;
    CHECK(v.size() == m.q.size(), "size " << v.size() << " expected " << m.q.size()); CHECK(v.empty() == m.q.empty(), "empty"); CHECK(v.full() == (m.q.size() == m.cap), "full"); CHECK(v.max_size() == m.cap, "max_size");
    for (size_t i = 0; i < m.q.size(); ++i) { int e = m.q[i]; CHECK(un<T>(v[i]) == e, "element " << i << " is " << un<T>(v[i]) << " expected " << e); CHECK(un<T>(k[i]) == e, "const element " << i); CHECK(un<T>(v.at(i)) == e, "at(" << i << ") is " << un<T>(v.at(i)) << " expected " << e); }
    if (!m.q.empty()) { CHECK(un<T>(v.front()) == m.q.front(), "front"); CHECK(un<T>(v.back()) == m.q.back(), "back"); CHECK(un<T>(v.peek_front()) == m.q.front(), "peek_front"); CHECK(un<T>(v.peek_back()) == m.q.back(), "peek_back"); }
    size_t i = 0; for (auto& x : v) { CHECK(i < m.q.size() && un<T>(x) == m.q[i], "iteration at " << i); ++i; } CHECK(i == m.q.size(), "iteration ends after " << i);
    i = 0; for (const auto& x : k) { CHECK(i < m.q.size() && un<T>(x) == m.q[i], "const iteration at " << i); ++i; } CHECK(i == m.q.size(), "const iteration ends after " << i);
    i = 0; for (auto it = v.cbegin(); it != v.cend(); it++) { CHECK(i < m.q.size() && un<T>(*it) == m.q[i], "c-iteration at " << i); ++i; } CHECK(i == m.q.size(), "c-iteration ends after " << i);
    i = m.q.size(); for (auto it = v.rbegin(); it != v.rend(); ++it) { CHECK(i > 0 && un<T>(*it) == m.q[i - 1], "reverse iteration at " << i); --i; } CHECK(i == 0, "reverse iteration ends at " << i);
    i = m.q.size(); for (auto it = k.rbegin(); it != k.rend(); ++it) { CHECK(i > 0 && un<T>(*it) == m.q[i - 1], "const reverse iteration at " << i); --i; } CHECK(i == 0, "const reverse iteration ends at " << i);
    i = m.q.size(); for (auto it = v.crbegin(); it != v.crend(); ++it) { CHECK(i > 0 && un<T>(*it) == m.q[i - 1], "c-reverse iteration at " << i); --i; } CHECK(i == 0, "c-reverse iteration ends at " << i);
}
// every step of an iterator, before and behind the element, and what stepping delivers
template<class T, class It> void steps(It first, M& m, bool reverse, const char* kind) {
    if (m.q.size() < 2) return;
    auto at = [&](It i, size_t k) { CHECK(un<T>(*i) == m.q[reverse ? m.q.size() - 1 - k : k], kind << " iterator stands on " << un<T>(*i) << " instead of element " << k); };
    for (int twice = 0; twice < 2; ++twice) { It i = first; at(i, 0); at(i++, 0); at(i, 1); at(i--, 1); at(i, 0); at(++i, 1); at(--i, 0); CHECK(i == first && !(i != first), kind << " iterators compare"); }
}
template<class T> void iterators(Vector<T>& v, M& m) {
    const Vector<T>& k = v; steps<T>(v.begin(), m, false, "plain"); steps<T>(k.begin(), m, false, "const"); steps<T>(v.cbegin(), m, false, "c-"); steps<T>(v.rbegin(), m, true, "reverse"); steps<T>(k.rbegin(), m, true, "const reverse"); steps<T>(v.crbegin(), m, true, "c-reverse");
}
template<class T> void step(Vector<T>& v, M& m, int op, size_t n, int& next) {
    bool ok = m.q.size() < m.cap; int e = id<T>(next); T x = mk<T>(next); size_t sz = m.q.size();
    auto N = [&](const char* s) { drv::note(s); };
    switch (op) {
    case 0: N("push_back"); v.push_back(x); ++next; if (ok) m.q.push_back(e); break;
    case 1: N("emplace_back"); v.emplace_back(std::move(x)); ++next; if (ok) m.q.push_back(e); break;
    case 2: N("push_front"); v.push_front(x); ++next; if (ok) m.q.push_front(e); break;
    case 3: N("emplace_front"); v.emplace_front(std::move(x)); ++next; if (ok) m.q.push_front(e); break;
    case 4: drv::note("insert(" + std::to_string(n) + ")"); v.insert(n, x); ++next; if (ok) m.q.insert(m.q.begin() + std::min(n, sz), e); break;
    case 5: if (!sz) return; N("pop_back"); { T y = v.pop_back(); CHECK(un<T>(y) == m.q.back(), "pop_back delivers " << un<T>(y) << " expected " << m.q.back()); m.q.pop_back(); } break;
    case 6: if (!sz) return; N("pop_front"); { T y = v.pop_front(); CHECK(un<T>(y) == m.q.front(), "pop_front delivers " << un<T>(y) << " expected " << m.q.front()); m.q.pop_front(); } break;
    case 7: if (!sz || !drv::rnd(6)) { n = sz ? sz + 1 + n : n; drv::note("remove(" + std::to_string(n) + ") of nothing"); T y = v.remove(n); CHECK(un<T>(y) == un<T>(T{}), "remove of nothing delivers " << un<T>(y)); break; } n = std::min(n, sz); drv::note("remove(" + std::to_string(n) + ")"); { T y = v.remove(n); size_t p = std::min(n, sz - 1); CHECK(un<T>(y) == m.q[p], "remove delivers " << un<T>(y) << " expected " << m.q[p]); m.q.erase(m.q.begin() + p); } break;
    case 8: N("clear"); v.clear(); m.q.clear(); break;
    case 9: N("fill"); v.fill(x); ++next; m.q.assign(m.cap, e); break;
    case 10: { N("move to another and back"); Vector<T> o(std::move(v)); CHECK(v.size() == 0 && v.empty(), "moved-from vector has size " << v.size()); compare(o, m); Vector<T> t(1); t = std::move(o); CHECK(o.size() == 0, "moved-from vector has size " << o.size()); v = std::move(t); break; }
    case 11: { N("swap with another and back"); Vector<T> o(2); T y = mk<T>(77); o.push_back(y); v.swap(o); M one{2, {id<T>(77)}}; compare(v, one); compare(o, m); v.swap(o); compare(o, one); T z = o.pop_back(); break; }
    case 12: if (!sz) return; n = n % sz; N("write through operator[]"); v[n] = x; ++next; m.q[n] = e; break;
    case 13: if constexpr (std::is_same_v<T, int>) { N("assign a list"); int a = next++, b = next++, c = next++; m.q.clear(); switch (n % 4) { case 0: v = std::initializer_list<int>{}; break; case 1: v = {a}; m.q = {a}; break; case 2: v = {a, b}; m.q = {a, b}; break; default: v = {a, b, c}; m.q = {a, b, c}; } m.cap = m.q.size(); } break;
    case 14: if constexpr (std::is_same_v<T, int>) { N("copy"); Vector<T> o(3, 1); if (n % 2) { int y = o.pop_front(); (void)y; } o = v; compare(o, m); Vector<T> p(v); compare(p, m); } break;
    }
    compare(v, m); iterators<T>(v, m); ++drv::cases;
}
template<class T> void run(size_t cap, int ops, bool filled = false) {
    drv::history = "capacity " + std::to_string(cap) + "; "; Vector<T> v(cap); M m{cap}; int next = 1; compare(v, m);
    if (filled) step(v, m, 9, 0, next);
    for (int i = 0; i < ops; ++i) step(v, m, drv::rnd(15), drv::rnd(cap + 2), next);
    while (!v.empty()) { T y = v.pop_front(); (void)y; }
    for (size_t i = 0; i < m.cap; ++i) v.push_back(T{});       // release what popped slots may still hold
}
void exhaustive(size_t cap, int depth) {
    std::vector<std::pair<int, size_t>> ops; for (int o : {0, 2, 5, 6, 8}) ops.push_back({o, 0}); for (int o : {4, 7}) for (size_t n = 0; n <= cap; ++n) ops.push_back({o, n});
    std::vector<size_t> ix(depth, 0);
    for (;;) {
        drv::history = "capacity " + std::to_string(cap) + "; "; Vector<int> v(cap); M m{cap}; int next = 1;
        for (int d = 0; d < depth; ++d) step<int>(v, m, ops[ix[d]].first, ops[ix[d]].second, next);
        int d = depth - 1; while (d >= 0 && ++ix[d] == ops.size()) ix[d--] = 0;
        if (d < 0 || !drv::time_left(0.6)) return;
    }
}
void constructors() {
    for (size_t n = 0; n < 5; ++n) { drv::history = "Vector(n, value), n=" + std::to_string(n); Vector<int> v(n, 7); M m{n}; m.q.assign(n, 7); compare(v, m); }
    drv::history = "Vector{1,2,3}"; Vector<int> v{1, 2, 3}; M m{3, {1, 2, 3}}; compare(v, m);
    drv::history = "vector = {4,5}"; v = {4, 5}; M m2{2, {4, 5}}; compare(v, m2); v = {6, 7, 8, 9}; M m3{4, {6, 7, 8, 9}}; compare(v, m3);
    drv::history = "external store"; int st[4] = {1, 2, 3, 4}; { Vector<int> x(st, 2); M mm{4, {1, 2}}; compare(x, mm); x.push_front(9); M m4{4, {9, 1, 2}}; compare(x, m4); } CHECK(st[0] == 9 && st[1] == 1, "external store holds the elements");
    drv::history = "copy is a view"; { Vector<int> y(v); compare(y, m3); } compare(v, m3);
}
template<class T> void stack(size_t cap) {
    drv::history = "stack of " + std::to_string(cap) + "; "; Stack<T> s(cap); std::vector<int> m; int next = 1;
    for (int i = 0; i < 40; ++i) {
        int e = id<T>(next); T x = mk<T>(next++);
        switch (drv::rnd(3)) {
        case 0: drv::note("push"); s.push(x); if (m.size() < cap) m.push_back(e); break;
        case 1: drv::note("emplace"); s.emplace(std::move(x)); if (m.size() < cap) m.push_back(e); break;
        case 2: if (m.empty()) break; drv::note("pop"); { T y = s.top(); CHECK(un<T>(y) == m.back(), "top before pop"); } s.pop(); m.pop_back(); break;
        }
        CHECK(s.size() == m.size() && s.empty() == m.empty(), "stack size " << s.size() << " expected " << m.size()); if (!m.empty()) CHECK(un<T>(s.top()) == m.back(), "top is " << un<T>(s.top()) << " expected " << m.back()); ++drv::cases;
    }
    while (!s.empty()) s.pop();
    for (size_t i = 0; i < cap; ++i) s.emplace(T{});
}
int main() {
    constructors(); for (size_t c : {1, 2, 3}) exhaustive(c, 5);
    for (size_t c : {0, 1, 2, 5}) { stack<int>(c); stack<SP>(c); }
    for (int i = 0; i < 24; ++i) { run<int>(i % 6 ? 250 + drv::rnd(300) : 65530 + drv::rnd(3000), 6, true); run<char>(250 + drv::rnd(300), 6, true); }
    while (drv::time_left()) { run<int>(1 + drv::rnd(9), 60); run<SP>(1 + drv::rnd(6), 60); run<char>(1 + drv::rnd(17), 60); stack<int>(drv::rnd(6)); stack<SP>(drv::rnd(6)); }
    drv::done("operation sequences on vectors of int, char and shared_ptr and on stacks compared with a reference sequence after every operation");
}

#include "driver.hpp"
#include "spine/core/debugging.hpp"
#include "spine/structure/array.hpp"
#include <malloc.h>
using spn::structure::Array;
// Ownership is observed through the address sanitizer: every store must be released exactly once (leak check at exit, double free and use after free at once).
struct H { Array<int>* a; std::vector<int> v; int owner; };   // owner: index of the slot that owns the store (-1: external)
template<class A> void same(A& a, const std::vector<int>& m) {
    const auto& k = a;
    CHECK(a.size() == m.size() && a.max_size() == m.size() && a.empty() == m.empty(), "size " << a.size() << " expected " << m.size());
    for (size_t i = 0; i < m.size(); ++i) { CHECK(a[i] == m[i], "element " << i << " is " << a[i] << " expected " << m[i]); CHECK(k[i] == m[i] && a.at(i) == m[i] && a.data()[i] == m[i] && k.data()[i] == m[i], "access to element " << i); }
    if (!m.empty()) CHECK(a.front() == m.front() && a.back() == m.back(), "front/back");
    size_t i = 0; for (auto& x : a) { CHECK(i < m.size() && x == m[i], "iteration at " << i); ++i; } CHECK(i == m.size(), "iteration ends after " << i);
    i = 0; for (auto& x : k) { CHECK(i < m.size() && x == m[i], "const iteration at " << i); ++i; } CHECK(i == m.size(), "const iteration ends after " << i);
    i = 0; for (auto it = a.cbegin(); it != a.cend();) { CHECK(i < m.size() && *it++ == m[i], "c-iteration at " << i); ++i; } CHECK(i == m.size(), "c-iteration ends after " << i);
    i = m.size(); for (auto it = a.end(); i > 0;) { --i; CHECK(*--it == m[i], "stepping back at " << i); CHECK(it == it && !(it != it), "equal positions"); }
    i = m.size(); for (auto it = a.end(); i > 0;) { --i; auto old = it--; CHECK(old != it && *it == m[i], "stepping back (post) at " << i); }
    i = m.size(); for (auto it = a.rbegin(); it != a.rend(); ++it) { CHECK(i > 0 && *it == m[i - 1], "reverse iteration at " << i); --i; } CHECK(i == 0, "reverse iteration ends at " << i);
    i = m.size(); for (auto it = k.rbegin(); it != k.rend();) { CHECK(i > 0 && *it++ == m[i - 1], "const reverse iteration at " << i); --i; } CHECK(i == 0, "const reverse iteration ends at " << i);
    i = m.size(); for (auto it = a.crbegin(); it != a.crend(); ++it) { CHECK(i > 0 && *it == m[i - 1], "c-reverse iteration at " << i); --i; } CHECK(i == 0, "c-reverse iteration ends at " << i);
    i = 0; for (auto it = a.rend(); i < m.size(); ++i) CHECK(*--it == m[i], "reverse iterator stepping back at " << i);
    i = 0; for (auto it = a.rend(); i < m.size(); ++i) { it--; CHECK(*it == m[i], "reverse iterator stepping back (post) at " << i); }
}
void construct() {
    for (size_t n = 0; n < 6; ++n) { drv::history = "Array(" + std::to_string(n) + ")"; Array<int> a(n); same(a, std::vector<int>(n, 0)); Array<int> b(n, 5); same(b, std::vector<int>(n, 5)); if (n) { a.fill(3); same(a, std::vector<int>(n, 3)); } ++drv::cases; }
    drv::history = "Array{...}"; Array<int> a{4, 5, 6}; same(a, {4, 5, 6}); Array<char> c{'a', 'b'}; CHECK(c.size() == 2 && c[1] == 'b', "char list");
    struct S { int a; double b; }; Array<S> s(3); for (auto& x : s) CHECK(x.a == 0 && x.b == 0, "zero"); s.fill({1, 2.}); for (auto& x : s) CHECK(x.a == 1 && x.b == 2., "fill");
    drv::history = "external store"; int st[3] = {1, 2, 3}; { Array<int> e(st); same(e, {1, 2, 3}); e[1] = 9; } CHECK(st[1] == 9, "writes go to the external store");
    { drv::history = "array over a buffer of bytes"; uint8_t b[5] = {1, 2, 3, 4, 5}; { Array<uint8_t> e(b, 4); CHECK(e.size() == 4 && e.max_size() == 4, "size"); for (size_t i = 0; i < 4; ++i) CHECK(e[i] == 0, "element " << i << " is " << +e[i]); e[1] = 9; Array<uint8_t> f(std::move(e)); CHECK(f.size() == 4, "size after a move"); } CHECK(b[0] == 0 && b[1] == 9 && b[4] == 5, "the buffer holds the elements and nothing else is touched"); }
}
// a population of arrays; model: store id per slot and which slot owns which store
void population() {
    static int ext[3][4]; const int NS = 4; struct Slot { Array<int>* a; int store; bool own; size_t n; };
    std::vector<std::vector<int>> stores; std::vector<Slot> s(NS); drv::history = "";
    auto mkstore = [&](size_t n, int v) { stores.push_back(std::vector<int>(n, v)); return (int)stores.size() - 1; };
    std::vector<bool> dead; auto alive = [&](int st) { if (st < 0) return true; for (auto& x : s) if (x.a && x.own && x.store == st) return true; return st < 3; };
    for (int i = 0; i < 3; ++i) { for (int j = 0; j < 4; ++j) ext[i][j] = 100 * i + j; stores.push_back({ext[i], ext[i] + 4}); }
    for (int step = 0; step < 60; ++step, ++drv::cases) {
        int i = drv::rnd(NS), j = drv::rnd(NS); Slot &x = s[i], &y = s[j];
        auto kill = [&](Slot& t) { delete t.a; t.a = nullptr; };
        auto I = std::to_string(i), J = std::to_string(j);
        // views whose owner is gone must not be looked at
        switch (drv::rnd(9)) {
        case 0: kill(x); { size_t n = drv::rnd(400) ? drv::rnd(5) : drv::rnd(20) ? 200 + drv::rnd(400) : 65530 + drv::rnd(3000); int v = drv::rnd(90); drv::note(I + "=new(" + std::to_string(n) + ")"); x.a = new Array<int>(n, v); x.store = mkstore(n, v); x.own = true; x.n = n; } break;
        case 1: kill(x); { int e = drv::rnd(3); drv::note(I + "=external"); x.a = new Array<int>(ext[e]); x.store = e; x.own = false; x.n = 4; } break;
        case 2: if (i == j || !y.a) break; kill(x); drv::note(I + "=copy of " + J); x.a = new Array<int>(*y.a); x.store = y.store; x.own = false; x.n = y.n; break;
        case 3: if (i == j || !y.a) break; kill(x); drv::note(I + "=moved from " + J); x.a = new Array<int>(std::move(*y.a)); x.store = y.store; x.own = y.own; x.n = y.n; y.store = -1; y.own = false; y.n = 0; break;
        case 4: if (!x.a || !y.a) break; drv::note(I + " = " + J); *x.a = *y.a; if (i != j) { bool sm = x.store == y.store; x.own = sm && x.own; x.store = y.store; x.n = y.n; } break;
        case 5: if (!x.a || !y.a) break; drv::note(I + " = move(" + J + ")"); *x.a = std::move(*y.a); if (i != j) { bool sm = x.store == y.store; x.own = y.own || (sm && x.own); x.store = y.store; x.n = y.n; y.store = -1; y.own = false; y.n = 0; } break;
        case 6: if (!x.a || !y.a) break; drv::note("swap " + I + " " + J); x.a->swap(*y.a); std::swap(x.store, y.store); std::swap(x.own, y.own); std::swap(x.n, y.n); break;
        case 7: if (!x.a) break; drv::note(I + " = {7,8}"); { bool sm = false; (void)sm; *x.a = {7, 8}; x.store = mkstore(2, 7); stores.back()[1] = 8; x.own = true; x.n = 2; } break;
        case 8: if (!x.a || !x.n || !alive(x.store)) break; { int v = drv::rnd(90); size_t k = drv::rnd(x.n); drv::note(I + "[" + std::to_string(k) + "]=" + std::to_string(v)); (*x.a)[k] = v; stores[x.store][k] = v; } break;
        }
        for (auto& t : s) if (t.a) { if (t.store < 0) { CHECK(t.a->size() == 0, "a moved-from array has size " << t.a->size()); continue; } CHECK(t.a->size() == t.n, "size"); if (alive(t.store)) same(*t.a, std::vector<int>(stores[t.store].begin(), stores[t.store].begin() + t.n)); }
    }
    for (auto& t : s) delete t.a;
}
extern "C" int __lsan_do_recoverable_leak_check();
int main() {
    construct();
    while (drv::time_left()) { for (int i = 0; i < 200; ++i) population(); }
    if (__lsan_do_recoverable_leak_check()) drv::fail("a store is never released");
    drv::done("arrays constructed, copied, moved, assigned, swapped, listed and destroyed in random order, elements and ownership compared with a model (leaks, double frees and stale accesses by sanitizer)");
}

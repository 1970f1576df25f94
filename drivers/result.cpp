#include "driver.hpp"
#include "spine/structure/result.hpp"
#include <memory>
#include <optional>
using namespace spn::structure;
static long live = 0, copies = 0;
struct Own { // owns memory, knows how many are alive
    std::unique_ptr<long> p;
    explicit Own(long v = 0) : p(new long(v)) { ++live; }
    Own(const Own& o) : p(o.p ? new long(*o.p) : nullptr) { ++live; ++copies; }
    Own(Own&& o) noexcept : p(std::move(o.p)) { ++live; }
    Own& operator=(const Own& o) { ++copies; if (this != &o) p.reset(o.p ? new long(*o.p) : nullptr); return *this; }
    Own& operator=(Own&& o) noexcept { p = std::move(o.p); return *this; }
    ~Own() { --live; }
};
struct Pod { int a; double b; };
template<typename T> struct V;
template<> struct V<int> { static int make(long v) { return int(v); } static long get(const int& x) { return x; } };
template<> struct V<long> { static long make(long v) { return v; } static long get(const long& x) { return x; } };
template<> struct V<std::string> { static std::string make(long v) { return std::string(v % 40, 'x') + std::to_string(v); } static long get(const std::string& s) { auto k = s.find_first_not_of('x'); return k == s.npos ? -77 : atol(s.c_str() + k); } };
template<> struct V<Own> { static Own make(long v) { return Own(v); } static long get(const Own& o) { return o.p ? *o.p : -78; } };
template<> struct V<Pod> { static Pod make(long v) { return {int(v), v * 0.5}; } static long get(const Pod& p) { return p.b == p.a * 0.5 ? p.a : -79; } };
enum S { NONE, OK, MID, BAD };
struct M { S s; long v; };
template<typename T, typename E, typename I> M look(const Result<T, E, I>& r) {
    int n = r.is_success() + r.is_intermediary() + r.is_failed(); CHECK(n <= 1, "a result is in " << n << " states"); CHECK(bool(r) == r.is_success(), "bool(result) is not is_success");
    if (r.is_success()) { CHECK(&*r == &r.value() && r.operator->() == &r.value(), "* and -> show another value"); return {OK, V<T>::get(r.value())}; }
    if (r.is_intermediary()) return {MID, V<I>::get(r.intermediary_value())};
    if (r.is_failed()) return {BAD, V<E>::get(r.error_value())};
    return {NONE, 0};
}
static const char* nm[] = {"nothing", "success", "intermediary", "failed"};
#define SAME(r, m, what) do { M g_ = look(r); CHECK(g_.s == (m).s && (g_.s == NONE || g_.v == (m).v), what << " is " << nm[g_.s] << " " << g_.v << ", expected " << nm[(m).s] << " " << (m).v); } while (0)
template<typename T, typename E, typename I> Result<T, E, I> mk(M m) {
    using R = Result<T, E, I>;
    switch (m.s) {
    case OK: if (drv::coin()) { long cp = copies; R r(V<T>::make(m.v)); CHECK(copies == cp, "a payload that was moved in was copied"); return r; } else { const T t = V<T>::make(m.v); R r(t); CHECK(V<T>::get(t) == m.v, "the value given was changed"); return r; }
    case MID: if (drv::coin()) { long cp = copies; R r = R::intermediary(V<I>::make(m.v)); CHECK(copies == cp, "an intermediary payload that was moved in was copied"); return r; } else { const I t = V<I>::make(m.v); return R::intermediary(t); }
    case BAD:
        if constexpr (!std::is_same_v<T, E>) { if (drv::coin()) return R(V<E>::make(m.v)); if (drv::coin()) { const E t = V<E>::make(m.v); return R(t); } }
        if (drv::coin()) { long cp = copies; R r = R::failed(V<E>::make(m.v)); CHECK(copies == cp, "an error that was moved in was copied"); return r; } else { const E t = V<E>::make(m.v); return R::failed(t); }
    default: return R();
    }
}
static M rm() { return {S(drv::rnd(4)), long(drv::rnd(100000))}; }
template<typename T, typename E, typename I> void run(const std::string& name) {
    using R = Result<T, E, I>; drv::history.clear(); long base = live;
    {
        M m[3]; R r[3]; for (int i = 0; i < 3; ++i) { SAME(r[i], (M{NONE, 0}), "a new result"); m[i] = rm(); r[i] = mk<T, E, I>(m[i]); }
        drv::note(name); auto st = [&](int i) { return std::string(nm[m[i].s]) + " " + std::to_string(m[i].v); };
        for (int k = 0; k < 12; ++k) {
            ++drv::cases; int a = drv::rnd(3), b = (a + 1 + drv::rnd(2)) % 3; M w = rm(); int calls = 0; M arg{NONE, 0}; for (int i = 0; i < 3; ++i) SAME(r[i], m[i], "result " << i);
            const R& c = r[a]; auto is = [&](S s) { return m[a].s == s; };
            switch (drv::rnd(16)) {
            case 0: drv::note("copy " + st(b) + " onto " + st(a)); r[a] = r[b]; m[a] = m[b]; break;
            case 1: drv::note("move " + st(b) + " onto " + st(a)); { long cp = copies; R& x = (r[a] = std::move(r[b])); CHECK(copies == cp, "moving a result copied its payload"); CHECK(&x == &r[a], "assignment returns another object"); m[a] = m[b]; m[b] = rm(); r[b] = mk<T, E, I>(m[b]); } break;
            case 2: drv::note("copy construct " + st(a)); { R x(r[a]); SAME(x, m[a], "the copy"); R y(std::move(x)); SAME(y, m[a], "the moved copy"); } break;
            case 3: drv::note("assign to itself " + st(a)); { R& x = r[a]; r[a] = x; } break;
            case 4: drv::note("make " + std::string(nm[w.s]) + " " + std::to_string(w.v)); r[a] = mk<T, E, I>(w); m[a] = w; break;
            case 5: { drv::note("chain on " + st(a) + " giving " + nm[w.s]); long seen = 0; R x = r[a].chain([&](I& i) -> R { ++calls; seen = V<I>::get(i); i = V<I>::make(w.v + 1); return mk<T, E, I>(w); });
                CHECK(calls == is(MID), "chain called the function " << calls << " times"); if (calls) { CHECK(seen == m[a].v, "chain passed " << seen); SAME(x, w, "chain"); m[a].v = w.v + 1; } else SAME(x, m[a], "chain"); break; }
            case 6: { drv::note("map " + st(a)); auto x = c.map([&](const T& t) -> long { ++calls; arg = {OK, V<T>::get(t)}; return w.v; }); CHECK(calls == is(OK) && (!calls || arg.v == m[a].v), "map called the function " << calls << " times with " << arg.v); M e = m[a]; if (calls) e.v = w.v; SAME(x, e, "map"); break; }
            case 7: { drv::note("map_error " + st(a)); auto x = c.map_error([&](const E& t) -> Pod { ++calls; arg = {BAD, V<E>::get(t)}; return V<Pod>::make(w.v); }); CHECK(calls == is(BAD) && (!calls || arg.v == m[a].v), "map_error called the function " << calls << " times with " << arg.v); M e = m[a]; if (calls) e.v = w.v; SAME(x, e, "map_error"); break; }
            case 8: { drv::note("map_intermediary " + st(a)); auto x = c.map_intermediary([&](const I& t) -> Pod { ++calls; arg = {MID, V<I>::get(t)}; return V<Pod>::make(w.v); }); CHECK(calls == is(MID) && (!calls || arg.v == m[a].v), "map_intermediary called the function " << calls << " times with " << arg.v); M e = m[a]; if (calls) e.v = w.v; SAME(x, e, "map_intermediary"); break; }
            case 9: { drv::note("and_then " + st(a) + " giving " + nm[w.s]); using N = Result<Pod, E, I>; auto x = c.and_then([&](const T& t) -> N { ++calls; arg = {OK, V<T>::get(t)}; return mk<Pod, E, I>(w); }); CHECK(calls == is(OK) && (!calls || arg.v == m[a].v), "and_then called the function " << calls << " times with " << arg.v); SAME(x, calls ? w : m[a], "and_then"); break; }
            case 10: { drv::note("or_else " + st(a) + " giving " + nm[w.s]); using N = Result<T, Pod, I>; auto x = c.or_else([&](const E& t) -> N { ++calls; arg = {BAD, V<E>::get(t)}; return mk<T, Pod, I>(w); }); CHECK(calls == is(BAD) && (!calls || arg.v == m[a].v), "or_else called the function " << calls << " times with " << arg.v); SAME(x, calls ? w : m[a], "or_else"); break; }
            case 11: if (!is(NONE)) { drv::note("match " + st(a)); long x = c.match([&](const T& t) { ++calls; arg = {OK, V<T>::get(t)}; return w.v; }, [&](const E& t) { ++calls; arg = {BAD, V<E>::get(t)}; return w.v + 1; }, [&](const I& t) { ++calls; arg = {MID, V<I>::get(t)}; return w.v + 2; });
                CHECK(calls == 1 && arg.s == m[a].s && arg.v == m[a].v && x == w.v + (arg.s == OK ? 0 : arg.s == BAD ? 1 : 2), "match called " << calls << " functions, for " << nm[arg.s] << " with " << arg.v << ", gave " << x); } break;
            case 12: { drv::note("value_or, error_or " + st(a)); T x = c.value_or(V<T>::make(w.v)); CHECK(V<T>::get(x) == (is(OK) ? m[a].v : w.v), "value_or gives " << V<T>::get(x)); E y = c.error_or(V<E>::make(w.v + 3)); CHECK(V<E>::get(y) == (is(BAD) ? m[a].v : w.v + 3), "error_or gives " << V<E>::get(y)); break; }
            case 13: { drv::note("unwrap_or_else " + st(a)); T x = c.unwrap_or_else([&] { ++calls; return V<T>::make(w.v); }); CHECK(calls == !is(OK) && V<T>::get(x) == (is(OK) ? m[a].v : w.v), "unwrap_or_else called the fallback " << calls << " times and gives " << V<T>::get(x)); break; }
            case 14: if (!is(NONE)) { drv::note("unwrap " + st(a)); long x, cp = copies;
                if (is(OK)) x = V<T>::get(r[a].unwrap()); else if (is(BAD)) x = V<E>::get(r[a].unwrap_error_value()); else { x = 0; if constexpr (std::is_same_v<T, I>) { if (drv::coin()) x = V<T>::get(r[a].unwrap()); else x = V<I>::get(r[a].unwrap_intermediary_value()); } else x = V<I>::get(r[a].unwrap_intermediary_value()); }
                CHECK(x == m[a].v, "unwrapped " << x); CHECK(copies == cp, "unwrapping copied the payload instead of handing it out"); m[a] = rm(); r[a] = mk<T, E, I>(m[a]); } break;
            default: { drv::note("unwrap a copy of " + st(a)); R x = r[a]; if (is(OK)) { T t = x.unwrap(); CHECK(V<T>::get(t) == m[a].v, "unwrapped another value"); } } // the original keeps its payload
            }
        }
        for (int i = 0; i < 3; ++i) SAME(r[i], m[i], "result " << i);
    }
    CHECK(live == base, live - base << " payloads were not released, or released twice");
}
int main() {
    while (drv::time_left()) for (int i = 0; i < 20; ++i) {
        run<int, int, int>("Result<int>"); run<Own, Own, Own>("Result<Own>"); run<Own, int, Own>("Result<Own, int>"); run<std::string, Own, int>("Result<string, Own, int>"); run<int, Own, std::string>("Result<int, Own, string>"); run<Own, Own, int>("Result<Own, Own, int>"); run<Own, Pod, Pod>("Result<Own, Pod, Pod>");
    }
    drv::done("random histories of results of seven payload combinations compared with a tagged value");
}

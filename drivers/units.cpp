#include "raise.hpp"
#include "spine/structure/units/si.hpp"
#include <algorithm>
#include <tuple>
using i128 = __int128; using L = long;
template<class U> struct Mag; template<> struct Mag<k_time_us> { static constexpr i128 us = 1; static constexpr const char* n = "us"; }; template<> struct Mag<k_time_ms> { static constexpr i128 us = 1000; static constexpr const char* n = "ms"; };
template<> struct Mag<k_time_s> { static constexpr i128 us = 1000000; static constexpr const char* n = "s"; }; template<> struct Mag<k_time_m> { static constexpr i128 us = 60000000; static constexpr const char* n = "m"; };
template<> struct Mag<k_time_h> { static constexpr i128 us = 3600000000LL; static constexpr const char* n = "h"; }; template<> struct Mag<k_time_d> { static constexpr i128 us = 86400000000LL; static constexpr const char* n = "d"; };
bool fits(i128 v) { return v >= (i128)INT64_MIN && v <= (i128)INT64_MAX; }
i128 nearest(i128 v, i128 n, i128 d) { i128 g = std::__gcd(n, d); n /= g; d /= g; i128 a = v < 0 ? -v : v; i128 q = a / d * n + (a % d * n * 2 + d) / (2 * d); return v < 0 ? -q : q; }
L value() {
    auto& r = drv::rng();
    switch (drv::rnd(7)) { case 0: return (L)drv::rnd(5) - 2; case 1: return (L)drv::rnd(4000) - 2000; case 2: return (L)drv::rnd(1u << 26) - (1 << 25); case 3: return (L)r(); case 4: return (L)(r() >> 20) * (drv::coin() ? 1 : -1);
    case 5: { static const L u[] = {1000, 1000000, 60, 3600, 86400, 60000, 3600000, 86400000, 3600000000L, 86400000000L, 500, 30, 1800, 43200, INT64_MAX, INT64_MIN + 1, INT64_MIN, 16777217}; return u[drv::rnd(18)] * (L)1; } default: { static const L u[] = {500, 30, 1800, 43200, 500000, 30000, 43200000000L}; i128 x = (i128)u[drv::rnd(7)] * (L)(drv::rnd(2001) - 1000) + (L)drv::rnd(3) - 1; return (L)x; } }
}
template<class A, class B> void pair(L x, L y) {
    i128 c = nearest(y, Mag<B>::us, Mag<A>::us); if (!fits(c)) return;
    drv::history = std::string("k_time_") + Mag<A>::n + "(" + std::to_string(x) + ") with k_time_" + Mag<B>::n + "(" + std::to_string(y) + ")"; ++drv::cases;
    const A a(x); B b(y); L e = (L)c;
    A conv(b); CHECK(conv.raw() == e, "converted to " << conv.raw() << " expected " << e);
    A d; d = b; CHECK(d.raw() == e, "assigned " << d.raw() << " expected " << e); A d2; d2 = B(y); CHECK(d2.raw() == e, "move-assigned " << d2.raw()); A d3 = a; CHECK(d3.raw() == x, "copy");
    CHECK(b.raw() == y && a.raw() == x, "operands unchanged");
    if (fits((i128)x + e)) { CHECK((a + b).raw() == x + e, "+ gives " << (a + b).raw()); A t(x); t += b; CHECK(t.raw() == x + e, "+= gives " << t.raw()); }
    if (fits((i128)x - e)) { CHECK((a - b).raw() == x - e, "- gives " << (a - b).raw()); A t(x); CHECK(&(t -= b) == &t && t.raw() == x - e, "-= gives " << t.raw()); }
    if (fits((i128)x * e)) CHECK((a * b).raw() == x * e, "* gives " << (a * b).raw());
    if (e == 0) { bool r = drv::raises([&] { volatile L z = (a / b).raw(); (void)z; }); CHECK(r, "division by zero is not reported"); } else if (fits((i128)x / e)) CHECK((a / b).raw() == x / e, "/ gives " << (a / b).raw());
    CHECK((a == b) == (x == e) && (a != b) == (x != e) && (a < b) == (x < e) && (a > b) == (x > e) && (a <= b) == (x <= e) && (a >= b) == (x >= e), "comparison");
}
template<class A> void scalar(L x, L k) {
    drv::history = std::string("k_time_") + Mag<A>::n + "(" + std::to_string(x) + ") with number " + std::to_string(k); ++drv::cases; A a(x);
    if (fits((i128)x * k)) { CHECK((a * k).raw() == x * k, "*"); A t(x); CHECK(&(t *= k) == &t && t.raw() == x * k, "*="); }
    if (k == 0) { CHECK(drv::raises([&] { volatile L z = (a / k).raw(); (void)z; }), "division by zero is not reported"); CHECK(drv::raises([&] { A t(x); t /= k; }), "division by zero is not reported (/=)"); }
    else if (fits((i128)x / k)) { CHECK((a / k).raw() == x / k, "/"); A t(x); CHECK(&(t /= k) == &t && t.raw() == x / k, "/="); }
    if (x != INT64_MIN) CHECK((-a).raw() == -x, "negation"); CHECK(a.is_negative() == (x < 0), "is_negative"); CHECK(A().raw() == 0, "default");
}
template<class... U> struct Set { template<class A> static void row(L x, L y) { (pair<A, U>(x, y), ...); scalar<A>(x, y); } static void all(L x, L y) { (row<U>(x, y), ...); } };
int main() {
    drv::arm();
    static_assert(std::is_same_v<k_time_us::ValueType, L>);
    while (drv::time_left()) for (int i = 0; i < 300; ++i) Set<k_time_us, k_time_ms, k_time_s, k_time_m, k_time_h, k_time_d>::all(value(), value());
    drv::done("random and boundary 64 bit values through every operator of every pair of kernel time units, compared with 128 bit integer arithmetic");
}

#include "driver.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <math.h>
#include "spine/structure/point.hpp"
#include "spine/structure/tuple.hpp"
using namespace spn::structure;
template<class T> T value() {
    if constexpr (std::is_integral_v<T>) switch (drv::rnd(4)) { case 0: return T(drv::rnd(5)) - 2; case 1: return T(drv::rnd(200)) - 100; default: return T(drv::rnd(60001)) - 30000; }
    else switch (drv::rnd(6)) { case 0: return T(drv::rnd(3)) - 1; case 1: return -T(0); case 2: return T(drv::rnd(2001)) / 8 - 125; case 3: return std::ldexp(T(1 + drv::rnd(1000)), int(drv::rnd(40)) - 20); case 4: return drv::rnd(20) ? T(1.5) : std::numeric_limits<T>::infinity(); default: return (T(drv::rnd(2000001)) - 1000000) / 7; }
}
template<class T> std::array<T, 3> comps(const XYZPoint<T>& p) { return {p.x, p.y, p.z}; }
template<class T> std::array<T, 3> comps(const XYPoint<T>& p) { return {p.x, p.y, 0}; }
template<class T> void make(XYZPoint<T>& p, const std::array<T, 3>& v) { p = XYZPoint<T>(v[0], v[1], v[2]); }
template<class T> void make(XYPoint<T>& p, const std::array<T, 3>& v) { p = XYPoint<T>(v[0], v[1]); }
template<class T> bool same(T a, T b) { return a == b ? std::is_integral_v<T> || std::signbit((double)a) == std::signbit((double)b) : a != a && b != b; }
template<class T> std::string text(const std::array<T, 3>& v) { std::ostringstream o; o.precision(17); o << "(" << v[0] << ", " << v[1] << ", " << v[2] << ")"; return o.str(); }
template<class P, class T> void check(const char* what, const P& got, const std::array<T, 3>& want, int n) { auto g = comps(got); for (int i = 0; i < n; ++i) CHECK(same<T>(g[i], want[i]), what << " gives " << text(g) << " expected " << text(want)); }
template<class P, class T> void points(int n) {
    drv::history.clear(); P zero; check<P, T>("a new point", zero, {0, 0, 0}, n);
    std::array<T, 3> x{value<T>(), value<T>(), value<T>()}, y{value<T>(), value<T>(), value<T>()}; T s = value<T>();
    for (int i = 0; i < 3; ++i) if (std::is_integral_v<T> && !y[i]) y[i] = 1;
    if (drv::coin()) { int k = drv::rnd(3); y = x; if (std::is_integral_v<T>) for (auto& v : y) if (!v) v = 3; if (drv::coin()) y[k] = value<T>(); if (std::is_integral_v<T> && !y[k]) y[k] = 1; }
    if (n == 2) x[2] = y[2] = 0;
    drv::note("a = " + text(x) + ", b = " + text(y)); P a, b; make(a, x); make(b, y); check<P, T>("a", a, x, n);
    std::array<T, 3> w; auto each = [&](auto f) { for (int i = 0; i < n; ++i) w[i] = f(x[i], y[i]); return w; };
    check<P, T>("a + b", a + b, each([](T p, T q) { return T(p + q); }), n); check<P, T>("a - b", a - b, each([](T p, T q) { return T(p - q); }), n); check<P, T>("a * b", a * b, each([](T p, T q) { return T(p * q); }), n);
    check<P, T>("a / b", a / b, each([](T p, T q) { return T(p / q); }), n); check<P, T>("a.dot(b)", a.dot(b), each([](T p, T q) { return T(p * q); }), n);
    if constexpr (std::is_integral_v<T>) check<P, T>("a % b", a % b, each([](T p, T q) { return T(p % q); }), n);
    bool eq = true; for (int i = 0; i < n; ++i) eq = eq && x[i] == y[i];
    CHECK((a == b) == eq, "a == b gives " << (a == b)); CHECK((a != b) == !eq, "a != b gives " << (a != b));
    check<P, T>("a afterwards", a, x, n); check<P, T>("b afterwards", b, y, n);
    { P c = a; c.add(b); check<P, T>("add", c, each([](T p, T q) { return T(p + q); }), n); } { P c = a; c.subtract(b); check<P, T>("subtract", c, each([](T p, T q) { return T(p - q); }), n); }
    { P c = a; c.add(c); check<P, T>("adding itself", c, each([](T p, T q) { return T(p + p); }), n); } { P c = a; c.subtract(c); check<P, T>("subtracting itself", c, each([](T p, T q) { return T(p - p); }), n); }
    { P c = a; c.scalar_multiplication(s); check<P, T>("scalar_multiplication", c, each([s](T p, T q) { return T(p * s); }), n); }
    { P c = a; c.scalar_multiplication(c.x); check<P, T>("scaling by its own component x", c, each([&](T p, T q) { return T(p * x[0]); }), n); } { P c = a; c.scalar_multiplication(c.y); check<P, T>("scaling by its own component y", c, each([&](T p, T q) { return T(p * x[1]); }), n); }
    if constexpr (!std::is_integral_v<T>) {
        long double sq = 0; for (int i = 0; i < n; ++i) sq += (long double)x[i] * x[i]; long double len = sqrtl(sq); T m = a.mag();
        if (std::isfinite((double)sq)) { CHECK(fabsl(m - len) <= 1e-5L * len, "mag gives " << m << " expected " << (double)len);
            if (len > 0) { P c = a; c.normalize(); auto g = comps(c); for (int i = 0; i < n; ++i) CHECK(fabsl(g[i] - x[i] / len) <= 1e-5L, "normalize gives " << text(g)); } } }
    ++drv::cases;
}
int main() {
    while (drv::time_left()) for (int i = 0; i < 200; ++i) {
        points<XYPoint<int>, int>(2); points<XYPoint<long>, long>(2); points<XYPoint<float>, float>(2); points<XYPoint<double>, double>(2); points<XYZPoint<int>, int>(3); points<XYZPoint<long>, long>(3); points<XYZPoint<float>, float>(3); points<XYZPoint<double>, double>(3);
        int a = drv::rnd(1000); double b = a / 3.0; Tuple<int, double> t(a, b); CHECK(t.first() == a && t.second() == b, "tuple gives " << t.first() << ", " << t.second()); }
    drv::done("points of two and three components of four types, all operations against the components");
}

#include "raise.hpp"
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"
#include <algorithm>
#include <cmath>
using D = long double; using R = spnu::RealRawType;
D val() { switch (drv::rnd(5)) { case 0: return (float)((int)drv::rnd(9) - 4); case 1: return (float)((int)drv::rnd(20001) - 10000) / 8; case 2: return (float)((int)drv::rnd(2000001) - 1000000) * 1e-3f; case 3: return (float)ldexpl((D)((int)drv::rnd(4001) - 2000), (int)drv::rnd(30) - 15); default: return (float)drv::rnd(100); } }
bool near(D x, D y, D scale, D tol = 4e-6L) { return std::fabs(x - y) <= tol * std::max(std::fabs(y), std::fabs(scale)) + 1e-30L; }
std::string str(D x) { char b[60]; snprintf(b, sizeof b, "%.9Lg", x); return b; }
template<class U, class B> void name(const char* n, D f) { D v = val(); drv::history = std::string(n) + "(" + str(v) + ")"; ++drv::cases; D g = B(U((R)v)).raw(); CHECK(near(g, v * f, 0), "is " << (double)g << " of the base unit, expected " << (double)(v * f)); g = U(B((R)v)).raw(); CHECK(near(g, v / f, 0), "back is " << (double)g << " expected " << (double)(v / f)); }
#define N(u, b, f) name<u, b>(#u, f);
void names() {
    N(farad_p, farad, 1e-12L) N(farad_n, farad, 1e-9L) N(farad_u, farad, 1e-6L) N(farad_m, farad, 1e-3L) N(coulomb_n, coulomb, 1e-9L) N(coulomb_u, coulomb, 1e-6L) N(coulomb_m, coulomb, 1e-3L) N(siemens_u, siemens, 1e-6L) N(siemens_m, siemens, 1e-3L) N(amp_u, amp, 1e-6L) N(amp_m, amp, 1e-3L)
    N(joule_p, joule, 1e-12L) N(joule_n, joule, 1e-9L) N(joule_u, joule, 1e-6L) N(joule_m, joule, 1e-3L) N(joule_k, joule, 1e3L) N(joule_M, joule, 1e6L) N(joule_G, joule, 1e9L) N(joule_T, joule, 1e12L) N(newton_k, newton, 1e3L) N(hertz_k, hertz, 1e3L) N(hertz_M, hertz, 1e6L) N(hertz_G, hertz, 1e9L)
    N(meter_n, meter, 1e-9L) N(meter_u, meter, 1e-6L) N(meter_m, meter, 1e-3L) N(meter_c, meter, 1e-2L) N(meter_d, meter, 1e-1L) N(meter_k, meter, 1e3L) N(gram_u, gram, 1e-6L) N(gram_m, gram, 1e-3L) N(gram_k, gram, 1e3L) N(volt_u, volt, 1e-6L) N(volt_m, volt, 1e-3L) N(watt_m, watt, 1e-3L) N(watt_k, watt, 1e3L) N(watt_M, watt, 1e6L) N(watt_G, watt, 1e9L)
    N(pascal_k, pascal, 1e3L) N(pascal_M, pascal, 1e6L) N(ohm_m, ohm, 1e-3L) N(ohm_k, ohm, 1e3L) N(ohm_M, ohm, 1e6L) N(time_us, time_s, 1e-6L) N(time_ms, time_s, 1e-3L) N(time_m, time_s, 60) N(time_h, time_s, 3600) N(time_d, time_s, 86400) N(time_W, time_s, 604800) N(time_M, time_s, 2419200) N(time_Y, time_s, 31536000) N(litre_ml, litre, 1e-3L) N(cubic_metre, litre, 1e3L)
    N(lux, lux, 1) N(katal, katal, 1) N(gray, gray, 1) N(mole, mole, 1) N(sievert, sievert, 1) N(henry, henry, 1) N(lumen, lumen, 1) N(weber, weber, 1) N(tesla, tesla, 1) N(becquerel, becquerel, 1)
}
template<class A, class B> void pair(const char* n, D k) {   // one B is k A
    D x = val(), y = val(), e = y * k; drv::history = std::string(n) + " " + str(x) + ", " + str(y); ++drv::cases; const A a((R)x); B b((R)y);
    A c(b); CHECK(near(c.raw(), e, 0), "converted to " << c.raw()); A d; d = b; CHECK(near(d.raw(), e, 0), "assigned " << d.raw()); d = B((R)y); CHECK(near(d.raw(), e, 0), "move-assigned " << d.raw());
    CHECK(near((a + b).raw(), x + e, std::fabs(x) + std::fabs(e)), "+ gives " << (a + b).raw()); CHECK(near((a - b).raw(), x - e, std::fabs(x) + std::fabs(e)), "- gives " << (a - b).raw());
    { A t((R)x); t += b; CHECK(near(t.raw(), x + e, std::fabs(x) + std::fabs(e)), "+= gives " << t.raw()); } { A t((R)x); t -= b; CHECK(near(t.raw(), x - e, std::fabs(x) + std::fabs(e)), "-= gives " << t.raw()); }
    CHECK(near((a * b).raw(), x * e, 0), "* gives " << (a * b).raw()); if (y == 0) CHECK(drv::raises([&] { (void)(a / b).raw(); }), "division by zero is not reported"); else CHECK(near((a / b).raw(), x / e, 0), "/ gives " << (a / b).raw());
    if (std::fabs(x - e) > 1e-5L * std::fabs(e)) CHECK(!(a == b) && a != b && (a < b) == (x < e) && (a > b) == (x > e) && (a <= b) == (x < e) && (a >= b) == (x > e), "comparison");
    A s((R)x); CHECK(a == s && !(a != s) && a <= s && a >= s && !(a < s) && !(a > s), "comparison with itself");
    R m = (R)val(); CHECK(near((a * m).raw(), x * m, 0), "scalar *"); { A t((R)x); t *= m; CHECK(near(t.raw(), x * m, 0), "scalar *="); }
    if (m == 0) { CHECK(drv::raises([&] { (void)(a / m).raw(); }), "division by zero is not reported"); CHECK(drv::raises([&] { A t((R)x); t /= m; }), "division by zero is not reported"); } else { CHECK(near((a / m).raw(), x / m, 0), "scalar /"); A t((R)x); t /= m; CHECK(near(t.raw(), x / m, 0), "scalar /="); }
    int q = (int)drv::rnd(9) - 4; CHECK(near((a * q).raw(), x * q, 0), "integer *"); CHECK((-a).raw() == (R)-x && a.is_negative() == (x < 0), "sign");
}
using mls = spnu::CompoundUnit<litre_ml, time_s>; using lpm = spnu::CompoundUnit<litre, time_m>; using ks = spnu::CompoundUnit<k_time_ms, k_time_s>;
template<class A, class B> void comp(D k) {
    D n = val(), d = val(), n2 = val(), d2 = val(); if (d == 0 || d2 == 0) return; D x = n / d, y = n2 / d2 * k, sc = std::fabs(x) + std::fabs(y); drv::history = "compound " + str(n) + "/" + str(d) + ", " + str(n2) + "/" + str(d2) + " factor " + str(k); ++drv::cases;
    using NA = typename A::NumeratorType; using DA = typename A::DenominatorType; using NB = typename B::NumeratorType; using DB = typename B::DenominatorType; const A a(NA((R)n), DA((R)d)); B b(NB((R)n2), DB((R)d2));
    const D T = 1e-5L; CHECK(a.numerator().raw() == (R)n && a.denominator().raw() == (R)d && near(a.raw(), x, 0), "value"); A c(b); CHECK(near(c.raw(), y, 0, T), "converted to " << c.raw()); A e; e = b; CHECK(near(e.raw(), y, 0, T), "assigned " << e.raw());
    CHECK(near((a + b).raw(), x + y, sc, T), "+ gives " << (a + b).raw()); CHECK(near((a - b).raw(), x - y, sc, T), "- gives " << (a - b).raw()); { A t = a; t += b; CHECK(near(t.raw(), x + y, sc, T), "+= gives " << t.raw()); } { A t = a; t -= b; CHECK(near(t.raw(), x - y, sc, T), "-= gives " << t.raw()); }
    CHECK(near((-a).raw(), -x, 0), "negation"); R m = (R)val(); CHECK(near((a * m).raw(), x * m, 0, T), "scalar *"); { A t = a; t *= m; CHECK(near(t.raw(), x * m, 0, T), "scalar *="); }
    if (m == 0) { CHECK(drv::raises([&] { (void)(a / m); }), "division by zero is not reported"); CHECK(drv::raises([&] { A t = a; t /= m; }), "division by zero is not reported"); } else { CHECK(near((a / m).raw(), x / m, 0, T), "scalar /"); A t = a; t /= m; CHECK(near(t.raw(), x / m, 0, T), "scalar /="); }
    if (std::fabs(x - y) > 1e-4L * std::fabs(y)) CHECK(!(a == b) && a != b && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x < y) && (a >= b) == (x > y), "comparison of " << (double)x << " and " << (double)y);
    CHECK(a == a && !(a != a) && a <= a && a >= a && !(a < a) && !(a > a), "comparison with itself"); A z(NA((R)n), DA(0)); CHECK(drv::raises([&] { (void)z.raw(); }), "a zero denominator is not reported");
    { D in = (int)drv::rnd(2001) - 1000, id = (int)drv::rnd(1000) + 1; if (drv::coin()) id = -id; drv::note("simplify " + str(in) + "/" + str(id)); A t(NA((R)in), DA((R)id)); t.simplify(1); D g = std::__gcd((long)std::fabs(in), (long)std::fabs(id)); CHECK(near(t.numerator().raw(), in / g, 0) && near(t.denominator().raw(), id / g, 0), "simplified to " << t.numerator().raw() << "/" << t.denominator().raw()); A u(NA((R)in), DA((R)id)); u.simplify(1e2); CHECK(near(u.raw(), in / id, 0), "simplified value"); }
    { long in = (long)drv::rnd(2001) - 1000, id = (long)drv::rnd(1000) + 1; ks t{k_time_ms(in), k_time_s(id)}; t.simplify(); long g = std::__gcd(labs(in), id); CHECK(t.numerator().raw() == in / g && t.denominator().raw() == id / g, "integers simplified to " << t.numerator().raw() << "/" << t.denominator().raw()); }
}
R half_down(R v) { return std::ceil(v - (R)0.5); }
void convert() {
    D v = val(); drv::history = "time " + str(v); ++drv::cases; CHECK(to_kernel_time(time_ms((R)v)).raw() == (long)std::ceil(v), "kernel time is " << to_kernel_time(time_ms((R)v)).raw()); CHECK(to_kernel_time(time_s((R)v), std::floor).raw() == (long)std::floor(v), "floored kernel time"); CHECK(to_kernel_time(time_us((R)v), half_down).raw() == (long)half_down((R)v), "rounded by a given function");
    long k = (long)drv::rnd(2000001) - 1000000; CHECK(to_real_time(k_time_m(k)).raw() == (R)k, "real time");
    CHECK(std::fabs(to_kelvin(celsius((R)v)).raw() - (v + 273.15L)) <= 1e-3L + 1e-6L * std::fabs(v), "kelvin"); CHECK(std::fabs(to_celsius(kelvin((R)v)).raw() - (v - 273.15L)) <= 1e-3L + 1e-6L * std::fabs(v), "celsius"); CHECK(to_celsius(celsius((R)v)).raw() == (R)v && to_kelvin(kelvin((R)v)).raw() == (R)v, "same scale");
}
int main() {
    drv::arm();
    while (drv::time_left()) for (int i = 0; i < 300; ++i) {
        names(); convert();
        pair<time_ms, time_s>("ms,s", 1e3L); pair<time_s, time_ms>("s,ms", 1e-3L); pair<time_d, time_h>("d,h", 1 / 24.L); pair<time_h, time_d>("h,d", 24); pair<meter_m, meter_k>("mm,km", 1e6L); pair<meter_k, meter_m>("km,mm", 1e-6L); pair<volt, volt>("V,V", 1); pair<watt_G, watt_m>("GW,mW", 1e-12L); pair<litre_ml, cubic_metre>("ml,m3", 1e6L);
        comp<mls, mls>(1); comp<mls, lpm>(1000 / 60.L); comp<lpm, mls>(60 / 1000.L);
    }
    drv::done("random values through every unit name, operators of unit pairs, compound units, temperature and time conversions, compared with long double arithmetic");
}

// Instantiates the real units over floating point; nothing but instantiations here.
#include "spine/structure/units/primitives/compound_unit.hpp"
#include "spine/structure/units/si.hpp"
#include <algorithm>
namespace use {
using R = spnu::RealRawType;
// every unit name against the base unit of its quantity
#define X(u, base) R up_##u(R v) { return base(u(v)).raw(); } R down_##u(R v) { return u(base(v)).raw(); }
X(farad_p, farad) X(farad_n, farad) X(farad_u, farad) X(farad_m, farad) X(farad, farad) X(coulomb_n, coulomb) X(coulomb_u, coulomb) X(coulomb_m, coulomb) X(coulomb, coulomb) X(siemens_u, siemens) X(siemens_m, siemens) X(siemens, siemens)
X(amp_u, amp) X(amp_m, amp) X(amp, amp) X(joule_p, joule) X(joule_n, joule) X(joule_u, joule) X(joule_m, joule) X(joule, joule) X(joule_k, joule) X(joule_M, joule) X(joule_G, joule) X(joule_T, joule)
X(newton_k, newton) X(newton, newton) X(hertz_k, hertz) X(hertz_M, hertz) X(hertz_G, hertz) X(hertz, hertz) X(meter_n, meter) X(meter_u, meter) X(meter_m, meter) X(meter_c, meter) X(meter_d, meter) X(meter_k, meter) X(meter, meter)
X(gram_u, gram) X(gram_m, gram) X(gram_k, gram) X(gram, gram) X(volt_u, volt) X(volt_m, volt) X(volt, volt) X(watt_m, watt) X(watt_k, watt) X(watt_M, watt) X(watt_G, watt) X(watt, watt) X(pascal_k, pascal) X(pascal_M, pascal) X(pascal, pascal)
X(ohm_m, ohm) X(ohm_k, ohm) X(ohm_M, ohm) X(ohm, ohm) X(time_us, time_s) X(time_ms, time_s) X(time_s, time_s) X(time_m, time_s) X(time_h, time_s) X(time_d, time_s) X(time_W, time_s) X(time_M, time_s) X(time_Y, time_s) X(litre_ml, litre) X(litre, litre) X(cubic_metre, litre)
X(gray, gray) X(mole, mole) X(katal, katal) X(sievert, sievert) X(lux, lux) X(henry, henry) X(lumen, lumen) X(weber, weber) X(tesla, tesla) X(becquerel, becquerel) X(kelvin, kelvin) X(celsius, celsius)
template<class A, class B> void pair(A& a, A& d, const B& b, B& t, bool* f) {
    A c(b); d = c; d = b; d = std::move(t); d = a + b; d = a - b; a += b; a -= b; d = a * b; d = a / b;
    *f++ = a == b; *f++ = a != b; *f++ = a < b; *f++ = a > b; *f++ = a <= b; *f++ = a >= b;
}
template<class A, class S> void scalar(A& a, const S& s, A& d, typename A::ValueType* v, bool* f) {
    d = a * s; a *= s; d = a / s; a /= s; d = -a; *v = a.raw(); *f = a.is_negative(); A e(*v); A g; d = e; d = g;
}
void units(time_us& us, time_ms& ms, time_s& s, time_m& m, time_h& h, time_d& D, meter_n& n, meter_k& k, bool* f, R* v, const int& i) {
    pair(us, us, ms, ms, f); pair(ms, ms, us, us, f); pair(s, s, ms, ms, f); pair(ms, ms, s, s, f); pair(s, s, m, m, f); pair(h, h, s, s, f); pair(D, D, h, h, f); pair(ms, ms, D, D, f); pair(n, n, k, k, f); pair(k, k, n, n, f); pair(s, s, s, s, f);
    scalar(s, *v, s, v, f); scalar(ms, i, ms, v, f);
}
using mls = spnu::CompoundUnit<litre_ml, time_s>; using lpm = spnu::CompoundUnit<litre, time_m>;
R compound(mls& a, lpm& b, mls& c, litre_ml& n, time_s& t, const R& s, bool* f) {
    mls d(n, t), e(b); d = b; d = e; d += b; d -= b; d += c; d -= c; d = a + b; d = a - b; d = a + c; d = -d; d = a * s; d *= s; d = a / s; d /= s; d.simplify(s); b = d;
    *f++ = a == b; *f++ = a != b; *f++ = a < b; *f++ = a > b; *f++ = a <= b; *f++ = a >= b; *f++ = a == c; *f++ = a < c; *f++ = a > c; *f++ = a <= c; *f++ = a >= c; *f++ = a != c;
    return d.raw() + b.raw();
}
time_s to_real(k_time_s t) { return to_real_time(t); }
k_time_ms to_kernel(time_ms t) { return to_kernel_time(t); }
k_time_ms to_kernel_by(time_ms t, R (*f)(R)) { return to_kernel_time(t, f); }
celsius c(kelvin k) { return to_celsius(k); }
celsius cc(celsius k) { return to_celsius(k); }
kelvin k(celsius k) { return to_kelvin(k); }
kelvin kk(kelvin k) { return to_kelvin(k); }
}

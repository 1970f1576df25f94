#include "raise.hpp"
#include <algorithm>
#include <cmath>
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
using namespace spn::filter;
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.9g", x); return b; }
static bool near(double a, double b, double scale) { return std::fabs(a - b) <= 2e-5 * (1 + std::fabs(scale) + std::fabs(a) + std::fabs(b)); }
// a sample through one of the three entrances, by the concrete class or the interface
template<class V, class F> void put(F& f, V x) {
    drv::note(num(x)); Filter<V>& b = f; V r = 0; bool ret = true; switch (drv::rnd(5)) { case 0: r = f.value(x); break; case 1: r = b.value(x); break; case 2: r = f(x); break; case 3: b.new_sample(x); ret = false; break; default: f.new_sample(x); ret = false; }
    if (ret) CHECK(r == f.value(), "value(sample) returned " << r << " but the filtered value is " << f.value());
}
template<class V> V any() { return drv::coin() ? (V)((int)drv::rnd(41) - 20) : (V)(((int)drv::rnd(200001) - 100000) / 997.0); }
template<class V> void passthrough() {
    drv::history = "passthrough; "; Passthrough<V> f({}); CHECK(f.value() == 0, "starts at 0");
    for (int i = 0; i < 10; ++i) { V x = any<V>(); if (!drv::rnd(4)) { drv::note("reset to"); f.reset_to(x); } else put<V>(f, x); CHECK(f.value() == x, f.value()); }
}
template<class V> void invert() {
    V lo = any<V>(), hi = lo + drv::rnd(50) + (V)0.5; drv::history = "invert " + num(lo) + ".." + num(hi) + "; "; auto go = [&](Invert<V>& f, V lo, V hi) {
        for (int i = 0; i < 10; ++i) {
            if (!drv::rnd(5)) { V x = any<V>(); drv::note("reset to"); f.reset_to(x); CHECK(f.value() == x, f.value()); continue; }
            V x = lo + (hi - lo) * drv::rnd(101) / 100; if (drv::rnd(6) == 0) x = drv::coin() ? lo : hi; put<V>(f, x); CHECK(near(f.value(), (double)hi + lo - x, std::fabs(lo) + std::fabs(hi)), f.value() << " for " << x); } };
    Invert<V> f(typename Invert<V>::Config{.input_lower_limit = lo, .input_upper_limit = hi}); CHECK(f.value() == 0, "starts at 0"); go(f, lo, hi);
    drv::history = "normalized inverter " + num(lo) + ".." + num(hi) + "; "; auto p = Invert<V>::NormalizedInverter((float)lo, (float)hi); go(*p, (float)lo, (float)hi); drv::history = "normalized inverter; "; auto q = Invert<V>::NormalizedInverter(); go(*q, 0, 1);
    typename Invert<V>::Config c; drv::history = "inverter with default limits; "; V l = 0, h = 1; int k = drv::rnd(3); if (k == 1) c.input_upper_limit = h = 1 + drv::rnd(9); if (k == 2) c.input_lower_limit = l = -(V)drv::rnd(9); Invert<V> d(std::move(c)); go(d, l, h);
}
template<class V> void mapped() {
    V lo = any<V>(), hi = lo + drv::rnd(50) + (V)0.5, ol = any<V>(), oh = any<V>(); bool thr = drv::coin(); if (!drv::rnd(3)) (drv::coin() ? ol : oh) = drv::coin() ? lo : hi;
    auto go = [&](MappedRange<V>& f, V lo, V hi, V ol, V oh, bool thr) {
        for (int i = 0; i < 12; ++i) {
            if (!drv::rnd(6)) { V x = any<V>(); drv::note("reset to"); f.reset_to(x); CHECK(f.value() == x, f.value()); continue; }
            V x = lo + (hi - lo) * drv::rnd(101) / 100; int k = drv::rnd(6); if (k == 0) x = lo; if (k == 1) x = hi; if (k == 2) x = any<V>(); if (k == 3) x = std::nextafter(hi, (V)1e9); if (k == 4) x = std::nextafter(lo, (V)-1e9);
            V before = f.value(); bool out = x < lo || x > hi, r = drv::raises([&] { put<V>(f, x); }); CHECK(r == (out && thr), "raised: " << r << " for " << x); if (r) { CHECK(f.value() == before, "changed by a rejected sample"); continue; }
            double c = out ? (x < lo ? lo : hi) : x, want = ol + (c - lo) / ((double)hi - lo) * ((double)oh - ol); CHECK(near(f.value(), want, (std::fabs(ol) + std::fabs(oh)) * (1 + (std::fabs(lo) + std::fabs(hi)) / (hi - lo))), f.value() << " for " << x << " expected " << want); } };
    drv::history = "mapped range " + num(lo) + ".." + num(hi) + " to " + num(ol) + ".." + num(oh) + "; ";
    MappedRange<V> f(typename MappedRange<V>::Config{.input_lower_limit = lo, .input_upper_limit = hi, .output_lower_limit = ol, .output_upper_limit = oh, .throw_for_value_out_of_range = thr}); CHECK(f.value() == 0, "starts at 0"); go(f, lo, hi, ol, oh, thr);
    drv::history = "percentage " + num(lo) + ".." + num(hi) + "; "; go(*MappedRange<V>::Percentage((float)lo, (float)hi), (float)lo, (float)hi, 0, 100, false); drv::history = "permillage " + num(lo) + ".." + num(hi) + "; "; go(*MappedRange<V>::Permillage((float)lo, (float)hi), (float)lo, (float)hi, 0, 1000, false);
    if (drv::rnd(3)) return;
    drv::history = "percentage; "; go(*MappedRange<V>::Percentage(), 0, 1, 0, 100, false); drv::history = "permillage; "; go(*MappedRange<V>::Permillage(), 0, 1, 0, 1000, false);
    typename MappedRange<V>::Config c; lo = 0; hi = 1; ol = 0; oh = 100; int k = drv::rnd(5); if (k == 1) c.input_lower_limit = lo = -(V)drv::rnd(9); if (k == 2) c.input_upper_limit = hi = 1 + drv::rnd(9); if (k == 3) c.output_lower_limit = ol = any<V>(); if (k == 4) c.output_upper_limit = oh = any<V>();
    drv::history = "mapped range " + num(lo) + ".." + num(hi) + " to " + num(ol) + ".." + num(oh) + " (the rest by default); "; MappedRange<V> d(std::move(c)); go(d, lo, hi, ol, oh, false);
}
template<class V> void ewma() {
    V K = 1 + drv::rnd(30) + (V)(drv::coin() ? 0.5 : 0); auto go = [&](EWMA<V>& f, double K) {
        double v = 0, n = 0, m = 0; int N = 10 + drv::rnd(150);
        for (int i = 0; i < N; ++i) {
            V x = any<V>(); m = std::max(m, (double)std::fabs(x)); if (!drv::rnd(40)) { drv::note("reset to"); f.reset_to(x); v = x; n = 0; } else { put<V>(f, x); if (n == 0) v = x; else v += (x - v) / std::min(n + 1, K); ++n; }
            CHECK(near(f.value(), v, m), f.value() << " expected " << v << " after " << n << " samples, K " << K); } };
    drv::history = "ewma " + num(K) + "; "; EWMA<V> f(typename EWMA<V>::Config{.K = K}); CHECK(f.value() == 0, "starts at 0"); go(f, K); drv::history = "ewma short; "; go(*EWMA<V>::Short(), 10); drv::history = "ewma long; "; go(*EWMA<V>::Long(), 100);
}
template<class V> void bandpass() {
    using B = BandPass<V>; bool nice = drv::coin(), rel = drv::coin(), thr = !drv::rnd(3), broad = !drv::rnd(6); V ma = 1 + drv::rnd(9), de = nice ? (V)((int)drv::rnd(3) - 1) : (V)(((int)drv::rnd(300) - 100) / 100.0), of = drv::coin() ? 0 : (V)((int)drv::rnd(21) - 10); int lim = 1 + drv::rnd(5);
    std::unique_ptr<B> own; if (broad) { own = B::Broad(); ma = 1; de = (V)0.01; of = 0; rel = true; thr = true; lim = 10; nice = false; }
    else if (!drv::rnd(6)) {      // settings left alone
        typename B::Config c; int k = drv::rnd(5); nice = false; rel = true; if (k == 0) c.mantissa = ma; else ma = 1; if (k == 1) c.decades = de; else de = (V)0.01; if (k == 2) c.offset = of; else of = 0; if (k == 3) c.rejection_limit = lim; else lim = 10; if (k == 4) c.throw_on_rejection_limit = thr; else thr = true; own = std::make_unique<B>(std::move(c)); }
    else own = std::make_unique<B>(typename B::Config{.mode = rel ? B::Mode::RELATIVE : B::Mode::ABSOLUTE, .mantissa = ma, .decades = de, .offset = of, .rejection_limit = lim, .throw_on_rejection_limit = thr}); B& f = *own;
    drv::history = std::string("bandpass ") + (rel ? "relative" : "absolute") + " mantissa " + num(ma) + " decades " + num(de) + " offset " + num(of) + " limit " + std::to_string(lim) + (thr ? " throwing; " : "; ");
    double w = ma * std::pow(10.0, (double)de + 1); V v = 0; bool fresh = true; int rej = 0;
    for (int i = 0; i < 60; ++i) {
        V x; int k = drv::rnd(6); double c = rel ? (fresh ? 0 : (double)v) + of : of; x = k == 0 ? (V)(c + w) : k == 1 ? (V)(c - w) : k == 2 ? (V)(c + w * 1.01) : k == 3 ? (V)(c - w * 1.01) : k == 4 ? (V)(c + w * ((int)drv::rnd(201) - 100) / 100.) : (V)(c + w * ((int)drv::rnd(601) - 300) / 100.);
        if (!nice && k < 2) x = (V)(c + (k ? -.99 : .99) * w); if (nice) x = std::round(x);
        if (std::fabs(x) > 1e5) { f.reset_to(0); v = 0; fresh = false; drv::note("reset to 0"); continue; }
        if (!drv::rnd(20)) { drv::note("reset to " + num(x)); f.reset_to(x); v = x; fresh = false; CHECK(f.value() == x, f.value()); continue; }
        V v0 = fresh ? x : v; double mid = rel ? (double)v0 + of : of, d = std::fabs((double)x - mid); if (!nice && std::fabs(d - w) < 1e-4 * (w + std::fabs(mid))) continue;
        bool in = d <= w, full = rej >= lim, r = drv::raises([&] { put<V>(f, x); }); CHECK(r == (!in && full && thr), "raised: " << r << " after " << rej << " rejections"); fresh = false;
        if (r) break;
        if (in || full) { v = x; rej = 0; } else { v = v0; ++rej; }
        CHECK(f.value() == v, f.value() << " expected " << v << " after " << rej << " rejections");
    }
}
template<class V> void all() { passthrough<V>(); invert<V>(); mapped<V>(); ewma<V>(); bandpass<V>(); bandpass<V>(); drv::cases += 6; }
int main() {
    drv::arm();
    while (drv::time_left()) for (int rep = 0; rep < 200; ++rep) { all<float>(); all<double>(); }
    drv::done("random configurations and sample histories of every filter (float and double) compared with their formulas in double precision");
}

// Instantiates the real units; nothing but instantiations here.
#include "spine/structure/units/si.hpp"
#include <tuple>
#include <algorithm>
namespace use {
template<class A, class B> void pair(A& a, A& d, const B& b, B& t, bool* f) {
    A c(b); d = c; d = b; d = std::move(t); d = a + b; d = a - b; a += b; a -= b; 
    *f++ = a == b; *f++ = a != b; *f++ = a < b; *f++ = a > b; *f++ = a <= b; *f++ = a >= b;
}
template<class A, class S> void scalar(A& a, const S& s, A& d, typename A::ValueType* v, bool* f) {
    d = a * s; a *= s; d = a / s; a /= s; d = -a; *v = a.raw(); *f = a.is_negative(); A e(*v); A g; d = e; d = g;
}
template<class... A> struct Set { template<class B> static void with(B& b, B& d, bool* f) { (pair<B, A>(b, d, *(A*)nullptr, *(A*)nullptr, f), ...); } static void all(bool* f) { (with<A>(*(A*)nullptr, *(A*)nullptr, f), ...); } };
template<class A, class B> void product(A& a, const B& b, A& d) { d = a * b; d = a / b; }
void products(k_time_ms& ms, k_time_s& s, k_time_h& h) { product(ms, ms, ms); product(ms, s, ms); product(s, ms, s); product(h, s, h); product(ms, h, ms); }
void kernel(bool* f, k_time_us& a, k_time_us& b, long* v, const int& i) { Set<k_time_us, k_time_ms, k_time_s, k_time_m, k_time_h, k_time_d>::all(f); scalar<k_time_us, long>(a, *v, b, v, f); scalar<k_time_us, int>(a, i, b, v, f); }
}

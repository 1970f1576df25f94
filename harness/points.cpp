// The real points and tuple; nothing but instantiations here.
#include <cmath>
#include <math.h>
#include "spine/structure/point.hpp"
#include "spine/structure/tuple.hpp"
namespace use {
template<class P, class T> void all(const P& a, const P& b, P& r, T s, bool* f) {
    P z; r = z; r = a + b; r = a - b; r = a * b; r = a / b; r = a.dot(b); r.add(a); r.subtract(b); r.scalar_multiplication(s); f[0] = a == b; f[1] = a != b;
}
template<class P> void real(P& r, double* v) { *v = r.mag(); r.normalize(); }
using namespace spn::structure;
template void all(const XYPoint<long>&, const XYPoint<long>&, XYPoint<long>&, long, bool*);
template void all(const XYPoint<double>&, const XYPoint<double>&, XYPoint<double>&, double, bool*);
template void all(const XYZPoint<long>&, const XYZPoint<long>&, XYZPoint<long>&, long, bool*);
template void all(const XYZPoint<double>&, const XYZPoint<double>&, XYZPoint<double>&, double, bool*);
template void real(XYPoint<double>&, double*);
template void real(XYZPoint<double>&, double*);
XYPoint<double> make2(double x, double y) { return {x, y}; }
XYZPoint<double> make3(double x, double y, double z) { return {x, y, z}; }
XYPoint<long> make2(long x, long y) { return {x, y}; }
XYZPoint<long> make3(long x, long y, long z) { return {x, y, z}; }
XYPoint<long> mod(const XYPoint<long>& a, const XYPoint<long>& b) { return a % b; }
XYZPoint<long> mod(const XYZPoint<long>& a, const XYZPoint<long>& b) { return a % b; }
long tuple(const long& a, const double& b, double* d) { Tuple<long, double> t(a, b); *d = t.second(); return t.first(); }
}

// Instantiates the real filters; nothing but instantiations and uses of their members here.
#include "spine/core/debugging.hpp"
#include <memory>
#include <algorithm>
#include <cmath>
#include "spine/filter/implementations/bandpass.hpp"
#include "spine/filter/implementations/ewma.hpp"
#include "spine/filter/implementations/invert.hpp"
#include "spine/filter/implementations/mapped_range.hpp"
#include "spine/filter/implementations/passthrough.hpp"
namespace spn::filter {
template class BandPass<float>; template class EWMA<float>; template class Invert<float>; template class MappedRange<float>; template class Passthrough<float>;
template class BandPass<double>; template class EWMA<double>; template class Invert<double>; template class MappedRange<double>; template class Passthrough<double>;
}

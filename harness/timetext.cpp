// The real text representation of times; nothing but its sources and instantiations here.
#include "spine/core/utils/time_repr.cpp"
namespace u = spn::core::utils;
std::string us(const k_time_us& t) { return u::repr(t); }
std::string ms(const k_time_ms& t) { return u::repr(t); }
std::string s(const k_time_s& t) { return u::repr(t); }
std::string m(const k_time_m& t) { return u::repr(t); }
std::string h(const k_time_h& t) { return u::repr(t); }
std::string d(const k_time_d& t) { return u::repr(t); }

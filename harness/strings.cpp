// The real string utilities and the static string; nothing but their sources here.
#include "spine/core/utils/string.cpp"
#include "spine/structure/static_string.cpp"
size_t use(const spn::structure::StaticString& s) { return s.size() + s.capacity() + s.view().size() + (size_t)s.c_str(); }
// calls that leave out the last argument
namespace defaults {
using spn::structure::StaticString;
std::string_view lstrip(const std::string_view& v) { return spn::core::utils::lstrip(v); }
std::string_view rstrip(const std::string_view& v) { return spn::core::utils::rstrip(v); }
StaticString& lstrip(StaticString& s) { return s.lstrip(); }
StaticString& rstrip(StaticString& s) { return s.rstrip(); }
char* data(StaticString& s) { return s.data(); }
}
// concatenation of literals, for a few numbers and sizes of them
#include "spine/core/utils/concatenate.hpp"
namespace join {
using namespace spn::core::utils; template<size_t N> using L = const char (&)[N]; template<size_t N> using R = std::array<char, N>;
void none(R<1>* r) { *r = concat(); }
// (results of more than 16 bytes: they are made in memory)
void one(R<20>* r, L<20> a) { *r = concat(a); }
void two(R<22>* r, L<20> a, L<3> b) { *r = concat(a, b); }
void empty_first(R<19>* r, L<1> a, L<19> b) { *r = concat(a, b); }
void empty_last(R<18>* r, L<18> a, L<1> b) { *r = concat(a, b); }
void three(R<24>* r, L<3> a, L<9> b, L<14> c) { *r = concat(a, b, c); }
void four(R<32>* r, L<9> a, L<2> b, L<7> c, L<17> d) { *r = concat(a, b, c, d); }
void made(R<20>* r, const R<14>& a, L<7> b) { *r = concat(a, b); }
}

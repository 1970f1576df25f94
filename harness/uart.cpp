// The real mock UART and the basic stream; nothing but their sources and instantiations here.
#include "spine/platform/implementations/mock.cpp"
namespace use {
using namespace spn::io; using spn::platform::MockUART;
bool uart(MockUART* p, Stream* s, uint8_t* b, size_t n) { MockUART u(MockUART::Config{s}); (void)u.status(); return p->read(*b) + u.write(b, n); }
size_t reads(Stream& s, char* b, size_t n) { return s.read(b, n); }
size_t writes(Stream& s, const char* b, size_t n) { return s.write(b, n); }
size_t writes(Stream& s, const std::string_view& v) { return s.write(v); }
bool writes(Stream& s, char c) { return s.write(c); }
}

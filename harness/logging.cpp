// The real logging and exception handling; nothing but their sources here.
#include "spine/core/logging.cpp"
#include "spine/core/exception.cpp"
#include "spine/platform/implementations/mock.cpp"
const char* use(const spn::core::Exception& e) { spn::throw_exception(e); return e.what(); }
spn::runtime_exception use_r(const char* m) { return spn::runtime_exception(m); }
spn::logic_exception use_l(const char* m) { return spn::logic_exception(m); }
spn::assertion_exception use_a(const char* m) { return spn::assertion_exception(m); }
void use_h() { (void)new spn::core::ExceptionHandler(); }

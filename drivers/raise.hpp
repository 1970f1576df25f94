// Turns the exception mechanism of the code under test (handler, then halt) into something a driver can observe.
#pragma once
#include "driver.hpp"
#include "spine/core/exception.hpp"
#include <memory>
namespace drv {
struct Raised { std::string type, what; };
struct Handler : spn::core::ExceptionHandler { void handle_exception(const spn::core::Exception& e) override { throw Raised{e.error_type(), e.what() ? e.what() : ""}; } };
inline void arm() { spn::core::set_machine_exception_handler(std::make_unique<Handler>()); }
template<class F> bool raises(F&& f) { try { f(); } catch (const Raised&) { return true; } return false; }
}

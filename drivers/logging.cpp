#include "driver.hpp"
#include "spine/core/exception.hpp"
#include "spine/core/logging.hpp"
#include "spine/platform/hal.hpp"
#include <iostream>
#include <memory>
#include <sstream>
using namespace spn::logging;
static const char* NAMES[] = {"OFF", "ERR", "WARN", "INFO", "DBG"};
struct Capture { std::stringstream s; std::streambuf* old; Capture() : old(std::cout.rdbuf(s.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
static std::string stamp() { char b[32]; snprintf(b, 32, "%08u", (unsigned)HAL::millis().raw()); return b; }
static std::string show(const std::string& s) { return "\"" + s + "\""; }
static void expect(const std::string& out, const std::string& want) { CHECK(out == want, "printed " << show(out) << " (" << out.size() << " characters) expected " << show(want) << " (" << want.size() << ")"); }
static void message(int level, size_t len) {
    spn::platform::MockStateInstance().millis = k_time_ms(drv::rng()() >> (drv::coin() ? 32 : 32 + drv::rnd(32)));
    std::string text; for (size_t i = 0; i < len; ++i) text += char('a' + (i * 7 + len) % 26);
    drv::history.clear(); drv::note(std::string("print at level ") + NAMES[level] + " a message of " + std::to_string(len) + " characters");
    std::string want = "[" + stamp() + "] [" + NAMES[level] + "] " + text, out;
    { Capture c; if (drv::coin()) detail::print((LogLevel)level, "file.cpp", 42, "function", "%s", text.c_str()); else detail::print((LogLevel)level, "file.cpp", 42, "function", text.c_str()); out = c.s.str(); }
    if (level == 4) want += " (file.cpp:42 function)";
    expect(out, want.substr(0, SPINE_LOGGING_MAX_MSG_SIZE - 1) + "\n"); ++drv::cases;
}
static void gate(int set, int at) {
    drv::history.clear(); drv::note(std::string("level set to ") + NAMES[set] + ", message at " + NAMES[at]);
    set_log_level((LogLevel)set); CHECK((int)log_level() == set, "log_level gives " << (int)log_level()); CHECK(is_loggable((LogLevel)at) == (at <= set), "is_loggable gives " << is_loggable((LogLevel)at));
    std::string out; { Capture c; switch (at) { case 1: SPN_ERR("n %d", 7); break; case 2: SPN_WARN("n %d", 7); break; case 3: SPN_LOG("n %d", 7); break; default: return; } out = c.s.str(); }
    expect(out, at <= set ? "[" + stamp() + "] [" + NAMES[at] + "] n 7\n" : ""); ++drv::cases;
}
static int deleted = 0, handled = 0; static const spn::core::Exception* last = nullptr; static void* last_handler = nullptr; static bool printed_before = false; static Capture* cap = nullptr;
struct H : spn::core::ExceptionHandler { ~H() override { ++deleted; } void handle_exception(const spn::core::Exception& e) override { ++handled; last = &e; last_handler = this; if (cap) printed_before = !cap->s.str().empty(); } };
static void raise(const spn::core::Exception& e, const std::string& type, H* h, int level) {
    handled = 0; last = nullptr; drv::note("throw " + type); std::string out; set_log_level((LogLevel)level);
    { Capture c; cap = &c; spn::throw_exception(e); cap = nullptr; out = c.s.str(); }
    CHECK(handled == (h ? 1 : 0), "the handler was called " << handled << " times"); if (h) { CHECK(last == &e, "the handler got another exception"); CHECK(last_handler == h, "the wrong handler was called"); CHECK(!printed_before, "the exception was logged before it was handled"); }
    CHECK((out.find(type) != std::string::npos && out.find(e.what()) != std::string::npos) == (level >= 2), "the log of the exception is " << show(out)); ++drv::cases;
}
static void handlers() {
    drv::history.clear(); deleted = 0; int made = 0; H* cur = nullptr;
    CHECK(spn::core::machine_exception_handler() == nullptr, "a handler is set at first");
    for (int i = 0; i < 12; ++i) {
        H* h = drv::rnd(4) ? new H : nullptr; if (h) ++made;
        drv::note(h ? "set a handler" : "set no handler");
        auto old = spn::core::set_machine_exception_handler(std::unique_ptr<spn::core::ExceptionHandler>(h));
        CHECK(old.get() == cur, "the previous handler is not returned"); CHECK(spn::core::machine_exception_handler() == h, "the handler is not in charge"); const int d = deleted; CHECK(d == made - (h ? 1 : 0) - (old ? 1 : 0), d << " handlers are deleted"); old.reset(); cur = h;
        raise(spn::runtime_exception("what happened"), "Runtime exception", cur, drv::rnd(5)); raise(spn::logic_exception("what went wrong"), "Logic exception", cur, drv::rnd(5)); raise(spn::assertion_exception("x > 1"), "Assertion exception", cur, drv::rnd(5)); raise(spn::core::Exception("plain"), "Exception", cur, drv::rnd(5));
        CHECK(spn::core::machine_exception_handler() == h, "throwing replaced the handler");
    }
    spn::core::set_machine_exception_handler(nullptr).reset(); CHECK(deleted == made, "handlers leaked");
}
int main() {
    for (int s = 0; s < 5; ++s) for (int a = 1; a < 5; ++a) gate(s, a);
    for (int i = 0; i < 3; ++i) for (int l = 0; l < 5; ++l) for (size_t n = 1; n < 300; ++n) { message(l, n); if (n % 50 == 0) HAL::delay(k_time_ms(1 + drv::rnd(100000))); }
    handlers();
    while (drv::time_left()) { message(drv::rnd(5), 1 + drv::rnd(drv::rnd(4) ? 300 : 5000)); if (drv::rnd(1000) == 0) { handlers(); HAL::delay(k_time_ms(drv::rnd(1000000))); } }
    drv::done("messages of every length and level compared with the text expected, level gates, handlers set and exceptions raised");
}

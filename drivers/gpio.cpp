#include "driver.hpp"
#include "spine/platform/hal.hpp"
#include "spine/platform/gpio.hpp"
#include <cmath>
using spn::core::LogicalState;
struct Pin : spn::platform::DigitalOutput<Pin> { std::string log; void initialize_impl() { log += 'i'; } void set_state_impl(LogicalState s) { log += s == LogicalState::ON ? '1' : s == LogicalState::OFF ? '0' : '?'; } };
struct Dac : spn::platform::AnalogueOutput<Dac> { std::vector<std::pair<float, k_time_ms>> log; void set_value(float v) { log.push_back({v, HAL::millis()}); CHECK(log.size() < 40000, "the fading does not end; value " << v); } };
static void digital() {
    drv::history.clear(); Pin p, q; LogicalState want = LogicalState::OFF; CHECK(p.state() == want, "a new output is not off");
    for (int i = 0, n = 1 + drv::rnd(12); i < n; ++i) {
        p.log.clear(); std::string w; bool on = drv::coin();
        switch (drv::rnd(4)) {
        case 0: drv::note(on ? "initialize(true)" : "initialize(false)"); if (on || drv::coin()) p.initialize(on); else p.initialize(); want = on ? LogicalState::ON : LogicalState::OFF; w = on ? "i1" : "i0"; break;
        case 1: drv::note(on ? "set_state(true)" : "set_state(false)"); p.set_state(on); want = on ? LogicalState::ON : LogicalState::OFF; w = on ? "1" : "0"; break;
        case 2: drv::note(on ? "set_state(ON)" : "set_state(OFF)"); want = on ? LogicalState::ON : LogicalState::OFF; p.set_state(want); w = on ? "1" : "0"; break;
        default: drv::note("flip"); p.flip(); want = want == LogicalState::ON ? LogicalState::OFF : LogicalState::ON; w = want == LogicalState::ON ? "1" : "0"; }
        CHECK(p.state() == want, "state() gives " << (int)p.state() << " expected " << (int)want); CHECK(p.log == w, "the pin was driven " << p.log << " expected " << w); CHECK(q.log.empty() && q.state() == LogicalState::OFF, "another output was driven"); ++drv::cases; }
}
static float level() { switch (drv::rnd(5)) { case 0: return 0; case 1: return 1; case 2: return drv::rnd(11) / 10.0f; case 3: return drv::rnd(101) / 100.0f; default: return drv::rnd(1000001) / 1e6f; } }
static float stepsize() { switch (drv::rnd(7)) { case 0: return 1.0f / (1 << drv::rnd(8)); case 1: return drv::coin() ? 0.1f : 0; case 2: return -0.1f; case 3: return 1; case 4: return 0.5f + drv::rnd(1000) / 500.0f; case 5: return (1 + drv::rnd(50)) / 100.0f; default: return (1 + drv::rnd(1000)) / 1000.0f; } }
static void analogue() {
    drv::history.clear(); Dac d, other; spn::platform::AnalogueOutput<Dac>& a = d; float cur = 0; CHECK(a.value() == 0, "a new output has a value");
    for (int i = 0, n = 1 + drv::rnd(5); i < n; ++i) {
        d.log.clear(); float v = level(); char b[128];
        if (drv::rnd(3) == 0) { snprintf(b, 128, "set_value(%.9g)", v); drv::note(b); a.set_value(v); CHECK(d.log.size() == 1 && d.log[0].first == v, "the converter did not get the value once"); }
        else {
            float inc = stepsize(); k_time_ms iv(1 + drv::rnd(300)); bool dflt = drv::rnd(6) == 0; if (dflt) { inc = 0.1f; iv = k_time_ms(250); }
            snprintf(b, 128, "fade_to(%.9g, %.9g, %ld ms) from %.9g", v, inc, (long)iv.raw(), cur); drv::note(b);
            if (dflt) a.fade_to(v); else a.fade_to(v, inc, iv);
            CHECK(!d.log.empty(), "the converter was not driven"); CHECK(d.log.back().first == v, "the fading ended at " << d.log.back().first << " expected " << v);
            if (inc <= 0) CHECK(d.log.size() == 1, "without an increment the value is set at once, got " << d.log.size() << " steps");
            float last = cur, lo = std::min(cur, v), hi = std::max(cur, v);
            for (size_t k = 0; k < d.log.size(); ++k) {
                float x = d.log[k].first; CHECK(x >= lo && x <= hi, "step " << k << " drives " << x << ", outside " << lo << ".." << hi);
                CHECK(cur <= v ? x >= last : x <= last, "step " << k << " goes back from " << last << " to " << x);
                int ex; bool exact = std::frexp(inc, &ex) == 0.5f; // no rounding in the steps
                if (inc > 0) CHECK(std::fabs(x - last) <= (exact ? inc + 1e-6f : 1.5f * inc + 1e-4f), "step " << k << " goes from " << last << " to " << x << ", more than the increment " << inc);
                if (k && x != last && d.log[k - 1].first != v) CHECK(d.log[k].second.raw() - d.log[k - 1].second.raw() == iv.raw(), "step " << k << " comes " << d.log[k].second.raw() - d.log[k - 1].second.raw() << " ms after the one before, interval " << iv.raw());
                last = x; }
        }
        cur = v; CHECK(a.value() == v, "value() gives " << a.value() << " expected " << v); CHECK(other.log.empty(), "another output was driven"); ++drv::cases; }
}
int main() {
    while (drv::time_left()) { digital(); for (int i = 0; i < 4; ++i) analogue(); }
    drv::done("digital outputs initialised, set and flipped; analogue outputs set and faded between all kinds of values with increments from 0.001 to 2.5, zero and negative"); }

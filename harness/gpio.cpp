// The real outputs; a pin and a converter of which only the interface is known.
#include "spine/platform/gpio.cpp"
#include "spine/platform/implementations/mock.cpp"
namespace h {
struct Pin : spn::platform::DigitalOutput<Pin> { void initialize_impl(); void set_state_impl(spn::core::LogicalState); };
struct Dac : spn::platform::AnalogueOutput<Dac> { void set_value(float); };
int use(Pin& p) { p.initialize(); p.set_state(true); p.set_state(spn::core::ON); p.flip(); return p.state(); }
float use(Dac& d) { spn::platform::AnalogueOutput<Dac>& a = d; a.set_value(1); a.fade_to(1); return a.value(); }
}
// calls that leave out the last argument
namespace defaults {
void initialize(h::Pin& p) { p.initialize(); }
void fade(spn::platform::AnalogueOutput<h::Dac>& a, float s) { a.fade_to(s); }
void fade(spn::platform::AnalogueOutput<h::Dac>& a, float s, float i) { a.fade_to(s, i); }
}

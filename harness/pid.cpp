// Extracts the PID controller; nothing but the real sources and uses of inline members here.
#include "spine/platform/implementations/mock.cpp"
#include "spine/structure/time/timers.cpp"
#include "spine/controller/implementations/pid/pid_controller.cpp"
#include "spine/controller/implementations/pid/pid_tuner.cpp"
#include "spine/controller/pid.cpp"
using namespace spn::controller;
void use(PID& p, const PID& q, PIDController& c, const PIDAutotuner& t, PIDAutotuner& u, float& f, const PID::Config& g, PID::Tunings& n, bool& b, int& i) {
    p.set_target_setpoint(f); p.set_tunings(n); n = q.tunings(); f = q.response(); f = q.error(); f = q.setpoint(); PID z(g); b = n == n;
    f = c.Kp(); f = c.Ki(); f = c.Kd(); (void)c.direction(); f = t.get_Kp(); f = t.get_Ki(); f = t.get_Kd(); b = t.is_finished(); i = t.get_cycle();
    u.set_target_input_value(f); u.set_loop_interval(k_time_ms(1)); u.set_hysteresis(f); u.setOutputRange(f, f); u.set_aggressiveness(PIDAutotuner::Aggressiveness::BasicPID); u.set_tuning_cycles(i); PIDAutotuner w;
}
// calls that leave out the last argument
namespace defaults { void set_tunings(PID& p, const PID::Tunings& t) { p.set_tunings(t); } }

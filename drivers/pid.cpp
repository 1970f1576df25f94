#include "raise.hpp"
#include <algorithm>
#include "spine/controller/pid.hpp"
using namespace spn::controller; using Dir = PID::Direction; using Prop = PID::Proportionality;
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.7g", x); return b; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-3 * (1 + std::fabs(a) + std::fabs(b)); }
struct Ref {
    double Kp, Ki, Kd, T = 100, lo = 0, hi = 255, cum = 0, lr = 0, out = 0, sp = 0, in = 0; long last; bool rev, onm;
    double cl(double x) { return x > hi ? hi : x < lo ? lo : x; }
    void limits(double l, double h) { if (l >= h) return; lo = l; hi = h; out = cl(out); cum = cl(cum); }
    void init() { cum = cl(out); lr = in; }
    bool update(long now) {
        if (now - last < T) return false;
        double s = rev ? -1 : 1, e = sp - in, d = in - lr, t = T / 1000; cum = cl(cum + s * Ki * t * e - (onm ? s * Kp * d : 0)); out = cl((onm ? 0 : s * Kp * e) + cum - s * Kd / t * d); lr = in; last = now; return true;
    }
};
static float gain() { return drv::rnd(4) ? drv::rnd(100) / 10.f : 0; }
static void pid() {
    ++drv::cases; spn::platform::MockStateInstance() = {}; HAL::delay_ms(k_time_ms(drv::rnd(100000)));
    PID::Config c; c.tunings = {.Kp = gain(), .Ki = gain(), .Kd = gain() / 10}; c.output_lower_limit = (int)drv::rnd(50) - 30 + 0.25f * drv::rnd(4); c.output_upper_limit = c.output_lower_limit + 1 + drv::rnd(200) + 0.25f * drv::rnd(4); if (!drv::rnd(20)) std::swap(c.output_lower_limit, c.output_upper_limit);
    long si = drv::rnd(3) ? 10 * (1 + drv::rnd(50)) : 1 + drv::rnd(3000); c.sample_interval = k_time_ms(si); c.direction = drv::coin() ? Dir::FORWARD : Dir::REVERSE; c.proportionality = drv::coin() ? Prop::ON_ERROR : Prop::ON_MEASUREMENT;
    drv::history = "Kp " + num(c.tunings.Kp) + " Ki " + num(c.tunings.Ki) + " Kd " + num(c.tunings.Kd) + " limits " + num(c.output_lower_limit) + ".." + num(c.output_upper_limit) + " interval " + std::to_string(si) + (c.direction == Dir::REVERSE ? " reverse" : " forward") + (c.proportionality == Prop::ON_ERROR ? " on error; " : " on measurement; ");
    bool copy = drv::coin(); PID::Config c2 = c; alignas(PID) unsigned char mem[sizeof(PID)]; PID& p = *(copy ? new (mem) PID(c) : new (mem) PID(std::move(c2))); long now = HAL::millis().raw();
    Ref r{c.tunings.Kp, c.tunings.Ki, c.tunings.Kd}; r.last = now - 100; r.rev = c.direction == Dir::REVERSE; r.onm = c.proportionality == Prop::ON_MEASUREMENT;
    CHECK(p.tunings() == c.tunings, "tunings read back as " << p.tunings().Kp << " " << p.tunings().Ki << " " << p.tunings().Kd);
    if (drv::rnd(8)) { p.initialize(); r.limits(c.output_lower_limit, c.output_upper_limit); r.T = si; r.init(); drv::note("initialize"); }
    for (int k = 0; k < 50; ++k) {
        int op = drv::rnd(14);
        if (op == 0) { float x = (int)drv::rnd(60) - 10; drv::note("setpoint " + num(x)); p.set_target_setpoint(x); r.sp = x; }
        else if (op == 1) { PID::Tunings t{.Kp = gain(), .Ki = gain(), .Kd = gain() / 10}; bool e = drv::coin(); drv::note("tunings " + num(t.Kp) + " " + num(t.Ki) + " " + num(t.Kd) + (e ? " on error" : " on measurement")); if (e && drv::coin()) p.set_tunings(t); else p.set_tunings(t, e ? Prop::ON_ERROR : Prop::ON_MEASUREMENT); r.Kp = t.Kp; r.Ki = t.Ki; r.Kd = t.Kd; r.onm = !e; CHECK(p.tunings() == t, "tunings read back as " << p.tunings().Kp << " " << p.tunings().Ki << " " << p.tunings().Kd); }
        else {
            long d = drv::coin() ? (long)r.T + (int)drv::rnd(3) - 1 : drv::rnd((long)r.T * 2 + 1); if (d < 0) d = 0; HAL::delay_ms(k_time_ms(d)); float x = (int)drv::rnd(400) / 8.f - 10; drv::note("+" + std::to_string(d) + "ms reading " + num(x)); r.in = x;
            if (drv::coin()) p.new_reading(x); else p.new_reading(x, HAL::millis()); bool due = r.update(HAL::millis().raw());
            CHECK(near(p.response(), r.out), "response " << p.response() << " expected " << r.out << (due ? "" : " (not due)")); if (due) CHECK(p.response() >= (float)r.lo && p.response() <= (float)r.hi, "response " << p.response() << " outside the limits");
        }
        CHECK(p.setpoint() == (float)r.sp && near(p.error(), std::fabs(r.sp - r.in)), "setpoint or error");
    }
}
static void backend() {
    ++drv::cases; spn::platform::MockStateInstance() = {}; float in = 0, out = 0, sp = 0; float a = gain(), b = gain(), c = gain() / 10; bool rev = drv::coin(), onm = drv::coin(); drv::history = "backend Kp " + num(a) + " Ki " + num(b) + " Kd " + num(c) + (rev ? " reverse" : " forward") + (onm ? " on measurement; " : " on error; ");
    PIDController p(&in, &out, &sp, a, b, c, onm ? Prop::ON_MEASUREMENT : Prop::ON_ERROR, rev ? Dir::REVERSE : Dir::FORWARD); Ref r{a, b, c}; r.last = -100; r.rev = rev; r.onm = onm; long now = 0;
    for (int k = 0; k < 50; ++k) {
        int op = drv::rnd(14);
        if (op == 0) { bool d = drv::coin(); drv::note(d ? "reverse" : "forward"); p.set_controller_direction(d ? Dir::REVERSE : Dir::FORWARD); r.rev = d; }
        else if (op == 1) { long t = (long)drv::rnd(2000) - (drv::rnd(10) ? 0 : 100); if (t > 0 && t < 10) t = 10; drv::note("sampling time " + std::to_string(t)); p.set_sampling_time(k_time_ms(t)); if (t > 0) r.T = t; }
        else if (op == 2) { float l = (int)drv::rnd(60) - 40 + 0.25f * drv::rnd(4), h = l + drv::rnd(100) + 0.25f * drv::rnd(4); if (!drv::rnd(6)) h = l - drv::rnd(5); drv::note("limits " + num(l) + ".." + num(h)); p.set_output_limits(l, h); r.limits(l, h); CHECK(near(out, r.out), "output " << out << " expected " << r.out); }
        else if (op == 3) { drv::note("initialize"); p.initialize(); r.init(); }
        else if (op == 4) { a = gain(); b = gain(); c = gain() / 10; onm = drv::coin(); drv::note("tunings " + num(a) + " " + num(b) + " " + num(c)); p.set_tunings(a, b, c, onm ? Prop::ON_MEASUREMENT : Prop::ON_ERROR); r.Kp = a; r.Ki = b; r.Kd = c; r.onm = onm; }
        else { if (drv::coin()) sp = (int)drv::rnd(60) - 10; in = (int)drv::rnd(400) / 8.f - 10; if (!drv::rnd(8)) out = (int)drv::rnd(600) - 300; r.sp = sp; r.in = in; r.out = out; now += drv::coin() ? (long)r.T - drv::rnd(2) : drv::rnd(2 * r.T); drv::note("at " + std::to_string(now) + " reading " + num(in)); bool g = p.update(k_time_ms(now)), w = r.update(now); CHECK(g == w, "update returned " << g); CHECK(near(out, r.out), "output " << out << " expected " << r.out); }
    }
}
int main() {
    drv::arm(); { PID::Config d; drv::history = "default configuration"; CHECK(d.tunings.Kp == 20.f && d.tunings.Ki == 0.3f && d.tunings.Kd == 0.1f && d.output_lower_limit == 0 && d.output_upper_limit == 255 && d.sample_interval.raw() == 100 && d.proportionality == Prop::ON_ERROR && d.direction == Dir::FORWARD, "other defaults than declared"); }
    while (drv::time_left()) for (int rep = 0; rep < 200; ++rep) { pid(); backend(); }
    drv::done("random configurations and histories of readings, times, setpoints, tunings, limits, directions and sampling times compared with the control law in double precision");
}

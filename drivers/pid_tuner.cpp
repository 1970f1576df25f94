#include "raise.hpp"
#include <algorithm>
#include "spine/controller/pid.hpp"
using namespace spn::controller; using Agg = PIDAutotuner::Aggressiveness;
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.7g", x); return b; }
static bool near(double a, double b) { return (std::isinf(a) && std::isinf(b)) || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 2e-3 * (1e-6 + std::fabs(a) + std::fabs(b)); }
struct Ref {      // the relay experiment, restated
    double target, hyst, lo, hi; long interval; int mode, cycles; int cycle = 0; bool on = true, started = false; double out, mx = -1e12, mn = 1e12, s[3] = {0, 0, 0}, k[3] = {0, 0, 0}; long t1, t2, th = 0, tl = 0; int n = 0;
    double step(double x, long ms) {
        mx = std::max(mx, x); mn = std::min(mn, x);
        if (on && x > target + hyst) { on = false; t1 = ms; th = t1 - t2; mx = target; }
        else if (!on && x < target - hyst) {
            on = true; t2 = ms; tl = t2 - t1; double ku = 4 * ((hi - lo) / 2) / (M_PI * (mx - mn) / 2), tu = tl + th, kc = mode == 0 ? .6 : mode == 1 ? .33 : .2, td = mode == 0 ? .125 : .33; k[0] = kc * ku; k[1] = k[0] / (.5 * tu) * interval; k[2] = td * k[0] * tu / interval;
            if (cycle > 1) { for (int i = 0; i < 3; ++i) s[i] += k[i]; ++n; } mn = target; ++cycle;
        }
        if (cycle >= cycles) { on = false; if (n) for (int i = 0; i < 3; ++i) k[i] = s[i] / n; return lo; }
        return on ? hi : lo;
    }
};
static Ref make() { Ref r; r.target = (int)drv::rnd(80); r.hyst = drv::coin() ? 0 : drv::rnd(30) / 10.0; r.lo = (int)drv::rnd(20) - 10 + 0.25 * drv::rnd(4); r.hi = r.lo + 1 + drv::rnd(200) + 0.25 * drv::rnd(4); r.target += 0.25 * drv::rnd(4); r.interval = 1 + drv::rnd(500); r.mode = drv::rnd(3); r.cycles = 1 + drv::rnd(8);
    drv::history = "target " + num(r.target) + " hysteresis " + num(r.hyst) + " output " + num(r.lo) + ".." + num(r.hi) + " interval " + std::to_string(r.interval) + " mode " + std::to_string(r.mode) + " cycles " + std::to_string(r.cycles) + "; "; return r; }
static void tuner() {
    ++drv::cases; Ref r = make(); PIDAutotuner t; bool plain = !drv::rnd(6);      // settings left alone have the values the tuner starts with
    if (plain && drv::coin()) r.target = 0; else t.set_target_input_value(r.target);
    if (plain && drv::coin()) r.hyst = 0; else t.set_hysteresis(drv::coin() ? r.hyst : -r.hyst);
    if (plain && drv::coin()) r.cycles = 10; else t.set_tuning_cycles(r.cycles);
    if (plain && drv::coin()) r.lo = r.hi = 0; else t.setOutputRange(r.lo, r.hi);
    r.hyst = (float)r.hyst; t.set_loop_interval(k_time_ms(r.interval)); if (r.mode != 2 || drv::coin()) t.set_aggressiveness((Agg)r.mode);
    if (plain) drv::note("target " + num(r.target) + " hysteresis " + num(r.hyst) + " cycles " + std::to_string(r.cycles) + " output " + num(r.lo) + ".." + num(r.hi) + " instead");
    for (int round = 0; round < 2; ++round) {
        long now = drv::rnd(10000); Ref q = r; q.t1 = q.t2 = now; for (int i = 0; i < 3; ++i) q.k[i] = round ? r.k[i] : 0; t.start_tuning_loop(k_time_ms(now)); drv::note("start at " + std::to_string(now)); CHECK(!t.is_finished() && t.get_cycle() == 0, "finished at the start"); float x = r.target - 5; int left = 400;
        while (q.cycle < q.cycles && left--) {
            now += 1 + drv::rnd(300); x = drv::rnd(3) ? (float)(r.target + ((int)drv::rnd(41) - 20) / 2.0) : drv::coin() ? (float)(r.target + r.hyst) : (float)(r.target - r.hyst); if (!drv::rnd(3)) x = q.on ? r.target + r.hyst + 1 + drv::rnd(5) : r.target - r.hyst - 1 - drv::rnd(5); drv::note(num(x) + "@" + std::to_string(now));
            if (std::fabs(std::fabs(x - r.target) - r.hyst) < 1e-4 && r.hyst != 0 && r.hyst != std::floor(r.hyst)) continue;      // too close to the threshold to call in double precision
            double w = q.step(x, now); float g = t.do_autotune(x, k_time_ms(now)); CHECK(g == (float)w, "output " << g << " expected " << w); CHECK(t.get_cycle() == q.cycle && t.is_finished() == (q.cycle >= q.cycles), "cycle " << t.get_cycle() << " expected " << q.cycle);
            CHECK(near(t.get_Kp(), q.k[0]) && near(t.get_Ki(), q.k[1]) && near(t.get_Kd(), q.k[2]), "gains " << t.get_Kp() << " " << t.get_Ki() << " " << t.get_Kd() << " expected " << q.k[0] << " " << q.k[1] << " " << q.k[2] << " in cycle " << q.cycle);
        }
        for (int i = 0; i < 3; ++i) r.k[i] = q.k[i];
    }
}
// the whole autotuning run against a first-order process: every call-back is recorded, and the record is checked against the description
static void autotune() {
    ++drv::cases; Ref r = make(); r.cycles = 1 + drv::rnd(6); r.target = 20 + drv::rnd(30); r.hyst = 0.5; r.lo = (int)drv::rnd(10) - 5 + 0.5 * drv::rnd(2); r.hi = 90 + drv::rnd(20) + 0.25 * drv::rnd(4); r.interval = 1 + drv::rnd(40);
    spn::platform::MockStateInstance() = {}; HAL::delay(k_time_ms(drv::rnd(100000)));
    PID p(PID::Config{.output_lower_limit = (float)r.lo, .output_upper_limit = (float)r.hi, .sample_interval = k_time_ms(r.interval)});
    float sp = drv::coin() ? 0.f : drv::coin() ? -5.f : (float)(1 + drv::rnd(40)); bool stuck = sp > 0 && !drv::rnd(8), looping = drv::coin(); double gain = stuck ? 0 : drv::rnd(3) ? 0.002 : 0.0003, v = stuck && drv::coin() ? sp - 1e-3 : 0, u = 0; long begin = HAL::millis().raw(); int slow = drv::rnd(3) ? 0 : 1 + drv::rnd(30);
    PID::TuneConfig tc{.setpoint = (float)r.target, .startpoint = sp, .hysteresis = drv::coin() ? 0.5f : -0.5f, .cycles = r.cycles, .aggressiveness = (Agg)r.mode};
    if (!drv::rnd(4)) { tc = PID::TuneConfig{.setpoint = (float)r.target}; r.hyst = 0.01f; r.cycles = 10; r.mode = 1; sp = 0; stuck = false; gain = 0.002; }
    drv::history = "autotune to " + num(r.target) + " from " + num(sp) + ", hysteresis " + num(r.hyst) + " output " + num(r.lo) + ".." + num(r.hi) + " interval " + std::to_string(r.interval) + " mode " + std::to_string(r.mode) + " cycles " + std::to_string(r.cycles) + (looping ? ", loop takes " + std::to_string(slow) + " ms" : ", no loop") + (stuck ? ", process does not warm up" : "");
    struct Ev { float x, read; long at; int reads, loops; }; std::vector<Ev> sets; float reading = 0; long read_at = -1; int reads = 0, loops = 0;
    long calls = 0; auto alive = [&] { CHECK(++calls < 400000 && HAL::millis().raw() - begin < 10000000, "does not end: " << calls << " call-backs in " << HAL::millis().raw() - begin << " ms"); };
    auto pass = [&](long ms) { for (long i = 0; i < ms; ++i) v += (u - v) * gain; HAL::delay(k_time_ms(ms)); };
    int turns = 0; std::function<void()> loop; if (looping) loop = [&] { alive(); ++loops; ++turns; if (slow) pass(drv::rnd(slow)); };
    auto set = [&](float x) { alive(); sets.push_back({x, reading, read_at, reads, loops}); reads = loops = 0; u = x; if (stuck && x == (float)r.lo) { gain = 0.002; } };
    auto get = [&] { alive(); ++reads; read_at = HAL::millis().raw(); return reading = (float)v; };
    auto nap = [&](k_time_ms d) {
        alive(); CHECK(!looping || turns, "a wait before the loop had its turn, " << sets.size() << " outputs driven"); turns = 0;
        if (sp > 0 && std::none_of(sets.begin(), sets.end(), [&](auto& e) { return e.x == (float)r.lo; })) CHECK(!sets.empty() && sets.back().x == (float)r.hi, "waiting to warm up without driving the upper limit");
        pass(d.raw());
    };
    auto t = drv::coin() ? p.autotune(tc, set, get, loop, HAL::millis, nap) : p.autotune(tc, set, get, loop, [&] { alive(); return HAL::millis(); }, nap);
    size_t i = 0; long start = begin; const long limit = 30 * 60 * 1000; bool late = false;
    if (sp > 0) {      // warm-up
        while (i < sets.size() && sets[i].x == (float)r.hi) {
            CHECK(sets[i].reads >= 1 && sets[i].read < sp, "warming up at " << sets[i].read << " which is not below " << sp); CHECK(sets[i].at - begin <= limit, "still warming up after " << sets[i].at - begin << " ms");
            CHECK(!looping || i == 0 || sets[i].loops >= 1, "loop not called while warming up"); ++i;
        }
        CHECK(i < sets.size() && sets[i].x == (float)r.lo, "warming up does not end with the lower limit"); late = sets[i].at - begin >= limit;
        CHECK(sets[i].read >= sp || late, "warming up ended at " << sets[i].read << " below " << sp << " after " << sets[i].at - begin << " ms"); if (stuck) CHECK(late, "warmed up a process that does not"); ++i;
    }
    CHECK(sets.size() > i + 1, "no experiment"); Ref q = r; q.t1 = q.t2 = start = (sp > 0 || slow) ? sets[i].at : begin; long prev = -1;
    CHECK(sets.back().x == 0 && sets.back().reads == 0, "the output is not turned off at the end");
    for (; i + 1 < sets.size(); ++i) {
        auto& e = sets[i]; CHECK(e.reads >= 1, "a step without a reading"); CHECK(q.cycle < q.cycles, "a step after the experiment was finished"); if (prev >= 0) CHECK(e.at - prev >= r.interval, "steps " << e.at - prev << " ms apart"); if (prev >= 0 && !slow) CHECK(e.at - prev <= r.interval + 1, "steps " << e.at - prev << " ms apart");
        if (prev >= 0) CHECK(!looping || e.loops >= 1, "loop not called between two steps"); prev = e.at; float w = (float)q.step(e.read, e.at); CHECK(e.x == w, "output " << e.x << " expected " << w << " at " << e.read << " in cycle " << q.cycle);
    }
    CHECK(q.cycle >= q.cycles, "the experiment ended in cycle " << q.cycle);
    CHECK(near(t.Kp, q.k[0]) && near(t.Ki, q.k[1]) && near(t.Kd, q.k[2]), "gains " << t.Kp << " " << t.Ki << " " << t.Kd << " expected " << q.k[0] << " " << q.k[1] << " " << q.k[2]);
}
int main() {
    drv::arm();
    while (drv::time_left()) { for (int rep = 0; rep < 100; ++rep) tuner(); for (int rep = 0; rep < 3; ++rep) autotune(); }
    drv::done("random relay experiments compared with a restatement of the tuning rules in double precision; whole autotuning runs against a first-order process, with and without warming up");
}

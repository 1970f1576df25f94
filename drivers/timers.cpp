#include "raise.hpp"
#include "spine/structure/time/timers.hpp"
#include <vector>
using namespace spn::structure::time;
using L = long;
int main() {
    drv::arm(); L us = HAL::micros().raw();
    while (drv::time_left()) for (int rep = 0; rep < 200; ++rep) {
        drv::history.clear(); ++drv::cases; if (us > (1L << 55)) { spn::platform::MockStateInstance() = {}; us = 0; }
        auto ms = [&] { return us / 1000; };
        auto step = [&] { L d = drv::coin() ? drv::rnd(4) : drv::rnd(3) ? drv::rnd(5000) : drv::rnd(8) ? drv::rnd(100000000) : (L(1) << (31 + drv::rnd(6))) + drv::rnd(100000);
            switch (drv::rnd(5)) { case 0: drv::note("delay(" + std::to_string(d) + "ms)"); HAL::delay(k_time_ms(d)); us += d * 1000; break; case 1: drv::note("delay_ms(" + std::to_string(d) + ")"); HAL::delay_ms(uint32_t(d)); us += L(uint32_t(d)) * 1000; break; case 2: drv::note("delay_us(" + std::to_string(d) + ")"); HAL::delay_us(uint32_t(d)); us += uint32_t(d); break; case 3: drv::note("delay_us(" + std::to_string(d) + "us)"); HAL::delay_us(k_time_us(d)); us += d; break; default: drv::note("delay_ms(" + std::to_string(d) + "ms)"); HAL::delay_ms(k_time_ms(d)); us += d * 1000; }
            CHECK(HAL::micros().raw() == us && HAL::millis().raw() == ms(), "clock reads " << HAL::millis().raw() << "ms " << HAL::micros().raw() << "us, expected " << us << "us"); };
        drv::note("clock at " + std::to_string(us) + "us"); CHECK(HAL::micros().raw() == us && HAL::millis().raw() == ms(), "clock");
        L tl = ms(); Timer t; if (drv::coin()) { tl = ms() - (L)drv::rnd(5000); t = Timer(k_time_ms(tl)); drv::note("Timer(" + std::to_string(tl) + ")"); }
        L af = drv::rnd(20); if (drv::coin()) af = drv::rnd(8) ? drv::rnd(8000) : (L(1) << (31 + drv::rnd(6))) + drv::rnd(100000); bool ab = drv::coin(); L at = ab ? ms() + 1 + af : ms() + af; AlarmTimer a(k_time_ms(ab ? at : af), ab), a0{k_time_ms(af)}; L a0t = ms() + af; drv::note("AlarmTimer(" + std::to_string(ab ? at : af) + (ab ? ",absolute)" : ")")); bool done = false, done0 = false;
        L iv = drv::coin() ? drv::rnd(10) : drv::rnd(8) ? drv::rnd(4000) : (L(1) << (31 + drv::rnd(6))) + drv::rnd(100000); bool cu = drv::coin(); IntervalTimer i = cu || drv::coin() ? IntervalTimer(k_time_ms(iv), cu) : IntervalTimer(k_time_ms(iv)); L ip = ms(); drv::note("IntervalTimer(" + std::to_string(iv) + (cu ? ",catch up)" : ")"));
        for (int k = 0; k < 30; ++k) switch (drv::rnd(9)) {
        case 8: if (drv::rnd(12)) step(); else { drv::note("clock starts again at 0"); spn::platform::MockStateInstance() = {}; us = 0; } break;
        case 0: { bool r = drv::coin(); drv::note(r ? "time_since_last" : "time_since_last(false)"); L g = (drv::coin() ? t.time_since_last(r) : r ? t.time_since_last() : t.time_since_last(Timer::NoReset)).raw(); CHECK(g == ms() - tl, "time since last is " << g << " expected " << ms() - tl); if (r) tl = ms(); break; }
        case 1: if (drv::coin()) { drv::note("reset"); t.reset(); tl = ms(); } else { tl = ms() - (L)drv::rnd(100); drv::note("reset(" + std::to_string(tl) + ")"); t.reset(k_time_ms(tl)); } break;
        case 2: case 3: { drv::note("alarm expired?"); bool g = a.expired(), g0 = a0.expired(); done |= at <= ms(); done0 |= a0t <= ms(); CHECK(g == done && g0 == done0, "alarm expired " << g << g0 << " expected " << done << done0); CHECK(a.future().raw() == at && a.time_from_now().raw() == at - ms() && a0.future().raw() == a0t, "alarm future"); break; }
        case 4: case 5: { drv::note("interval expired?"); bool w = ms() - ip > iv, g = i.expired(); CHECK(g == w, "interval expired " << g << " expected " << w); if (w) ip = cu ? ip + iv : ms(); CHECK(i.future().raw() == ip + iv && i.time_until_next().raw() == ip + iv - ms() && i.interval().raw() == iv, "interval future " << i.future().raw() << " expected " << ip + iv); break; }
        case 6: if (!drv::rnd(4)) { drv::note("interval reset"); i.reset(); ip = ms(); } break;
        default: step();
        }
    }
    drv::done("random histories of clock, timer, alarm and interval operations compared with integer arithmetic on the elapsed microseconds");
}

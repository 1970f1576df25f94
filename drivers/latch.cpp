#include "raise.hpp"
#include "spine/controller/sr_latch.hpp"
#include <cmath>
using spn::controller::SRLatch;
int main() {
    drv::arm();
    while (drv::time_left()) for (int rep = 0; rep < 500; ++rep) {
        drv::history.clear(); ++drv::cases; spn::platform::MockStateInstance() = {}; HAL::delay_ms(k_time_ms(drv::rnd(100000)));
        const long u = drv::rnd(8) ? 1 : 1L << (24 + drv::rnd(10)); auto tm = [&](bool z) { return z && drv::coin() ? 0L : (long)drv::rnd(30) * u; }; long mon = tm(1), xon = tm(1), mof = tm(1), xof = tm(1); float lo = (int)drv::rnd(10), hi = drv::rnd(5) ? lo + drv::rnd(6) : lo - 1;
        drv::note("high " + std::to_string(hi) + " low " + std::to_string(lo) + " on " + std::to_string(mon) + ".." + std::to_string(xon) + " off " + std::to_string(mof) + ".." + std::to_string(xof));
        SRLatch l(SRLatch::Config{.high = hi, .low = lo, .minimal_on_time = k_time_ms(mon), .maximal_on_time = k_time_ms(xon), .minimal_off_time = k_time_ms(mof), .maximal_off_time = k_time_ms(xof)});
        long now = HAL::millis().raw(), since = now - mof; bool on = false; l.initialize(); CHECK(!l.response(), "starts turned off");
        for (int k = 0; k < 40; ++k) {
            if (drv::rnd(3)) { long d = (drv::rnd(4) ? drv::rnd(5) : drv::rnd(40)) * (drv::rnd(8) ? u : 1); HAL::delay_ms(k_time_ms(d)); now += d; drv::note("+" + std::to_string(d) + "ms"); }
            float v = drv::rnd(40) ? (float)((int)drv::rnd(22) - 3) : drv::coin() ? NAN : 1e30f; if (!drv::rnd(4)) v = drv::coin() ? hi : lo; drv::note("reading " + std::to_string(v)); l.new_reading(v);
            long el = now - since; bool was = on;
            if (el >= (on ? mon : mof)) { long mx = on ? xon : xof; if (mx && el > mx) on = !on; else if (v > hi) on = true; else if (v < lo) on = false; }
            if (on != was) since = now;
            CHECK(l.response() == on, "response " << l.response() << " expected " << on << " after " << el << "ms in the state");
        }
    }
    drv::done("random configurations, reading and delay histories compared with a direct statement of the latch");
}

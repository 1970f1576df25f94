// Extracts the clock, timers, latch and schedule; nothing but the real sources and uses of inline members here.
#include "spine/platform/implementations/mock.cpp"
#include "spine/structure/time/timers.cpp"
#include "spine/controller/sr_latch.cpp"
#include "spine/structure/time/schedule.cpp"
using namespace spn::structure::time;
void use(k_time_ms& ms, k_time_us& us, AlarmTimer& a, IntervalTimer& i, spn::controller::SRLatch& l, bool& b, spn::controller::SRLatch::Config&& cfg) {
    ms = HAL::millis(); us = HAL::micros(); HAL::delay(ms); HAL::delay_ms(ms); HAL::delay_us(us); HAL::delay_ms(uint32_t(1)); HAL::delay_us(uint32_t(1));
    ms = a.future(); ms = i.interval(); b = l.response(); spn::controller::SRLatch n(std::move(cfg)); Timer t; t.reset();
}
// calls that leave out the last argument
#include <new>
namespace defaults {
void timer(Timer* p) { new (p) Timer(); }
void restart(Timer& t) { t.reset(); }
k_time_ms since(Timer& t) { return t.time_since_last(); }
k_time_ms look(Timer& t) { return t.time_since_last(Timer::NoReset); }
void alarm(AlarmTimer* p, k_time_ms t) { new (p) AlarmTimer(t); }
void interval(IntervalTimer* p, k_time_ms t) { new (p) IntervalTimer(t); }
}

// Instantiates the real event system.
#include "spine/core/debugging.hpp"
#include <memory>
#include <optional>
#include <string>
#include <functional>
#include "spine/structure/pool.hpp"
#include "spine/structure/vector.hpp"
#include "spine/structure/time/timers.cpp"
#include "spine/eventsystem/pipeline.cpp"
#include "spine/eventsystem/eventsystem.cpp"
#include "spine/platform/implementations/mock.cpp"
namespace spn::core {
template void EventSystem::attach<unsigned long>(unsigned long, EventHandler*);
template void EventSystem::trigger<unsigned long>(unsigned long, const Event::Data&);
template std::shared_ptr<Event> EventSystem::event<unsigned long>(unsigned long, const k_time_ms&, const Event::Data&);
template void EventSystem::schedule<unsigned long>(unsigned long, const k_time_ms&, const Event::Data&);
void h_use(EventSystem& s, std::shared_ptr<Event> e, Event::Data d) {
    s.schedule(std::move(e)); new Event::Data(1.0f); new Event::Data(uint32_t(1)); new Event::Data(k_time_s(1)); new Event::Data(k_time_ms(1)); new Event::Data(); d.has_value(); EventHandler* h = new EventHandler(&s); h->attach_event_system(&s);
}
}

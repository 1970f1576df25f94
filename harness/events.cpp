// Instantiates the real event pipeline and object pool.
#include "spine/core/debugging.hpp"
#include <memory>
#include <string>
#include "spine/structure/pool.hpp"
#include "spine/structure/vector.hpp"
#include "spine/structure/time/timers.cpp"
#include "spine/eventsystem/pipeline.cpp"
#include "spine/platform/implementations/mock.cpp"
struct Item { int v; };
template class spn::structure::Pool<Item>;
bool h_ready(const spn::eventsystem::Pipeline& p) { return p.contains_expired_futures(); }
bool h_same(const spn::eventsystem::Future& a, const spn::eventsystem::Future& b) { return a == b || a < b; }
void h_pipeline(size_t n) { spn::eventsystem::Pipeline p(n); }
// calls that leave out the last argument
#include <new>
namespace defaults {
void reschedule(spn::eventsystem::Future& f) { f.reschedule(); }
void future(spn::eventsystem::Future* p) { new (p) spn::eventsystem::Future(); }
}

// The real DateTime; nothing but its source and uses here.
#include "spine/structure/time/datetime.cpp"
namespace use {
struct F { int v[9]; time_t u, y; };
void all(const DateTime& d, F& f) {
    f.v[0] = d.getYear(); f.v[1] = d.getMonth(); f.v[2] = d.getDay(); f.v[3] = d.getHour(); f.v[4] = d.getMinute(); f.v[5] = d.getSecond(); f.v[6] = d.getWeekDay(); f.v[7] = d.getYearDay(); f.v[8] = d.getDST(); f.u = d.getUnixTime(); f.y = d.getY2kTime();
}
}
// calls that leave out the last arguments
#include <new>
namespace defaults {
void epoch(DateTime* p) { new (p) DateTime(); }
void date(DateTime* p, int y, int m, int d) { new (p) DateTime(y, m, d); }
}

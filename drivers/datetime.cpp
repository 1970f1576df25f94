#include "driver.hpp"
#include "spine/structure/time/datetime.hpp"
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <new>
static const char* MON[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char* ZONES[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30"};
static bool utc;
static bool leap(long y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(long y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : D[m - 1]; }
static long days(long y, long m, long d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
struct Raw { alignas(DateTime) unsigned char b[sizeof(DateTime)]; Raw() { unsigned char x = drv::rnd(256); for (auto& c : b) c = drv::coin() ? x : (unsigned char)drv::rnd(256); } };
static void stack() { volatile unsigned char b[600]; unsigned char x = drv::rnd(256); for (size_t i = 0; i < sizeof(b); ++i) b[i] = x; }
static void fields(const DateTime& d, const tm& w, time_t when) {
    CHECK(d.getUnixTime() == when, "Unix time " << d.getUnixTime() << " expected " << when); CHECK(d.getY2kTime() == when - 946684800, "time since 2000 " << d.getY2kTime() << " expected " << when - 946684800);
    CHECK(d.getYear() == w.tm_year + 1900 && d.getMonth() == w.tm_mon + 1 && d.getDay() == w.tm_mday, "date " << d.getYear() << "-" << d.getMonth() << "-" << d.getDay() << " expected " << w.tm_year + 1900 << "-" << w.tm_mon + 1 << "-" << w.tm_mday);
    CHECK(d.getHour() == w.tm_hour && d.getMinute() == w.tm_min && d.getSecond() == w.tm_sec, "time " << d.getHour() << ":" << d.getMinute() << ":" << d.getSecond() << " expected " << w.tm_hour << ":" << w.tm_min << ":" << w.tm_sec);
    CHECK(d.getWeekDay() == w.tm_wday, "weekday " << d.getWeekDay() << " expected " << w.tm_wday); CHECK(d.getYearDay() == w.tm_yday, "day of the year " << d.getYearDay() << " expected " << w.tm_yday); CHECK(d.getDST() == w.tm_isdst, "daylight saving " << d.getDST() << " expected " << w.tm_isdst);
    DateTime c(d); char b[64], x[64]; size_t size = 1 + drv::rnd(63); const char* f = drv::coin() ? "%Y-%m-%d %H:%M:%S %j %w" : "%a %h %d %T %Y"; memset(b, 7, sizeof b);
    size_t n = f[1] == 'a' && drv::coin() ? c.strf_DateTime(b, size) : c.strf_DateTime(b, size, f), m = strftime(x, size, f, &w);
    CHECK(n == m && (n == 0 || !memcmp(b, x, n + 1)), "formatted " << std::string(b, n) << " expected " << std::string(x, m)); for (size_t i = size; i < sizeof b; ++i) CHECK(b[i] == 7, "formatting writes beyond the buffer");
}
static void given(const DateTime& d, int y, int mo, int day, int h, int mi, int s, int dst) {
    tm w; memset(&w, 0, sizeof w); w.tm_year = y - 1900; w.tm_mon = mo - 1; w.tm_mday = day; w.tm_hour = h; w.tm_min = mi; w.tm_sec = s; w.tm_isdst = dst; time_t u = mktime(&w);
    if (utc && dst <= 0) { long z = days(y, mo, 1) * 86400L + (day - 1) * 86400L + h * 3600L + mi * 60L + s; CHECK(u == z, "the oracle disagrees with itself"); }
    fields(d, w, u);
}
int main() {
    while (drv::time_left()) {
        const char* zone = ZONES[drv::rnd(4)]; setenv("TZ", zone, 1); tzset(); utc = zone == ZONES[0]; drv::history.clear(); drv::note("time zone " + std::string(zone)); Raw raw; stack();
        int y = drv::coin() ? 1970 + drv::rnd(131) : 1902 + drv::rnd(600), mo = 1 + drv::rnd(12), day = 1 + drv::rnd(dim(y, mo)), h = drv::rnd(24), mi = drv::rnd(60), s = drv::rnd(60); if (drv::rnd(4) == 0) { mo = 2 + drv::rnd(2); day = mo == 2 ? dim(y, 2) - drv::rnd(2) : 1; }
        char t[128]; DateTime* d;
        switch (drv::rnd(4)) {
        case 0: { time_t u = drv::coin() ? days(y, mo, day) * 86400L + h * 3600 + mi * 60 + s : drv::rnd(4) ? (time_t)drv::rnd(2000000000) - 500000000 : (time_t)drv::rnd(3);
            snprintf(t, sizeof t, "DateTime(%ld)", (long)u); drv::note(t); d = u == 0 && drv::coin() ? new (raw.b) DateTime() : new (raw.b) DateTime(u); tm w; memset(&w, 0, sizeof w); gmtime_r(&u, &w);
            CHECK(days(w.tm_year + 1900, w.tm_mon + 1, w.tm_mday) * 86400L + w.tm_hour * 3600 + w.tm_min * 60 + w.tm_sec == u, "the oracle disagrees with itself"); fields(*d, w, u); break; }
        case 1: { int dst = drv::rnd(3) - 1, wd = 1 + drv::rnd(7), yd = drv::rnd(366); if (drv::rnd(5) == 0) { day += drv::rnd(60); h += drv::rnd(48) - 12; mi += drv::rnd(200) - 50; s += drv::rnd(200) - 50; }
            if (drv::rnd(6) == 0) { snprintf(t, sizeof t, "DateTime(%d, %d, %d)", y, mo, day); drv::note(t); d = new (raw.b) DateTime(y, mo, day); given(*d, y, mo, day, 0, 0, 0, -1); break; }
            if (utc) dst = drv::rnd(2) - 1;
            snprintf(t, sizeof t, "DateTime(%d, %d, %d, %d, %d, %d, %d, %d, %d)", y, mo, day, h, mi, s, wd, yd, dst); drv::note(t); d = dst == -1 && drv::coin() ? new (raw.b) DateTime(y, mo, day, h, mi, s) : new (raw.b) DateTime(y, mo, day, h, mi, s, wd, yd, dst); given(*d, y, mo, day, h, mi, s, dst); break; }
        default: { char a[20], b[20]; snprintf(a, sizeof a, "%s %2d %4d", MON[mo - 1], day, y); snprintf(b, sizeof b, "%02d:%02d:%02d", h, mi, s); snprintf(t, sizeof t, "DateTime(\"%s\", \"%s\")", a, b); drv::note(t); stack();
            d = new (raw.b) DateTime(a, b); given(*d, y, mo, day, h, mi, s, -1); break; }
        }
        ++drv::cases;
    }
    drv::done("random instants, dates and texts in four time zones, in scrambled memory");
}

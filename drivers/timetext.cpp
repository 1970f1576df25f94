#include "driver.hpp"
#include "spine/core/utils/time_repr.hpp"
#include <limits>
#include <memory>
namespace u = spn::core::utils;
static const char* UNITS[] = {"us", "ms", "s", "m", "h", "d"};
static const __int128 US[] = {1, 1000, 1000000, 60000000, (__int128)3600 * 1000000, (__int128)86400 * 1000000};
static const int64_t MAX = std::numeric_limits<int64_t>::max();
static std::string show(const std::string& s) { std::string o = "\""; char h[8]; for (unsigned char c : s) if (c >= 32 && c < 127) o += char(c); else { snprintf(h, 8, "\\x%02x", c); o += h; } return o + "\""; }
static void parse(const std::string& s) {
    drv::history.clear(); drv::note("parse_time(" + show(s) + ")");
    int unit = -1; size_t p = 0; __int128 v = 0; bool big = false;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') { v = v * 10 + (s[p] - '0'); if (v > MAX) { big = true; v = MAX; } ++p; }
    for (int i = 0; i < 6; ++i) if (s.substr(p) == UNITS[i]) unit = i;
    const bool ok = p > 0 && !big && unit >= 0;
    std::unique_ptr<char[]> b(new char[s.size()]); memcpy(b.get(), s.data(), s.size());
    auto r = u::parse_time(std::string_view(b.get(), s.size()));
    CHECK(bool(r) == ok, "parse_time " << (r ? "returns a time" : "returns nothing"));
    if (ok) { CHECK((int)r->index() == unit, "the time is in unit " << UNITS[r->index()] << " expected " << UNITS[unit]); int64_t got = std::visit([](auto t) { return (int64_t)t.raw(); }, *r); CHECK(got == (int64_t)v, "the value is " << got << " expected " << (int64_t)v); }
    ++drv::cases;
}
static __int128 nearest(__int128 t, __int128 d) { return t >= 0 ? (2 * t + d) / (2 * d) : -((-2 * t + d) / (2 * d)); }
template<class T> static void text(int in, __int128 t) { // t in the unit T
    if (t > MAX || t < -MAX || t * US[in] > MAX || t * US[in] < -MAX) return;
    drv::history.clear(); drv::note("repr of " + std::to_string((int64_t)t) + " " + UNITS[in]);
    const __int128 us = t * US[in]; auto in_unit = [&](int k) { return in == k ? t : nearest(us, US[k]); };
    const int k = in_unit(0) < 1000 ? 0 : in_unit(1) < 1000 ? 1 : in_unit(2) < 900 ? 2 : in_unit(3) < 1440 ? 3 : in_unit(4) < 24 ? 4 : 5;
    const std::string want = std::to_string((int64_t)in_unit(k)) + UNITS[k]; const std::string got = u::repr(T((int64_t)t));
    CHECK(got == want, "text " << show(got) << " expected " << show(want));
    if (t >= 0) { auto r = u::parse_time(got); CHECK(r && (int)r->index() == k && std::visit([](auto x) { return (int64_t)x.raw(); }, *r) == (int64_t)in_unit(k), "the text " << got << " does not parse back to the time it shows"); }
    ++drv::cases;
}
static void all(int in, __int128 t) {
    switch (in) { case 0: text<k_time_us>(0, t); break; case 1: text<k_time_ms>(1, t); break; case 2: text<k_time_s>(2, t); break; case 3: text<k_time_m>(3, t); break; case 4: text<k_time_h>(4, t); break; case 5: text<k_time_d>(5, t); }
}
int main() {
    for (auto s : {"", "us", "10", "10us", "2h", "1d", "0s", "9223372036854775807us", "9223372036854775808us", "9223372036854775806m", "92233720368547758070s", "2147483648ms", "4294967296s", "10 s", " 10s", "10s ", "10S", "-1s", "+1s", "1.5s", "00012m", "1sus", "1u", "1mm", "99999999999999999999999999d", "12hx", "s1", "10us\n", "0d", "1dd"}) parse(s);
    const __int128 edges[] = {0, 1, 999, 1000, 1499, 1500, 999499, 999500, 1000000, 899499999, 899500000, 900000000, (__int128)1439 * 60000000, (__int128)1439 * 60000000 + 29999999, (__int128)1439 * 60000000 + 30000000, (__int128)1440 * 60000000, (__int128)36 * 3600 * 1000000};
    for (int in = 0; in < 6; ++in) for (auto e : edges) for (int d = -2; d <= 2; ++d) { all(in, e / US[in] + d); all(in, -(e / US[in]) + d); }
    while (drv::time_left()) for (int i = 0; i < 200; ++i) {
        std::string s; size_t n = drv::rnd(4) ? drv::rnd(6) : drv::rnd(22);
        for (size_t k = 0; k < n; ++k) s += char('0' + drv::rnd(10));
        if (drv::rnd(20) == 0) s += "x"; s += UNITS[drv::rnd(6)]; if (drv::rnd(10) == 0) s.insert(drv::rnd(s.size() + 1), 1, " -+.sm\0d"[drv::rnd(8)]); if (drv::rnd(20) == 0) s.pop_back();
        parse(s);
        const int in = drv::rnd(6); __int128 t = (__int128)(drv::rng()() >> drv::rnd(64)) >> 1; all(in, drv::rnd(4) ? t : -t);
    }
    drv::done("texts of times parsed and times of every unit shown, against exact integer arithmetic; texts shown parse back");
}

#include "raise.hpp"
#include "spine/structure/time/schedule.hpp"
#include <vector>
#include <algorithm>
using spn::structure::time::Schedule; using B = Schedule::Block;
long tod() { return drv::rnd(3) ? (long)drv::rnd(24) * 3600 : (long)drv::rnd(86400); }
int main() {
    drv::arm();
    while (drv::time_left()) for (int rep = 0; rep < 500; ++rep) {
        drv::history.clear(); ++drv::cases; int n = drv::rnd(5); std::vector<long> st, du; std::vector<float> va; long left = 86400;
        for (int i = 0; i < n; ++i) { long d = std::min(left, drv::coin() ? (long)(1 + drv::rnd(8)) * 3600 : (long)drv::rnd(30000) + 1); if (d <= 0) { n = i; break; } left -= d; st.push_back(tod()); du.push_back(d); va.push_back(i + 1); drv::note("block " + std::to_string(st.back()) + "+" + std::to_string(d) + "=" + std::to_string(i + 1)); }
        auto b = [&](int i) { return B{k_time_s(st[i]), k_time_s(du[i]), va[i]}; };
        auto run = [&](const Schedule& s) { for (int k = 0; k < 30; ++k) {
            long t = tod(); if (n && drv::coin()) { int i = drv::rnd(n); t = (drv::coin() ? st[i] : st[i] + du[i]) + (long)drv::rnd(3) - 1; if (t < 0 || t >= 86400) t = (t + 86400) % 86400; }
            float v = 0; for (int i = n - 1; i >= 0; --i) if (((t - st[i]) % 86400 + 86400) % 86400 < du[i]) v = va[i]; long nx = 86400; for (long x : st) if (x > t) nx = std::min(nx, x);
            drv::note("t=" + std::to_string(t)); CHECK(s.value_at(k_time_s(t)) == v, "value " << s.value_at(k_time_s(t)) << " expected " << v); CHECK(s.start_of_next_block(k_time_s(t)).raw() == nx, "next block " << s.start_of_next_block(k_time_s(t)).raw() << " expected " << nx); } };
        switch (n) { case 0: { Schedule s(std::initializer_list<B>{}); run(s); break; } case 1: { Schedule s(std::initializer_list<B>{b(0)}); run(s); break; } case 2: { Schedule s(Schedule::Config{{b(0), b(1)}}); run(s); break; } case 3: { Schedule s(std::initializer_list<B>{b(0), b(1), b(2)}); run(s); break; } default: { Schedule s(Schedule::Config{{b(0), b(1), b(2), b(3)}}); run(s); } }
    }
    drv::done("random schedules (also out of order, overlapping, past midnight) at random and boundary times compared with arithmetic modulo 24 hours");
}

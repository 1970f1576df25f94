// Shared scaffolding of the conformance drivers.
#pragma once
#include <chrono>
#include <csignal>
#include <exception>
#include <initializer_list>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
namespace drv {
inline uint64_t seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }
inline double budget() { const char* s = getenv("DRIVER_BUDGET"); return s ? atof(s) : 5; }
inline bool thorough() { const char* s = getenv("VERIF_TIER"); return s && !strcmp(s, "thorough"); }
inline std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline bool time_left(double frac = 1.0) { return elapsed() < budget() * frac; }
inline std::mt19937_64& rng() { static std::mt19937_64 r(seed()); return r; }
inline uint64_t rnd(uint64_t n) { return n ? rng()() % n : 0; }
inline bool coin() { return rng()() & 1; }
inline uint64_t pick(std::initializer_list<uint64_t> l) { return *(l.begin() + rnd(l.size())); }
inline uint64_t cases = 0;
inline std::string history; // what is being done, for the failure report
inline void note(const std::string& s) { if (s.size() > 200) history += s.substr(0, 150) + "... (" + std::to_string(s.size()) + " characters)"; else history += s; history += "; "; }
[[noreturn]] inline void fail(const std::string& what) {
    printf("FAIL %s | history: %s\n", what.c_str(), history.c_str());
    fflush(stdout);
    _Exit(1);
}
#define CHECK(c, what) do { if (!(c)) { std::ostringstream o_; o_ << what << "  [" #c "]"; drv::fail(o_.str()); } } while (0)
inline void done(const std::string& rule) { printf("COVERED %llu cases: %s\n", (unsigned long long)cases, rule.c_str()); fflush(stdout); }
// the bytes of a text as one heap block with nothing behind them
struct Block { std::vector<char> v; explicit Block(const std::string& s) : v(s.begin(), s.end()) { v.shrink_to_fit(); } const char* data() const { return v.empty() ? "" : v.data(); } size_t size() const { return v.size(); } std::string_view view() const { return {data(), v.size()}; } };
// counterexample inputs reported by the verifier, name -> values
inline std::multimap<std::string, double>& hints() {
    static std::multimap<std::string, double> h = [] {
        std::multimap<std::string, double> m; const char* s = getenv("DRIVER_HINTS");
        if (s) { std::stringstream ss(s); std::string kv; while (std::getline(ss, kv, ';')) { auto p = kv.find('='); if (p != std::string::npos) m.emplace(kv.substr(0, p), atof(kv.c_str() + p + 1)); } }
        return m; }();
    return h;
}
// sanitizer death: report the current history
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void on_death() { printf("FAIL memory error or undefined behaviour in the real code (sanitizer report in the replay file) | history: %s\n", history.c_str()); fflush(stdout); }
inline void on_alarm(int) { printf("FAIL the code under test does not return | history: %.3000s\n", history.c_str()); fflush(stdout); _Exit(1); }
inline void on_terminate() { printf("FAIL the code under test raised an exception where none is due | history: %.3000s\n", history.c_str()); fflush(stdout); _Exit(1); }
struct Init { Init() { std::set_terminate(on_terminate); signal(SIGALRM, on_alarm); alarm(unsigned(budget() * 5 + 45)); __sanitizer_set_death_callback(on_death); setvbuf(stdout, nullptr, _IOLBF, 0); } };
inline Init init_;
} // namespace drv

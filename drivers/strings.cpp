#include "driver.hpp"
#include "spine/core/utils/string.hpp"
#include "spine/core/utils/concatenate.hpp"
#include "spine/structure/static_string.hpp"
#include <cstring>
#include <memory>
using namespace spn::core::utils;
using spn::structure::StaticString;
static size_t R(size_t n) { return drv::rnd(n + 1); } // 0..n
// a view whose bytes are exactly one heap block: anything read beyond it is detected
struct Text {
    std::unique_ptr<char[]> b; size_t n;
    explicit Text(const std::string& s) : b(new char[s.size()]), n(s.size()) { memcpy(b.get(), s.data(), n); }
    std::string_view view() const { return {b.get(), n}; }
};
static std::string show(const std::string& s) { std::string o = "\""; char h[8]; for (unsigned char c : s) if (c >= 32 && c < 127) o += char(c); else { snprintf(h, 8, "\\x%02x", c); o += h; } return o + "\""; }
static bool in(char c, const std::string& d) { return d.find(c) != std::string::npos; }
static size_t lead(const std::string& s, const std::string& d) { size_t n = 0; while (n < s.size() && in(s[n], d)) ++n; return n; }
static size_t trail(const std::string& s, const std::string& d) { size_t n = s.size(); while (n > 0 && in(s[n - 1], d)) --n; return n; }
static void utils(const std::string& s, const std::string& d, const std::string& needle) {
    drv::history.clear(); drv::note("text " + show(s) + ", delimiters " + show(d) + ", needle " + show(needle));
    Text t(s), dd(d), nn(needle); const auto v = t.view();
    const size_t a = lead(s, d), z = trail(s, d);
    drv::note("lstrip"); auto l = lstrip(v, dd.view()); CHECK(l.data() == v.data() + a && l.size() == s.size() - a, "lstrip leaves " << l.size() << " characters, expected " << s.size() - a);
    drv::note("rstrip"); auto r = rstrip(v, dd.view()); CHECK(r.size() == z && r.data() == v.data(), "rstrip leaves " << r.size() << " characters at offset " << r.data() - v.data() << ", expected " << z);
    const std::string w = " \f\n\r\t\v"; const size_t wa = lead(s, w), wz = trail(s, w);
    drv::note("lstrip without delimiters"); l = lstrip(v); CHECK(l.data() == v.data() + wa && l.size() == s.size() - wa, "lstrip leaves " << l.size() << " characters, expected " << s.size() - wa);
    drv::note("rstrip without delimiters"); r = rstrip(v); CHECK(r.size() == wz && r.data() == v.data(), "rstrip leaves " << r.size() << " characters, expected " << wz);
    drv::note("find_first_of"); auto f = find_first_of(v, dd.view()); CHECK(f == s.find_first_of(d), "find_first_of gives " << f << " expected " << s.find_first_of(d));
    const bool b = needle.size() <= s.size() && s.substr(0, needle.size()) == needle, e = needle.size() <= s.size() && s.substr(s.size() - needle.size()) == needle;
    drv::note("starts_with"); CHECK(starts_with(v, nn.view()) == b, "starts_with gives " << !b);
    drv::note("ends_with"); CHECK(ends_with(v, nn.view()) == e, "ends_with gives " << !e);
    ++drv::cases;
}
static void number(const std::string& s) {
    drv::history.clear(); drv::note("to_float(" + show(s) + ")");
    Text t(s); char* end; const float x = strtof(s.c_str(), &end); const float want = end != s.c_str() && *end == 0 ? x : 0.0f;
    const float got = to_float(t.view()); CHECK(memcmp(&got, &want, 4) == 0 || (got != got && want != want), "to_float gives " << got << " expected " << want); ++drv::cases;
}
static void compare(StaticString& x, const std::string& ref, size_t cap, const char* data) {
    CHECK(x.size() == ref.size(), "size " << x.size() << " expected " << ref.size());
    CHECK(x.capacity() == cap, "capacity changed to " << x.capacity()); CHECK(x.c_str() == data, "the storage moved");
    CHECK(x.view().size() == ref.size() && x.view().data() == data && x.view() == ref, "content " << show(std::string(x.view())) << " expected " << show(ref));
    CHECK(x.c_str()[x.size()] == 0, "not null-terminated");
}
static std::string rnd(size_t max, const char* alphabet) { std::string s; size_t n = R(max), m = strlen(alphabet) + 1; for (size_t i = 0; i < n; ++i) s += alphabet[R((R(9) ? m - 2 : m - 1))]; return s; }
static std::string part(const std::string& s, bool end) { size_t n = R(s.size()); auto p = end ? s.substr(s.size() - n) : s.substr(0, n); int k = R(5); if (k == 0) p += "x"; if (k == 1) p = "x" + p; if (k == 2 && n) p[R(n - 1)] ^= 1; return p; }
static void sequence() {
    const size_t len = R(3) ? R(24) : R(200) ? R(200) : R(8) ? R(900) : 65000 + R(3000);
    drv::history.clear(); drv::note("StaticString(" + std::to_string(len) + ")");
    StaticString x(len); const size_t cap = x.capacity(); const char* data = x.c_str();
    CHECK(cap >= len, "capacity " << cap); std::string ref(cap, '\0'); compare(x, ref, cap, data);
    for (int i = 0; i < 12; ++i) {
        switch (R(6)) {
        case 0: { size_t n = R(cap + 3); drv::note("set_size(" + std::to_string(n) + ")"); x.set_size(n); ref.resize(std::min(n, cap)); break; }
        case 1: case 2: { auto s = rnd(cap, R(1) ? " \tab" : " \f\n\r\t\v\ba"); drv::note("write " + show(s)); char* p = s.empty() ? x.data() : x.data(s.size()); CHECK(p == data, "data"); memcpy(p, s.data(), s.size()); if (s.size()) ref = s; break; }
        case 3: { auto d = R(2) ? std::string(" \f\n\r\t\v") : rnd(3, "ab"); drv::note("lstrip(" + show(d) + ")"); Text t(d); CHECK(&(d.size() == 6 && R(2) ? x.lstrip() : x.lstrip(t.view())) == &x, "lstrip returns another string"); ref = ref.substr(lead(ref, d)); break; }
        case 4: { auto d = R(2) ? std::string(" \f\n\r\t\v") : rnd(3, "ab"); drv::note("rstrip(" + show(d) + ")"); Text t(d); CHECK(&(d.size() == 6 && R(2) ? x.rstrip() : x.rstrip(t.view())) == &x, "rstrip returns another string"); ref = ref.substr(0, trail(ref, d)); break; }
        case 5: { auto n = part(ref, false); drv::note("starts_with(" + show(n) + ")"); Text t(n); bool b = n.size() <= ref.size() && ref.substr(0, n.size()) == n; CHECK(x.starts_with(t.view()) == b, "starts_with gives " << !b); break; }
        case 6: { auto n = part(ref, true); drv::note("ends_with(" + show(n) + ")"); Text t(n); bool b = n.size() <= ref.size() && ref.substr(ref.size() - n.size()) == n; CHECK(x.ends_with(t.view()) == b, "ends_with gives " << !b); break; }
        }
        compare(x, ref, cap, data);
    }
    ++drv::cases;
}
template<size_t N> struct Lit { char c[N]; Lit() { for (size_t i = 0; i + 1 < N; ++i) c[i] = char('a' + drv::rnd(26)); c[N - 1] = 0; } std::string s() const { return std::string(c, N - 1); } };
template<class A> static void joined(const A& a, const std::string& w) { CHECK(a.size() == w.size() + 1 && std::string(a.data(), a.size() - 1) == w && a[w.size()] == 0, "concat gives '" << std::string(a.data(), a.size()) << "', expected '" << w << "'"); }
static void joins() {
    ++drv::cases; drv::history = "concat"; Lit<1> e; Lit<2> a; Lit<3> b; Lit<5> c; Lit<8> d; Lit<17> f; Lit<40> g; constexpr auto k = concat("ab", "", "c", "def"); joined(k, "abcdef"); joined(concat(), "");
    joined(concat(a.c), a.s()); joined(concat(g.c), g.s()); joined(concat(e.c, b.c), b.s()); joined(concat(c.c, e.c), c.s()); joined(concat(e.c, e.c), ""); joined(concat(a.c, b.c), a.s() + b.s()); joined(concat(d.c, f.c), d.s() + f.s()); joined(concat(a.c, e.c, c.c), a.s() + c.s());
    joined(concat(b.c, d.c, c.c), b.s() + d.s() + c.s()); joined(concat(g.c, a.c, f.c, d.c), g.s() + a.s() + f.s() + d.s()); joined(concat(a.c, b.c, c.c, d.c, f.c), a.s() + b.s() + c.s() + d.s() + f.s()); joined(concat(concat(b.c, a.c), d.c), b.s() + a.s() + d.s()); static Lit<300> h; joined(concat(h.c, d.c), h.s() + d.s()); joined(concat(d.c, h.c), d.s() + h.s()); joined(concat(a.c, h.c, h.c), a.s() + h.s() + h.s());
}
int main() {
    const char* T[] = {"", " ", "  ", "a", " a", "a ", " a b ", "aaaa", "\t\n", " \f\n\r\t\va", "a \f\n\r\t\v", "abcabc"}; const char* D[] = {"", " ", "a", " a", "abc", " \f\n\r\t\v"};
    for (auto t : T) for (auto d : D) for (auto n : T) utils(t, d, n);
    for (auto s : {"", "1", "1.5", "-2.25e3", "1.5x", "x", " 1", "1 ", "0", "-0", "3e39", "nan", "inf", "0x1p3", ".5", ".", "-", "123456789", "1e", "12"}) number(s);
    for (int k = 0; k < 400 || drv::time_left(); ++k) {
        for (int i = 0; i < 20; ++i) { auto s = rnd(12, R(1) ? " ab\t" : " \f\n\r\t\v\ba"); utils(s, rnd(3, " ab"), part(s, R(1))); number(rnd(6, "0123456789.-+e")); }
        if (k % 40 == 0) { const size_t n = k % 1600 ? 250 + R(300) : 65530 + R(300); std::string s(R(1) ? n : 3, ' '); s += std::string(R(1) ? n : 2, 'a') + std::string(R(1) ? n : 4, '\t'); utils(s, R(1) ? " " : " \t", part(s, R(1))); }
        sequence(); joins();
        if (k > 100000) break;
    }
    drv::done("texts with all their strippings, searches and numbers, and random histories of static strings, against std::string");
}

#include "driver.hpp"
#include "spine/structure/linebuffer.hpp"
#include <deque>
using spn::structure::LineBuffer;
struct Ref {
    size_t cap; std::string delims; std::string q;
    size_t len() const { auto p = q.find_first_of(delims); return p == std::string::npos ? 0 : p + 1; }
};
static std::string show(const std::string& s) { std::string o; for (char c : s) o += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : !c ? std::string("\\0") : std::string(1, c); return o; }
static void compare(LineBuffer& l, Ref& r) {
    CHECK(l.used_space() == r.q.size(), "used_space " << l.used_space() << " expected " << r.q.size());
    for (size_t i = 0; i < r.q.size(); ++i) { char c = 0; CHECK(l.peek_at(c, i) && c == r.q[i], "byte " << i); }
    CHECK(l.length_of_next_line() == r.len(), "length_of_next_line " << l.length_of_next_line() << " expected " << r.len());
    CHECK(l.has_line() == (r.len() > 0), "has_line");
}
static void step(LineBuffer& l, Ref& r, int op, const std::string& data, size_t arg, bool given) {
    std::optional<size_t> d; size_t L = r.len();
    if (given && L) d = L;
    switch (op) {
    case 0: { drv::note("push(\"" + show(data) + "\")"); size_t exp = std::min(data.size(), r.cap - r.q.size()); drv::Block bl(data); size_t n = l.push(bl.view()); CHECK(n == exp, "push returned " << n << " expected " << exp); r.q += data.substr(0, exp); break; }
    case 1: { drv::note("push_rollover(\"" + show(data) + "\")"); drv::Block bl(data); size_t n = l.push(bl.data(), bl.size(), true); CHECK(n == data.size(), "rollover push returned " << n); r.q += data; if (r.q.size() > r.cap) r.q = r.q.substr(r.q.size() - r.cap); break; }
    case 2: { drv::note("get_next_line_view()"); auto v = d || arg % 2 ? l.get_next_line_view(d) : l.get_next_line_view(); CHECK(bool(v) == (L > 0), "line view returned " << bool(v)); if (v) { std::string s(*v); CHECK(s == r.q.substr(0, L - 1), "line view is '" << show(s) << "' expected '" << show(r.q.substr(0, L - 1)) << "'"); } break; }
    case 3: { drv::note("get_next_line(max " + std::to_string(arg) + ")"); std::vector<char> b(arg + 1, 'Z'); size_t n = l.get_next_line(b.data(), arg, d); bool ok = L > 0 && L <= arg; CHECK(n == (ok ? L - 1 : 0), "get_next_line returned " << n << " expected " << (ok ? L - 1 : 0));
        if (ok) { CHECK(std::string(b.data(), L - 1) == r.q.substr(0, L - 1), "line delivered as '" << show(std::string(b.data(), L - 1)) << "'"); CHECK(b[L - 1] == 0, "null termination"); r.q = r.q.substr(L); } 
        for (size_t i = ok ? L : 0; i < b.size(); ++i) CHECK(b[i] == 'Z', "byte " << i << " of the output was written"); break; }
    case 4: { drv::note("drop_next_line()"); bool ok = d || arg % 2 ? l.drop_next_line(d) : l.drop_next_line(); CHECK(ok == (L > 0), "drop_next_line returned " << ok); if (ok) r.q = r.q.substr(L); break; }
    case 6: { bool std_ = r.delims != "\r\n"; drv::note(std_ ? "set_delimiters()" : "set_delimiters(\";\")"); if (std_) { r.delims = "\r\n"; l.set_delimiters(); } else { r.delims = ";"; l.set_delimiters(";"); } CHECK(l.delimiters() == r.delims, "delimiters()"); break; }
    case 5: { drv::note("drop_first(" + std::to_string(arg) + ")"); size_t n = l.drop_first(arg); CHECK(n == std::min(arg, r.q.size()), "drop_first"); r.q = r.q.substr(n); break; }
    }
    compare(l, r); ++drv::cases;
}
int main() {
    // every rotation of the storage against every short text
    const char al[] = {'a', '\0', '\n', '\r'};
    for (size_t cap = 1; cap <= 5; ++cap)
        for (size_t rot = 0; rot < cap; ++rot)
            for (size_t len = 0; len <= cap; ++len)
                for (size_t code = 0; code < (size_t(1) << (2 * len)); ++code)
                    for (int op = 2; op <= 4; ++op) for (int given = 0; given < 2; ++given) {
                        std::string t; for (size_t i = 0; i < len; ++i) t += al[(code >> (2 * i)) & 3];
                        drv::history = "capacity " + std::to_string(cap) + "; "; LineBuffer l(cap); Ref r{cap, "\r\n"};
                        for (size_t i = 0; i < rot; ++i) { l.push("x"); char c; l.pop(c); }
                        drv::note("storage rotated by " + std::to_string(rot));
                        step(l, r, 0, t, 0, false); step(l, r, op, "", cap, given); step(l, r, 3, "", cap + 1, false);
                    }
    while (drv::time_left()) {
        size_t cap = 1 + drv::rnd(12); std::string delims = drv::coin() ? "\r\n" : drv::coin() ? "\n" : "ab;";
        drv::history = "capacity " + std::to_string(cap) + "; "; LineBuffer l = delims == "\r\n" && drv::coin() ? LineBuffer(cap) : LineBuffer(cap, delims); Ref r{cap, delims};
        for (int i = 0; i < 40; ++i) { std::string t; for (size_t k = drv::rnd(cap + 3); k--;) t += "ab;\n\rxyz\0"[drv::rnd(9)]; step(l, r, drv::rnd(7), t, drv::rnd(cap + 3), drv::coin()); }
    }
    // lines and counts beyond 8 and 16 bits
    for (int round = 0; round < 12; ++round) {
        size_t cap = round % 4 ? 250 + drv::rnd(300) : 65530 + drv::rnd(3000); drv::history = "capacity " + std::to_string(cap) + "; "; LineBuffer l(cap); Ref r{cap, "\r\n"};
        for (int i = 0; i < 8; ++i) { size_t n = drv::coin() ? cap - drv::rnd(4) : 1 + drv::rnd(cap - 1); std::string t(n, 'a'); if (drv::coin()) t.back() = '\n'; if (drv::coin()) t[drv::rnd(n)] = '\n';
            step(l, r, i ? drv::rnd(6) : 0, t, drv::coin() ? cap + drv::rnd(3) : drv::pick({256, 65536, 65537}), drv::coin()); }
    }
    drv::done("every text of length <= capacity <= 5 over {a,NUL,LF,CR} at every storage rotation, plus random histories, compared with a reference");
}

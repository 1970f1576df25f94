#include "driver.hpp"
#include "spine/io/stream/buffered_stream.hpp"
#include "spine/io/stream/implementations/mock.hpp"
#include "spine/platform/implementations/mock.hpp"
#include <deque>
using namespace spn::io;
using Tx = spn::io::Transaction;
static std::string show(const std::string& s) { std::string o; for (char c : s) o += c == '\n' ? std::string("\\n") : c == '\r' ? std::string("\\r") : !c ? std::string("\\0") : std::string(1, c); return o; }
// a stream that refuses reads and writes at will
struct Faulty : Stream {
    std::string in, out, delivered; int fail_read = -1, fail_write = -1; size_t room = 0; bool refused = false; size_t sees = ~size_t(0);
    int inits = 0, flushes = 0; void initialize() override { ++inits; } void flush() override { ++flushes; }
    using Stream::read; using Stream::write;
    bool read(uint8_t& v) override { if (fail_read == 0 || in.empty()) { refused = true; v = 0xEE; return false; } if (fail_read > 0) --fail_read; v = uint8_t(in[0]); delivered += in[0]; in.erase(0, 1); return true; }
    bool write(const uint8_t v) override { if (fail_write == 0 || !room) { refused = true; return false; } if (fail_write > 0) --fail_write; --room; out += char(v); return true; }
    size_t read(uint8_t* b, size_t n) override { size_t i = 0; while (i < n && read(b[i])) ++i; return i; }
    size_t write(const uint8_t* const b, size_t n) override { size_t i = 0; while (i < n && write(b[i])) ++i; return i; }
    size_t available() const override { return in.size(); }
    size_t available_for_write() const override { return room; }
};
struct Ref { size_t icap, ocap; std::string d, in, out; size_t len() const { auto p = in.find_first_of(d); return p == std::string::npos ? 0 : p + 1; } };
static void compare(BufferedStream& b, Ref& r) {
    CHECK(b.input_buffer_space_used() == r.in.size(), "input_buffer_space_used " << b.input_buffer_space_used() << " expected " << r.in.size());
    CHECK(b.output_buffer_space_used() == r.out.size(), "output_buffer_space_used " << b.output_buffer_space_used() << " expected " << r.out.size());
    CHECK(b.input_buffer_space_left() == r.icap - r.in.size() && b.output_buffer_space_left() == r.ocap - r.out.size(), "space left");
    CHECK(b.has_line() == (r.len() > 0) && b.length_of_next_line() == r.len(), "line detection");
    ++drv::cases;
}
static void pull(BufferedStream& b, Faulty& f, Ref& r) {
    f.delivered.clear(); f.refused = false; size_t n = b.pull_in_data(); drv::note("pull_in_data");
    CHECK(n == f.delivered.size(), "pull_in_data returned " << n << " but took " << f.delivered.size() << " bytes from the stream");
    for (char c : f.delivered) { if (r.in.size() == r.icap) { CHECK(r.len() == 0, "a byte of the stream overwrote a complete line '" << show(r.in) << "'"); r.in.erase(0, 1); } r.in += c; }
    CHECK(f.in.empty() || f.refused || (r.in.size() == r.icap && r.len()), "pull_in_data stopped early");
}
static void push(BufferedStream& b, Faulty& f, Ref& r) {
    f.out.clear(); f.refused = false; size_t n = b.push_out_data(); drv::note("push_out_data");
    CHECK(n == f.out.size(), "push_out_data returned " << n << " but the stream accepted " << f.out.size());
    CHECK(f.out == r.out.substr(0, n), "the stream received '" << show(f.out) << "' expected a prefix of '" << show(r.out) << "'");
    r.out = r.out.substr(n);
    CHECK(r.out.empty() || f.refused || !f.room, "push_out_data stopped early");
}
static std::string text(size_t n) { std::string t; while (n--) t += "ab\n\rxyzc\0"[drv::rnd(9)]; return t; }
int main() {
    while (drv::time_left()) {
        size_t icap = 1 + drv::rnd(9), ocap = 1 + drv::rnd(9); std::string d = drv::coin() ? "\r\n" : drv::coin() ? "\n" : "xy";
        drv::history = "input " + std::to_string(icap) + " output " + std::to_string(ocap) + " delimiters '" + show(d) + "'; ";
        auto f = std::make_shared<Faulty>(); BufferedStream b(f, d == "\r\n" && drv::coin() ? BufferedStream::Config{icap, ocap} : BufferedStream::Config{icap, ocap, d}); Ref r{icap, ocap, d}; std::optional<Tx> fin;
        for (int i = 0; i < 40; ++i) {
            switch (drv::rnd(9)) {
            case 0: { auto t = text(drv::rnd(icap + 4)); f->in += t; f->fail_read = drv::rnd(3) ? -1 : int(drv::rnd(6)); drv::note("arrives '" + show(t) + "' read fails after " + std::to_string(f->fail_read)); pull(b, *f, r); break; }
            case 1: { f->room = drv::rnd(3) ? 100 : drv::rnd(5); f->fail_write = drv::rnd(3) ? -1 : int(drv::rnd(5)); drv::note("room " + std::to_string(f->room) + " write fails after " + std::to_string(f->fail_write)); push(b, *f, r); break; }
            case 2: { auto t = text(drv::rnd(ocap + 3)); drv::note("write '" + show(t) + "'"); size_t e = std::min(t.size(), ocap - r.out.size()); size_t g = 0; drv::Block bl(t); switch (drv::rnd(3)) { case 0: g = b.buffered_write(bl.view()); break; case 1: g = b.buffered_write(bl.data(), bl.size()); break; default: for (char c : t) g += b.buffered_write(uint8_t(c)); }
                CHECK(g == e, "buffered_write reports " << g << " of " << e); r.out += t.substr(0, e); break; }
            case 3: { auto t = text(1 + drv::rnd(ocap + 3)); drv::note("write_rollover '" + show(t) + "'"); CHECK(b.buffered_write(t.data(), t.size(), true) == t.size(), "buffered_write"); r.out += t; if (r.out.size() > ocap) r.out = r.out.substr(r.out.size() - ocap); break; }
            case 4: { char buf[32]; memset(buf, 'Z', 32); size_t L = r.len(), mx = drv::rnd(12); drv::note("get_next_line " + std::to_string(mx)); size_t n = b.get_next_line(buf, mx); bool ok = L && L <= mx; CHECK(n == (ok ? L - 1 : 0), "get_next_line " << n); if (ok) { CHECK(std::string(buf, n) == r.in.substr(0, n), "line content"); r.in = r.in.substr(L); } break; }
            case 5: { size_t L = r.len(); if (drv::coin()) { drv::note("get_next_line_view"); auto v = b.get_next_line_view(); CHECK(bool(v) == (L > 0), "line view"); if (v) { std::string l(*v); CHECK(l == r.in.substr(0, L - 1), "line view '" << show(l) << "'"); } compare(b, r); } drv::note("drop_next_line"); CHECK(b.drop_next_line() == (L > 0), "drop"); r.in = r.in.substr(L); break; }
            case 6: { size_t k = drv::rnd(4); bool last = drv::coin(); drv::note(std::string("drop_") + (last ? "last " : "first ") + std::to_string(k)); size_t e = std::min(k, r.out.size()); CHECK((last ? b.output_buffer_drop_last(k) : b.output_buffer_drop_first(k)) == e, "drop"); if (last) r.out.resize(r.out.size() - e); else r.out = r.out.substr(e); break; }
            default: {
                size_t L = r.len(); auto t = b.new_transaction(); drv::note("new_transaction"); CHECK(bool(t) == (L > 0), "transaction without a line, or a line without one");
                if (!t) break;
                std::string base = r.out, line = r.in.substr(0, L - 1); std::optional<Tx> tx;
                CHECK(std::string(t->incoming()) == line, "incoming line '" << show(std::string(t->incoming())) << "' expected '" << show(line) << "'");
                if (drv::coin()) { tx.emplace(std::move(*t)); drv::note("move"); t.reset(); compare(b, r); } else { std::swap(tx, t); }
                if (fin && drv::coin()) { drv::note("move onto a finalized transaction"); *fin = std::move(*tx); tx.reset(); compare(b, r); std::swap(fin, tx); }
                CHECK(std::string(tx->incoming()) == line && !tx->is_finalized(), "state after moving");
                size_t q = 0;
                for (int k = drv::rnd(4); k--;) {
                    if (drv::coin()) { drv::note("outgoing 'k'"); size_t e = r.out.size() < ocap; CHECK(tx->outgoing('k') == e, "outgoing"); if (e) r.out += 'k'; q += e; }
                    else { auto s = text(drv::rnd(5)); drv::note("outgoing '" + show(s) + "'"); size_t e = std::min(s.size(), ocap - r.out.size()); drv::Block bl(s); CHECK((drv::coin() ? tx->outgoing(bl.view()) : tx->outgoing(bl.data(), bl.size())) == e, "outgoing"); r.out += s.substr(0, e); q += e; }
                    CHECK(tx->outgoing_space_used() == q, "outgoing_space_used " << tx->outgoing_space_used() << " expected " << q); CHECK(tx->outgoing_space_left() == ocap - r.out.size(), "outgoing_space_left");
                    compare(b, r);
                    if (!drv::rnd(4)) { drv::note("move"); std::optional<Tx> u(std::in_place, std::move(*tx)); tx.reset(); compare(b, r); if (fin && drv::coin()) { drv::note("onto a finalized transaction"); *fin = std::move(*u); u.reset(); compare(b, r); std::swap(fin, u); CHECK(!u->is_finalized(), "a moved transaction is still open"); } tx.emplace(std::move(*u)); CHECK(tx->outgoing_space_used() == q, "queued bytes after a move"); }
                    if (!drv::rnd(6)) { f->room = drv::rnd(4); f->fail_write = -1; push(b, *f, r); }
                }
                switch (drv::rnd(3)) {
                case 0: drv::note("commit"); tx->commit(); break;
                case 1: drv::note("abort"); tx->abort(); r.out.resize(r.out.size() - std::min(q, r.out.size())); break;
                default: drv::note("destroy"); tx.reset(); break;
                }
                r.in = r.in.substr(L); compare(b, r);
                if (tx) { CHECK(tx->is_finalized(), "is_finalized"); if (drv::coin()) { drv::note("keep finalized"); fin.reset(); fin.emplace(std::move(*tx)); CHECK(fin->is_finalized(), "a moved finalized transaction is finalized"); } drv::note("destroy finalized"); tx.reset(); compare(b, r); }
                break; }
            }
            compare(b, r);
        }
        // the mock stream is a pair of bounded queues
        size_t mi = 1 + drv::rnd(6), mo = 1 + drv::rnd(6); MockStream m(MockStream::Config{mi, mo}); std::string qi, qo; spn::platform::MockUART uart(spn::platform::MockUART::Config{&m}); const bool wired = drv::coin(); Stream& ms = wired ? static_cast<Stream&>(uart) : m; drv::history = std::string(wired ? "MockUART on " : "") + "MockStream " + std::to_string(mi) + "," + std::to_string(mo) + "; ";
        for (int i = 0; i < 20; ++i) {
            if (drv::coin()) { std::vector<uint8_t> v; for (auto c : text(drv::rnd(mi - qi.size() + 1))) v.push_back(uint8_t(c)); drv::note("inject " + std::to_string(v.size())); m.inject_bytestream(v); qi += std::string(v.begin(), v.end()); }
            uint8_t c = 7; drv::note("read"); bool ok = ms.read(c); CHECK(ok == !qi.empty(), "read " << ok); if (ok) { CHECK(char(c) == qi[0], "byte read"); qi.erase(0, 1); } else CHECK(c == 7, "failed read changed the value");
            drv::note("write"); ok = ms.write(uint8_t('a' + i)); CHECK(ok == (qo.size() < mo), "write"); if (ok) qo += char('a' + i);
            { auto t = text(drv::rnd(4)); drv::note("write '" + show(t) + "'"); size_t e = std::min(t.size(), mo - qo.size()), g = 0;
                switch (drv::rnd(4)) { case 0: g = ms.write(std::string_view(t)); break; case 1: g = ms.write(t.data(), t.size()); break; case 2: g = ms.write((const uint8_t*)t.data(), t.size()); break; default: for (char ch : t) g += ms.write(ch); }
                CHECK(g == e, "write took " << g << " of " << e); qo += t.substr(0, e); }
            if (drv::coin()) { size_t k = drv::rnd(4); char buf[8]; memset(buf, 'Z', 8); drv::note("read " + std::to_string(k)); size_t e = k <= qi.size() ? k : 0, g = drv::coin() ? ms.read(buf, k) : ms.read((uint8_t*)buf, k); CHECK(g == e && std::string(buf, e) == qi.substr(0, e) && buf[e] == 'Z', "read delivered " << g << " of " << e); qi.erase(0, e); }
            CHECK(ms.available() == qi.size() && ms.available_for_write() == mo - qo.size(), "available");
            if (!drv::rnd(4)) { drv::note("extract"); auto e = m.extract_bytestream(); CHECK(bool(e) || qo.empty(), "extract"); if (e) CHECK(std::string(e->begin(), e->end()) == qo, "extracted bytes"); qo.clear(); }
        }
        { Faulty f; spn::platform::MockUART u(spn::platform::MockUART::Config{&f}); Stream& s = u; drv::history = "MockUART on a stream that refuses; "; f.in = "xy"; f.fail_read = 1; f.room = 3; f.fail_write = 1; uint8_t c = 7;
          CHECK(s.available() == f.available() && s.available_for_write() == f.available_for_write(), "available"); CHECK(s.read(c) && c == 'x' && !s.read(c), "read"); CHECK(s.write('p') && !s.write('q') && f.out == "p", "write");
          if (!drv::rnd(60)) { f.room = 1u << 20; f.fail_write = f.fail_read = -1; auto big = text(drv::pick({254, 255, 256, 257, 300, 65535, 65536, 65537, 70000})); drv::history += "write of " + std::to_string(big.size()) + " bytes; "; drv::Block bl(big);
              for (int k = 0; k < 3; ++k) { f.out.clear(); size_t g = k == 0 ? s.write(bl.data(), bl.size()) : k == 1 ? s.write(bl.view()) : s.write((const uint8_t*)bl.data(), bl.size()); CHECK(g == big.size() && f.out == big, "write of " << big.size() << " bytes answers " << g); }
              f.in = big; std::vector<char> rb(big.size()); size_t g = s.read(rb.data(), big.size()); CHECK(g == big.size() && std::string(rb.data(), g) == big, "read of " << big.size() << " bytes answers " << g); }
          s.initialize(); CHECK(f.inits == 1 && f.flushes == 0, "initialize"); s.flush(); s.flush(); CHECK(f.inits == 1 && f.flushes == 2, "flush"); }
    }
    // buffers, lines and counts beyond 8 and 16 bits
    for (int round = 0; round < 24; ++round) {
        size_t icap = 250 + drv::rnd(400), ocap = round % 4 ? 250 + drv::rnd(400) : 65530 + drv::rnd(3000); drv::history = "input " + std::to_string(icap) + " output " + std::to_string(ocap) + "; ";
        auto f = std::make_shared<Faulty>(); BufferedStream b(f, BufferedStream::Config{icap, ocap}); Ref r{icap, ocap, "\r\n"}; f->sees = 0;
        auto large = [](size_t cap) { return drv::coin() ? cap - drv::rnd(4) : drv::rnd(cap + 3); };
        for (int i = 0; i < 10; ++i) switch (drv::rnd(6)) {
            case 0: { std::string t(large(icap), 'a'); if (drv::coin() && t.size()) t.back() = '\n'; f->in = t; f->fail_read = -1; drv::note("arrives '" + show(t) + "'"); pull(b, *f, r); compare(b, r); break; }
            case 1: { f->room = large(ocap); f->fail_write = -1; drv::note("room " + std::to_string(f->room)); push(b, *f, r); compare(b, r); break; }
            case 2: { auto t = text(large(ocap)); drv::note("write '" + show(t) + "'"); size_t e = std::min(t.size(), ocap - r.out.size()), g = b.buffered_write(std::string_view(t)); CHECK(g == e, "buffered_write reports " << g << " of " << e); r.out += t.substr(0, e); compare(b, r); break; }
            case 3: { size_t k = drv::coin() ? large(ocap) : drv::pick({256, 65536, 65537, uint64_t(1) << 32, ~uint64_t(0)}); bool last = drv::coin(); drv::note(std::string("drop_") + (last ? "last " : "first ") + std::to_string(k)); size_t e = std::min(k, r.out.size());
                CHECK((last ? b.output_buffer_drop_last(k) : b.output_buffer_drop_first(k)) == e, "drop"); if (last) r.out.resize(r.out.size() - e); else r.out = r.out.substr(e); compare(b, r); break; }
            case 4: { std::vector<char> buf(icap + 8, 'Z'); size_t L = r.len(), mx = drv::coin() ? icap + 8 : L; drv::note("get_next_line " + std::to_string(mx)); size_t n = b.get_next_line(buf.data(), mx); CHECK(n == (L ? L - 1 : 0), "get_next_line " << n); if (L) { CHECK(std::string(buf.data(), L - 1) == r.in.substr(0, L - 1), "line"); r.in = r.in.substr(L); } compare(b, r); break; }
            default: { size_t L = r.len(); auto t = b.new_transaction(); drv::note("new_transaction"); CHECK(bool(t) == (L > 0), "transaction"); if (!t) break; CHECK(std::string(t->incoming()) == r.in.substr(0, L - 1), "incoming"); auto o = text(large(ocap)); std::string base = r.out;
                drv::note("outgoing '" + show(o) + "'"); size_t e = std::min(o.size(), ocap - base.size()); CHECK(t->outgoing(o) == e, "outgoing"); CHECK(t->outgoing_space_used() == e && t->outgoing_space_left() == ocap - base.size() - e, "outgoing space");
                r.out = base + o.substr(0, e); compare(b, r); if (drv::coin()) { drv::note("abort"); t->abort(); r.out = base; } else { drv::note("commit"); t->commit(); } r.in = r.in.substr(L); compare(b, r); }
        }
    }
    drv::done("random byte arrival, read/write refusal, line and transaction histories on streams with buffers of 1..9 bytes, compared with a reference");
}

// The real stream classes; nothing but their sources and instantiations here.
#include "spine/structure/linebuffer.cpp"
#include "spine/io/stream/buffered_stream.cpp"
#include "spine/io/stream/transaction.cpp"
#include "spine/io/stream/implementations/mock.cpp"
template class spn::structure::RingBuffer<char>;
template class spn::structure::RingBuffer<unsigned char>;
namespace use {
using namespace spn::io;
bool has_line(const spn::structure::LineBuffer& l) { return l.has_line(); }
size_t bw(BufferedStream& s, const std::string_view& v) { return s.buffered_write(v); }
bool bhas(const BufferedStream& s) { return s.has_line(); }
size_t spaces(const BufferedStream& s) { return s.input_buffer_space_left() + s.input_buffer_space_used() + s.output_buffer_space_left() + s.output_buffer_space_used(); }
size_t drops(BufferedStream& s, size_t n) { return s.output_buffer_drop_last(n) + s.output_buffer_drop_first(n); }
void transaction_lifecycle(Transaction& a, Transaction& b) { Transaction c(std::move(a)); b = std::move(c); }
size_t outgoing(Transaction& t, const std::string_view& v) { return t.outgoing(v); }
std::shared_ptr<MockStream> mock(MockStream::Config&& c) { return std::make_shared<MockStream>(std::move(c)); }
bool mw(Stream& s, char c) { return s.write(c); }
}
// calls that leave out the last argument
namespace defaults {
using namespace spn::io;
std::optional<std::string_view> next_line_view(BufferedStream& s) { return s.get_next_line_view(); }
bool drop_line(BufferedStream& s) { return s.drop_next_line(); }
size_t write(BufferedStream& s, uint8_t v) { return s.buffered_write(v); }
size_t write(BufferedStream& s, const char* v, size_t n) { return s.buffered_write(v, n); }
}

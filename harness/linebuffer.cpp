// The real line buffer; nothing but its sources and instantiations here.
#include "spine/structure/linebuffer.cpp"
template class spn::structure::RingBuffer<char>;
bool use_has_line(const spn::structure::LineBuffer& l) { return l.has_line(); }
const std::string_view& use_delimiters(const spn::structure::LineBuffer& l) { return l.delimiters(); }
// calls that leave out the last argument
#include <new>
namespace defaults {
using spn::structure::LineBuffer;
std::optional<std::string_view> next_line_view(LineBuffer& l) { return l.get_next_line_view(); }
bool drop_line(LineBuffer& l) { return l.drop_next_line(); }
void set_delimiters(LineBuffer& l) { l.set_delimiters(); }
void construct(LineBuffer* p, size_t n) { new (p) LineBuffer(n); }
}

// Instantiates the real ring buffer; nothing but instantiations here.
#include "spine/structure/ringbuffer.hpp"
template class spn::structure::RingBuffer<int>;
template class spn::structure::RingBuffer<char>;
template class spn::structure::RingBuffer<unsigned char>;
// calls that leave out the last argument
namespace defaults {
template<class T> bool push(spn::structure::RingBuffer<T>& b, const T& v) { return b.push(v); }
template<class T> size_t push(spn::structure::RingBuffer<T>& b, const T* v, size_t n) { return b.push(v, n); }
template<class T> size_t drop_last(spn::structure::RingBuffer<T>& b) { return b.drop_last(); }
template<class T> size_t drop_first(spn::structure::RingBuffer<T>& b) { return b.drop_first(); }
#define ALL(T) template bool push(spn::structure::RingBuffer<T>&, const T&); template size_t push(spn::structure::RingBuffer<T>&, const T*, size_t); \
    template size_t drop_last(spn::structure::RingBuffer<T>&); template size_t drop_first(spn::structure::RingBuffer<T>&);
ALL(int) ALL(char) ALL(unsigned char)
}

// Instantiates the real containers; nothing but instantiations here.
#include "spine/core/debugging.hpp"
#include "spine/structure/stack.hpp"
namespace spn::structure {
template class ArrayIterator<int>; template class ArrayIterator<const int>; template class ArrayReverseIterator<int>; template class ArrayReverseIterator<const int>;
template Array<int>::Array(size_t); template Array<int>::Array(size_t, int); template Array<int>::Array(const std::initializer_list<int>&); template Array<int>::~Array();
template Array<int>::Array(const Array<int>&); template Array<int>::Array(Array<int>&&) noexcept; template Array<int>& Array<int>::operator=(const Array<int>&); template Array<int>& Array<int>::operator=(Array<int>&&) noexcept; template Array<int>& Array<int>::operator=(const std::initializer_list<int>&) noexcept;
template class Stack<int>; template Array<int>::Array(int (&)[1]); template Array<int>::Array(int (&)[4]); template Vector<int>::Vector(int (&)[1], size_t); template Vector<int>::Vector(int (&)[4], size_t);
}
using A = spn::structure::Array<int>; using V = spn::structure::Vector<int>;
// members of a class template are emitted when used
int use_array(A& a, const A& k, A& b) {
    int x = a.at(0) + a[0] + k[0] + a.front() + a.back() + *a.data() + *k.data() + a.empty() + (int)a.size() + (int)a.max_size(); a.swap(b); a.fill(x);
    (void)a.begin(); (void)a.end(); (void)k.begin(); (void)k.end(); (void)k.cbegin(); (void)k.cend(); (void)a.rbegin(); (void)a.rend(); (void)k.rbegin(); (void)k.rend(); (void)k.crbegin(); (void)k.crend(); return x;
}
int use_vector(V& a, const V& k, V& b, const std::initializer_list<int>& il) {
    int x = 1; a.push_back(x); a.emplace_back(int(x)); a.push_front(x); a.emplace_front(int(x)); a.insert(1, x); x = a.remove(0) + a.pop_back() + a.pop_front() + a.peek_back() + a.peek_front() + a[0] + k[0] + a.at(0) + a.front() + a.back();
    a.clear(); a.fill(x); a = il; a.swap(b); a = std::move(b); V c(4), d(4, 1), e(il), f(std::move(c)); x += (int)a.size() + a.empty() + a.full();
    (void)a.begin(); (void)a.end(); (void)k.begin(); (void)k.end(); (void)k.cbegin(); (void)k.cend(); (void)a.rbegin(); (void)a.rend(); (void)k.rbegin(); (void)k.rend(); (void)k.crbegin(); (void)k.crend(); return x;
}
using B = spn::structure::Array<unsigned char>;
int use_bytes(unsigned char* p, size_t n, unsigned char x) { B a(p, n), b(n); a.fill(x); return a[0] + a.at(0) + (int)a.size() + (int)a.max_size(); }
void copies(V& a, const V& b) { V c(b); a = b; a = c; }

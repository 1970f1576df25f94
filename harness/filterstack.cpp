// Instantiates the real filter stack; a concrete filter is included for the order of the virtual functions.
#include "spine/core/debugging.hpp"
#include <memory>
#include "spine/filter/filterstack.hpp"
#include "spine/filter/implementations/passthrough.hpp"
namespace spn::filter { template class Stack<float>; template class Stack<double>; template class Passthrough<float>; template class Passthrough<double>; }
// the implicit destructor
void destroy(spn::filter::Stack<float>* s) { s->~Stack(); }
void destroy(spn::filter::Stack<double>* s) { s->~Stack(); }

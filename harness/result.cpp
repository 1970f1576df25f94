// Instantiates the real Result for plain payloads (distinct and shared types) and for a payload that is moved from.
#include "spine/core/debugging.hpp"
#include "spine/structure/result.hpp"
namespace h {
struct Err { int code; int line; };
struct Mid { long a; int b; };
struct Tok { // a payload that shows whether it was copied or moved
    long id;
    Tok(long i) : id(i) {}
    Tok(const Tok& o) : id(o.id) {}
    Tok(Tok&& o) noexcept : id(o.id) { o.id = 0; }
    Tok& operator=(const Tok& o) { id = o.id; return *this; }
    Tok& operator=(Tok&& o) noexcept { id = o.id; if (this != &o) o.id = 0; return *this; }
    ~Tok() { id = -1; }
};
using spn::structure::Result;
template<typename T, typename R> struct Fn { R operator()(T) const; }; // any function: known by its contract only
template<typename T, typename E, typename I> struct Use {
    using R = Result<T, E, I>;
    template<typename U> static R error(U&& e) { return R(std::forward<U>(e)); }
    static R copy(R& r) { return r; }
    static R move(R&& r) { return std::move(r); }
    static R assign(R& r, R& o) { r = o; return std::move(r); }
    static R chain(R& r, Fn<I&, R>& f) { return r.chain(f); }
    static auto map(const R& r, Fn<const T&, long>& f) { return r.map(f); }
    static auto map_error(const R& r, Fn<const E&, Mid>& f) { return r.map_error(f); }
    static auto map_intermediary(const R& r, Fn<const I&, long>& f) { return r.map_intermediary(f); }
    static auto and_then(const R& r, Fn<const T&, Result<long, E, I>>& f) { return r.and_then(f); }
    static auto or_else(const R& r, Fn<const E&, Result<T, Mid, I>>& f) { return r.or_else(f); }
    static auto match(const R& r, Fn<const T&, long>& f, Fn<const E&, long>& g, Fn<const I&, long>& k) { return r.match(f, g, k); }
    static T unwrap_or_else(const R& r, Fn<int, T>& f) { struct G { Fn<int, T>& f; T operator()() { return f(0); } } g{f}; return r.unwrap_or_else(g); }
};
}
namespace spn::structure {
template class Result<long, h::Err, h::Mid>;
template class Result<long>;
template class Result<long, h::Err>;
template class Result<h::Tok, h::Err, long>;
template class Result<h::Tok, long, h::Mid>;
}
template struct h::Use<long, h::Err, h::Mid>;
template struct h::Use<long, long, long>;
template struct h::Use<long, h::Err, long>;
template struct h::Use<h::Tok, h::Err, long>;
template struct h::Use<h::Tok, long, h::Mid>;
template h::Use<long, h::Err, long>::R h::Use<long, h::Err, long>::error<h::Err&>(h::Err&);
template h::Use<long, h::Err, long>::R h::Use<long, h::Err, long>::error<const h::Err>(const h::Err&&);
template h::Use<h::Tok, long, h::Mid>::R h::Use<h::Tok, long, h::Mid>::error<long&>(long&);

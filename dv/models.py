"""Assumed contracts of library functions outside /repo (reported as trusted in the evidence)."""
import re
from .ir import *
from .term import *
from .exec import *

class Model:
    def __init__(s, pat, title, fn): s.pat, s.title, s.fn = re.compile(pat), title, fn
MODELS = []
def model(pat, title=None):
    def d(f): MODELS.append(Model(pat, title or f.__doc__ or pat, f)); return f
    return d
_cache = {}
def lookup(name, dem):
    if name in _cache: return _cache[name]
    r = None
    for m in MODELS:
        if m.pat.fullmatch(dem) or m.pat.fullmatch(name): r = m; break
    _cache[name] = r
    return r

@model(r"malloc", "malloc(n): fresh block of n bytes with arbitrary contents; never fails")
def _malloc(e, st, name, a, rty):
    if e.heap_hint is None: raise Unsupported("malloc of unknown element type")
    if callable(e.heap_hint):
        h = e.heap_hint(e, st, a[0])
        if h is None: raise Unsupported("malloc of unknown element type")
        if isinstance(h, Ptr): return h
        es, tags = h
    else: es, tags = e.heap_hint[:2]
    q = divide_out(a[0], es)
    cnt = q if q is not None else div(a[0], es)
    r = Region("heap", a[0], [Part(0, es, cnt, tags)], kind="heap")
    if not callable(e.heap_hint) and len(e.heap_hint) > 2: r.ptr_family.update(e.heap_hint[2])
    st.mem[r] = Content()
    st.ghost["heap_live"] = st.ghost.get("heap_live", ()) + (r,)
    return Ptr(r)
@model(r"free", "free(p): releases a live heap block; p may be null")
def _free(e, st, name, a, rty):
    p = a[0]
    if p.r.kind == "null": return None
    if e.free_hook and e.free_hook(e, st, p): return None
    e.oblige(st, "free: block is live", p.r not in st.freed)
    e.oblige(st, "free: pointer to the start of an owned heap block", conj(p.r.kind == "heap" or p.r.__dict__.get("heapblock", False), eq(p.off(), 0)))
    st.freed = st.freed | {p.r}
    return None
@model(r"__cxa_throw|__cxa_rethrow|abort|std::terminate.*|std::__throw_.*|__cxa_pure_virtual|_Unwind_Resume|__clang_call_terminate|exit|_exit", "abnormal termination")
def _abort(e, st, name, a, rty):
    e.oblige(st, "no abnormal termination (%s)" % short(e.mod.dem.get(name, name)), True if e.may_throw else getattr(e.cur_ctx, "throws", False))
    return []
@model(r"__cxa_allocate_exception", "exception allocation")
def _exc(e, st, name, a, rty):
    e.oblige(st, "no exception is thrown", bool(e.may_throw)); return []

@model(r"std::basic_string_view<char, std::char_traits<char> >::find\(char, unsigned long\) const", "std::string_view::find(char, pos): first position >= pos holding the character, or npos")
def _sv_find(e, st, name, a, rty):
    n = e.load(st, a[0], INT(64)); p = e.load(st, a[0].plus(8), PTR); ch, pos = a[1], a[2]
    NP = 2 ** 64 - 1
    r = fint("find"); st.assume(z3.And(r >= 0, r <= NP))
    if p.r.kind == "null": st.assume(r == NP); return r
    fn = e.field_fn(st, p, INT(8)); i0 = e.index_of(p)[1]
    at = lambda k: fn(add(i0, k))
    st.assume(disj(eq(r, NP), conj(le(pos, r), lt(r, n), eq(at(r), ch))))
    cont = p.r.__dict__.get("contains")
    if cont and isc(pos) and pos == 0 and e.pr.quick_valid(st.pc, B(conj(eq(i0, 0), eq(n, cont[1])))):
        st.assume(eq(ne(r, NP), cont[0](I(ch))))
    else:
        k = z3.Int(fresh_name("q"))
        st.assume(z3.ForAll([k], B(imp(conj(le(pos, k), lt(k, n), lt(k, r)), ne(at(k), ch)))))
    return r
@model(r".* std::_V2::rotate<(.*)\*>\(.*\)", "std::rotate(first, middle, last): rotates the elements left by middle-first")
def _rotate(e, st, name, a, rty):
    f, m, l = a
    i, lo, _ = e.index_of(f); mi, hi = e.index_of(m)[1], e.index_of(l)[1]
    e.oblige(st, "rotate: valid range", conj(f.r is m.r and f.r is l.r, le(lo, mi), le(mi, hi), le(0, lo), le(hi, f.r.parts[i].count)))
    sh, n = sub(mi, lo), sub(hi, lo)
    for fo, tag in list(f.r.parts[i].tags.items()):
        old = e.field_fn(st, Ptr(f.r, f.r.parts[i].base + fo))
        def new(k, old=old):
            j = add(k, sh)
            return ite(conj(le(lo, k), lt(k, hi)), ite(lt(j, hi), old(j), old(sub(j, n))), old(k))
        st.stores = st.stores + ((f.r, (i, fo), None, None),)
        st.mem[f.r] = st.content(f.r).part((i, fo), new)
    return f.plus(0, [(f.r.parts[i].es, sub(hi, mi))])
@model(r"operator new\(unsigned long\)", "operator new(n): fresh block of n bytes with arbitrary contents; never fails")
def _new(e, st, name, a, rty):
    if not isc(a[0]):
        return _malloc(e, st, name, a, rty)
    q = e.new_hook(e, st, a[0]) if e.new_hook else None
    if q is not None: return q
    r = Region("new", a[0], kind="heap", init="undef"); st.mem[r] = Content()
    st.ghost["heap_live"] = st.ghost.get("heap_live", ()) + (r,)
    return Ptr(r)
@model(r"operator delete\(void\*(?:, unsigned long)?\)", "operator delete(p): releases a live heap block; p may be null")
def _delete(e, st, name, a, rty): return _free(e, st, name, a, rty)
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
def real_pow(a, b): return POW(R(a), R(b))
@model(r"powf?", "pow(10, x): a positive function of x; pow(x, 2) = x*x")
def _pow(e, st, name, a, rty):
    if e.fp != "real": raise Unsupported("pow in machine floating point")
    if z3.is_rational_value(a[1]) and a[1].as_fraction() == 2: return R(a[0]) * R(a[0])
    v = real_pow(a[0], a[1])
    if z3.is_rational_value(a[0]) and a[0].as_fraction() > 0: st.assume(v > 0)
    return v

"""Contracts for the string utilities (core/utils/string) and StaticString (structure/static_string).

A text is a std::string_view {length, data} over an arbitrary byte region.  std::string is used on its real libstdc++
layout {data, length, capacity | local buffer}; its out-of-line members (construction, resize) and memcmp, strtof are
assumed library contracts."""
from dv.contracts import *
from dv.models import model
from dv.exec import Agg
from .linebuffer import delim_region

import re
SV = "std::basic_string_view<char, std::char_traits<char> >"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
U = "spn::core::utils::"
S = "spn::structure::StaticString"
MAX = 2 ** 40
E = re.escape

# ---------------------------------------------------------------------------------------------------- library contracts
def bytes_at(e, st, p):
    fn = e.field_fn(st, p, INT(8)); i0 = e.index_of(p)[1]
    return lambda k: fn(add(i0, k))
@model(r"memcmp", "memcmp(a, b, n): zero exactly when the n bytes are equal")
def _memcmp(e, st, name, a, rty):
    p, q, n = a
    z = z3.Int(fresh_name("memcmp")); w = z3.Int(fresh_name("differ")); st.assume(z3.And(z >= 0, z < 2 ** 32))
    if isc(n) and n == 0: st.assume(z == 0); return z
    e.oblige(st, "memcmp: both ranges are valid", conj(*[valid(e, x, n) for x in (p, q)]))
    if NULLR in (p.r, q.r): st.assume(z == 0); return z
    f, g = bytes_at(e, st, p), bytes_at(e, st, q); k = z3.Int(fresh_name("q"))
    st.assume(z3.ForAll([k], B(imp(conj(eq(z, 0), le(0, k), lt(k, n)), eq(f(k), g(k))))))
    st.assume(disj(eq(z, 0), conj(le(0, w), lt(w, n), ne(f(w), g(w)))))
    return z
def valid(e, p, n):
    """bytes [p, p+n) lie in p's byte array (or n is 0)"""
    if p.r.kind == "null": return eq(n, 0)
    i, lo, _ = e.index_of(p); return conj(le(0, lo), le(add(lo, n), p.r.parts[i].count))
@model(r"strtof", "strtof(text, &end): reads a number from the null-terminated text; end is behind the characters it used, or at text if there is no number")
def _strtof(e, st, name, a, rty):
    p, end = a; n = p.r.__dict__.get("nul")
    if n is None: e.oblige(st, "strtof: the text is null-terminated", False); n = 0
    used = fint("used"); st.assume(z3.And(used >= 0)); st.assume(le(used, n))
    e.store(st, end, p.plus(0, [(1, used)]), PTR)
    v = e.fresh_fp(FLOAT, "strtof"); st.ghost["strtof"] = st.ghost.get("strtof", ()) + ((bytes_at(e, st, p), n, used, v),)
    return v
@model(E(STR) + r"::basic_string<" + E(SV) + r", void>\(" + E(SV) + r" const&, std::allocator<char> const&\)", "std::string(view): a fresh null-terminated copy of the bytes viewed")
def _str_sv(e, st, name, a, rty):
    n = e.load(st, a[1], INT(64)); p = e.load(st, a[1].plus(8), PTR)
    r = Region("string", add(n, 1), [Part(0, 1, add(n, 1), {0: ("int", 8)})], kind="heap"); r.nul = n
    src = (lambda k: 0) if p.r.kind == "null" else bytes_at(e, st, p)
    if p.r.kind != "null": e.oblige(st, "string: the view is valid", valid(e, p, n))
    r.lazy[(0, 0, 0)] = lambda k: ite(lt(k, n), src(k), 0)
    st.mem[r] = Content()
    e.store(st, a[0], Ptr(r), PTR); e.store(st, a[0].plus(8), n, INT(64)); return None
@model(E(STR) + r"::~basic_string\(\)", "the destructor of std::string releases its own storage only")
def _str_d(e, st, name, a, rty): return None

def chars(name, count, nul=None):
    r = Region(name, count, [Part(0, 1, count, {0: ("int", 8)})]); r.nul = nul; return r
@model(E(STR) + r"::_M_construct\(unsigned long, char\)", "std::string(n, ch): n characters ch, null-terminated, in storage for at least n characters")
def _construct(e, st, name, a, rty):
    me, n, ch = a; out = []
    e.oblige(st, "string: possible length", le(n, 2 ** 62))
    for local in (True, False):
        s2 = st.fork(); s2.assume(le(n, 15) if local else lt(15, n))
        if not e.pr.feasible(s2.pc): continue
        if local: p = me.plus(16)
        else:
            cap = fint("capacity"); s2.assume(z3.And(cap >= 0)); s2.assume(conj(le(n, cap), lt(cap, 2 ** 62)))
            r = chars("storage", add(cap, 1)); s2.mem[r] = Content(); p = Ptr(r); e.store(s2, me.plus(16), cap, INT(64))
        e.store(s2, me, p, PTR); e.store(s2, me.plus(8), n, INT(64)); fill(e, s2, p, 0, n, ch)
        out.append((s2, None))
    return out
def fill(e, st, p, lo, hi, ch):
    """characters [lo, hi) become ch and the one behind them NUL"""
    r, key, tag = e.field_key(p); i0 = e.index_of(p)[1]; old = e.field_fn(st, p, INT(8))
    new = lambda k: ite(conj(le(add(i0, lo), k), lt(k, add(i0, hi))), ch, ite(eq(k, add(i0, hi)), 0, old(k)))
    st.stores = st.stores + ((r, key, None, None),); st.mem[r] = st.content(r).part(key, new)
@model(E(STR) + r"::resize\(unsigned long, char\)", "std::string::resize(n, ch): within the capacity the storage stays, new characters are ch")
def _resize(e, st, name, a, rty):
    me, n, ch = a; p = e.load(st, me, PTR); o = e.load(st, me.plus(8), INT(64))
    e.oblige(st, "resize: no reallocation", le(n, capacity(e, st, me)))
    fill(e, st, p, ite(lt(o, n), o, n), n, ch); e.store(st, me.plus(8), n, INT(64)); return None
def capacity(e, st, me):
    p = e.load(st, me, PTR)
    return 15 if p.r is me.r else e.load(st, me.plus(16), INT(64))

# ---------------------------------------------------------------------------------------------------------------- views
class Text:
    def __init__(s, n, p, at): s.n, s.p, s.at = n, p, at
def view_region(c, name, p, n):
    r = Region(name + ".view", 16); c.st.mem[r] = Content(); q = Ptr(r)
    c.eng.store(c.st, q, n, INT(64)); c.eng.store(c.st, q.plus(8), p, PTR); return q
def text_arg(c, name):
    """any text: `n` bytes anywhere inside a byte array (not null-terminated)"""
    n = c.i(name + ".size", hi=MAX); o = c.i(name + ".offset", hi=MAX); more = c.i(name + ".rest", hi=MAX)
    return n, Ptr(chars(name, add(o, add(n, more)))).plus(0, [(1, o)])
def text(e, st, p):
    n = e.load(st, p, INT(64)); d = e.load(st, p.plus(8), PTR); return Text(n, d, bytes_at(e, st, d))
class SB(Contract):
    sig = None
    def __init__(s): s.attach = s.sig
def byref(c, name): n, p = text_arg(c, name); return view_region(c, name, p, n)
def delims(c):
    r, n = delim_region(c); r.name = "delimiters"; return Ptr(r), n
def one_of(text): return lambda ch: disj(*[eq(ch, ord(x)) for x in text])
def isd(e, st, p, n=None):
    """which characters are delimiters"""
    if "contains" in p.r.__dict__: return p.r.contains[0]
    at = bytes_at(e, st, p)
    if not isc(n) or n > 64 or not all(isc(at(k)) for k in range(n)): raise Unsupported("delimiters that are neither given by the caller nor a literal")
    return one_of("".join(chr(at(k)) for k in range(n)))
WHITE = " \f\n\r\t\v"
def whitespace(c):
    r = Region("whitespace", len(WHITE)); c.st.mem[r] = Content(); r.contains = (one_of(WHITE), len(WHITE)); return [len(WHITE), Ptr(r)]
def whitespace_ref(c): n, p = whitespace(c); return [view_region(c, "whitespace", p, n)]

SVF = r"std::basic_string_view<char, std::char_traits<char> >::find_(?:first|last)_(?:not_)?of"
def search(e, st, name, a, member):
    """find_{first,last}_[not_]of: the position nearest to the given end, at or behind / before pos, whose character is (not) in the set"""
    dem = e.mod.dem.get(name, name); last, inv = "find_last" in dem, "_not_of" in dem; pos = a[-1]
    n, p = e.load(st, a[0], INT(64)), e.load(st, a[0].plus(8), PTR); NP = 2 ** 64 - 1; r = fint("found"); st.assume(z3.And(r >= 0, r <= NP))
    if p.r is NULLR: st.assume(r == NP); return r
    at = bytes_at(e, st, p); hit = (lambda k: no(member(I(at(k))))) if inv else (lambda k: B(member(I(at(k))))); end = ite(lt(pos, n), add(pos, 1), n); k = z3.Int(fresh_name("q"))
    st.assume(B(disj(eq(r, NP), conj(lt(r, end) if last else conj(le(pos, r), lt(r, n)), hit(r)))))
    rng = conj(le(0, k), lt(k, end), disj(eq(r, NP), lt(r, k))) if last else conj(le(pos, k), lt(k, n), lt(k, r))
    st.assume(z3.ForAll([k], B(imp(rng, no(hit(k)))))); return r
@model(SVF + r"\(std::basic_string_view<char, std::char_traits<char> >, unsigned long\) const", "std::string_view::find_{first,last}_[not_]of(set, pos): first / last position at or behind / before pos whose character is (not) in the set, or npos")
def _sv_search(e, st, name, a, rty): return search(e, st, name, a, isd(e, st, a[2], a[1]))
@model(SVF + r"\(char, unsigned long\) const", "the same for a single character")
def _sv_search1(e, st, name, a, rty): return search(e, st, name, a, lambda ch: eq(ch, a[1]))
class Strip(SB):
    """(size, data) of the result against the stripped text"""
    def setup(s, c):
        d, n = delims(c); return [byref(c, "text"), view_region(c, "delimiters", d, n)]
    def post(s, c):
        e = c.eng; t = text(e, c.old, c.args[0]); d = isd(e, c.old, e.load(c.old, c.args[1].plus(8), PTR), e.load(c.old, c.args[1], INT(64))); D = lambda k: d(I(t.at(k)))
        if c.mode == "use": c.ret = Agg([fint("size"), t.p.plus(0, [(1, fint("offset"))])])
        n, p = c.ret.v
        good = isinstance(p, Ptr) and p.r is t.p.r
        c.ensures("the result views the same text", good)
        if not good: return
        off = sub(p.off(), t.p.off())
        s.result(c, t, n, off, D)
    def text(s, L): return text(L.eng, L.entry, L.args[0])
class LStrip(Strip):
    sig = U + r"lstrip\(" + E(SV) + " const&, " + E(SV) + r" const&\)"
    def result(s, c, t, n, off, D):
        c.ensures("only a beginning is removed", conj(le(0, off), eq(add(off, n), t.n), le(0, n)))
        c.ensures_all("everything removed is a delimiter", lambda k: D(k), 0, off)
        c.ensures("the result does not begin with a delimiter", imp(gt(n, 0), no(D(off))))
    def loop(s, L):
        t = s.text(L); d = isd(L.eng, L.entry, L.eng.load(L.entry, L.args[1].plus(8), PTR))
        L.inv("stays inside the text", le(L.n, t.n))
        L.forall("delimiters so far", lambda k: d(I(t.at(k))), 0, L.n)
class RStrip(Strip):
    sig = U + r"rstrip\(" + E(SV) + " const&, " + E(SV) + r" const&\)"
    def result(s, c, t, n, off, D):
        c.ensures("only an end is removed", conj(eq(off, 0), le(0, n), le(n, t.n)))
        c.ensures_all("everything removed is a delimiter", lambda k: D(k), n, t.n)
        c.ensures("the result does not end with a delimiter", imp(gt(n, 0), no(D(sub(n, 1)))))
    def loop(s, L):
        t = s.text(L); d = isd(L.eng, L.entry, L.eng.load(L.entry, L.args[1].plus(8), PTR))
        L.inv("stays inside the text", le(L.n, t.n))
        L.forall("delimiters so far", lambda k: d(I(t.at(k))), sub(t.n, L.n), t.n)
def same(t, o, u, n): k = z3.Int(fresh_name("q")); return z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), eq(t.at(add(o, k)), u.at(k)))))
class StartsWith(SB):
    sig = U + r"starts_with\(.*\)"
    def setup(s, c): return [byref(c, "text"), byref(c, "needle")]
    def post(s, c):
        t, u = [text(c.eng, c.old, a) for a in c.args]
        c.ensures("true exactly if the text begins with the needle", eq(c.ret, z3.And(B(le(u.n, t.n)), same(t, s.at(t, u), u, u.n))))
    def at(s, t, u): return 0
class EndsWith(StartsWith):
    sig = U + r"ends_with\(.*\)"
    def at(s, t, u): return sub(t.n, u.n)
class FindFirst(SB):
    sig = U + r"find_first_of\(.*\)"
    def setup(s, c):
        d, n = delims(c); return [byref(c, "text"), view_region(c, "delimiters", d, n)]
    def post(s, c):
        e = c.eng; t = text(e, c.old, c.args[0]); d = isd(e, c.old, e.load(c.old, c.args[1].plus(8), PTR)); D = lambda k: d(I(t.at(k)))
        found = lt(c.ret, t.n)
        c.ensures("a position in the text or npos", disj(found, eq(c.ret, 2 ** 64 - 1)))
        c.ensures("the position holds a delimiter", imp(found, D(c.ret)))
        c.ensures_all("no delimiter before it", lambda k: no(D(k)), 0, ite(found, c.ret, t.n))
    def loop(s, L):
        t = text(L.eng, L.entry, L.args[0]); d = isd(L.eng, L.entry, L.eng.load(L.entry, L.args[1].plus(8), PTR))
        L.inv("stays inside the text", le(L.n, t.n))
        NP = 2 ** 64 - 1; found = [v for nm, v0, v in L.vals if isc(v0) and v0 == NP]      # a result that is kept while the search goes on
        if found: L.inv("what was found is a delimiter", disj(eq(found[0], NP), conj(lt(found[0], t.n), d(I(t.at(found[0]))))))
        L.forall("no delimiter so far", lambda k: no(d(I(t.at(k)))), 0, ite(eq(found[0], NP), L.n, found[0]) if found else L.n)
class ToFloat(SB):
    sig = U + r"to_float\(.*\)"
    def setup(s, c): return [byref(c, "text")]
    def pre(s, c):
        t = text(c.eng, c.st, c.args[0]); c.requires_all("the text holds no NUL", lambda k: ne(t.at(k), 0), 0, t.n)
    def post(s, c):
        t = text(c.eng, c.old, c.args[0]); calls = c.st.ghost.get("strtof", ())
        c.ensures("the text is read once", len(calls) == 1)
        if len(calls) != 1: return
        at, n, used, v = calls[0]
        c.ensures("exactly the bytes viewed are read", eq(n, t.n)); c.ensures_all("the bytes viewed are read", lambda k: eq(at(k), t.at(k)), 0, t.n)
        c.ensures("the number if the whole text is one, 0 otherwise", ident(c.ret, z3.If(B(conj(gt(used, 0), eq(used, n))), v, c.eng.fpconst(FLOAT, "0.0"))))
def utils(): return [k() for k in (LStrip, RStrip, StartsWith, EndsWith, FindFirst, ToFloat)]

# --------------------------------------------------------------------------------------------------------- StaticString
class SS:
    """a StaticString: {data, length, local buffer | capacity} on the real layout of std::string"""
    def __init__(s, eng, p): s.eng, s.p, s.region = eng, p, p.r
    def size(s, st): return s.eng.load(st, s.p.plus(8), INT(64))
    def data(s, st): return s.eng.load(st, s.p, PTR)
    def cap(s, st): return capacity(s.eng, st, s.p)
    def at(s, st): return bytes_at(s.eng, st, s.data(st))
    def inv(s, st):
        n = s.size(st); return conj(le(n, s.cap(st)), eq(s.at(st)(n), 0))
def sstring(c, variant, full=True):
    e = c.eng
    if variant == "short":
        r = Region("this", 32, [Part(16, 1, 16, {0: ("int", 8)})]); c.st.mem[r] = Content(); p = Ptr(r); d = p.plus(16)
    else:
        r = Region("this", 32); c.st.mem[r] = Content(); p = Ptr(r); cap = c.i("capacity", lo=16, hi=MAX)
        e.store(c.st, p.plus(16), cap, INT(64)); st = chars("storage", add(cap, 1)); c.st.mem[st] = Content(); d = Ptr(st)
    e.store(c.st, p, d, PTR); e.store(c.st, p.plus(8), c.i("size", hi=MAX), INT(64)); return p
class SBase(SB):
    variants = ("short", "long"); member = None
    def setup(s, c): return [sstring(c, c.variant)] + s.params(c)
    def params(s, c): return []
    def me(s, c): return SS(c.eng, c.args[0])
    def pre(s, c): c.requires("well-formed", s.me(c).inv(c.st)); s.pre2(c)
    def pre2(s, c): pass
    def keeps(s, c, n, at, name):
        """the string is now the n characters at(k), in the same storage"""
        m = s.me(c); d = m.data(c.st)
        if c.mode == "use":
            junk = fun("stale"); fn = lambda k: ite(lt(k, n), at(k), ite(eq(k, n), 0, junk(I(k)))); c.st.assume(conj(le(0, n), le(n, m.cap(c.old)))); _, key, _t = c.eng.field_key(d); i0 = c.eng.index_of(d)[1]
            c.st.mem[d.r] = c.st.content(d.r).part(key, lambda k: fn(sub(k, i0))); c.sets("size", m.p.plus(8), INT(64), n); return
        c.sets("size", m.p.plus(8), INT(64), n); c.touch(m.data(c.old).r) if m.data(c.old).r is not m.region else c.touch(m.region, 16, 32)
        c.ensures("the storage stays", isinstance(d, Ptr) and c.eng.ptr_eq(c.st, d, m.data(c.old)))
        c.ensures("capacity stays", eq(m.cap(c.st), m.cap(c.old)))
        c.ensures_all(name, lambda k: eq(m.at(c.st)(k), at(k)), 0, n); c.ensures("null-terminated", eq(m.at(c.st)(n), 0))
def sat(c, m): return m.at(c.old)
class SCtor(SB):
    sig = E(S) + r"::StaticString\(unsigned long\)"
    def setup(s, c):
        r = Region("this", 32, [Part(16, 1, 16, {0: ("int", 8)})], init="undef"); c.st.mem[r] = Content()
        return [Ptr(r), c.i("buffer_length", hi=MAX)]
    def post(s, c):
        m = SS(c.eng, c.args[0]); c.touch(m.region); c.touch(m.data(c.st).r); n = m.size(c.st)
        c.ensures("room for at least the length asked for, all of it in the string", conj(le(c.args[1], m.cap(c.st)), eq(n, m.cap(c.st))))
        c.ensures_all("zero-initialised", lambda k: eq(m.at(c.st)(k), 0), 0, add(n, 1))
class SetSize(SBase):
    sig = E(S) + r"::set_size\(unsigned long\)"
    def params(s, c): return [c.i("n")]
    def new(s, c):
        m = s.me(c); cap = m.cap(c.old); n = ite(lt(c.args[1], cap), c.args[1], cap); o = m.size(c.old); a = sat(c, m)
        return n, lambda k: ite(lt(k, o), a(k), 0)
    def post(s, c): n, a = s.new(c); s.keeps(c, n, a, "kept characters stay, new ones are zero")
class Data(SetSize):
    sig = E(S) + r"::data\(unsigned long\)"
    def post(s, c):
        m = s.me(c); n, a = s.new(c); o = m.size(c.old); z = gt(c.args[1], 0)
        s.keeps(c, ite(z, n, o), a, "kept characters stay, new ones are zero"); c.returns(m.data(c.old), "returns the storage")
class SStrip(SBase):
    def params(s, c): d, n = delims(c); return [n, d]
    def D(s, L, old):
        m = SS(L.eng, L.args[0]); at = m.at(old); d = isd(L.eng, old, L.args[2], L.args[1]); return m, lambda k: d(I(at(k)))
    def post(s, c):
        m, D = s.D(c, c.old); n0 = m.size(c.old); n1 = fint("size") if c.mode == "use" else m.size(c.st); at = sat(c, m); cut = sub(n0, n1)
        c.ensures("nothing is added", le(n1, n0)); c.returns(c.args[0], "returns the string")
        lo, hi, edge, sh = s.parts(n0, n1, cut)
        c.ensures_all("everything removed is a delimiter", D, lo, hi)
        c.ensures("nothing more to strip", imp(gt(n1, 0), no(D(edge))))
        s.keeps(c, n1, lambda k: at(add(sh, k)), "the rest of the characters stay")
class SLStrip(SStrip):
    sig = E(S) + r"::lstrip\(.*\)"
    def parts(s, n0, n1, cut): return 0, cut, cut, cut
    def loop(s, L):
        m, D = s.D(L, L.entry); L.inv("stays inside the string", le(L.n, m.size(L.entry)))
        L.forall("delimiters so far", D, 0, L.n)
class SRStrip(SStrip):
    sig = E(S) + r"::rstrip\(.*\)"
    def parts(s, n0, n1, cut): return n1, n0, sub(n1, 1), 0
    def loop(s, L):
        m, D = s.D(L, L.entry); n = m.size(L.entry); L.inv("stays inside the string", le(L.n, n))
        L.forall("delimiters so far", D, sub(n, L.n), n)
class SStarts(SBase):
    sig = E(S) + r"::starts_with\(.*\) const"
    def params(s, c): return list(text_arg(c, "needle"))
    def post(s, c):
        m = s.me(c); t = Text(m.size(c.old), m.data(c.old), m.at(c.old)); u = Text(c.args[1], c.args[2], bytes_at(c.eng, c.old, c.args[2]))
        c.ensures("true exactly if the text begins with the needle", eq(c.ret, z3.And(B(le(u.n, t.n)), same(t, s.off(t, u), u, u.n))))
    def off(s, t, u): return 0
class SEnds(SStarts):
    sig = E(S) + r"::ends_with\(.*\) const"
    def off(s, t, u): return sub(t.n, u.n)
class Size(SBase):
    sig = E(S) + r"::size\(\) const"
    def post(s, c): c.returns(s.me(c).size(c.old), "size")
class Cap(SBase):
    sig = E(S) + r"::capacity\(\) const"
    def post(s, c): c.returns(s.me(c).cap(c.old), "capacity")
class CStr(SBase):
    sig = E(S) + r"::c_str\(\) const"
    def post(s, c): c.returns(s.me(c).data(c.old), "the storage")
class SView(SBase):
    sig = E(S) + r"::view\(\) const"
    def post(s, c):
        m = s.me(c); n, p = c.ret.v
        c.ensures("views exactly the string", conj(eq(n, m.size(c.old)), c.eng.ptr_eq(c.st, p, m.data(c.old))))
def static(): return [k() for k in (SCtor, SetSize, Data, SLStrip, SRStrip, SStarts, SEnds, Size, Cap, CStr, SView)]
DEF = r"defaults::%s\(" + E(S) + r"&\)"
DLStrip = defaulted(LStrip, r"defaults::lstrip\(" + E(SV) + r" const&\)", whitespace_ref); DRStrip = defaulted(RStrip, r"defaults::rstrip\(" + E(SV) + r" const&\)", whitespace_ref)
DSLStrip = defaulted(SLStrip, DEF % "lstrip", whitespace); DSRStrip = defaulted(SRStrip, DEF % "rstrip", whitespace); DData = defaulted(Data, DEF % "data", [0])
def default_arguments():
    from . import timetext      # model of strlen of a literal
    return [k() for k in (DLStrip, DRStrip, DSLStrip, DSRStrip, DData)]
class Concat(Contract):
    """concat of literals of these sizes (terminators included): their characters in order, and a terminator"""
    def __init__(s, name, *sizes): s.sizes = sizes; s.attach = r"join::" + name + r"\(.*\)"
    def setup(s, c):
        out = Region("result", 1 + sum(n - 1 for n in s.sizes)); c.st.mem[out] = Content(); ps = [Ptr(out)]
        for i, n in enumerate(s.sizes):
            r = Region("text%d" % i, n); c.st.mem[r] = Content(); ps.append(Ptr(r))
            for k in range(n): c.eng.store(c.st, Ptr(r, k), c.i("text%d[%d]" % (i, k), 8), INT(8))
        return ps
    def post(s, c):
        if c.mode == "use": raise Unsupported("use of a concatenation")
        e = c.eng; c.touch(c.args[0].r); k = 0
        for i, n in enumerate(s.sizes):
            for j in range(n - 1): c.ensures("character %d of text %d follows" % (j, i), eq(e.load(c.st, c.args[0].plus(k), INT(8)), e.load(c.old, c.args[1 + i].plus(j), INT(8)))); k += 1
        c.ensures("a terminator ends it", eq(e.load(c.st, c.args[0].plus(k), INT(8)), 0))
def joins(): return [Concat("none"), Concat("one", 20), Concat("two", 20, 3), Concat("empty_first", 1, 19), Concat("empty_last", 18, 1), Concat("three", 3, 9, 14), Concat("four", 9, 2, 7, 17), Concat("made", 14, 7)]
def strings(): return utils() + static() + joins()

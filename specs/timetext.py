"""Contracts for the text representation of times (core/utils/time_repr): parse_time and repr."""
import re
from dv.contracts import *
from dv.models import model, MODELS, _cache
from . import strings as S, units as U
from .strings import SV, STR, E, bytes_at, valid, text_arg
from .units import sg, un, nearest, fits, MAG

UNITS = [("us", "Micro"), ("ms", "Milli"), ("s", "Base"), ("m", "Minute"), ("h", "Hour"), ("d", "Day")]
BIG = 2 ** 63 - 1

def cstr(e, st, p):
    at = bytes_at(e, st, p); out = []
    for k in range(4096):
        ch = at(k)
        if not isc(ch): raise Unsupported("text that is not a literal")
        if ch == 0: return bytes(out).decode("latin1")
        out.append(ch)
@model(r"strlen", "strlen of a literal")
def _strlen(e, st, name, a, rty): return len(cstr(e, st, a[0]))
@model(E(SV) + r"::find_first_not_of\(char const\*, unsigned long\) const", "std::string_view::find_first_not_of(set, pos): first position >= pos holding a character outside the set, or npos")
def _ffno(e, st, name, a, rty):
    n = e.load(st, a[0], INT(64)); p = e.load(st, a[0].plus(8), PTR); cs = cstr(e, st, a[1]); pos = a[2]; NP = 2 ** 64 - 1
    at = bytes_at(e, st, p); inset = lambda ch: disj(*[eq(ch, ord(c)) for c in cs])
    r = fint("position"); k = z3.Int(fresh_name("q")); st.assume(z3.And(r >= 0, r <= NP))
    st.assume(disj(eq(r, NP), conj(le(pos, r), lt(r, n), no(inset(at(r))))))
    st.assume(z3.ForAll([k], B(imp(conj(le(pos, k), lt(k, n), lt(k, r)), inset(at(k))))))
    return r
@model(r"snprintf", "snprintf(buf, size, format, ...): writes at most size bytes including the final NUL and returns the length of the whole formatted text")
def _snprintf(e, st, name, a, rty):
    buf, size, fmt = a[:3]; f = cstr(e, st, fmt); args = a[3:]
    lo = hi = 0; ai = 0; spec = []
    for tok in re.findall(r"%0?\d*l?l?[diusx]|%%|.", f, re.S):
        if tok == "%%" or not tok.startswith("%"): lo += 1; hi += 1; continue
        if tok == "%": raise Unsupported("format " + f)
        if tok.endswith("s"):
            try: t = cstr(e, st, args[ai]); lo += len(t); hi += len(t)
            except Unsupported: t = args[ai]; hi += 2 ** 24
            spec.append(t)
        else: w = int(re.sub(r"\D", "", tok) or 1); lo += w; hi += max(20, w); spec.append(args[ai])
        ai += 1
    n = fint("formatted"); st.assume(z3.And(n >= lo, n <= hi)); put_text(e, st, buf, size, n, (f, tuple(spec)), "printf")
    return n
def put_text(e, st, buf, size, n, what, kind):
    """the text formatted, n characters, cut off at size - 1 and null-terminated, is in the buffer"""
    T = fun("formatted.char")
    e.oblige(st, "%s: the buffer has the size given" % kind, valid(e, buf, size))
    r, key, tag = e.field_key(buf); i0 = e.index_of(buf)[1]; old = e.field_fn(st, buf, INT(8)); last = ite(lt(n, size), n, sub(size, 1))
    new = lambda k: ite(conj(le(i0, k), lt(k, add(i0, last))), T(I(sub(k, i0))), ite(conj(gt(size, 0), eq(k, add(i0, last))), 0, old(k)))
    st.stores = st.stores + ((r, key, None, None),); st.mem[r] = st.content(r).part(key, new)
    st.ghost["texts"] = st.ghost.get("texts", ()) + ((kind,) + what + (n, T),)
    if kind == "printf": st.ghost["printf"] = st.ghost.get("printf", ()) + (what + (n, T),)
@model(E(STR) + r"::basic_string\(char const\*, unsigned long, std::allocator<char> const&\)", "std::string(text, n): a fresh null-terminated copy of n bytes")
def _str_pn(e, st, name, a, rty):
    me, p, n = a[:3]; e.oblige(st, "string: the bytes are valid", valid(e, p, n)); src = bytes_at(e, st, p)
    r = Region("string", add(n, 1), [Part(0, 1, add(n, 1), {0: ("int", 8)})], kind="heap"); r.nul = n; r.scratch = True
    r.lazy[(0, 0, 0)] = lambda k: ite(lt(k, n), src(k), 0); st.mem[r] = Content()
    e.store(st, me, Ptr(r), PTR); e.store(st, me.plus(8), n, INT(64)); return None

class Parse(Contract):
    attach = r"spn::core::utils::parse_time\(" + E(SV) + r"\)"
    def setup(s, c):
        out = Region("result", 24, init="undef"); c.st.mem[out] = Content()
        return [Ptr(out)] + list(text_arg(c, "text"))
    def pre(s, c):
        n, p = c.args[1:]; at = bytes_at(c.eng, c.st, p); P = fint("digits"); V = z3.Function(fresh_name("value"), z3.IntSort(), z3.IntSort()); k = z3.Int(fresh_name("q"))
        digit = lambda ch: conj(le(48, ch), le(ch, 57))
        # the number the first j digits denote
        unfold = lambda j: z3.Implies(B(conj(le(0, j), lt(j, P))), V(I(j) + 1) == 10 * V(I(j)) + I(at(j)) - 48)
        c.st.assume(z3.And(P >= 0, B(le(P, n)), V(0) == 0)); c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, P)), digit(at(k)))))); c.st.assume(imp(lt(P, n), no(digit(at(P)))))
        j = fint("j"); st = c.st.fork(); st.assume(unfold(j)); st.assume(z3.And(j >= 0, j < P)); st.assume(digit(at(j)))
        c.eng.oblige(st, "lemma: a number does not get smaller with another digit (induction step)", z3.Implies(V(j) >= 0, z3.And(V(j + 1) >= V(j), V(j + 1) >= 0)))
        c.g.update(P=P, V=V, unfold=unfold, at=at); s.g = c.g
    def post(s, c):
        n = c.args[1]; P, V, at = c.g["P"], c.g["V"], c.g["at"]; out = c.args[0]; L = lambda o, b: c.eng.load(c.st, out.plus(o), INT(b))
        c.touch(out.r)
        unit = lambda u: conj(eq(sub(n, P), len(u)), *[eq(at(add(P, i)), ord(ch)) for i, ch in enumerate(u)])
        ok = conj(gt(P, 0), lt(P, n), le(V(P), BIG), disj(*[unit(u) for u, _ in UNITS]))
        eng = L(16, 8)
        c.ensures("a time is returned exactly for digits followed by a unit, with a value in range", eq(ne(mod(eng, 256), 0), ok) if eng is not UNDEF else False)
        if not c.eng.pr.feasible(c.st.pc, B(ok)): return
        v, ix = L(0, 64), L(8, 8)
        if v is UNDEF or ix is UNDEF: c.ensures("value and unit are set", no(ok)); return
        c.ensures("the value is the number written", imp(ok, eq(v, V(P))))
        for i, (u, _) in enumerate(UNITS): c.ensures("unit %s" % u, imp(conj(ok, unit(u)), eq(ix, i)))
    def loop(s, L):
        P, V = s.g["P"], s.g["V"]
        if L.mode == "assume":
            for f in (s.g["unfold"](L.n), z3.Implies(B(lt(L.n, P)), z3.And(V(I(L.n) + 1) <= V(P), V(I(L.n)) >= 0)), V(I(L.n)) >= 0): L.st.assume(f)      # definition and lemma
        L.inv("stays inside the digits", le(L.n, P))
        acc = [v for nm, v0, v in L.vals if not isinstance(v0, (Ptr, FnPtr)) and isc(v0) and v0 == 0 and not (is_expr(v) and v.eq(L.n) if is_expr(L.n) else False)]
        if acc: L.inv("the value of the digits so far", conj(disj(*[eq(v, V(I(L.n))) for v in acc]), le(V(I(L.n)), BIG)))
class Repr(Contract):
    attach = r"(?:" + E(STR) + r" |.* )?spn::core::utils::repr<.*>\(.*\)"
    def setup(s, c):
        out = Region("result", 32, init="undef"); c.st.mem[out] = Content(); r = Region("t", 8); r.closed = True; c.st.mem[r] = Content(); x = fint("t.value"); c.st.assume(fits(x)); c.inputs.append(("t.value", x))
        c.eng.store(c.st, Ptr(r), un(x), INT(64)); return [Ptr(out), Ptr(r)]
    def conv(s, c, m):
        me = MAG[re.search(r"TagKernelTime, spn::structure::units::(\w+), long", c.title).group(1)]; return nearest(sg(c.eng.load(c.old or c.st, c.args[1], INT(64))), me / MAG[m])
    def pre(s, c): c.requires("the time is representable in microseconds", fits(s.conv(c, "Micro")))
    def post(s, c):
        e = c.eng; out = c.args[0]; c.touch(out.r); log = c.st.ghost.get("printf", ())
        n, p = e.load(c.st, out.plus(8), INT(64)), e.load(c.st, out, PTR)
        c.ensures("one formatted text is returned", len(log) == 1 and n is not UNDEF and isinstance(p, Ptr))
        if len(log) != 1 or n is UNDEF or not isinstance(p, Ptr): return
        f, args, ln, T = log[0]
        good = f in ("%ld%s", "%lld%s", "%li%s") and len(args) == 2
        c.ensures("a number followed by a unit", good)
        c.ensures("the whole text is returned", eq(n, ln)); at = bytes_at(e, c.st, p); c.ensures_all("the text is returned unchanged", lambda k: eq(at(k), T(I(k))), 0, ln)
        if not good: return
        v = {u: s.conv(c, m) for u, m in UNITS}
        us, ms, sec, m, h = lt(v["us"], 1000), lt(v["ms"], 1000), lt(v["s"], 900), lt(v["m"], 1440), lt(v["h"], 24)
        unit = [("us", us), ("ms", conj(no(us), ms)), ("s", conj(no(us), no(ms), sec)), ("m", conj(no(us), no(ms), no(sec), m)), ("h", conj(no(us), no(ms), no(sec), no(m), h)), ("d", conj(no(us), no(ms), no(sec), no(m), no(h)))]
        for u, when in unit:
            c.ensures("%s: the unit" % u, imp(when, args[1] == u)); c.ensures("%s: the time in that unit, rounded to the nearest" % u, imp(when, eq(args[0], un(v[u]))))
def timetext(): return [Parse(), Repr()] + U.optional(U.kernel())

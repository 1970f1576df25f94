"""Contracts for the filters and the filter stack.  Floating point is real arithmetic here."""
from dv.contracts import *
from dv.models import real_pow
from .units import Throws
import struct
FL = "spn::filter::"
I8, I32 = INT(8), INT(32)
def raises(c, cond):
    """the function raises exactly when cond holds on entry"""
    c.g["raise"] = cond
    if c.mode == "verify": c.throws = cond
    else:
        c.eng.oblige(c.st, "%s raises only where the contract of the caller says so" % short(c.title), imp(cond, getattr(c.eng.cur_ctx, "throws", False))); c.st.assume(no(cond))
def raised(c):
    if c.mode == "verify": c.ensures("raises where it must", no(c.g["raise"]))
def vptr(c, cls):
    """address point of the class's own vtable"""
    eng = c.eng; n = eng.mod.vtables.get(cls)
    if n is None: raise Unsupported("no vtable for " + cls)
    return eng.glob(c.st, n).plus(16)
class FB(Contract):
    """member function of a filter over float or double"""
    cls = None; cfg = (); state = ()       # (field, type) with type V = the value type
    fp = "real"
    def __init__(s): s.attach = s.sig.replace("{C}", FL + s.cls + "<(?:float|double)>").replace("{V}", "(?:float|double)")
    def inst(s, c): return re.search(re.escape(FL + s.cls) + "<(float|double)>", c.title)[1]
    def V(s, c): return FLOAT if s.inst(c) == "float" else DOUBLE
    def C(s, c): return FL + s.cls + "<" + s.inst(c) + ">"
    def ty(s, c, t): return s.V(c) if t == "V" else t
    def cfg_off(s, c, f): return c.eng.layouts.off(s.C(c) + "::Config", f, [n for n, _ in s.cfg].index(f))
    def fo(s, c, f): return c.eng.layouts.off(s.C(c), f, s.order.index(f))
    def p(s, c, f, base=None):
        base = base or c.args[0]
        return base.plus(s.fo(c, "_cfg") + s.cfg_off(c, f)) if f in dict(s.cfg) else base.plus(s.fo(c, f))
    def get(s, c, f, old=True, base=None):
        t = dict(s.cfg).get(f) or dict(s.state)[f]; return c.eng.load(c.old if old else c.st, s.p(c, f, base), s.ty(c, t))
    def obj(s, c, undef=False):
        C = s.C(c); r = Region("this", c.eng.layouts.size(C), init="undef" if undef else "lazy"); c.st.mem[r] = Content(); p = Ptr(r)
        if not undef:
            r.closed = True; c.eng.store(c.st, p, vptr(c, C), PTR)
            for f, t in list(s.cfg) + list(s.state): s.fill(c, p, f, t, s.p(c, f, p))
        return p
    def fill(s, c, base, f, t, at):
        if t == I8: v = c.i(f, 8, hi=1)
        elif t == I32: v = c.i(f, 32)
        else: v = c.f(f, s.V(c))
        c.eng.store(c.st, at, v, s.ty(c, t))
    def config(s, c):
        C = s.C(c) + "::Config"; r = Region("config", c.eng.layouts.size(C)); r.closed = True; c.st.mem[r] = Content()
        for f, t in s.cfg: s.fill(c, Ptr(r), f, t, Ptr(r).plus(s.cfg_off(c, f)))
        return Ptr(r)
    def setup(s, c): return [s.obj(c)] + s.params(c)
    def params(s, c): return []
    def inv(s, c, st, base=None): return True
    def pre(s, c):
        c.requires("the filter is well-formed", s.inv(c, c.st)); s.pre2(c)
    def pre2(s, c): pass
    def sets_state(s, c, why, **kw):
        for f, v in kw.items(): c.sets(why, s.p(c, f), s.ty(c, dict(s.state)[f]), v)
class CtorB(FB):
    sig = r"{C}::{c}\({C}::Config const&&\)"
    def __init__(s):
        s.sig = s.sig.replace("{c}", s.cls); FB.__init__(s)
    def setup(s, c): return [s.obj(c, True), s.config(c) if s.cfg else Ptr(Region("config", 1))]
    def pre(s, c): pass
    def post(s, c):
        C = s.C(c); c.sets("is of its class", c.args[0], PTR, vptr(c, C))
        for f, t in s.cfg: c.sets("keeps %s" % f, s.p(c, f), s.ty(c, t), c.eng.load(c.old, c.args[1].plus(s.cfg_off(c, f)), s.ty(c, t)))
        if c.mode == "verify": c.touch(c.args[0].r)
        s.initial(c)
class GetB(FB):
    sig = r"{C}::value\(\) const"
    def post(s, c): c.returns(s.get(c, "_value"), "the filtered value")
class ValueB(FB):
    """takes a sample; value(sample) and operator() return the new value, new_sample does not"""
    sig = r"{C}::(?:value|new_sample|operator\(\))\({V}\)"
    def params(s, c): return [c.f("sample", s.V(c))]
    def pre2(s, c): raises(c, s.raise_when(c))
    def raise_when(s, c): return False
    def post(s, c):
        raised(c); v = s.step(c)
        if c.rty.k != "void": c.returns(v, "returns the new value")
class ResetB(FB):
    sig = r"{C}::reset_to\({V}\)"
    def params(s, c): return [c.f("value", s.V(c))]
    def post(s, c): s.sets_state(c, "the given value", _value=c.args[1])
def num(x, V):
    """the real number the literal x has in type V"""
    from fractions import Fraction
    f = Fraction(struct.unpack("f", struct.pack("f", x))[0] if V.k == "float" else float(x)); return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
class FactoryB(FB):
    """static factory: a heap object with the configuration the name states"""
    values = {}
    def setup(s, c):
        r = Region("result", 8, init="undef"); c.st.mem[r] = Content()
        return [Ptr(r)] + [c.f("limit", FLOAT) for _ in c.fn.params[1:]]
    def pre(s, c): pass
    def post(s, c):
        o = c.eng.load(c.st, c.args[0], PTR); c.touch(c.args[0].r)
        if c.mode != "verify": raise Unsupported("factories are not used inside the repository")
        c.ensures("a new object", o.r.kind == "heap"); c.ensures("of its class", c.eng.ptr_eq(c.st, c.eng.load(c.st, o, PTR), vptr(c, s.C(c))))
        for f, v in s.values.items():
            t = s.ty(c, dict(s.cfg)[f]); x = c.eng.load(c.st, s.p(c, f, o), t)
            w = v if isinstance(v, str) and False else c.args[1 + v[1]] if isinstance(v, tuple) else num(v, s.V(c)) if t in (FLOAT, DOUBLE) else v
            c.ensures("configured with its %s" % f, eq(x, w))
        c.ensures("starts fresh", s.fresh(c, o))
    def fresh(s, c, o): return eq(s.get(c, "_value", False, o), 0)

# ---------------------------------------------------------------- passthrough
class PassB(FB): cls = "Passthrough"; cfg = (); state = (("_value", "V"),); order = ("_cfg", "_value")
class PassCtor(PassB, CtorB):
    def initial(s, c): s.sets_state(c, "starts at 0", _value=z3.RealVal(0))
class PassGet(PassB, GetB): pass
class PassValue(PassB, ValueB):
    def step(s, c): s.sets_state(c, "takes the sample as it is", _value=c.args[1]); return c.args[1]
class PassReset(PassB, ResetB): pass
# ---------------------------------------------------------------- invert
class InvB(FB): cls = "Invert"; cfg = (("input_lower_limit", "V"), ("input_upper_limit", "V")); state = (("_value", "V"),); order = ("_cfg", "_value")
class InvCtor(InvB, CtorB):
    def initial(s, c): s.sets_state(c, "starts at 0", _value=z3.RealVal(0))
class InvGet(InvB, GetB): pass
class InvValue(InvB, ValueB):
    def step(s, c): v = s.get(c, "input_upper_limit") - (c.args[1] - s.get(c, "input_lower_limit")); s.sets_state(c, "mirrored within the input range", _value=v); return v
class InvReset(InvB, ResetB): pass
class InvNormal(InvB, FactoryB): sig = r"{C}::NormalizedInverter\(float, float\)"; values = dict(input_lower_limit=("arg", 0), input_upper_limit=("arg", 1))
# ---------------------------------------------------------------- mapped range
class MapB(FB):
    cls = "MappedRange"; cfg = tuple((f, "V") for f in ("input_lower_limit", "input_upper_limit", "output_lower_limit", "output_upper_limit")) + (("throw_for_value_out_of_range", I8),)
    state = (("_value", "V"),); order = ("_cfg", "_value")
    def inv(s, c, st, base=None):
        g = lambda f: c.eng.load(st, s.p(c, f, base), s.ty(c, dict(s.cfg)[f])); return conj(g("input_lower_limit") < g("input_upper_limit"), le(g("throw_for_value_out_of_range"), 1))
class MapCtor(MapB, CtorB):
    def initial(s, c): s.sets_state(c, "starts at 0", _value=z3.RealVal(0))
class MapGet(MapB, GetB): pass
class MapValue(MapB, ValueB):
    def raise_when(s, c): g = lambda f: s.get(c, f, False); x = c.args[1]; return conj(ne(g("throw_for_value_out_of_range"), 0), disj(x < g("input_lower_limit"), x > g("input_upper_limit")))
    def step(s, c):
        lo, hi, ol, oh = [s.get(c, f) for f, _ in s.cfg[:4]]; x = c.args[1]; x = z3.If(x < lo, lo, z3.If(x > hi, hi, x))
        v = ol + (x - lo) / (hi - lo) * (oh - ol); s.sets_state(c, "the clamped sample, mapped linearly from the input to the output range", _value=v); return v
class MapReset(MapB, ResetB): pass
class MapPercent(MapB, FactoryB): sig = r"{C}::Percentage\(float, float\)"; values = dict(input_lower_limit=("arg", 0), input_upper_limit=("arg", 1), output_lower_limit=0, output_upper_limit=100, throw_for_value_out_of_range=0)
class MapPermil(MapB, FactoryB): sig = r"{C}::Permillage\(float, float\)"; values = dict(input_lower_limit=("arg", 0), input_upper_limit=("arg", 1), output_lower_limit=0, output_upper_limit=1000, throw_for_value_out_of_range=0)
# ---------------------------------------------------------------- exponential moving average
class EwmaB(FB):
    cls = "EWMA"; cfg = (("K", "V"),); state = (("_n", "V"), ("_value", "V")); order = ("_cfg", "_n", "_value")
    def inv(s, c, st, base=None): g = lambda f: c.eng.load(st, s.p(c, f, base), s.V(c)); n = g("_n"); return conj(g("K") >= 1, disj(eq(n, 0), n >= 1))
class EwmaCtor(EwmaB, CtorB):
    def initial(s, c): s.sets_state(c, "starts without samples", _n=z3.RealVal(0), _value=z3.RealVal(0))
class EwmaGet(EwmaB, GetB): pass
class EwmaValue(EwmaB, ValueB):
    def step(s, c):
        n, v, K, x = s.get(c, "_n"), s.get(c, "_value"), s.get(c, "K"), c.args[1]; n1 = n + 1; w = z3.If(n1 < K, n1, K)
        r = z3.If(n == 0, x, v + (x - v) / w); s.sets_state(c, "moves by 1/min(samples, K) of the distance to the sample; the first sample is taken as it is", _value=r)
        p = s.p(c, "_n"); c.touch(p.r, p.c, p.c + layout(s.V(c))[0])
        if c.mode == "use": c.eng.store(c.st, p, c.eng.fresh_fp(s.V(c), "n"), s.V(c))
        m = s.get(c, "_n", False); c.ensures("counts the samples up to the window", conj(m >= 1, z3.If(m < K, m, K) == w))
        if c.mode == "verify": y = s.get(c, "_value", False); c.ensures("stays between the previous value and the sample", disj(n == 0, conj(v <= x, v <= y, y <= x), conj(x <= v, x <= y, y <= v)))
        return r
class EwmaReset(EwmaB, ResetB):
    def post(s, c): s.sets_state(c, "the given value, all earlier samples forgotten", _value=c.args[1], _n=z3.RealVal(0))
class EwmaShort(EwmaB, FactoryB): sig = r"{C}::Short\(\)"; values = dict(K=10)
class EwmaLong(EwmaB, FactoryB): sig = r"{C}::Long\(\)"; values = dict(K=100)
# ---------------------------------------------------------------- band pass
class BandB(FB):
    cls = "BandPass"; cfg = (("mode", I32), ("mantissa", "V"), ("decades", "V"), ("offset", "V"), ("rejection_limit", I32), ("throw_on_rejection_limit", I8))
    state = (("DefaultValue", "V"), ("_value", "V"), ("_lower", "V"), ("_upper", "V"), ("_rejections", I32)); order = ("DefaultValue", "_cfg", "_value", "_lower", "_upper", "_rejections")
    def width(s, c, g): return g("mantissa") * real_pow(z3.RealVal(10), g("decades") + 1)
    def inv(s, c, st, base=None):
        g = lambda f: c.eng.load(st, s.p(c, f, base), s.ty(c, dict(s.cfg).get(f) or dict(s.state)[f])); w = s.width(c, g)
        return conj(le(g("mode"), 1), lt(g("rejection_limit"), 2 ** 31), le(g("throw_on_rejection_limit"), 1), le(g("_rejections"), g("rejection_limit")), lt(g("rejection_limit"), 2 ** 31 - 1), lt(0, g("rejection_limit")),
                    eq(g("DefaultValue"), s.reserved(c)), imp(eq(g("mode"), 1), conj(g("_lower") == g("offset") - w, g("_upper") == g("offset") + w)))
    def reserved(s, c): return num(-789.123456789, s.V(c))
class BandCtor(BandB, CtorB):
    def pre(s, c):
        x = c.eng.load(c.st, c.args[1].plus(s.cfg_off(c, "mode")), I32); l = c.eng.load(c.st, c.args[1].plus(s.cfg_off(c, "rejection_limit")), I32); t = c.eng.load(c.st, c.args[1].plus(s.cfg_off(c, "throw_on_rejection_limit")), I8)
        c.requires("the configuration is valid", conj(le(x, 1), lt(0, l), lt(l, 2 ** 31 - 1), le(t, 1)))
    def initial(s, c):
        s.sets_state(c, "starts without a value", DefaultValue=s.reserved(c), _value=s.reserved(c), _rejections=0)
        if c.mode == "use":
            for f in ("_lower", "_upper"): c.eng.store(c.st, s.p(c, f), c.eng.fresh_fp(s.V(c), f), s.V(c))
            c.touch(c.args[0].r)
        c.ensures("the filter is well-formed", s.inv(c, c.st))
class BandGet(BandB, GetB): pass
class BandValue(BandB, ValueB):
    def decide(s, c, old):
        g = lambda f: s.get(c, f, old); x = c.args[1]; v0 = z3.If(g("_value") == g("DefaultValue"), x, g("_value")); w = s.width(c, g)
        mid = ite(eq(g("mode"), 0), v0 + g("offset"), g("offset")); inside = conj(x >= mid - w, x <= mid + w); full = ge(g("_rejections"), g("rejection_limit"))
        return v0, inside, full
    def raise_when(s, c):
        v0, inside, full = s.decide(c, False); return conj(no(inside), full, ne(s.get(c, "throw_on_rejection_limit", False), 0))
    def step(s, c):
        v0, inside, full = s.decide(c, True); x = c.args[1]; take = disj(inside, full); v = z3.If(B(take), x, v0); r = s.get(c, "_rejections")
        for f in ("_lower", "_upper"):
            p = s.p(c, f); c.touch(p.r, p.c, p.c + layout(s.V(c))[0])
            if c.mode == "use": c.eng.store(c.st, p, c.eng.fresh_fp(s.V(c), f), s.V(c))
        s.sets_state(c, "accepts a sample within the band, or after the limit of rejections; otherwise keeps its value", _value=v)
        s.sets_state(c, "counts consecutive rejections", _rejections=ite(take, 0, add(r, 1))); c.ensures("stays well-formed", s.inv(c, c.st)); return v
class BandReset(BandB, ResetB): pass
class BandBroad(BandB, FactoryB):
    sig = r"{C}::Broad\(\)"; values = dict(mode=0, mantissa=1, decades=0.01, offset=0, rejection_limit=10, throw_on_rejection_limit=1)
    def fresh(s, c, o): return conj(s.inv(c, c.st, o), s.get(c, "_value", False, o) == s.reserved(c), eq(s.get(c, "_rejections", False, o), 0))
ALL = [PassCtor, PassGet, PassValue, PassReset, InvCtor, InvGet, InvValue, InvReset, InvNormal, MapCtor, MapGet, MapValue, MapReset, MapPercent, MapPermil,
       EwmaCtor, EwmaGet, EwmaValue, EwmaReset, EwmaShort, EwmaLong, BandCtor, BandGet, BandValue, BandReset, BandBroad]
def filters(): return [Throws()] + [K() for K in ALL]

# ---------------------------------------------------------------- filter stack
# A filter known only by its interface: its behaviour is a function of its state, its state changes by one sample or reset at a time.
Zi, Zr = z3.IntSort(), z3.RealSort()
NEXT, RES, OUT = z3.Function("next", Zi, Zr, Zi), z3.Function("reset", Zi, Zr, Zi), z3.Function("out", Zi, Zr)
ST, AL = 8, 16      # ghost fields of a filter object: its state; whether it is alive
def _at(eng, st, p, o):
    i = eng.index_of(p)[1]; eng.oblige(st, "the filter called is alive", conj(gt(i, 0), eq(eng.field_fn(st, p.plus(AL - p.c % 24))(i), 1))); q = p.plus(o - p.c % 24); return i, q, eng.field_fn(st, q)
def _put(eng, st, q, i, v):
    r, key, _ = eng.field_key(q); old = eng.field_fn(st, q); st.stores = st.stores + ((r, key, i, v),); st.mem[r] = st.content(r).part(key, lambda k, old=old: ite(eq(k, i), v, old(k)))
def _value(eng, st, a): i, q, f = _at(eng, st, a[0], ST); v = NEXT(I(f(i)), R(a[1])); _put(eng, st, q, i, v); return OUT(v)
def _new(eng, st, a): _value(eng, st, a); return None
def _get(eng, st, a): i, q, f = _at(eng, st, a[0], ST); return OUT(I(f(i)))
def _reset(eng, st, a): i, q, f = _at(eng, st, a[0], ST); _put(eng, st, q, i, RES(I(f(i)), R(a[1]))); return None
def _gone(eng, st, a): i, q, f = _at(eng, st, a[0], AL); _put(eng, st, q, i, 0); return None
BEH = [(r".*::value\((?:float|double)\)", _value), (r".*::value\(\) const", _get), (r".*::new_sample\(.*", _new), (r".*::reset_to\(.*", _reset), (r"_ZN.*D0Ev", _gone)]
class KB(Contract):
    fp = "real"; variants = (None, "no slots")
    def __init__(s): s.attach = s.sig.replace("{C}", FL + "Stack<(?:float|double)>").replace("{V}", "(?:float|double)").replace("{U}", r"std::unique_ptr<spn::filter::Filter<(?:float|double)>, std::default_delete<spn::filter::Filter<(?:float|double)> > >")
    def inst(s, c): return re.search(r"Stack<(float|double)>", c.title)[1]
    def V(s, c): return FLOAT if s.inst(c) == "float" else DOUBLE
    def fam(s, c):
        e = c.eng
        if "filters" in c.__dict__: return c.filters
        r = Region("filters", None, [Part(0, 24, None, {ST: ("int", 64), AL: ("int", 64)})]); r.nullable = True; n = e.mod.vtables.get(FL + "Passthrough<%s>" % s.inst(c)); vt = abstract_vtable(e, n, BEH)
        r.parts[0].tags[0] = ("ptr", vt.r); c.st.mem[r] = Content().part((0, 0), lambda k: vt); c.filters = r; return r
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(FL + "Stack<%s>" % s.inst(c))); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); e = c.eng; fam = s.fam(c)
        if c.variant == "no slots":
            for o in (0, 8, 16): e.store(c.st, p.plus(o), NULL, PTR)
        else:
            n, cap = c.i("filters"), c.i("slots", lo=1, hi=2 ** 31); c.st.assume(le(n, cap)); b = Region("slots", mul(8, cap), [Part(0, 8, cap, {0: ("ptr", fam)})]); b.heapblock = True; c.st.mem[b] = Content()
            for o, x in ((0, 0), (8, n), (16, cap)): e.store(c.st, p.plus(o), Ptr(b, 0, [(8, x)] if not isc(x) else []), PTR)
        return [p] + s.params(c)
    def params(s, c): return []
    def rep(s, c, st): return s.rep_of(c.eng, st, c.args[0])
    @staticmethod
    def rep_of(e, st, this):
        """number of filters, number of slots, filter in slot k, state of a filter, alive"""
        b, en, cap = [e.load(st, this.plus(o), PTR) for o in (0, 8, 16)]
        if b.r.kind == "null": return 0, 0, None, b
        return div(sub(en.off(), b.off()), 8), div(sub(cap.off(), b.off()), 8), e.field_fn(st, b, PTR), b
    def ghost(s, c, st, o): return c.eng.field_fn(st, Ptr(c.filters, o))
    def pre(s, c):
        if c.mode == "use": c.filters = c.eng.load(c.st, c.args[0], PTR).r.parts[0].tags[0][1] if c.eng.load(c.st, c.args[0], PTR).r.kind != "null" else None
        n, cap, slot, _ = s.rep(c, c.st); c.pos = None
        if slot is None: return s.pre2(c)
        al = s.ghost(c, c.st, AL)
        if c.mode == "verify":
            # every slot in use owns a live filter of its own; pos finds the slot of a filter
            pos = fun("pos"); j, k = z3.Int(fresh_name("q")), z3.Int(fresh_name("q")); c.st.ghost["pos"] = c.pos = lambda k: pos(I(k))
            c.st.assume(z3.ForAll([j], B(imp(conj(le(0, j), lt(j, n)), conj(gt(slot(j), 0), eq(pos(slot(j)), j), eq(al(slot(j)), 1)))), patterns=[slot(j)]))
            c.st.assume(z3.ForAll([k], B(disj(eq(pos(k), -1), conj(le(0, pos(k)), lt(pos(k), n), eq(slot(pos(k)), k)))), patterns=[pos(k)]))
        else: c.pos = c.st.ghost.get("pos")
        s.pre2(c)
    def pre2(s, c): pass
    def setf(s, c, why, o, fn):
        """ghost field o of every filter k becomes fn(k)"""
        if c.filters is None: return
        p = Ptr(c.filters, o); c.touch(c.filters); r, key, _ = c.eng.field_key(p)
        if c.mode == "verify": k = fint("k"); c.eng.oblige(c.st, "ensures " + why, eq(c.eng.field_fn(c.st, p)(k), fn(k)), assume=False)
        else: c.st.mem[r] = c.st.content(r).part(key, fn)
class KCtor(KB):
    sig = r"{C}::Stack\(unsigned char\)"; variants = (None,)
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(FL + "Stack<%s>" % s.inst(c)), init="undef"); c.st.mem[r] = Content(); c.eng.heap_hint = (8, {0: ("ptr", s.fam(c))}); return [Ptr(r), c.i("slots", 8)]
    def pre(s, c): pass
    def post(s, c):
        n, cap, slot, b = s.rep(c, c.st); c.touch(c.args[0].r); c.ensures("as many slots as asked for", eq(cap, c.args[1])); c.ensures("none of them in use", eq(n, 0)); c.ensures("owns its slots", b.r.kind in ("null", "heap"))
class KAttach(KB):
    sig = r"{C}::attach_filter\({U}\)"
    def params(s, c):
        r = Region("filter", 8); r.closed = True; c.st.mem[r] = Content(); k = c.i("filter", lo=1); c.eng.store(c.st, Ptr(r), Ptr(s.fam(c), 0, [(24, k)]), PTR); return [Ptr(r)]
    def post(s, c):
        n, cap, slot, b = s.rep(c, c.old); x = c.eng.load(c.old, c.args[1], PTR); k = c.eng.index_of(x)[1]; room = lt(n, cap); c.touch(c.args[0].r, 0, 24); c.touch(c.args[1].r)
        if b.r.kind != "null":
            c.writes_array("takes the slot after the last", b, lambda j: k, n, ite(room, add(n, 1), n), PTR)
        n1, cap1, _, b1 = s.rep(c, c.st); c.ensures("takes one slot if there is one left", conj(eq(n1, ite(room, add(n, 1), n)), eq(cap1, cap), c.eng.ptr_eq(c.st, b, b1)))
        y = c.eng.load(c.st, c.args[1], PTR); c.ensures("ownership moves to the stack, unless it is full", c.eng.ptr_eq(c.st, y, NULL) == True if not is_expr(room) and room is True else eq(B(room), B(c.eng.ptr_eq(c.st, y, NULL))))
class KDetach(KB):
    sig = r"{C}::detach_filter\(unsigned char\)"; variants = (None, "no slots")
    def setup(s, c):
        a = KB.setup(s, c); r = Region("result", 8, init="undef"); c.st.mem[r] = Content(); c.args = [a[0]]; s.res = Ptr(r); return [Ptr(r), a[0], c.i("index", 8)]
    def rep(s, c, st): return s.rep_of(c.eng, st, next(a for a in c.args if isinstance(a, Ptr) and a.r.name == "this"))
    def post(s, c):
        n, cap, slot, b = s.rep(c, c.old); i = c.args[2]; c.touch(c.args[1].r, 0, 24); c.touch(c.args[0].r); res = c.eng.load(c.st, c.args[0], PTR); ok = lt(i, n)
        n1, cap1, slot1, b1 = s.rep(c, c.st); c.ensures("frees one slot if the index is in use", conj(eq(n1, ite(ok, sub(n, 1), n)), eq(cap1, cap), c.eng.ptr_eq(c.st, b, b1)))
        if slot is None: c.ensures("nothing to hand out", c.eng.ptr_eq(c.st, res, NULL)); return
        c.touch(b.r); c.ensures_all("the others keep their order", lambda j: eq(slot1(j), ite(conj(ok, le(i, j)), slot(add(j, 1)), slot(j))), 0, n1)
        ri = c.eng.index_of(res)[1] if res.r is c.filters else 0; c.ensures("hands out the filter of that slot, or nothing", eq(ri, ite(ok, slot(i), 0)))
    def moves(L):
        # std::move(pos + 1, end, pos): each slot hands its filter to the (empty) slot before it
        e = L.eng; res = L.args[2]
        if res.r.name != "slots": return
        lo = e.index_of(res)[1]; f0 = e.field_fn(L.entry, res, PTR); n = L.n
        L.array("filters moved one slot down", Ptr(res.r, 0), lambda k: ite(conj(le(lo, k), lt(k, add(lo, n))), f0(add(k, 1)), ite(eq(k, add(lo, n)), 0, f0(k))))
        fam = res.r.parts[0].tags[0][1]; L.array("no filter is destroyed", Ptr(fam, AL), e.field_fn(L.entry, Ptr(fam, AL)))
    inner_loops = {r"std::unique_ptr<.*>\* std::__copy_move<true, false, std::random_access_iterator_tag>::__copy_m<.*spn::filter::Filter<.*": moves}
class KValue(KB):
    sig = r"{C}::(?:value|new_sample)\({V}\)"
    def params(s, c): return [c.f("sample", s.V(c))]
    def chain(s, c):
        """C(0) = sample, C(j+1) = what filter j makes of C(j)"""
        n, cap, slot, b = s.rep(c, c.st); x = c.args[1]; S0 = s.ghost(c, c.st, ST) if c.filters is not None else None
        g = c.st.ghost.get("chain")
        if g is not None and g[1].eq(R(x)) and g[2] is S0: return g[0]
        C = fun("chain", z3.RealSort()); j = z3.Int(fresh_name("q")); c.st.assume(C(I(0)) == R(x))
        if slot is not None: c.st.assume(z3.ForAll([j], B(imp(conj(le(0, j), lt(j, n)), C(j + 1) == OUT(NEXT(I(S0(slot(j))), C(j))))), patterns=[slot(j)]))
        c.st.ghost["chain"] = (C, R(x), S0, n); return C
    def pre2(s, c): c.g["chain"] = s.chain(c)
    def post(s, c):
        C = c.g["chain"]; n, cap, slot, b = s.rep(c, c.old)
        if c.rty.k != "void": c.returns(C(I(n)), "the sample passed through every filter in order")
        if slot is None: return
        S0 = s.ghost(c, c.old, ST); pos = c.pos; s.setf(c, "every filter takes exactly one sample: what the filter before it made of it", ST, lambda k: ite(le(0, pos(k)), NEXT(I(S0(k)), C(I(pos(k)))), S0(k)))
    def loop(s, L):
        e = L.eng; g = L.entry.ghost.get("chain")
        if g is None or L.args[0].r.name != "this": return
        n, cap, slot, b = KB.rep_of(e, L.entry, L.args[0]); C = g[0]; L.inv("iterations", le(L.n, n))
        if lv := [v for nm, v0, v in L.vals if is_expr(v0) and z3.is_real(v0)]: L.inv("the sample has passed the filters so far", disj(*[v == C(I(L.n)) for v in lv]) if len(lv) > 1 else lv[0] == C(I(L.n)))
        if slot is None: return
        S0, pos = g[2], L.entry.ghost["pos"]; fam = b.r.parts[0].tags[0][1]
        L.array("each filter so far took one sample", Ptr(fam, ST), lambda k: ite(conj(le(0, pos(k)), lt(pos(k), L.n)), NEXT(I(S0(k)), C(I(pos(k)))), S0(k)))
class KGet(KB):
    sig = r"{C}::value\(\) const"
    def post(s, c):
        n, cap, slot, b = s.rep(c, c.old); c.returns(z3.RealVal(0) if slot is None else ite(gt(n, 0), OUT(I(s.ghost(c, c.old, ST)(slot(sub(n, 1))))), z3.RealVal(0)), "the value of the last filter, or 0")
class KReset(KB):
    sig = r"{C}::reset_to\({V}\)"
    def params(s, c): return [c.f("value", s.V(c))]
    def post(s, c):
        n, cap, slot, b = s.rep(c, c.old)
        if slot is None: return
        S0 = s.ghost(c, c.old, ST); s.setf(c, "every filter is reset once to the value", ST, lambda k: ite(le(0, c.pos(k)), RES(I(S0(k)), R(c.args[1])), S0(k)))
    def loop(s, L):
        e = L.eng
        if L.args[0].r.name != "this": return
        n, cap, slot, b = KB.rep_of(e, L.entry, L.args[0])
        if slot is None: return
        fam = b.r.parts[0].tags[0][1]; S0 = e.field_fn(L.entry, Ptr(fam, ST)); pos = L.entry.ghost["pos"]; x = R(L.args[1]); L.inv("iterations", le(L.n, n))
        L.array("each filter so far was reset", Ptr(fam, ST), lambda k: ite(conj(le(0, pos(k)), lt(pos(k), L.n)), RES(I(S0(k)), x), S0(k)))
class KSlots(KB):
    sig = r"{C}::filter_slots\(\) const"
    def post(s, c): c.returns(s.rep(c, c.old)[1], "number of slots")
class KUsed(KB):
    sig = r"{C}::filter_slots_occupied\(\) const"
    def post(s, c): c.returns(s.rep(c, c.old)[0], "number of slots in use")
class KDtor(KB):
    sig = r"{C}::~Stack\(\)"; optional = True
    def post(s, c):
        n, cap, slot, b = s.rep(c, c.old)
        if slot is None: return
        A0 = s.ghost(c, c.old, AL); c.touch(c.args[0].r); c.touch(b.r); s.setf(c, "every filter it owns is destroyed once", AL, lambda k: ite(le(0, c.pos(k)), 0, A0(k))); c.ensures("the slots are released", b.r in c.st.freed)
    def destroys(L):
        e = L.eng; p = L.args[0]
        if p.r.name != "slots": L.inv("nothing to destroy", False if p.r.kind != "null" else eq(L.n, 0)); return
        n = e.index_of(L.args[1])[1]; fam = p.r.parts[0].tags[0][1]; A0 = e.field_fn(L.entry, Ptr(fam, AL)); pos = L.entry.ghost["pos"]; L.inv("iterations", le(L.n, n))
        L.array("each filter so far is destroyed", Ptr(fam, AL), lambda k: ite(conj(le(0, pos(k)), lt(pos(k), L.n)), 0, A0(k)))
        f0 = e.field_fn(L.entry, Ptr(p.r, 0), PTR); L.array("slots so far are empty", Ptr(p.r, 0), lambda k: ite(conj(le(0, k), lt(k, L.n)), 0, f0(k)))
    inner_loops = {r"void std::_Destroy_aux<false>::__destroy<.*spn::filter::Filter<.*": destroys}
def stack(): return [K() for K in (KCtor, KAttach, KDetach, KValue, KGet, KReset, KSlots, KUsed, KDtor)]

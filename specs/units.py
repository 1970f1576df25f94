"""Contracts for units (src/spine/structure/units)."""
import re, fractions
from dv.contracts import *
F = fractions.Fraction
U = "spn::structure::units::"
MAG = dict(Atto=F(1, 10**18), Femto=F(1, 10**15), Pico=F(1, 10**12), Nano=F(1, 10**9), Micro=F(1, 10**6), Milli=F(1, 1000), Centi=F(1, 100), Deci=F(1, 10), Deca=F(10), Hecto=F(100), Kilo=F(1000), Mega=F(10**6),
           Giga=F(10**9), Tera=F(10**12), Peta=F(10**15), Exa=F(10**18), Base=F(1), Minute=F(60), Hour=F(3600), Day=F(86400), Week=F(604800), Month=F(28 * 86400), Year=F(365 * 86400))
UNIT = r"spn::structure::units::Unit<spn::structure::units::(\w+), spn::structure::units::(\w+), (\w+)>"
PRE = r"(?:.* )?"

class Throws(Contract):
    """spn::core::Exception::throw_error hands the exception to the handler and halts: it does not return (HAL::halt)"""
    attach = r"spn::core::Exception::throw_error\(\) const"; trusted = True
    def use(s, eng, st, name, argv, rty):
        eng.oblige(st, "an exception is raised only where the contract says so", getattr(eng.cur_ctx, "throws", False))
        return []

def sg(x, n=64): return ite(ge(x, 2 ** (n - 1)), sub(x, 2 ** n), x) if not isc(x) else (x - 2 ** n if x >= 2 ** (n - 1) else x)
def un(x, n=64): return ite(lt(x, 0), add(x, 2 ** n), x) if not isc(x) else x % 2 ** n
def fits(x, n=64): return conj(le(-2 ** (n - 1), x), lt(x, 2 ** (n - 1)))
def nearest(v, r):
    """v * r rounded to the nearest integer, halves away from zero"""
    n, d = r.numerator, r.denominator
    if d == 1: return mul(v, n)
    up = lambda x: div(add(mul(2 * n, x), d), 2 * d)
    return ite(ge(v, 0), up(v), sub(0, up(sub(0, v))))
def sdiv(a, b):
    q = fint("q"); return q, z3.And(z3.If(I(a) >= 0, z3.And(I(a) - q * I(b) >= 0, z3.If(I(b) > 0, I(a) - q * I(b) < I(b), I(a) - q * I(b) < -I(b))),
                                     z3.And(I(a) - q * I(b) <= 0, z3.If(I(b) > 0, I(a) - q * I(b) > -I(b), I(a) - q * I(b) > I(b)))))

class KBase(Contract):
    """integer units: exact"""
    bits = 64
    def mags(s, c):
        ms = [m for m in re.findall(UNIT, c.title) if True]
        own = re.search(UNIT + r"::", c.title).groups(); oth = ms[-1]
        return MAG[own[1]], MAG[oth[1]]
    def unit(s, c, name, v=None):
        r = Region(name, 8); c.st.mem[r] = Content(); p = Ptr(r); x = fint(name + ".value"); c.st.assume(fits(x)); c.inputs.append((name, x))
        c.eng.store(c.st, p, un(x), INT(64)); return p
    def val(s, c, i, old=True):
        return sg(c.eng.load(c.old if old else c.st, c.args[i], INT(64)))
    def conv(s, c, i, old=True):
        a, b = s.mags(c); return nearest(s.val(c, i, old), b / a)
class KPair(KBase):
    """binary operation with a unit of another magnitude"""
    dest = False
    def setup(s, c): return [s.unit(c, "left"), s.unit(c, "right")]
    def result(s, c, a, b): raise NotImplementedError
    def pre(s, c):
        a = s.val(c, 0, False) if s.reads_left else None; b = s.conv(c, 1, False)
        c.requires("the operand is representable in the unit of the left side", fits(b)); s.pre2(c, a, b)
    def pre2(s, c, a, b): pass
    reads_left = True
    def post(s, c):
        a = s.val(c, 0) if s.reads_left else None
        s.post2(c, a, s.conv(c, 1))
class KFrom(KPair):
    """private helper: optional"""
    attach = PRE + UNIT.replace(r"(\w+)>", "long>") + r"::from_other<.*>\(.*\) const"; reads_left = False; optional = True
    def post2(s, c, a, b): c.returns(un(b), "nearest representable amount")
class KConvert(KPair):
    attach = r"(?:.* )?" + UNIT.replace(r"(\w+)>", "long>") + r"::(?:Unit|operator=)<.*>\(.*\)"; reads_left = False
    def post2(s, c, a, b):
        c.sets("value is the nearest representable amount", c.args[0], INT(64), un(b))
        if c.rty.k == "ptr": c.returns(c.args[0])
class KOp(KPair):
    op = None
    attach = property(lambda s: PRE + UNIT.replace(r"(\w+)>", "long>") + r"::operator" + re.escape(s.op) + r" ?<spn.*>\(.*\)(?: const)?")
    def __init__(s, op): s.op = op
    def res(s, a, b): return {"+": add, "-": sub, "*": mul, "+=": add, "-=": sub}[s.op](a, b)
    def pre2(s, c, a, b):
        if s.op == "/":
            c.throws = eq(b, 0); c.requires("the quotient is representable", no(conj(eq(a, -2 ** 63), eq(b, -1))))
        else: c.requires("the result is representable", fits(s.res(a, b)))
    def post2(s, c, a, b):
        if s.op == "/":
            c.ensures("a zero divisor raises an exception", ne(b, 0)); q, f = sdiv(a, b); c.st.assume(f); c.returns(un(q), "quotient truncated"); return
        r = un(s.res(a, b))
        if s.op in ("+=", "-="): c.sets("value", c.args[0], INT(64), r); c.returns(c.args[0])
        else: c.returns(r, "exact result")
class KCompare(KPair):
    def __init__(s, op): s.op = op
    attach = property(lambda s: r"bool " + UNIT.replace(r"(\w+)>", "long>") + r"::operator" + re.escape(s.op) + r" ?<.*>\(.*\) const")
    def post2(s, c, a, b):
        c.returns({"==": eq, "!=": ne, "<": lt, ">": gt, "<=": le, ">=": ge}[s.op](a, b), "comparison in the unit of the left side")
class KScalar(KBase):
    """with a plain number"""
    def __init__(s, op): s.op = op
    attach = property(lambda s: r".*spn::structure::units::Unit<spn::structure::units::(\w+), spn::structure::units::(\w+), long> ?&?>::type " + UNIT.replace(r"(\w+)>", "long>") + r"::operator" + re.escape(s.op) + r" ?<(?:long|int)>\(.*\)(?: const)?")
    def n(s, c): return 32 if "<int>" in c.title else 64
    def setup(s, c):
        n = s.n(c); r = Region("scalar", n // 8); c.st.mem[r] = Content(); p = Ptr(r); x = fint("scalar"); c.st.assume(fits(x, n)); c.inputs.append(("scalar", x)); c.eng.store(c.st, p, un(x, n), INT(n))
        return [s.unit(c, "unit"), p]
    def k(s, c, old=True): return sg(c.eng.load(c.old if old else c.st, c.args[1], INT(s.n(c))), s.n(c))
    def pre(s, c):
        a, k = s.val(c, 0, False), s.k(c, False)
        if s.op[0] == "/": c.throws = eq(k, 0); c.requires("the quotient is representable", no(conj(eq(a, -2 ** 63), eq(k, -1))))
        else: c.requires("the result is representable", fits(mul(a, k)))
    def post(s, c):
        a, k = s.val(c, 0), s.k(c)
        if s.op[0] == "/":
            c.ensures("a zero divisor raises an exception", ne(k, 0)); q, f = sdiv(a, k); c.st.assume(f); r = un(q)
        else: r = un(mul(a, k))
        if s.op[-1] == "=": c.sets("value", c.args[0], INT(64), r); c.returns(c.args[0])
        else: c.returns(r, "exact result")
class KNeg(KBase):
    attach = UNIT.replace(r"(\w+)>", "long>") + r"::operator-\(\) const"
    def setup(s, c): return [s.unit(c, "unit")]
    def pre(s, c): c.requires("the result is representable", fits(sub(0, s.val(c, 0, False))))
    def post(s, c): c.returns(un(sub(0, s.val(c, 0))), "negated")
class KSign(KBase):
    attach = UNIT.replace(r"(\w+)>", "long>") + r"::is_negative\(\) const"
    def setup(s, c): return [s.unit(c, "unit")]
    def post(s, c): c.returns(lt(s.val(c, 0), 0), "negative")
def kernel():
    return [Throws(), KFrom(), KConvert(), KNeg(), KSign()] + [KOp(o) for o in ("+", "-", "*", "/", "+=", "-=")] + [KCompare(o) for o in ("==", "!=", "<", ">", "<=", ">=")] + [KScalar(o) for o in ("*", "*=", "/", "/=")]

def optional(cs):
    """contracts of members the code at hand may or may not use"""
    for c in cs: c.optional = True
    return cs
# ---------------------------------------------------------------- floating point units, machine arithmetic as real numbers
def Q(x): x = F(x); return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
TOL = F(1, 10 ** 6)
def rabs(x): return z3.If(x >= 0, x, -x)
def close(x, y, scale=None): return rabs(x - y) <= Q(TOL) * rabs(y if scale is None else scale)
class RBase(Contract):
    fp = "real"
    def unit(s, c, name):
        r = Region(name, 4); c.st.mem[r] = Content(); p = Ptr(r); c.eng.store(c.st, p, c.f(name), FLOAT); return p
    def val(s, c, i, old=True): return c.eng.load(c.old if old else c.st, c.args[i], FLOAT)
    def conv(s, c, i, old=True):
        own = re.search(UNIT + r"::", c.title).groups(); oth = re.findall(UNIT, c.title)[-1]
        return Q(MAG[oth[1]] / MAG[own[1]]) * s.val(c, i, old)
    def near(s, c, name, y, scale=None, ret=True):
        """result (returned or stored in the object) is y up to the tolerance"""
        if c.mode == "use": v = c.eng.fresh_fp(FLOAT, name); c.st.assume(close(v, y, scale)); 
        if ret:
            if c.mode == "use": c.returns(v)
            else: c.ensures(name, close(c.ret, y, scale))
        else:
            c.touch(c.args[0].r)
            if c.mode == "use": c.eng.store(c.st, c.args[0], v, FLOAT)
            else: c.ensures(name, close(c.eng.load(c.st, c.args[0], FLOAT), y, scale))
FU = UNIT.replace(r"(\w+)>", "float>")
class RPair(RBase):
    def setup(s, c): return [s.unit(c, "left"), s.unit(c, "right")]
    def same(s, c): return MAG[re.search(UNIT + r"::", c.title).groups()[1]] == MAG[re.findall(UNIT, c.title)[-1][1]]
class RConvert(RPair):
    attach = PRE + FU + r"::(?:Unit|operator=)<.*>\(.*\)"
    def post(s, c):
        s.near(c, "same amount in this unit", s.conv(c, 1), z3.RealVal(0) if s.same(c) else None, ret=False)
        if c.rty.k == "ptr": c.returns(c.args[0])
class ROp(RPair):
    def __init__(s, op): s.op = op
    attach = property(lambda s: PRE + FU + r"::operator" + re.escape(s.op) + r" ?<spn.*>\(.*\)(?: const)?")
    def pre(s, c):
        if s.op == "/": c.throws = eq(s.val(c, 1, False), 0)
    def post(s, c):
        a, b = s.val(c, 0), s.conv(c, 1); o = s.op[0]
        if o == "/":
            c.ensures("a zero divisor raises an exception", ne(b, 0))
            if c.mode == "verify": c.ensures("quotient", rabs(c.ret * b - a) <= Q(TOL) * rabs(a)); return
            return
        y = {"+": a + b, "-": a - b, "*": a * b}[o]
        exact = s.same(c)
        s.near(c, "result", y, z3.RealVal(0) if exact else a * b if o == "*" else b, ret=len(s.op) == 1)
        if len(s.op) == 2: c.returns(c.args[0])
class RCompare(RPair):
    def __init__(s, op): s.op = op
    attach = property(lambda s: r"bool " + FU + r"::operator" + re.escape(s.op) + r" ?<.*>\(.*\) const")
    def post(s, c):
        a, b = s.val(c, 0), s.conv(c, 1); far = rabs(a - b) > Q(TOL) * rabs(b) * 2
        want = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[s.op]
        same = s.val(c, 0) == s.val(c, 1) if len(set(re.findall(UNIT, c.title)[:1] + re.findall(UNIT, c.title)[-1:])) == 1 else False
        c.ensures("comparison of amounts that differ by more than rounding, or are identical", imp(disj(far, same), eq(c.ret, want)))
class RScalar(RBase):
    def __init__(s, op): s.op = op
    attach = property(lambda s: r".*spn::structure::units::Unit<spn::structure::units::(\w+), spn::structure::units::(\w+), float> ?&?>::type " + FU + r"::operator" + re.escape(s.op) + r" ?<(?:float|int)>\(.*\)(?: const)?")
    def setup(s, c):
        if "<int>" in c.title:
            r = Region("scalar", 4); c.st.mem[r] = Content(); p = Ptr(r); c.eng.store(c.st, p, c.i("scalar", 32), INT(32))
        else: p = s.unit(c, "scalar")
        return [s.unit(c, "unit"), p]
    def k(s, c, old=True):
        if "<int>" in c.title: return z3.ToReal(sg(c.eng.load(c.old if old else c.st, c.args[1], INT(32)), 32))
        return s.val(c, 1, old)
    def pre(s, c):
        if s.op[0] == "/": c.throws = eq(s.k(c, False), 0)
    def post(s, c):
        a, k = s.val(c, 0), s.k(c)
        if s.op[0] == "/":
            c.ensures("a zero divisor raises an exception", k != 0)
            if c.mode == "verify":
                v = c.ret if len(s.op) == 1 else c.eng.load(c.st, c.args[0], FLOAT); c.ensures("quotient", v * k == a)
                if len(s.op) == 2: c.touch(c.args[0].r)
            else:
                v = a / k
                if len(s.op) == 1: c.returns(v)
                else: c.touch(c.args[0].r); c.eng.store(c.st, c.args[0], v, FLOAT)
        else: s.near(c, "product", a * k, z3.RealVal(0), ret=len(s.op) == 1)
        if len(s.op) == 2: c.returns(c.args[0])
class RNeg(RBase):
    attach = FU + r"::operator-\(\) const"
    def setup(s, c): return [s.unit(c, "unit")]
    def post(s, c): c.returns(-s.val(c, 0), "negated")
class RSign(RBase):
    attach = FU + r"::is_negative\(\) const"
    def setup(s, c): return [s.unit(c, "unit")]
    def post(s, c): c.returns(s.val(c, 0) < 0, "negative")
SUF = dict(p="Pico", n="Nano", u="Micro", m="Milli", c="Centi", d="Deci", k="Kilo", M="Mega", G="Giga", T="Tera")
TIME = dict(us="Micro", ms="Milli", s="Base", m="Minute", h="Hour", d="Day", W="Week", M="Month", Y="Year")
def alias_factor(n):
    if n == "litre_ml": return F(1, 1000)
    if n == "cubic_metre": return F(1000)
    b, _, x = n.partition("_")
    return MAG[TIME[x] if b == "time" else SUF[x] if x else "Base"]
class Alias(RBase):
    """the names of the units: what one of each is in the base unit of the quantity"""
    attach = r"use::(up|down)_(\w+)\(float\)"
    def setup(s, c): return [c.f("value")]
    def post(s, c):
        d, n = re.match(r"use::(up|down)_(\w+)\(", c.title).groups(); f = alias_factor(n)
        s.near(c, "amount of one %s" % n, c.args[0] * Q(f if d == "up" else 1 / f))
class Temp(RBase):
    attach = r"to_(celsius|kelvin)\(.*\)"
    def setup(s, c): return [c.f("temperature")]
    def post(s, c):
        to = re.match(r"to_(\w+)", c.title).group(1); fr = "kelvin" if "Kelvin" in c.title else "celsius"
        d = F(0) if to == fr else F(27315, 100) * (1 if to == "kelvin" else -1)
        c.ensures("temperature on the other scale", rabs(c.ret - (c.args[0] + Q(d))) <= Q(F(1, 10000)))
class ToReal(RBase):
    attach = PRE + r"to_real_time<.*>\(.*\)"
    def setup(s, c): return [c.i("kernel time")]
    def post(s, c): c.returns(z3.ToReal(sg(c.args[0])), "the same amount")
class ToKernel(RBase):
    attach = PRE + r"to_kernel_time<.*>\(.*\)"; variants = ("ceil", "floor", "round")
    def setup(s, c):
        y = z3.Real(fresh_name("rounded")); c.g["y"] = y; V = c.variant
        def f(eng, st, argv):
            x = argv[0]; st.assume(z3.And(y == z3.ToReal(z3.ToInt(y)), {"ceil": z3.And(y >= x, y < x + 1), "floor": z3.And(y <= x, y > x - 1), "round": z3.And(y <= x + Q(F(1, 2)), y >= x - Q(F(1, 2)))}[V])); return y
        return [c.f("time"), VFn("rounding function", f)]
    def pre(s, c): c.requires("representable", z3.And(c.args[0] > -2 ** 62, c.args[0] < 2 ** 62))
    def post(s, c):
        x = z3.ToReal(sg(c.ret)); t = c.args[0]
        c.ensures("rounded by the given function", {"ceil": z3.And(x >= t, x < t + 1), "floor": z3.And(x <= t, x > t - 1), "round": rabs(x - t) <= Q(F(1, 2))}[c.variant])
    def use(s, eng, st, name, argv, rty): return eng.run_function(st, eng.mod.func(name), argv)
class ToKernelDefault(RBase):
    attach = r"use::to_kernel\(.*\)"
    def setup(s, c): return [c.f("time")]
    def pre(s, c): c.requires("representable", z3.And(c.args[0] > -2 ** 62, c.args[0] < 2 ** 62))
    def post(s, c):
        x = z3.ToReal(sg(c.ret)); c.ensures("never shorter, less than one more", z3.And(x >= c.args[0], x < c.args[0] + 1))
# compound units: a value (numerator over denominator)
CU = r"spn::structure::units::CompoundUnit<" + UNIT + ", " + UNIT + r" >"
class CBase(Contract):
    fp = "real"
    def comp(s, c, name):
        r = Region(name, 8); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); v, d = c.f(name + ".value"), c.f(name + ".denominator")
        c.eng.store(c.st, p, v * d, FLOAT); c.eng.store(c.st, p.plus(4), d, FLOAT)
        c.__dict__.setdefault("cu", {})[name] = (v, d); return p
    names = ("this", "other")
    def parts(s, c, i, old=True):
        st = c.old if old else c.st; p = c.args[i]; return c.eng.load(st, p, FLOAT), c.eng.load(st, p.plus(4), FLOAT)
    def vd(s, c, i, old=True):
        if c.mode == "verify": return c.cu[s.names[i]]
        n, d = s.parts(c, i, old); return n / d, d
    def ratio(s, c):
        own = re.search(CU + r"::", c.title).groups(); oth = re.findall(CU, c.title)[-1]
        return Q(MAG[oth[1]] / MAG[oth[4]] / (MAG[own[1]] / MAG[own[4]]))
    def valid(s, c, *ix):
        for i in ix: c.requires("denominator of %s is not zero" % s.names[i], s.vd(c, i, False)[1] != 0)
    def result(s, c, name, w, scale, ret):
        """returned compound (ret) or the object now has value w up to the tolerance"""
        if c.mode == "verify":
            n, d = (flat_floats(c.ret)) if ret else s.parts(c, 0, False)
            c.ensures(name + ": denominator is not zero", d != 0); c.ensures(name, rabs(n - w * d) <= Q(4 * TOL) * rabs(scale * d)); 
            if not ret: c.touch(c.args[0].r)
        else:
            v, d = c.eng.fresh_fp(FLOAT, "value"), c.eng.fresh_fp(FLOAT, "denominator"); c.st.assume(z3.And(d != 0, rabs(v - w) <= Q(4 * TOL) * rabs(scale)))
            if ret: c.returns(Agg([v * d, d]))
            else: c.touch(c.args[0].r); c.eng.store(c.st, c.args[0], v * d, FLOAT); c.eng.store(c.st, c.args[0].plus(4), d, FLOAT)
def flat_floats(v):
    out = []
    def go(x):
        if isinstance(x, Agg): [go(y) for y in x.v]
        elif isinstance(x, Bits): [go(y[2]) for y in x.parts]
        else: out.append(x)
    go(v); return out
class CMake(CBase):
    attach = CU + r"::CompoundUnit\(spn::structure::units::Unit<.*\)"
    def setup(s, c):
        ps = []
        for i in range(3):
            r = Region("part%d" % i, 8 if i == 0 else 4); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); ps.append(p)
            if i: c.eng.store(c.st, p, c.f("part"), FLOAT)
        return ps
    def post(s, c):
        for i in (1, 2): c.sets("part %d" % i, c.args[0].plus(4 * i - 4), FLOAT, c.eng.load(c.old, c.args[i], FLOAT))
class CConvert(CBase):
    attach = PRE + CU + r"::(?:CompoundUnit|operator=)<.*>\(.*\)"
    def setup(s, c): return [s.comp(c, "this"), s.comp(c, "other")]
    def pre(s, c): s.valid(c, 1)
    def post(s, c):
        w = s.ratio(c) * s.vd(c, 1)[0]; s.result(c, "the same amount in this unit", w, w, False)
        if c.rty.k == "ptr": c.returns(c.args[0])
class CRaw(CBase):
    attach = CU + r"::raw\(\) const"
    def setup(s, c): return [s.comp(c, "this")]
    def pre(s, c): c.throws = eq(s.parts(c, 0, False)[1], 0)
    def post(s, c):
        v, d = s.vd(c, 0); c.ensures("a zero denominator raises an exception", d != 0)
        if c.mode == "verify": c.ensures("numerator over denominator", c.ret == v)
        else: c.returns(v)
    def use(s, eng, st, name, argv, rty):
        eng.oblige(st, "an exception is raised only where the contract says so", disj(ne(eng.load(st, argv[0].plus(4), FLOAT), 0), getattr(eng.cur_ctx, "throws", False)))
        return Contract.use(s, eng, st, name, argv, rty)
class CAcc(CBase):
    def __init__(s, op): s.op = op
    attach = property(lambda s: PRE + CU + r"::operator" + re.escape(s.op) + r" ?<spn.*>\(.*\)")
    def setup(s, c): return [s.comp(c, "this"), s.comp(c, "other")]
    def pre(s, c): s.valid(c, 0, 1)
    def post(s, c):
        a = s.vd(c, 0)[0]; b = s.ratio(c) * s.vd(c, 1)[0]; s.result(c, "value", a + b if s.op[0] == "+" else a - b, b, False); c.returns(c.args[0])
class CBin(CAcc):
    attach = property(lambda s: r"auto " + CU + r"::operator" + re.escape(s.op) + r" ?<spn.*>\(.*\) const")
    def post(s, c):
        a = s.vd(c, 0)[0]; b = s.ratio(c) * s.vd(c, 1)[0]; s.result(c, "value", a + b if s.op[0] == "+" else a - b, b, True)
class CNeg(CBase):
    attach = CU + r"::operator-\(\) const"
    def setup(s, c): return [s.comp(c, "this")]
    def pre(s, c): s.valid(c, 0)
    def post(s, c): w = -s.vd(c, 0)[0]; s.result(c, "negated", w, w, True)
class CScalar(CBase):
    def __init__(s, op): s.op = op
    attach = property(lambda s: r".*>::type " + CU + r"::operator" + re.escape(s.op) + r" ?<(?:float|int)>\(.*\)(?: const)?")
    def setup(s, c):
        r = Region("scalar", 4); c.st.mem[r] = Content(); p = Ptr(r); c.eng.store(c.st, p, c.f("scalar"), FLOAT); return [s.comp(c, "this"), p]
    def pre(s, c):
        s.valid(c, 0); k = c.eng.load(c.st, c.args[1], FLOAT)
        if s.op[0] == "/": c.throws = eq(k, 0)
    def post(s, c):
        k = c.eng.load(c.old, c.args[1], FLOAT); v = s.vd(c, 0)[0]
        if s.op[0] == "/": c.ensures("a zero divisor raises an exception", k != 0)
        w = v / k if s.op[0] == "/" else v * k
        s.result(c, "scaled value", w, w, len(s.op) == 1)
        if len(s.op) == 2: c.returns(c.args[0])
class CCompare(CBase):
    def __init__(s, op): s.op = op
    attach = property(lambda s: r"bool " + CU + r"::operator" + re.escape(s.op) + r" ?<.*>\(.*\) const")
    def setup(s, c): return [s.comp(c, "this"), s.comp(c, "other")]
    def pre(s, c): s.valid(c, 0, 1)
    def post(s, c):
        a = s.vd(c, 0)[0]; b = s.ratio(c) * s.vd(c, 1)[0]; far = rabs(a - b) > Q(TOL) * rabs(b) * 16
        want = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[s.op]
        own = re.search(CU + r"::", c.title).groups(); same = False
        if own == tuple(re.findall(CU, c.title)[-1]): (n, d), (m, f) = s.parts(c, 0), s.parts(c, 1); same = z3.And(n == m, d == f)
        c.ensures("comparison of values that differ by more than rounding, or have identical parts", imp(disj(far, same), eq(c.ret, want)))
class Gcd(Contract):
    """std::gcd: zero iff both are zero"""
    attach = PRE + r"std::gcd<.*>\(.*\)"; trusted = True
    def use(s, eng, st, name, argv, rty):
        eng.used_models.add("std::gcd(a, b): zero exactly when both are zero"); g = eng.fresh(st, rty, "gcd"); st.assume(eq(eq(g, 0), conj(eq(argv[0], 0), eq(argv[1], 0)))); return [(st, g)]
class CSimplify(CBase):
    attach = CU + r"::simplify\(float\)"
    def setup(s, c): return [s.comp(c, "this"), c.f("precision")]
    def pre(s, c):
        s.valid(c, 0); n, d = s.parts(c, 0, False); k = c.args[1]
        c.requires("precision is positive and the scaled parts fit an integer", z3.And(k > 0, rabs(n) * k < 2 ** 62, rabs(d) * k < 2 ** 62))
        c.throws = z3.And(rabs(n) * k < 1, rabs(d) * k < 1)
    def post(s, c): w = s.vd(c, 0)[0]; s.result(c, "value is kept", w, w, False)
def compound():
    return [Throws(), Gcd(), CMake(), CConvert(), CRaw(), CNeg(), CSimplify()] + [CAcc("+="), CAcc("-="), CBin("+"), CBin("-")] + [CScalar(o) for o in ("*", "*=", "/", "/=")] + [CCompare(o) for o in ("==", "!=", "<", ">", "<=", ">=")]
def real():
    return compound() + [RConvert(), RNeg(), RSign(), Alias(), Temp(), ToReal(), ToKernel(), ToKernelDefault()] + [ROp(o) for o in ("+", "-", "*", "/", "+=", "-=")] + [RCompare(o) for o in ("==", "!=", "<", ">", "<=", ">=")] + [RScalar(o) for o in ("*", "*=", "/", "/=")]

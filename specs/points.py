"""Contracts for points (structure/point.hpp) and the tuple.  Comparisons and the componentwise operators are exact: machine
integers without overflow, IEEE doubles bit by bit; the magnitude is proved in real arithmetic."""
from dv.contracts import *
from dv.models import model
from .units import sg, un, fits
S = "spn::structure::"
I64 = INT(64)
@model(r"sqrtf?|std::sqrt\(.*\)", "sqrt(x): for x >= 0 the number r >= 0 with r*r = x")
def _sqrt(e, st, name, a, rty):
    if e.fp != "real": raise Unsupported("sqrt in machine floating point")
    e.oblige(st, "square root of a number that is not negative", R(a[0]) >= 0)
    r = e.fresh_fp(DOUBLE, "root"); st.assume(z3.And(r >= 0, r * r == R(a[0]))); return r
class PB(Contract):
    sig = None
    names = "xyz"
    def __init__(s): s.attach = (S + r"XY(?:Z)?Point<(?:long|double)>::" + s.sig).replace("{P}", S + r"XY(?:Z)?Point<(?:long|double)> const&").replace("{T}", "(?:long|double)")
    def info(s, c):
        m = re.search(r"(XYZ?Point)<(long|double)>::", c.title); return S + m[1] + "<" + m[2] + ">", 3 if m[1] == "XYZPoint" else 2, I64 if m[2] == "long" else DOUBLE
    def n(s, c): return s.info(c)[1]
    def ty(s, c): return s.info(c)[2]
    def at(s, c, p, i): return p.plus(c.eng.layouts.off(s.info(c)[0], s.names[i], i))
    def val(s, c, p, i, old=True):
        v = c.eng.load(c.old if old else c.st, s.at(c, p, i), s.ty(c)); return v
    def new(s, c, name): return c.i(name, 64) if s.ty(c) is I64 else c.f(name, DOUBLE, finite=False)
    def point(s, c, name, undef=False):
        r = Region(name, 8 * s.n(c), init="undef" if undef else "lazy"); c.st.mem[r] = Content()
        if not undef:
            r.closed = True
            for i in range(s.n(c)): c.eng.store(c.st, s.at(c, Ptr(r), i), s.new(c, name + "." + s.names[i]), s.ty(c))
        return Ptr(r)
    def ops(s, c):
        """arguments without the result slot"""
        return c.args[1:] if s.sret(c) else c.args
    def sret(s, c): return s.result and s.n(c) == 3
    result = False
    def setup(s, c):
        return ([s.point(c, "result", True)] if s.sret(c) else []) + s.params(c)
    def params(s, c): return [s.point(c, "this")]
    def arith(s, c, op, a, b, old=True):
        if s.ty(c) is I64:
            x, y = sg(a), sg(b)
            if op in "/%":
                return un(tdiv(x, y) if op == "/" else sub(x, mul(tdiv(x, y), y)))
            return un({"+": add, "-": sub, "*": mul}[op](x, y))
        if c.eng.fp == "real": return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
        rm = z3.RNE(); return {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](rm, a, b)
    def legal(s, c, op, a, b):
        if s.ty(c) is not I64: return True
        x, y = sg(a), sg(b)
        if op in "/%": return conj(ne(y, 0), disj(ne(x, -2 ** 63), ne(y, -1)))
        return fits({"+": add, "-": sub, "*": mul}[op](x, y))
    def out(s, c, i):
        if s.sret(c): return s.val(c, c.args[0], i, False)
        return c.ret.v[i]
    def gives(s, c, want):
        if s.sret(c): c.touch(c.args[0].r)
        for i in range(s.n(c)):
            v = s.out(c, i); c.ensures("component %s" % s.names[i], ident(v, want(i)) if v is not UNDEF else False)
def tdiv(x, y):
    q = z3.If(I(x) >= 0, z3.If(I(y) > 0, I(x) / I(y), -(I(x) / -I(y))), z3.If(I(y) > 0, -(-I(x) / I(y)), (-I(x)) / (-I(y)))); return q
class Op(PB):
    result = True
    def __init__(s, op): s.op = op; s.sig = r"operator" + re.escape(op) + r"\({P}\) const"; PB.__init__(s)
    def params(s, c): return [s.point(c, "this"), s.point(c, "other")]
    def pre(s, c):
        a, b = s.ops(c)
        for i in range(s.n(c)): c.requires("no overflow, no division by zero", s.legal(c, s.op, s.now(c, a, i), s.now(c, b, i)))
    def now(s, c, p, i): return c.eng.load(c.st, s.at(c, p, i), s.ty(c))
    def post(s, c):
        a, b = s.ops(c); s.gives(c, lambda i: s.arith(c, s.op, s.val(c, a, i), s.val(c, b, i)))
class Dot(Op):
    def __init__(s): s.op = "*"; s.sig = r"dot\({P}\) const"; PB.__init__(s)
class Eq(PB):
    want = True; sig = r"operator==\({P}\) const"
    def params(s, c): return [s.point(c, "this"), s.point(c, "other")]
    def post(s, c):
        a, b = c.args; f = z3.fpEQ if s.ty(c) is DOUBLE else lambda x, y: B(eq(x, y))
        e = z3.And([f(s.val(c, a, i), s.val(c, b, i)) for i in range(s.n(c))])
        c.ensures("true exactly if %s" % ("all components are equal" if s.want else "some component differs"), eq(c.ret, e if s.want else z3.Not(e)))
class Ne(Eq):
    want = False; sig = r"operator!=\({P}\) const"
class InPlace(Op):
    result = False; variants = ("another point", "itself")
    def params(s, c): p = Op.params(s, c); return [p[0], p[0]] if c.variant == "itself" else p
    def __init__(s, op, name): s.op = op; s.sig = name + r"\({P}\)"; PB.__init__(s)
    def ops(s, c): return c.args
    def post(s, c):
        a, b = c.args
        for i in range(s.n(c)): c.sets("component %s" % s.names[i], s.at(c, a, i), s.ty(c), s.arith(c, s.op, s.val(c, a, i), s.val(c, b, i)))
class Scale(Op):
    result = False; variants = ("a number", "its own x", "its own y")
    def __init__(s): s.op = "*"; s.sig = r"scalar_multiplication\({T}(?: const&)?\)"; PB.__init__(s)
    def params(s, c):
        p = s.point(c, "this"); ref = c.title.endswith("&)"); i = s.variants.index(c.variant) - 1
        if i >= 0: return [p, s.at(c, p, i) if ref else c.eng.load(c.st, s.at(c, p, i), s.ty(c))]
        v = s.new(c, "s")
        if ref: r = Region("s", 8); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), v, s.ty(c)); return [p, Ptr(r)]
        return [p, v]
    def factor(s, c, st): f = c.args[1]; return c.eng.load(st, f, s.ty(c)) if isinstance(f, Ptr) else f
    def pre(s, c):
        f = s.factor(c, c.st)
        for i in range(s.n(c)): c.requires("no overflow", s.legal(c, "*", s.now(c, c.args[0], i), f))
    def post(s, c):
        f = s.factor(c, c.old)
        for i in range(s.n(c)): c.sets("component %s" % s.names[i], s.at(c, c.args[0], i), s.ty(c), s.arith(c, "*", s.val(c, c.args[0], i), f))
class Ctor(PB):
    sig = r"XY(?:Z)?Point\((?:{T}(?:, {T})*)?\)"
    def args_(s, c): return re.search(r"Point\((.*)\)$", c.title)[1]
    def setup(s, c): return [s.point(c, "this", True)] + ([s.new(c, "v%d" % i) for i in range(s.n(c))] if s.args_(c) else [])
    def post(s, c):
        c.touch(c.args[0].r); zero = 0 if s.ty(c) is I64 else c.eng.fpconst(DOUBLE, "0.0")
        for i in range(s.n(c)): c.sets("component %s" % s.names[i], s.at(c, c.args[0], i), s.ty(c), c.args[1 + i] if s.args_(c) else zero)
class Real(PB):
    fp = "real"
    def squares(s, c, p, st): return sum((lambda v: v * v)(c.eng.load(st, s.at(c, p, i), DOUBLE)) for i in range(s.n(c)))
class Mag(Real):
    sig = r"mag\(\) const"
    def __init__(s): PB.__init__(s); s.attach = s.attach.replace("(?:long|double)", "double")
    def post(s, c): q = s.squares(c, c.args[0], c.old); c.ensures("the Euclidean length", z3.And(c.ret >= 0, c.ret * c.ret == q))
class Normalize(Real):
    sig = r"normalize\(\)"
    def __init__(s): PB.__init__(s); s.attach = s.attach.replace("(?:long|double)", "double")
    def pre(s, c): c.requires("not the origin", s.squares(c, c.args[0], c.st) > 0)
    def post(s, c):
        p = c.args[0]; c.touch(p.r); m = c.eng.fresh_fp(DOUBLE, "length"); c.st.assume(z3.And(m > 0, m * m == s.squares(c, p, c.old)))
        for i in range(s.n(c)): c.ensures("component %s is divided by the length" % s.names[i], s.val(c, p, i, False) * m == s.val(c, p, i))
class TupleB(Contract):
    def __init__(s): s.attach = S + r"Tuple<long, double>::" + s.sig
    def setup(s, c):
        r = Region("this", 16); c.st.mem[r] = Content(); return [Ptr(r)]
    def off(s, c, i): return c.args[0].plus(c.eng.layouts.off(S + "Tuple<long, double>", ("m_t0", "m_t1")[i], i))
class TCtor(TupleB):
    sig = r"Tuple\(long const&, double const&\)"
    def setup(s, c):
        r = Region("this", 16, init="undef"); a, b = Region("first", 8), Region("second", 8)
        for x in (r, a, b): c.st.mem[x] = Content()
        c.eng.store(c.st, Ptr(a), c.i("first"), I64); c.eng.store(c.st, Ptr(b), c.f("second", DOUBLE), DOUBLE); return [Ptr(r), Ptr(a), Ptr(b)]
    def post(s, c):
        for i, t in ((0, I64), (1, DOUBLE)): c.sets("component %d" % i, s.off(c, i), t, c.eng.load(c.old, c.args[1 + i], t))
class TFirst(TupleB):
    sig = r"first\(\) const"
    def post(s, c): c.returns(s.off(c, 0), "the first component")
class TSecond(TupleB):
    sig = r"second\(\) const"
    def post(s, c): c.returns(s.off(c, 1), "the second component")
def points(): return [Op(o) for o in "+-*/%"] + [Dot(), Eq(), Ne(), InPlace("+", "add"), InPlace("-", "subtract"), Scale(), Ctor(), Mag(), Normalize(), TCtor(), TFirst(), TSecond()]

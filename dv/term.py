"""Terms: Python ints/bools are constants, everything else is a z3 expression.  Integers of the program are mathematical
integers with the wrap-around of the machine type made explicit; floats are IEEE (FP theory) or, where a check says so, reals."""
import z3
from z3 import is_expr
z3.z3.Z3_DEBUG = False          # no argument checks in the z3 bindings

def isc(x): return isinstance(x, (int, bool)) and not is_expr(x)
def I(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x
def B(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def num(e): return e.as_long() if z3.is_int_value(e) else e
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return num(z3.simplify(I(a) + I(b)))
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return num(z3.simplify(I(a) - I(b)))
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    if (isc(a) and a == 0) or (isc(b) and b == 0): return 0
    return num(z3.simplify(I(a) * I(b)))
def div(a, b):      # Euclidean/floor for positive b
    if isc(a) and isc(b): return a // b
    if isc(b) and b == 1: return a
    return I(a) / I(b)
def mod(a, b):
    if isc(a) and isc(b): return a % b
    return I(a) % I(b)
def eq(a, b):
    if isc(a) and isc(b): return a == b
    if is_expr(a) and is_expr(b) and a.eq(b): return True
    if isinstance(a, bool) or isinstance(b, bool) or (is_expr(a) and z3.is_bool(a)) or (is_expr(b) and z3.is_bool(b)):
        return fold(B(a) == B(b))
    if is_expr(a) and not isc(b) and z3.is_fp(a): return z3.fpEQ(a, b)
    if is_expr(a) and z3.is_real(a) or is_expr(b) and z3.is_real(b): return fold(R(a) == R(b))
    return fold(I(a) == I(b))
def R(x):
    if isc(x): return z3.RealVal(int(x))
    return z3.ToReal(x) if z3.is_int(x) else x
def ne(a, b): return no(eq(a, b))
def fold(e):
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def lt(a, b):
    if isc(a) and isc(b): return a < b
    return I(a) < I(b)
def le(a, b):
    if isc(a) and isc(b): return a <= b
    return I(a) <= I(b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def no(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def conj(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = conj(*x)
        if x is False: return False
        if x is True: continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def disj(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = disj(*x)
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)
def imp(a, b): return disj(no(a), b)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b): return a
    if is_expr(a) and is_expr(b) and a.eq(b): return a
    if isinstance(a, bool) or isinstance(b, bool) or (is_expr(a) and z3.is_bool(a)): return z3.If(c, B(a), B(b))
    if is_expr(a) and not z3.is_int(a) or is_expr(b) and not z3.is_int(b):
        if is_expr(a) and z3.is_real(a) or is_expr(b) and z3.is_real(b): return z3.If(c, R(a), R(b))
        return z3.If(c, a, b)
    return z3.If(c, I(a), I(b))
def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(ge(a, b), a, b)
_ctr = [0]
def fresh_name(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])
def fint(p): return z3.Int(fresh_name(p))
def fbool(p): return z3.Bool(fresh_name(p))
def fun(p, rng=None, ar=1):
    return z3.Function(fresh_name(p), *([z3.IntSort()] * ar), rng if rng is not None else z3.IntSort())
_fc = {}
def free_consts(e):
    """uninterpreted constants and functions in e"""
    if not is_expr(e): return frozenset()
    hit = _fc.get(e.get_id())
    if hit is not None: return hit[1]
    acc, seen = set(), set()
    stack = [e]
    while stack:
        x = stack.pop()
        if not is_expr(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        hit = _fc.get(x.get_id())
        if hit is not None: acc |= hit[1]; continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl())
            stack.extend(x.children())
        elif z3.is_quantifier(x): stack.append(x.body())
    acc = frozenset(acc); _fc[e.get_id()] = (e, acc)
    return acc
def identical(a, b):
    """the very same value: identity of floating point data, not numeric equality"""
    if is_expr(a) and is_expr(b) and z3.is_fp(a) and z3.is_fp(b): return True if a.eq(b) else z3.ExprRef.__eq__(a, b)
    return eq(a, b)
def ident(a, b):
    """the same value; for floating point: equal, or both not a number"""
    if is_expr(a) and is_expr(b) and z3.is_fp(a) and z3.is_fp(b): return True if a.eq(b) else z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
    return eq(a, b)

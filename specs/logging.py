"""Contracts for logging (core/logging) and exceptions (core/exception)."""
import re
from dv.contracts import *
from dv.models import model
from .strings import bytes_at, valid, E
from . import timetext as TT
from .timetext import cstr
from . import timing as T, units as U
from .timing import CBase

PLAT = r"spn::platform::Platform<.*>"
LEVELS = ["OFF", "ERR", "WARN", "INFO", "DBG"]
NLEV = len(LEVELS)

@model(r"vsnprintf", "vsnprintf(buf, size, format, args): writes at most size bytes including the final NUL and returns the length of the whole formatted text; formatting does not fail")
def _vsnprintf(e, st, name, a, rty):
    buf, size, fmt, va = a; n = fint("formatted"); st.assume(z3.And(n >= 0, n < 2 ** 31)); TT.put_text(e, st, buf, size, n, (fmt, (va,)), "vprintf"); return n
@model(r"__cxa_guard_acquire", "a function-local static is initialised once")
def _ga(e, st, name, a, rty):
    e.store(st, a[0], 1, INT(8)); return 1
@model(r"__cxa_guard_release", "a function-local static is initialised once")
def _gr(e, st, name, a, rty): return None
@model(r"__cxa_atexit", "registration of destructors at exit")
def _ae(e, st, name, a, rty): return 0

class Println(Contract):
    """Platform::println: the text up to its NUL is printed"""
    attach = r"void " + PLAT + r"::println<.*>\(.*\)"; trusted = True
    def use(s, eng, st, name, argv, rty):
        d = eng.mod.dem[name]; p = argv[0]
        if re.search(r"println<char(?: const)?\*", d): p = eng.load(st, p, PTR)
        st.ghost["printed"] = st.ghost.get("printed", ()) + ((p, bytes_at(eng, st, p)),); return [(st, None)]
class Flush(Contract):
    attach = PLAT + r"::printflush\(\)"; trusted = True
    def use(s, eng, st, name, argv, rty): return [(st, None)]
class Halt(Contract):
    """Platform::halt: the machine stops (the mock platform returns)"""
    attach = PLAT + r"::halt\(char const\*\)"; trusted = True
    def use(s, eng, st, name, argv, rty):
        st.ghost["log"] = st.ghost.get("log", ()) + (("halt",),); return [(st, None)]

def pinned(c, want):
    """the non-constant global variables of a kind: [(symbol, region pointer)]"""
    out = []
    for n, d in c.eng.mod.dem_globals.items():
        if re.fullmatch(want, d) and c.eng.mod.glob(n) is not None: out.append(c.eng.glob(c.st, n))
    return out
class LBase(Contract):
    sig = None
    def __init__(s): s.attach = s.sig
class SetLevel(LBase):
    sig = r"spn::logging::set_log_level\(spn::logging::LogLevel\)"
    def setup(s, c): return [c.i("level", 32, hi=NLEV - 1)]
    def post(s, c): c.sets("the level is the one given", level(c), INT(32), c.args[0])
def level(c):
    g = pinned(c, r"spn::logging::.*log_level.*") or pinned(c, r"spn::logging::.*level.*")
    if len(g) != 1: raise Unsupported("the variable holding the log level")
    return g[0]
class Level(LBase):
    sig = r"spn::logging::log_level\(\)"
    def setup(s, c): c.st.assume(lt(c.eng.load(c.st, level(c), INT(32)), NLEV)); return []
    def post(s, c): c.returns(c.eng.load(c.old, level(c), INT(32)), "the level set last")
class Loggable(LBase):
    sig = r"spn::logging::is_loggable\(spn::logging::LogLevel\)"
    def setup(s, c): c.st.assume(lt(c.eng.load(c.st, level(c), INT(32)), NLEV)); return [c.i("level", 32, hi=NLEV - 1)]
    def post(s, c):
        c.st.assume(lt(c.eng.load(c.old, level(c), INT(32)), NLEV)) if c.mode == "use" else None
        c.returns(le(c.args[0], c.eng.load(c.old, level(c), INT(32))), "loggable exactly up to the level set")
class Now(CBase):
    sig = r"spn::logging::detail::get_current_time\(\)"; optional = True
    def post(s, c):
        if c.mode == "use":
            r = Region("time text", 32, [Part(0, 1, 32, {0: ("int", 8)})], const=True); c.ret = Ptr(r); r.current_time = True; return
        for g in pinned(c, r"spn::logging::.*buffer.*"): c.touch(g.r)
        p = c.ret; c.ensures("a text is returned", isinstance(p, Ptr))
        if not isinstance(p, Ptr): return
        log = c.st.ghost.get("printf", ()); c.ensures("one text is formatted", len(log) == 1)
        if len(log) != 1: return
        f, a, n, T = log[0]; c.touch(p.r)
        c.ensures("the time is shown", len(a) == 1 and bool(re.fullmatch(r"%0?8?(?:u|lu|llu|d|ld)", f)))
        at = bytes_at(c.eng, c.st, p)
        c.ensures_all("the text returned is the time", lambda k: eq(at(k), T(I(k))), 0, n); c.ensures("null-terminated", eq(at(n), 0))
        if len(a) == 1: c.ensures("in milliseconds", eq(mod(a[0], 2 ** 32), mod(c.g["now"], 2 ** 32)))
class Print(LBase):
    sig = r"spn::logging::detail::print\(spn::logging::LogLevel, char const\*, int, char const\*, char const\*, \.\.\.\)"
    def setup(s, c):
        c.st.assume(T.Clock(c.eng, c.st).ok(c.st))
        lit = lambda n: Ptr(Region(n, None, [Part(0, 1, None, {0: ("int", 8)})], const=True))
        return [c.i("level", 32, hi=NLEV - 1), lit("filename"), c.i("line", 32, hi=2 ** 31 - 1), lit("function"), lit("format")]
    def post(s, c):
        if c.mode == "use": c.st.ghost["log"] = c.st.ghost.get("log", ()) + (("print", c.args[0]),); return
        lv, fl, ln, fn, fmt = c.args[:5]; out = c.st.ghost.get("printed", ()); X = c.st.ghost.get("texts", ())
        c.ensures("one message is printed", len(out) == 1)
        if len(out) != 1: return
        p, at = out[0]
        isp = lambda x, y: isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and eq(x.off(), y.off()) is True
        msg = [i for i, (kind, f, a, n, t) in enumerate(X) if kind == "vprintf" and isp(f, fmt)]
        c.ensures("the caller's message is in it once", len(msg) == 1)
        if len(msg) != 1: return
        pre, suf = X[:msg[0]], X[msg[0] + 1:]
        flat = [x for _, _, a, _, _ in pre for x in a]
        c.ensures("the time comes before it", any(isinstance(x, Ptr) and x.r.__dict__.get("current_time") for x in flat))
        for i, nm in enumerate(LEVELS): c.ensures("the level comes before it: %s" % nm, imp(eq(lv, i), any(x == nm for x in flat if isinstance(x, str))))
        after = [x for _, _, a, _, _ in suf for x in a]
        has = any(isp(x, fl) for x in after) and any(isp(x, fn) for x in after) and any(is_expr(x) and x.eq(ln) for x in after)
        c.ensures("debug messages and only they end in their origin", eq(eq(lv, NLEV - 1), bool(has)) if has or not suf else False)
        total = 0; pieces = []
        for _, _, a, n, t in X: pieces.append((total, n, t)); total = add(total, n)
        k = fint("k"); M = fint("length"); cap = p.r.parts[0].count if p.r.parts else 0; c.st.assume(eq(M, ite(lt(total, cap), total, sub(cap, 1))))
        want = 0
        for o, n, t in reversed(pieces): want = ite(conj(le(o, k), lt(k, add(o, n))), t(I(sub(k, o))), want)
        c.ensures("the text is the pieces in order, cut off at the size of the buffer", imp(conj(le(0, k), lt(k, M)), eq(at(k), want))); c.ensures("null-terminated", eq(at(M), 0))
        c.ensures("messages of at least 200 characters fit", le(200, cap))

# ------------------------------------------------------------------------------------------------------------ exceptions
def handler_var(c):
    g = [c.eng.glob(c.st, n) for n, d in c.eng.mod.dem_globals.items() if re.match(r"spn::core::", d) and (x := c.eng.mod.glob(n)) is not None and not x.const]
    if len(g) != 1: raise Unsupported("the variable holding the exception handler")
    return g[0]
def guards(c): return pinned(c, r"guard variable for spn::core::.*")
def handler(c, name):
    r = Region(name, 64); r.closed = False
    r.cell_tags[0] = lambda e, st: abstract_vtable(e, e.mod.vtables.get("spn::core::ExceptionHandler"), [(r".*ExceptionHandler::handle_exception\(.*", _handle)])
    return Ptr(r)
def _handle(e, st, a):
    st.ghost["log"] = st.ghost.get("log", ()) + (("handle", a[0], a[1]),); return None
class HBase(LBase):
    variants = ("no handler", "a handler", "first use")
    def world(s, c):
        v = handler_var(c); g = guards(c); s.h = handler(c, "handler")
        h = s.h if c.variant in ("a handler", "taken away") else NULL
        for x in g: c.eng.store(c.st, x, 0 if c.variant == "first use" else 1, INT(8))
        c.eng.store(c.st, v, h, PTR); c.g["h"] = h
        for x in g: c.touch(x.r)
    def frame_globals(s, c):
        for x in guards(c): c.touch(x.r)
class GetHandler(HBase):
    sig = r"spn::core::machine_exception_handler\(\)"
    def setup(s, c): s.world(c); return []
    def post(s, c):
        s.frame_globals(c)
        c.returns(c.eng.load(c.old, handler_var(c), PTR), "the handler set last")
class SetHandler(HBase):
    sig = r"spn::core::set_machine_exception_handler\(std::unique_ptr<.*>\)"
    variants = ("no handler", "a handler", "first use", "taken away")
    def setup(s, c):
        s.world(c); out = Region("result", 8, init="undef"); a = Region("argument", 8); a.closed = True; n = NULL if c.variant == "taken away" else handler(c, "new handler")
        for r in (out, a): c.st.mem[r] = Content()
        c.eng.store(c.st, Ptr(a), n, PTR); return [Ptr(out), Ptr(a)]
    def post(s, c):
        s.frame_globals(c); e = c.eng; v = handler_var(c); old, new = e.load(c.old, v, PTR), e.load(c.old, c.args[1], PTR)
        c.touch(v.r); c.touch(c.args[0].r); c.touch(c.args[1].r)
        for nm, p, want in (("the handler given is in charge", v, new), ("the previous handler is returned", c.args[0], old), ("the argument is consumed", c.args[1], NULL)):
            x = e.load(c.st, p, PTR); c.ensures(nm, e.ptr_eq(c.st, x, want) if isinstance(x, Ptr) else False)
class Throw(HBase):
    sig = r"spn::core::Exception::throw_error\(\) const"
    def setup(s, c):
        s.world(c); c.st.assume(lt(c.eng.load(c.st, level(c), INT(32)), NLEV))
        r = Region("this", 16); r.cell_tags[0] = lambda e, st: abstract_vtable(e, e.mod.vtables.get("spn::core::Exception"), [(r".*Exception::error_type\(\) const", lambda e, st, a: Ptr(Region("type", None, [Part(0, 1, None, {0: ("int", 8)})], const=True)))])
        c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r, 8), Ptr(Region("message", None, [Part(0, 1, None, {0: ("int", 8)})], const=True)), PTR); return [Ptr(r)]
    def post(s, c):
        s.frame_globals(c); log = c.st.ghost.get("log", ()); h = c.g["h"]
        calls = [x for x in log if x[0] == "handle"]
        if h is NULL: c.ensures("no handler is called", not calls)
        else:
            c.ensures("the handler is called once", len(calls) == 1)
            for x in calls[:1]: c.ensures("on the handler in charge", c.eng.ptr_eq(c.st, x[1], h)); c.ensures("with this exception", c.eng.ptr_eq(c.st, x[2], c.args[0]))
        halts = [i for i, x in enumerate(log) if x[0] == "halt"]
        c.ensures("the machine halts, after everything else", halts == [len(log) - 1])
        w = le(2, c.eng.load(c.old, level(c), INT(32)))
        c.ensures("a warning is logged if warnings are", eq(w, len([x for x in log if x[0] == "print"]) == 1))
class What(LBase):
    sig = r"spn::core::Exception::what\(\) const"
    def setup(s, c):
        r = Region("this", 16); c.st.mem[r] = Content(); m = Ptr(Region("message", None, [Part(0, 1, None, {0: ("int", 8)})], const=True)); c.eng.store(c.st, Ptr(r, 8), m, PTR); return [Ptr(r)]
    def post(s, c): c.returns(c.eng.load(c.old, c.args[0].plus(8), PTR), "the message given")
def logging(): return [Println(), Flush(), Halt(), SetLevel(), Level(), Loggable(), Now(), Print(), GetHandler(), SetHandler(), Throw(), What()] + U.optional(T.clock() + U.kernel()[1:])

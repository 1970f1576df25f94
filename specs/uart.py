"""Contracts for spn::platform::MockUART (src/spine/platform/implementations/mock.hpp) and the convenience calls of spn::io::Stream:
every call is passed on to the stream (to the byte interface) exactly once, with the same arguments, and its answer is returned."""
from dv.contracts import *
MU, ST = "spn::platform::MockUART", "spn::io::Stream"
# any stream: each virtual function records that it was called on what, and answers something
def v_any(key, ret):
    def f(e, st, a):
        r = e.fresh(st, ret, key) if ret else None
        if ret and ret.n == 1: r = e.fresh(st, INT(8), key); st.assume(le(r, 1)); r = eq(r, 1)
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((key, tuple(a), r),); return r
    return f
KEYS = {"initialize": (r"initialize\(\)", None), "read one": (r"read\(unsigned char&\)", INT(1)), "read many": (r"read\(unsigned char\*, unsigned long\)", INT(64)), "available": (r"available\(\) const", INT(64)),
        "available_for_write": (r"available_for_write\(\) const", INT(64)), "write one": (r"write\(unsigned char\)", INT(1)), "write many": (r"write\(unsigned char const\*, unsigned long\)", INT(64)), "flush": (r"flush\(\)", None)}
def stream(c):
    so = Region("stream", 8); so.cell_tags[0] = lambda e2, st: vtable(c.eng); c.st.mem[so] = Content(); return Ptr(so)
def vtable(eng):
    """slots in the order of spn::io::Stream's table; __cxa_pure_virtual stands in the slot of initialize()"""
    b = [(ST + r"::" + p, v_any(k, t)) for k, (p, t) in KEYS.items()] + [("__cxa_pure_virtual", v_any("initialize", None))]
    return abstract_vtable(eng, "_ZTVN3spn2io6StreamE", b)
class Pass(Contract):
    """passed on once, unchanged"""
    frame = True
    def data(s, c):
        k = s.key
        if k == "read one": r = Region("value", 1); c.st.mem[r] = Content(); return [Ptr(r)]
        if k.endswith("many"): n = c.i("length"); r = Region("bytes", n); c.st.mem[r] = Content(); return [Ptr(r), n]
        if k == "write one": return [c.i("value", 8)]
        return []
    def want(s, c): return list(c.args[1:])
    def post(s, c):
        if c.mode == "use": raise Unsupported("use of a forwarding call")
        log = c.st.ghost.get("calls", ()); c.ensures("one call of the stream", len(log) == 1 and log[0][0] == s.key)
        if len(log) != 1 or log[0][0] != s.key: return
        _, a, r = log[0]; w = [s.target(c)] + s.want(c); P = lambda x, y: c.eng.ptr_eq(c.st, x, y) if isinstance(x, Ptr) and isinstance(y, Ptr) else eq(x, y)
        c.ensures("on its stream, with the same arguments", conj(*[P(x, y) for x, y in zip(a, w)]) if len(a) == len(w) else False)
        if r is not None: c.ensures("the answer of the stream is returned", eq(c.ret, r))
class Fwd(Pass):
    def __init__(s, key): s.key = key; s.attach = MU + "::" + KEYS[key][0]
    def setup(s, c):
        e = c.eng; r = Region("this", e.layouts.size(MU)); c.st.mem[r] = Content(); so = stream(c); c.g["stream"] = so
        for f in ("_cfg", "_stream_ref"): e.store(c.st, Ptr(r, e.layouts.off(MU, f)), so, PTR)
        return [Ptr(r)] + s.data(c)
    def target(s, c): return c.g["stream"]
class UCtor(Contract):
    """a new UART uses the stream it is given"""
    attach = MU + r"::MockUART\(" + MU + r"::Config&&\)"
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(MU), init="undef"); g = Region("config", 8); g.closed = True; so = stream(c); c.g["stream"] = so
        for x in (r, g): c.st.mem[x] = Content()
        c.eng.store(c.st, Ptr(g), so, PTR); return [Ptr(r), Ptr(g)]
    def post(s, c):
        if c.mode == "use": c.touch(c.args[0].r); return
        c.touch(c.args[0].r); e = c.eng; c.ensures("the stream is not called", len(c.st.ghost.get("calls", ())) == 0)
        for f in ("_cfg", "_stream_ref"):
            p = e.load(c.st, c.args[0].plus(e.layouts.off(MU, f)), PTR); c.ensures("it works on the stream it is given", e.ptr_eq(c.st, p, c.g["stream"]) if isinstance(p, Ptr) else False)
class Call(Pass):
    """convenience calls of a stream end in the byte interface of the same stream"""
    def __init__(s, key, sig): s.key = key; s.attach = ST + "::" + sig
    def setup(s, c): return [stream(c)] + s.data(c)
    def target(s, c): return c.args[0]
class CallView(Call):
    def data(s, c):
        n = c.i("length"); b = Region("bytes", n); v = Region("view", 16)
        for x in (b, v): c.st.mem[x] = Content()
        c.eng.store(c.st, Ptr(v), n, INT(64)); c.eng.store(c.st, Ptr(v, 8), Ptr(b), PTR); c.g["w"] = [Ptr(b), n]; return [Ptr(v)]
    def want(s, c): return c.g["w"]
def uart():
    return [UCtor()] + [Fwd(k) for k in KEYS] + [Call("read many", r"read\(char\*, unsigned long\)"), Call("write many", r"write\(char const\*, unsigned long\)"), Call("write one", r"write\(char\)"),
            CallView("write many", r"write\(std::basic_string_view<.*> const&\)")]

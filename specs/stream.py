"""Contracts for spn::io::BufferedStream, Transaction and MockStream (src/spine/io/stream)."""
from dv.contracts import *
from . import ringbuffer as R, linebuffer as LBM
from .ringbuffer import RB, View, MAXCAP, popped, vite, pushed, pushed_many, wrap64
from .linebuffer import LB, line, optional_param, optional_arg

BSC, TC, MC = "spn::io::BufferedStream", "spn::io::Transaction", "spn::io::MockStream"

# ---- behaviour assumed of the underlying stream: bytes are read in the order of the ghost input sequence IN, a byte is
# appended to the ghost output log exactly when write reports success; availability is arbitrary.
IN = z3.Function("incoming_byte", z3.IntSort(), z3.IntSort())
def v_available(e, st, a): x = st.ghost["available"] = e.fresh(st, INT(64), "available"); return x
def v_read(e, st, a):
    bad = st.fork(); ok = st
    rx = ok.ghost["rx"]; x = IN(I(rx)); ok.assume(z3.And(x >= 0, x < 256))
    e.store(ok, a[1], x, INT(8)); ok.ghost["rx"] = add(rx, 1)
    e.store(bad, a[1], e.fresh(bad, INT(8), "junk"), INT(8)); bad.ghost["refused"] = True
    return [(ok, True), (bad, False)]
def v_write(e, st, a):
    bad = st.fork(); tx, log, x = st.ghost["tx"], st.ghost["log"], a[1]
    st.ghost["log"] = lambda k: ite(eq(k, tx), x, log(k)); st.ghost["tx"] = add(tx, 1); bad.ghost["refused"] = True
    return [(st, True), (bad, False)]
BEH = [(r"spn::io::Stream::available(_for_write)?\(\) const", v_available), (r"spn::io::Stream::read\(unsigned char&\)", v_read), (r"spn::io::Stream::write\(unsigned char\)", v_write)]

class BS:
    """representation of BufferedStream at p"""
    def __init__(s, eng, p):
        L = eng.layouts
        s.eng, s.p = eng, p
        s.inp, s.out = LB(eng, p.plus(L.off(BSC, "_input_buffer", 1))), LB(eng, p.plus(L.off(BSC, "_output_buffer", 2)))
        s.stream = p.plus(L.off(BSC, "_stream", 3))
    def init(s, c):
        e = s.eng
        r, n = LBM.delim_region(c, "delimiters")
        for lb, nm in ((s.inp, "input"), (s.out, "output")): RB.init(lb, c, nm); lb.set_delims(c, r, n)
        so = Region("stream", 8); so.cell_tags[0] = lambda e2, st: abstract_vtable(e, "_ZTVN3spn2io6StreamE", BEH)
        c.st.mem[so] = Content(); cb = Region("control block", 16); c.st.mem[cb] = Content()
        e.store(c.st, s.stream, Ptr(so), PTR); e.store(c.st, s.stream.plus(8), Ptr(cb), PTR)
        log = fun("sent"); c.st.ghost["available"] = 1; c.st.ghost["refused"] = False; c.st.ghost["rx"] = c.i("rx", hi=2 ** 62); c.st.ghost["tx"] = c.i("tx", hi=2 ** 62); c.st.ghost["log"] = lambda k: log(I(k))
        return s
    def inv(s, st):
        p = s.eng.load(st, s.stream, PTR)
        return conj(s.inp.inv(st), s.out.inv(st), p.r.name == "stream" and eq(p.off(), 0))

class Base(Contract):
    this = 0
    def __init__(s): s.attach = s.sig.replace("{C}", BSC)
    def bs(s, c): return BS(c.eng, c.args[s.this])
    def me(s, c):
        r = Region("this", c.eng.layouts.size(BSC)); c.st.mem[r] = Content(); p = Ptr(r); BS(c.eng, p).init(c); return p
    def setup(s, c): return [s.me(c)] + s.params(c)
    def params(s, c): return []
    def pre(s, c): c.requires("buffered stream is well-formed", s.bs(c).inv(c.st))
    def io(s, c, rx=0, tx=0, log=None):
        """effect on the underlying stream"""
        g, o = c.st.ghost, c.old.ghost
        if c.mode == "verify":
            c.ensures("bytes consumed from the underlying stream", eq(g["rx"], add(o["rx"], rx)))
            c.ensures("bytes handed to the underlying stream", eq(g["tx"], add(o["tx"], tx)))
            c.ensures_all("what the underlying stream received", lambda k: eq(g["log"](k), (log or o["log"])(k)))
        else:
            g["rx"], g["tx"], g["log"] = add(o["rx"], rx), add(o["tx"], tx), log or o["log"]

# the line interface of the buffered stream is the line buffer's, on the input buffer
def on_input(K, sig_):
    class D(K):
        sig = sig_
        def __init__(s): s.attach = sig_.replace("{C}", BSC)
        def lb(s, c): return BS(c.eng, c.args[s.this]).inp
        def me(s, c): return Base.me(s, c)
        def pre(s, c): c.requires("buffered stream is well-formed", BS(c.eng, c.args[s.this]).inv(c.st)); s.pre2(c)
        loop = None
        def post(s, c):
            K.post(s, c); Base.io(s, c)
    del D.loop
    D.__name__ = "Input" + K.__name__
    return D
def strip_loop(K):
    class N(K): pass
    return N
class _Len(LBM.Length): pass
InLen = on_input(LBM.Length, r"{C}::length_of_next_line\(\) const")
InHas = on_input(LBM.HasLine, r"{C}::has_line\(\) const")
InView = on_input(LBM.View_, r"{C}::get_next_line_view\(std::optional<unsigned long> const&\)")
InGet = on_input(LBM.GetLine, r"{C}::get_next_line\(char\*, unsigned long, std::optional<unsigned long> const&\)")
InDrop = on_input(LBM.DropLine, r"{C}::drop_next_line\(std::optional<unsigned long> const&\)")

class WriteByte(Base):
    sig = r"{C}::buffered_write\(unsigned char, bool\)"
    def params(s, c): return [c.i("value", 8), c.b("rollover")]
    def post(s, c):
        b = s.bs(c); v = b.out.view(c.old); ok, nv = pushed(v, c.args[1], c.args[2])
        c.returns(ite(ok, 1, 0), "reports the number of bytes queued"); c.becomes(b.out, nv); s.io(c)
class WriteMany(Base):
    sig = r"{C}::buffered_write\(char const\*, unsigned long, bool\)"
    def params(s, c):
        n = c.i("length", hi=MAXCAP); return [Ptr(Region("source", n, [Part(0, 1, n, {0: ("int", 8)})])), n, c.b("rollover")]
    def pre(s, c): Base.pre(s, c); c.requires("length is a possible array length", le(c.args[2], MAXCAP))
    def post(s, c):
        b = s.bs(c); v = b.out.view(c.old); xs = c.eng.field_fn(c.old, c.args[1], INT(8)); i0 = c.eng.index_of(c.args[1])[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), c.args[2], c.args[3]); nv.ow = wrap64(add(v.ow, lost))
        c.returns(wr, "reports the number of bytes queued"); c.becomes(b.out, nv); s.io(c)

class WriteView(Base):
    sig = r"{C}::buffered_write\(std::basic_string_view<char, std::char_traits<char> > const&\)"; optional = True
    params = LBM.PushView.params
    def pre(s, c): Base.pre(s, c); c.requires("length is a possible array length", le(c.eng.load(c.st, c.args[1], INT(64)), MAXCAP))
    def post(s, c):
        b = s.bs(c); v = b.out.view(c.old); n = c.eng.load(c.old, c.args[1], INT(64)); p = c.eng.load(c.old, c.args[1].plus(8), PTR); xs = c.eng.field_fn(c.old, p, INT(8)); i0 = c.eng.index_of(p)[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), n, False); nv.ow = wrap64(add(v.ow, lost)); c.returns(wr, "reports the number of bytes queued"); c.becomes(b.out, nv); s.io(c)
class BSCtor(Base):
    """a new buffered stream: empty buffers of the sizes and with the delimiters configured, over the stream given"""
    sig = r"{C}::BufferedStream\(std::shared_ptr<spn::io::Stream>, {C}::Config const&&\)"
    def setup(s, c):
        e = c.eng; L = e.layouts; r = Region("this", L.size(BSC), init="undef"); c.st.mem[r] = Content(); c.eng.heap_hint = (1, {0: ("int", 8)})
        so, cb = Region("stream", 8), Region("control block", 16); so.cell_tags[0] = lambda e2, st: abstract_vtable(e, "_ZTVN3spn2io6StreamE", BEH); p = Region("pointer", 16); g = Region("config", L.size(BSC + "::Config")); g.closed = True
        for x in (so, cb, p, g): c.st.mem[x] = Content()
        e.store(c.st, Ptr(p), Ptr(so), PTR); e.store(c.st, Ptr(p, 8), Ptr(cb), PTR); n, d = LBM.text(c)
        for f, i, v, ty in (("input_buffer_size", 0, c.i("input size", lo=1, hi=MAXCAP), INT(64)), ("output_buffer_size", 1, c.i("output size", lo=1, hi=MAXCAP), INT(64))): e.store(c.st, s.cf(c, Ptr(g), f, i), v, ty)
        o = s.cf(c, Ptr(g), "delimiters", 2); e.store(c.st, o, n, INT(64)); e.store(c.st, o.plus(8), d, PTR); c.st.ghost.update({"rx": c.i("rx"), "tx": c.i("tx"), "log": (lambda f: lambda k: f(I(k)))(fun("sent"))})
        return [Ptr(r), Ptr(p), Ptr(g)]
    def cf(s, c, g, f, i): return g.plus(c.eng.layouts.off(BSC + "::Config", f, i) + c.eng.layouts.off(BSC, "_cfg", 0) * 0)
    def pre(s, c):
        if c.mode == "use": raise Unsupported("construction of a buffered stream inside a verified function")
    def post(s, c):
        e = c.eng; b = s.bs(c); g = c.args[2]; c.touch(c.args[0].r); c.touch(c.args[1].r); n = lambda f, i: e.load(c.old, s.cf(c, g, f, i), INT(64)); d = e.load(c.old, s.cf(c, g, "delimiters", 2).plus(8), PTR)
        c.ensures("buffers are well-formed, over the stream given", b.inv(c.st)); sp = e.load(c.st, b.stream, PTR); c.ensures("it shares the stream with its control block", conj(e.ptr_eq(c.st, e.load(c.st, b.stream.plus(8), PTR), e.load(c.old, c.args[1].plus(8), PTR))))
        for lb, f, i in ((b.inp, "input_buffer_size", 0), (b.out, "output_buffer_size", 1)):
            v = lb.view(c.st); c.ensures("%s as configured, empty" % f, conj(eq(v.cap, n(f, i)), eq(v.n, 0), eq(v.ow, 0), e.ptr_eq(c.st, e.load(c.st, lb.dstr, PTR), d), eq(e.load(c.st, lb.dlen, INT(64)), e.load(c.old, s.cf(c, g, "delimiters", 2), INT(64)))))
        c.ensures("the buffers do not share their storage", e.load(c.st, b.inp.store, PTR).r is not e.load(c.st, b.out.store, PTR).r); s.io(c)
def window(v, xs): return lambda k: ite(lt(k, v.n), v.at(k), xs(sub(k, v.n)))
class Pull(Base):
    sig = r"{C}::pull_in_data\(\)"
    def abstract(s, v, rx, m):
        wr, lost, nv = pushed_many(v, lambda k: IN(I(add(rx, k))), m, True); nv.ow = lambda ow: True
        return lost, nv
    def post(s, c):
        b = s.bs(c); v = b.inp.view(c.old); rx = c.old.ghost["rx"]; d = b.inp.delim(c.old)
        if c.mode == "verify": m = c.ret
        else: m = c.ret
        lost, nv = s.abstract(v, rx, m)
        c.ensures("the bytes pulled are the ones counted", le(0, m))
        if c.mode == "verify":
            cur = b.inp.view(c.st); f, L = line(b.inp, c.st, cur); c.st.assume(f)
            c.ensures("it stops only when the stream has no more input, a read failed, or a full buffer holds a complete line", disj(eq(c.st.ghost["available"], 0), c.st.ghost["refused"], conj(eq(cur.n, cur.cap), gt(L, 0))))
        c.becomes(b.inp, nv); S = window(v, lambda k: IN(I(add(rx, k))))
        c.ensures_all("bytes are only overwritten while no complete line is buffered", lambda q: imp(gt(lost, 0), no(d(S(q)))), 0, sub(add(v.n, m), 1))
        s.io(c, rx=m)
    def loop(s, L):
        if not L.args or not isinstance(L.args[0], Ptr): return
        b = BS(L.eng, L.args[0]); v = b.inp.view(L.entry); rx = L.entry.ghost["rx"]; d = b.inp.delim(L.entry)
        lost, nv = s.abstract(v, rx, L.n)
        if L.mode == "assume": L.st.ghost["rx"] = add(rx, L.n)
        else: L.inv("bytes consumed from the stream", eq(L.st.ghost["rx"], add(rx, L.n)))
        L.inv("fewer than 2^62 bytes are pulled in one call", le(L.n, 2 ** 62)) if L.mode == "assume" else None
        R.rep_loop(L, b.inp, nv)
        S = window(v, lambda k: IN(I(add(rx, k))))
        L.forall("bytes are only overwritten while no complete line is buffered", lambda q: imp(gt(lost, 0), no(d(S(q)))), 0, sub(add(v.n, L.n), 1))
class PushOut(Base):
    sig = r"{C}::push_out_data\(\)"
    def post(s, c):
        b = s.bs(c); v = b.out.view(c.old); m = c.ret; o = c.old.ghost; tx, log = o["tx"], o["log"]
        c.ensures("no more bytes leave than were queued", conj(le(0, m), le(m, v.n)))
        if c.mode == "verify": c.ensures("it stops only when the buffer is empty, the stream accepts no more, or a write was refused", disj(eq(c.st.ghost["available"], 0), c.st.ghost["refused"], eq(m, v.n)))
        nv = popped(v, m); nv.ow = lambda ow: le(ow, v.ow); c.becomes(b.out, nv)
        s.io(c, tx=m, log=lambda k: ite(conj(le(tx, k), lt(k, add(tx, m))), v.at(sub(k, tx)), log(k)))
    def loop(s, L):
        b = BS(L.eng, L.args[0]); v = b.out.view(L.entry); o = L.entry.ghost; tx, log = o["tx"], o["log"]; g = L.st.ghost
        nl = lambda k: ite(conj(le(tx, k), lt(k, add(tx, L.n))), v.at(sub(k, tx)), log(k))
        L.inv("no more bytes leave than were queued", le(L.n, v.n))
        nv = popped(v, L.n); nv.ow = lambda ow: le(ow, v.ow)
        if L.mode == "assume": g["tx"], g["log"] = add(tx, L.n), nl
        else:
            L.inv("bytes handed to the stream", eq(g["tx"], add(tx, L.n))); cur = g["log"]
            L.forall("the stream received the queued bytes in order", lambda k: eq(cur(k), nl(k)))
        R.rep_loop(L, b.out, nv)
def space(fn, buf, what, f):
    class O(Base):
        sig = r"{C}::%s\(\) const" % fn
        optional = True
        def post(s, c): c.returns(f(getattr(s.bs(c), buf).view(c.old)), what); s.io(c)
    return O
SPACES = [space("input_buffer_space_left", "inp", "free space of the input buffer", lambda v: sub(v.cap, v.n)), space("input_buffer_space_used", "inp", "bytes in the input buffer", lambda v: v.n),
          space("output_buffer_space_left", "out", "free space of the output buffer", lambda v: sub(v.cap, v.n)), space("output_buffer_space_used", "out", "bytes in the output buffer", lambda v: v.n)]
class DropLast(Base):
    sig = r"{C}::output_buffer_drop_last\(unsigned long\)"
    last = True
    def params(s, c): return [c.i("n")]
    def post(s, c):
        b = s.bs(c); v = b.out.view(c.old); m = tmin(c.args[1], v.n)
        c.returns(m, "reports the number of dropped bytes")
        c.becomes(b.out, View(v.cap, sub(v.n, m), lambda ow: le(ow, v.ow), v.at if s.last else lambda k: v.at(add(k, m)))); s.io(c)
class DropFirst(DropLast):
    sig = r"{C}::output_buffer_drop_first\(unsigned long\)"; last = False

DView = defaulted(InView, r"defaults::next_line_view\({C}&\)", LBM.nothing); DView.variants = ("search",)
DDrop = defaulted(InDrop, r"defaults::drop_line\({C}&\)", LBM.nothing); DDrop.variants = ("search",)
DByte = defaulted(WriteByte, r"defaults::write\({C}&, unsigned char\)", [False]); DMany = defaulted(WriteMany, r"defaults::write\({C}&, char const\*, unsigned long\)", [False])
for K in (DView, DDrop): K.__init__ = lambda s: setattr(s, "attach", s.sig.replace("{C}", BSC))
def default_arguments(): return [k() for k in (DView, DDrop, DByte, DMany)]
BSALL = [InLen, InHas, InView, InGet, InDrop, WriteByte, WriteMany, WriteView, BSCtor, Pull, PushOut, DropLast, DropFirst] + SPACES

# ---------------------------------------------------------------- transactions
class TX:
    def __init__(s, eng, p):
        L = eng.layouts; s.eng, s.p = eng, p
        s.stream, s.line, s.queued, s.final = p.plus(L.off(TC, "_stream", 0)), p.plus(L.off(TC, "_incoming_line", 1)), p.plus(L.off(TC, "_outgoing_queued_bytes", 2)), p.plus(L.off(TC, "_is_finalized", 3))
    def isfinal(s, st): return ne(s.eng.load(st, s.final, INT(8)), 0)
    def q(s, st): return s.eng.load(st, s.queued, INT(64))

class TBase(Contract):
    """a transaction on a buffered stream; open: there is a line waiting and the queued bytes are the newest of the output buffer"""
    this = 0; variants = ("open", "finalized")
    def __init__(s): s.attach = s.sig.replace("{C}", TC)
    def tx(s, c): return TX(c.eng, c.args[s.this])
    def bs(s, c): return BS(c.eng, c.eng.load(c.old if c.old is not None else c.st, s.tx(c).stream, PTR))
    def new_stream(s, c):
        r = Region("buffered stream", c.eng.layouts.size(BSC)); c.st.mem[r] = Content(); p = Ptr(r); BS(c.eng, p).init(c); return p
    def new_tx(s, c, bs, name="this", final=None):
        r = Region(name, c.eng.layouts.size(TC)); c.st.mem[r] = Content(); r.closed = True; t = TX(c.eng, Ptr(r)); e = c.eng
        e.store(c.st, t.stream, bs if final != "moved" else NULL, PTR); lr = e.load(c.st, BS(e, bs).inp.store, PTR)
        e.store(c.st, t.line, c.i(name + ".line.length"), INT(64)); e.store(c.st, t.line.plus(8), lr.plus(0, [(1, c.i(name + ".line.at", hi=MAXCAP))]), PTR)
        if final == "moved": final = 1
        final = final if final is not None else (1 if c.variant == "finalized" else 0)
        e.store(c.st, t.queued, c.i(name + ".queued") if not final else 0, INT(64)); e.store(c.st, t.final, final, INT(8))
        return t.p
    def setup(s, c): return [s.new_tx(c, s.new_stream(c))] + s.params(c)
    def params(s, c): return []
    def over(s, c):
        st = c.old if c.old is not None else c.st; t = s.tx(c)
        return t.isfinal(st) is True and c.eng.load(st, t.stream, PTR).r.kind == "null"
    def pre(s, c):
        t = s.tx(c); st = c.st
        if s.over(c): return          # moved from or settled: nothing is required of the stream
        c.requires("buffered stream is well-formed", s.bs(c).inv(st))
        c.requires("a finalized transaction has nothing queued", imp(t.isfinal(st), eq(t.q(st), 0)))
        s.pre2(c)
    def pre2(s, c): pass
    def need_open(s, c): c.requires("transaction is not finalized", no(s.tx(c).isfinal(c.st)))
    def settled(s, c, undo):
        """effect of finalization: the incoming line leaves the input buffer; queued bytes stay (commit) or are withdrawn (abort)"""
        t, b = s.tx(c), s.bs(c); open_ = no(t.isfinal(c.old)); q = t.q(c.old)
        vi, vo = b.inp.view(c.old), b.out.view(c.old)
        f, L = line(b.inp, c.old, vi); c.st.assume(f)
        m = tmin(q, vo.n) if undo else 0
        gone = conj(open_, gt(L, 0))
        c.becomes(b.inp, vite(gone, popped(vi, L), vi))
        nv = View(vo.cap, sub(vo.n, m), lambda ow: le(ow, vo.ow), vo.at); c.becomes(b.out, nv if undo else vo)
        c.sets("transaction is finalized", t.final, INT(8), 1); c.sets("nothing is queued any more", t.queued, INT(64), 0)
        c.touch(t.p.r, t.line.c, t.line.c + 16)
        if c.mode == "use" and c.eng.pr.feasible(c.st.pc, B(open_)):
            c.eng.store(c.st, t.line, 0, INT(64)); c.eng.store(c.st, t.line.plus(8), NULL, PTR)
        Base.io(s, c)
class Commit(TBase):
    sig = r"{C}::commit\(\)"
    def post(s, c): s.settled(c, False)
class Abort(TBase):
    sig = r"{C}::abort\(\)"
    def post(s, c): s.settled(c, True)
class Finalize(TBase):
    sig = r"{C}::finalize\(\)"
    optional = True
    def post(s, c): s.settled(c, False)
class Dtor(TBase):
    sig = r"{C}::~Transaction\(\)"; variants = ("open", "finalized", "moved")
    def setup(s, c): return [s.new_tx(c, s.new_stream(c), final="moved")] if c.variant == "moved" else TBase.setup(s, c)
    def post(s, c):
        if not s.over(c): s.settled(c, False)
class OutByte(TBase):
    sig = r"{C}::outgoing\(char\)"; variants = ("open",)
    def params(s, c): return [c.i("value", 8)]
    def pre2(s, c): s.need_open(c); c.requires("fewer than 2^63 bytes queued", le(s.tx(c).q(c.st), 2 ** 63))
    def post(s, c):
        b, t = s.bs(c), s.tx(c); v = b.out.view(c.old); ok, nv = pushed(v, c.args[1], False)
        c.returns(ite(ok, 1, 0), "reports the number of bytes queued"); c.becomes(b.out, nv)
        c.sets("queued bytes are counted", t.queued, INT(64), add(t.q(c.old), ite(ok, 1, 0))); Base.io(s, c)
class OutMany(TBase):
    sig = r"{C}::outgoing\(char const\*, unsigned long\)"; variants = ("open",)
    def params(s, c):
        n = c.i("length", hi=MAXCAP); return [Ptr(Region("source", n, [Part(0, 1, n, {0: ("int", 8)})])), n]
    def pre2(s, c): s.need_open(c); c.requires("sizes", conj(le(s.tx(c).q(c.st), 2 ** 62), le(c.args[2], MAXCAP)))
    def post(s, c):
        b, t = s.bs(c), s.tx(c); v = b.out.view(c.old); xs = c.eng.field_fn(c.old, c.args[1], INT(8)); i0 = c.eng.index_of(c.args[1])[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), c.args[2], False); nv.ow = v.ow
        c.returns(wr, "reports the number of bytes queued"); c.becomes(b.out, nv)
        c.sets("queued bytes are counted", t.queued, INT(64), add(t.q(c.old), wr)); Base.io(s, c)
class OutView(TBase):
    sig = r"{C}::outgoing\(std::basic_string_view<char, std::char_traits<char> > const&\)"; variants = ("open",); optional = True
    params = LBM.PushView.params
    def pre2(s, c): s.need_open(c); c.requires("sizes", conj(le(s.tx(c).q(c.st), 2 ** 62), le(c.eng.load(c.st, c.args[1], INT(64)), MAXCAP)))
    def post(s, c):
        b, t = s.bs(c), s.tx(c); v = b.out.view(c.old); n = c.eng.load(c.old, c.args[1], INT(64)); p = c.eng.load(c.old, c.args[1].plus(8), PTR); xs = c.eng.field_fn(c.old, p, INT(8)); i0 = c.eng.index_of(p)[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), n, False); nv.ow = v.ow; c.returns(wr, "reports the number of bytes queued"); c.becomes(b.out, nv)
        c.sets("queued bytes are counted", t.queued, INT(64), add(t.q(c.old), wr)); Base.io(s, c)
class Incoming(TBase):
    sig = r"{C}::incoming\(\) const"; variants = ("open",)
    def post(s, c): c.returns(s.tx(c).line, "the line the transaction was started for")
class IsFinal(TBase):
    sig = r"{C}::is_finalized\(\) const"
    def pre(s, c):
        if c.mode == "verify": TBase.pre(s, c)
    def post(s, c): c.returns(s.tx(c).isfinal(c.old), "whether the transaction was finalized")
class SpaceUsed(TBase):
    sig = r"{C}::outgoing_space_used\(\) const"
    def post(s, c): c.returns(s.tx(c).q(c.old), "the number of queued bytes")
class SpaceLeft(TBase):
    sig = r"{C}::outgoing_space_left\(\) const"
    def post(s, c):
        v = s.bs(c).out.view(c.old); c.returns(sub(v.cap, v.n), "free space of the output buffer")
class MoveCtor(TBase):
    sig = r"{C}::Transaction\({C}&&\)"
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(TC), init="undef"); c.st.mem[r] = Content(); return [Ptr(r), s.new_tx(c, s.new_stream(c), "other")]
    def __init__(s): s.attach = s.sig.replace("{C}", TC)
    def pre(s, c):
        if c.mode == "verify": s.this = 1; TBase.pre(s, c); s.this = 0
    def post(s, c):
        e = c.eng; t, o = TX(e, c.args[0]), TX(e, c.args[1]); oo = lambda p, ty: e.load(c.old, p, ty)
        c.sets("stream is taken over", t.stream, PTR, oo(o.stream, PTR)); c.sets("incoming line is taken over", t.line, INT(64), oo(o.line, INT(64))); c.sets("incoming line is taken over", t.line.plus(8), PTR, oo(o.line.plus(8), PTR))
        c.sets("queued bytes are taken over", t.queued, INT(64), oo(o.queued, INT(64))); c.sets("state is taken over", t.final, INT(8), oo(o.final, INT(8)))
        c.sets("the source lets go of the stream", o.stream, PTR, NULL); c.sets("the source will not finalize again", o.final, INT(8), 1)
        c.touch(o.p.r, o.line.c, o.line.c + 16); c.touch(o.p.r, o.queued.c, o.queued.c + 8)
class MoveAssign(MoveCtor):
    sig = r"{C}::operator=\({C}&&\)"
    def setup(s, c):
        bs = s.new_stream(c); return [s.new_tx(c, bs, "this", 1), s.new_tx(c, bs, "other")]
    def post(s, c):
        MoveCtor.post(s, c); c.returns(c.args[0], "returns itself")

class NewTransaction(Base):
    sig = r"{C}::new_transaction\(\)"; this = 1
    def setup(s, c):
        o = Region("result", c.eng.layouts.size(TC) // 8 * 8 + 16, init="undef"); c.st.mem[o] = Content(); return [Ptr(o), s.me(c)]
    def post(s, c):
        if c.mode == "use": raise Unsupported("new_transaction inside a verified function")
        b = s.bs(c); e = c.eng; v = b.inp.view(c.old); f, L = line(b.inp, c.old, v); c.st.assume(f); out = c.args[0]; c.touch(out.r)
        c.becomes(b.inp, v); c.becomes(b.out, b.out.view(c.old)); Base.io(s, c)
        st = c.st; tsz = e.layouts.size(TC); tsz = (tsz + 7) // 8 * 8
        t = TX(e, out); have = ne(e.load(st, out.plus(tsz), INT(8)), 0)
        c.ensures("a transaction starts exactly when a line is waiting", eq(have, gt(L, 0)))
        if e.pr.feasible(st.pc, B(gt(L, 0))):
            sp = e.load(st, t.stream, PTR); n = e.load(st, t.line, INT(64)); p = e.load(st, t.line.plus(8), PTR); store = e.load(st, b.inp.store, PTR)
            c.ensures("it belongs to this stream", e.ptr_eq(st, sp, c.args[1]) if isinstance(sp, Ptr) else False)
            c.ensures("it is open with nothing queued", conj(no(t.isfinal(st)), eq(t.q(st), 0)))
            good = isinstance(p, Ptr) and p.r is store.r
            c.ensures("its incoming line has the right length and lies inside the buffer", conj(eq(n, sub(L, 1)), le(0, p.off()), le(add(p.off(), n), v.cap)) if good else False)
            if good:
                fn = e.field_fn(st, store, INT(8)); c.ensures_all("its incoming line shows the bytes of the line", lambda k: eq(fn(add(p.off(), k)), v.at(k)), 0, sub(L, 1))
TALL = [Finalize, Commit, Abort, Dtor, OutByte, OutMany, OutView, Incoming, IsFinal, SpaceUsed, SpaceLeft, MoveCtor, MoveAssign, NewTransaction]

# ---------------------------------------------------------------- mock stream
class MS:
    def __init__(s, eng, p):
        L = eng.layouts; s.eng = eng; s.p = p
        s.a, s.b = RB(eng, p.plus(L.off(MC, "_stdin", 1)), "unsigned char", 8), RB(eng, p.plus(L.off(MC, "_stdout", 2)), "unsigned char", 8)
        s.ain, s.aout = p.plus(L.off(MC, "_active_in", 3)), p.plus(L.off(MC, "_active_out", 4))
class MBase(Contract):
    variants = ("normal", "swapped")
    def __init__(s): s.attach = s.sig.replace("{C}", MC)
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(MC)); c.st.mem[r] = Content(); m = MS(c.eng, Ptr(r)); m.a.init(c, "stdin"); m.b.init(c, "stdout")
        x, y = (m.a, m.b) if c.variant == "normal" else (m.b, m.a)
        c.eng.store(c.st, m.ain, x.p, PTR); c.eng.store(c.st, m.aout, y.p, PTR)
        return [Ptr(r)] + s.params(c)
    def params(s, c): return []
    def pre(s, c): m = MS(c.eng, c.args[0]); c.requires("both buffers are well-formed", conj(m.a.inv(c.st), m.b.inv(c.st)))
    def io(s, c):
        m = MS(c.eng, c.args[0]); return m, RB(c.eng, c.eng.load(c.old, m.ain, PTR), "unsigned char", 8), RB(c.eng, c.eng.load(c.old, m.aout, PTR), "unsigned char", 8)
class MWrite(MBase):
    sig = r"{C}::write\(unsigned char\)"
    def params(s, c): return [c.i("value", 8)]
    def post(s, c):
        m, i, o = s.io(c); ok, nv = pushed(o.view(c.old), c.args[1], False); c.returns(ok, "write succeeds iff there is space"); c.becomes(o, nv)
class MRead(MBase):
    sig = r"{C}::read\(unsigned char&\)"
    def params(s, c):
        r = Region("value", 1); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), c.i("value", 8), INT(8)); return [Ptr(r)]
    def post(s, c):
        m, i, o = s.io(c); v = i.view(c.old); ok = gt(v.n, 0); c.returns(ok, "read succeeds iff a byte is available"); c.becomes(i, vite(ok, popped(v), v))
        c.writes("read delivers the oldest byte", c.args[1], INT(8), ite(ok, v.at(0), c.load(c.args[1], INT(8), old=True)))
class MAvail(MBase):
    sig = r"{C}::available\(\) const"
    def post(s, c): m, i, o = s.io(c); c.returns(i.view(c.old).n, "bytes available")
class MAvailW(MBase):
    sig = r"{C}::available_for_write\(\) const"
    def post(s, c): m, i, o = s.io(c); v = o.view(c.old); c.returns(sub(v.cap, v.n), "space available")
class MSwap(MBase):
    sig = r"{C}::swap_streams\(\)"
    def post(s, c):
        m, i, o = s.io(c); c.sets("input and output are exchanged", m.ain, PTR, o.p); c.sets("input and output are exchanged", m.aout, PTR, i.p)
class MWriteMany(MBase):
    sig = r"{C}::write\(unsigned char const\*, unsigned long\)"
    def params(s, c): n = c.i("length", hi=MAXCAP); return [Ptr(Region("source", n, [Part(0, 1, n, {0: ("int", 8)})])), n]
    def pre(s, c): MBase.pre(s, c); c.requires("length is a possible array length", le(c.args[2], MAXCAP))
    def post(s, c):
        m, i, o = s.io(c); v = o.view(c.old); xs = c.eng.field_fn(c.old, c.args[1], INT(8)); i0 = c.eng.index_of(c.args[1])[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), c.args[2], False); nv.ow = v.ow; c.returns(wr, "reports the number of bytes written"); c.becomes(o, nv)
class MReadMany(MBase):
    sig = r"{C}::read\(unsigned char\*, unsigned long\)"
    def params(s, c): n = c.i("length", hi=MAXCAP); return [Ptr(Region("destination", n, [Part(0, 1, n, {0: ("int", 8)})])), n]
    def pre(s, c):
        MBase.pre(s, c); c.requires("length is a possible array length", le(c.args[2], MAXCAP))
        if c.args[1].r is NULLR: c.requires("there is room for the bytes", eq(c.args[2], 0))
    def post(s, c):
        m, i, o = s.io(c); v = i.view(c.old); n = c.args[2]; ok = ge(v.n, n); c.returns(ite(ok, n, 0), "reports the number of bytes delivered")
        if c.args[1].r is not NULLR:
            i0 = c.eng.index_of(c.args[1])[1]; c.writes_array("the oldest bytes, in order, all or none", c.args[1], lambda j: v.at(sub(j, i0)), i0, ite(ok, add(i0, n), i0), INT(8))
        p = popped(v, n); p.ow = ite(eq(n, 0), v.ow, 0); c.becomes(i, vite(ok, p, v))
class MInject(MBase):
    """bytes injected wait to be read, behind those already there, as many as fit; nothing else changes"""
    sig = r"{C}::inject_bytestream\(std::vector<unsigned char, .*> const&\)"
    def params(s, c):
        n = c.i("length", hi=MAXCAP); b = Ptr(Region("bytes", n, [Part(0, 1, n, {0: ("int", 8)})])); r = Region("vector", 24); r.closed = True; c.st.mem[r] = Content()
        c.eng.store(c.st, Ptr(r), b, PTR); c.eng.store(c.st, Ptr(r, 8), b.plus(0, [(1, n)]), PTR); c.eng.store(c.st, Ptr(r, 16), b.plus(0, [(1, n)]), PTR); s.given = b, n; return [Ptr(r)]
    def post(s, c):
        if c.mode == "use": raise Unsupported("inject_bytestream inside a verified function")
        m, i, o = s.io(c); b, n = s.given; v = i.view(c.old); xs = c.eng.field_fn(c.old, b, INT(8)); i0 = c.eng.index_of(b)[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), n, False); nv.ow = v.ow; c.becomes(i, nv); c.becomes(o, o.view(c.old))
        c.sets("input and output stay what they are", m.ain, PTR, i.p); c.sets("input and output stay what they are", m.aout, PTR, o.p)
class MExtract(MBase):
    """everything written so far is handed out, in order, and the output is empty; nothing else changes"""
    sig = r"{C}::extract_bytestream(?:\[abi:cxx11\])?\(\)"; this = 1
    def setup(s, c):
        a = MBase.setup(s, c); c.eng.heap_hint = (1, {0: ("int", 8)}); o = Region("result", 32, init="undef"); c.st.mem[o] = Content(); return [Ptr(o)] + a
    def pre(s, c): m = MS(c.eng, c.args[1]); c.requires("both buffers are well-formed", conj(m.a.inv(c.st), m.b.inv(c.st)))
    def post(s, c):
        if c.mode == "use": raise Unsupported("extract_bytestream inside a verified function")
        e = c.eng; m = MS(e, c.args[1]); i, o = (RB(e, e.load(c.old, x, PTR), "unsigned char", 8) for x in (m.ain, m.aout)); v = o.view(c.old); out = c.args[0]; c.touch(out.r)
        p = popped(v, v.n); p.ow = ite(eq(v.n, 0), v.ow, 0); c.becomes(o, p); c.becomes(i, i.view(c.old))
        c.sets("input and output stay what they are", m.ain, PTR, i.p); c.sets("input and output stay what they are", m.aout, PTR, o.p)
        c.ensures("something is handed out", eq(e.load(c.st, out.plus(24), INT(8)), 1)); b, f = e.load(c.st, out, PTR), e.load(c.st, out.plus(8), PTR)
        if e.pr.feasible(c.st.pc, B(gt(v.n, 0))):
            good = isinstance(b, Ptr) and isinstance(f, Ptr) and f.r is b.r; c.ensures("it is as long as what was written", conj(eq(b.off(), 0), eq(f.off(), v.n)) if good else False)
            if good: fn = e.field_fn(c.st, b, INT(8)); c.ensures_all("it is what was written, in order", lambda k: eq(fn(k), v.at(k)), 0, v.n)
class MCtor(MBase):
    """new streams are empty, of the sizes configured, and not swapped"""
    sig = r"{C}::MockStream\({C}::Config const&&\)"; variants = ("new",)
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(MC), init="undef"); g = Region("config", 16); g.closed = True
        for x in (r, g): c.st.mem[x] = Content()
        c.eng.heap_hint = (1, {0: ("int", 8)}); c.eng.store(c.st, Ptr(g), c.i("input size", lo=1, hi=MAXCAP), INT(64)); c.eng.store(c.st, Ptr(g, 8), c.i("output size", lo=1, hi=MAXCAP), INT(64)); return [Ptr(r), Ptr(g)]
    def pre(s, c):
        if c.mode == "use": raise Unsupported("construction of a mock stream inside a verified function")
    def post(s, c):
        e = c.eng; m = MS(e, c.args[0]); c.touch(c.args[0].r)
        for rb, o, nm in ((m.a, 0, "input"), (m.b, 8, "output")): v = rb.view(c.st); c.ensures("the %s is well-formed, empty and as long as configured" % nm, conj(rb.inv(c.st), eq(v.n, 0), eq(v.ow, 0), eq(v.cap, e.load(c.old, c.args[1].plus(o), INT(64)))))
        c.ensures("streams are not swapped", conj(e.ptr_eq(c.st, e.load(c.st, m.ain, PTR), m.a.p), e.ptr_eq(c.st, e.load(c.st, m.aout, PTR), m.b.p)))
MALL = [MInject, MExtract, MWriteMany, MReadMany, MCtor, MWrite, MRead, MAvail, MAvailW, MSwap]
def lower(): return R.contracts("char", 8) + LBM.contracts()
def buffered(): return lower() + [k() for k in BSALL]
def transactions(): return [k() for k in TALL]
def mock(): return R.contracts("unsigned char", 8) + [k() for k in MALL]

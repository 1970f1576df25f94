"""Contracts for spn::structure::RingBuffer<T> (src/spine/structure/ringbuffer.hpp)."""
from dv.contracts import *
from dv.dwarf import Layouts

MAXCAP = 2 ** 60

class View:
    """abstract ring buffer: capacity, sequence of stored elements (oldest first), overrun count"""
    def __init__(s, cap, n, ow, at): s.cap, s.n, s.ow, s.at = cap, n, ow, at

def rd(f):
    return f

class RB:
    """representation of RingBuffer<T> at address p"""
    def __init__(s, eng, p, T="int", bits=32):
        L = eng.layouts; C = "spn::structure::RingBuffer<%s>" % T; A = "spn::structure::Array<%s>" % T
        b = L.off(C, "m_buffer", 0)
        s.eng, s.p, s.bits, s.es = eng, p, bits, bits // 8
        s.store = p.plus(b + L.off(A, "m_store", 0)); s.cap = p.plus(b + L.off(A, "m_max_size", 1)); s.own = p.plus(b + L.off(A, "m_store_is_internal", 2))
        s.head = p.plus(L.off(C, "m_head", 1)); s.tail = p.plus(L.off(C, "m_tail", 2)); s.ow = p.plus(L.off(C, "m_overwritten", 3)); s.full = p.plus(L.off(C, "m_is_full", 4))
        s.region = p.r; s.extent = (p.c, p.c + L.size(C))
    def init(s, c, name="rb"):
        """an arbitrary well-formed buffer"""
        st = c.st
        cap = c.i(name + ".capacity", hi=MAXCAP)
        r = Region(name + ".storage", mul(s.es, cap), [Part(0, s.es, cap, {0: ("int", s.bits)})], kind="obj")
        e = s.eng
        e.store(st, s.store, Ptr(r), PTR); e.store(st, s.cap, cap, INT(64))
        e.store(st, s.head, c.i(name + ".head"), INT(64)); e.store(st, s.tail, c.i(name + ".tail"), INT(64)); e.store(st, s.ow, c.i(name + ".overrun"), INT(64))
        fl = c.i(name + ".full", hi=1); e.store(st, s.full, fl, INT(8)); e.store(st, s.own, c.i(name + ".own", hi=1), INT(8))
        return s
    def get(s, st, f, ty=INT(64)): return s.eng.load(st, f, ty)
    def isfull(s, st): return ne(s.get(st, s.full, INT(8)), 0)
    def inv(s, st, normal=True):
        """normal: between operations"""
        cap, h, t = s.get(st, s.cap), s.get(st, s.head), s.get(st, s.tail)
        fb = s.get(st, s.full, INT(8))
        sp = s.get(st, s.store, PTR)
        ok = isinstance(sp, Ptr) and sp.r.kind != "null" and sp.r not in st.freed
        shape = conj(eq(sp.off(), 0), le(cap, sp.r.parts[0].count)) if ok and sp.r.parts else False
        return conj(shape, le(1, cap), le(cap, MAXCAP), lt(h, cap), lt(t, cap), le(0, h), le(0, t), le(fb, 1), imp(ne(fb, 0), eq(h, t)) if normal else True)
    def used(s, st):
        cap, h, t = s.get(st, s.cap), s.get(st, s.head), s.get(st, s.tail)
        return ite(s.isfull(st), cap, ite(ge(h, t), sub(h, t), add(sub(cap, t), h)))
    def phys(s, cap, t, k):
        x = add(t, k); return ite(lt(x, cap), x, sub(x, cap))
    def view(s, st):
        cap, t = s.get(st, s.cap), s.get(st, s.tail)
        sp = s.get(st, s.store, PTR)
        fn = s.eng.field_fn(st, sp, INT(s.bits))
        return View(cap, s.used(st), s.get(st, s.ow), lambda k: fn(s.phys(cap, t, k)))
    def regions(s, st): return [s.get(st, s.store, PTR).r]
    def check(s, c, v, name="buffer"):
        st = c.st
        c.ensures("%s stays well-formed" % name, s.inv(st))
        cur = s.view(st)
        same_store = s.eng.ptr_eq(st, s.get(st, s.store, PTR), s.get(c.old, s.store, PTR))
        c.ensures("%s keeps its storage and capacity" % name, conj(same_store, eq(cur.cap, v.cap), eq(s.get(st, s.own, INT(8)), s.get(c.old, s.own, INT(8)))))
        c.ensures("%s: number of stored elements" % name, eq(cur.n, v.n))
        c.ensures("%s: overrun count" % name, v.ow(cur.ow) if callable(v.ow) else eq(cur.ow, v.ow))
        c.ensures_all("%s: stored sequence" % name, lambda k: eq(cur.at(k), v.at(k)), 0, v.n)
    def havoc_to(s, c, v):
        st, e = c.st, s.eng
        h, t, fb = fint("head"), fint("tail"), fint("full")
        cap = s.get(st, s.cap)
        if callable(v.ow):
            ow = fint("ow"); st.assume(z3.And(ow >= 0, ow < 2 ** 64)); st.assume(v.ow(ow))
        else: ow = v.ow
        sp = s.get(st, s.store, PTR)
        e.store(st, s.head, h, INT(64)); e.store(st, s.tail, t, INT(64)); e.store(st, s.full, fb, INT(8)); e.store(st, s.ow, ow, INT(64))
        st.assume(z3.And(h >= 0, t >= 0, fb >= 0)); st.assume(s.inv(st)); st.assume(eq(s.used(st), v.n))
        st.assume(le(0, v.n)); st.assume(le(v.n, cap))
        junk = fun("stale")
        key = (0, 0)
        st.mem[sp.r] = st.content(sp.r).part(key, lambda j: (lambda k: ite(lt(k, v.n), v.at(k), junk(I(j))))(ite(ge(j, t), sub(j, t), sub(add(j, cap), t))))
        s._poison(st)
    def _poison(s, st): pass

class Base(Contract):
    T, bits = "int", 32
    cls = r"spn::structure::RingBuffer<int>"
    def __init__(s, T="int", bits=32):
        s.T, s.bits = T, bits
        s.attach = s.sig.replace("{C}", r"spn::structure::RingBuffer<%s>" % T).replace("{T}", T)
        s.ity = INT(bits)
    def rb(s, c): return RB(c.eng, c.args[0], s.T, s.bits)
    def me(s, c):
        r = Region("this", c.eng.layouts.size("spn::structure::RingBuffer<%s>" % s.T)); c.st.mem[r] = Content()
        p = Ptr(r); RB(c.eng, p, s.T, s.bits).init(c); return p
    def setup(s, c): return [s.me(c)] + s.params(c)
    def params(s, c): return []
    def pre(s, c):
        c.requires("buffer is well-formed", s.rb(c).inv(c.st)); s.pre2(c)
    def pre2(s, c): pass
    def scalar(s, c, name):
        r = Region(name, s.bits // 8, kind="obj"); c.st.mem[r] = Content(); v = c.i(name, s.bits); c.eng.store(c.st, Ptr(r), v, s.ity); return Ptr(r)
    def array(s, c, name, n):
        r = Region(name, mul(s.bits // 8, n), [Part(0, s.bits // 8, n, {0: ("int", s.bits)})]); return Ptr(r)

def pushed(v, x, roll):
    """abstract push of one element: (result, new view)"""
    full = eq(v.n, v.cap)
    blocked = conj(full, no(roll)); over = conj(full, roll)
    n2 = ite(full, v.n, add(v.n, 1))
    at = lambda k: ite(blocked, v.at(k), ite(over, ite(eq(k, sub(v.cap, 1)), x, v.at(add(k, 1))), ite(eq(k, v.n), x, v.at(k))))
    ow = ite(over, ite(eq(v.ow, 2 ** 64 - 1), 0, add(v.ow, 1)), v.ow)
    return no(blocked), View(v.cap, n2, ow, at)

class Push(Base):
    sig = r"{C}::push\({T} const&, bool\)"
    def params(s, c): return [s.scalar(c, "value"), c.b("rollover")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); x = c.load(c.args[1], s.ity, old=True)
        ok, nv = pushed(v, x, c.args[2])
        c.returns(ok, "push reports success exactly when the element was stored"); c.becomes(rb, nv)

def pushed_many(v, xs, n, roll):
    """abstract push of xs[0..n)"""
    free = sub(v.cap, v.n)
    wr = ite(roll, n, tmin(n, free))                 # elements written
    n2 = tmin(v.cap, add(v.n, wr))
    lost = sub(add(v.n, wr), n2)                     # oldest elements overwritten
    at = lambda k: (lambda j: ite(lt(j, v.n), v.at(j), xs(sub(j, v.n))))(add(k, lost))
    return wr, lost, View(v.cap, n2, None, at)

class PushMany(Base):
    sig = r"{C}::push\({T} const\*, unsigned long, bool\)"
    def params(s, c):
        n = c.i("length", hi=MAXCAP); return [s.array(c, "source", n), n, c.b("rollover")]
    def pre2(s, c): c.requires("length is a possible array length", le(c.args[2], MAXCAP))
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old)
        xs = c.eng.field_fn(c.old, c.args[1], s.ity); i0 = c.eng.index_of(c.args[1])[1]
        wr, lost, nv = pushed_many(v, lambda k: xs(add(i0, k)), c.args[2], c.args[3])
        nv.ow = wrap64(add(v.ow, lost))
        c.returns(wr, "push reports the number of elements written"); c.becomes(rb, nv)
    def loop(s, L):
        """after n elements the buffer holds the abstract push of the first n"""
        rb = RB(L.eng, L.args[0], s.T, s.bits); v = rb.view(L.entry)
        xs = L.eng.field_fn(L.entry, L.args[1], s.ity)
        roll = L.args[3]
        wr, lost, nv = pushed_many(v, xs, L.n, roll)
        nv.ow = wrap64(add(v.ow, lost))
        L.inv("every earlier element was accepted", disj(roll, le(add(v.n, L.n), v.cap)))
        L.inv("iterations", le(L.n, L.args[2]))
        rep_loop(L, rb, nv)

def wrap64(x): return ite(lt(x, 2 ** 64), x, sub(x, 2 ** 64))
def rep_loop(L, rb, nv):
    if L.mode == "assume":
        rb.havoc_to(L, nv)
    else:
        class C: pass
        c = Ctx(L.eng, L.st, "verify", None, ""); c.old = L.entry
        c.ensures = lambda name, f: L.eng.oblige(L.st, "loop invariant %s (%s)" % (name, L.mode), f)
        c.ensures_all = lambda name, f, lo=0, hi=None: L.forall(name, f, lo, hi)
        rb.check(c, nv)

def popped(v, m=1):
    return View(v.cap, sub(v.n, m), 0, lambda k: v.at(add(k, m)))
def vite(cond, a, b):
    return View(ite(cond, a.cap, b.cap), ite(cond, a.n, b.n), ite(cond, a.ow, b.ow), lambda k: ite(cond, a.at(k), b.at(k)))

class Pop0(Base):
    sig = r"{C}::pop\(\)"
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); ok = gt(v.n, 0)
        c.returns(ok, "pop succeeds exactly when the buffer is not empty"); c.becomes(rb, vite(ok, popped(v), v))
class Pop(Base):
    sig = r"{C}::pop\({T}&\)"
    def params(s, c): return [s.scalar(c, "value")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); ok = gt(v.n, 0)
        c.returns(ok, "pop succeeds exactly when the buffer is not empty"); c.becomes(rb, vite(ok, popped(v), v))
        c.writes("pop delivers the oldest element", c.args[1], s.ity, ite(ok, v.at(0), c.load(c.args[1], s.ity, old=True)))
class PopMany(Base):
    sig = r"{C}::pop\({T}\*, unsigned long\)"
    def params(s, c):
        n = c.i("length", hi=MAXCAP); return [s.array(c, "target", n), n]
    def pre2(s, c): c.requires("length is a possible array length", le(c.args[2], MAXCAP))
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); n = c.args[2]; ok = ge(v.n, n)
        c.returns(ite(ok, n, 0), "pop reports the number of elements read")
        i0 = c.eng.index_of(c.args[1])[1]
        c.writes_array("pop delivers the oldest elements in order", c.args[1], lambda k: v.at(sub(k, i0)), i0, ite(ok, add(i0, n), i0), s.ity)
        p = popped(v, n); p.ow = ite(eq(n, 0), v.ow, 0)
        c.becomes(rb, vite(ok, p, v))
    def loop(s, L):
        rb = RB(L.eng, L.args[0], s.T, s.bits); v = rb.view(L.entry)
        old = L.eng.field_fn(L.entry, L.args[1], s.ity)
        nv = popped(v, L.n); nv.ow = ite(eq(L.n, 0), v.ow, 0)
        L.inv("iterations", le(L.n, L.args[2]))
        rep_loop(L, rb, nv)
        L.array("target holds the first n elements", L.args[1], lambda k: ite(conj(le(0, k), lt(k, L.n)), v.at(k), old(k)))

class Peek(Base):
    sig = r"{C}::peek_at\({T}&, unsigned long\) const"
    def params(s, c): return [s.scalar(c, "value"), c.i("index")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); ok = lt(c.args[2], v.n)
        c.returns(ok, "peek succeeds exactly for stored positions")
        c.writes("peek delivers the element at that position", c.args[1], s.ity, ite(ok, v.at(c.args[2]), c.load(c.args[1], s.ity, old=True)))
class PeekPtr(Base):
    sig = r"{C}::peek_at\({T}\*\*, unsigned long\)"
    variants = ("pointer given", "null pointer")
    def params(s, c):
        r = Region("ptr", 8); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), NULL, PTR)
        return [NULL if c.variant == "null pointer" else Ptr(r), c.i("index")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); ok = conj(lt(c.args[2], v.n), c.args[1].r.kind != "null")
        c.returns(ok, "peek succeeds exactly for stored positions")
        if c.args[1].r.kind == "null": return
        c.touch(c.args[1].r)
        if c.mode == "verify":
            p = c.load(c.args[1], PTR)
            good = isinstance(p, Ptr) and p.r is rb.get(c.old, rb.store, PTR).r
            c.ensures("peek yields the address of the element at that position", imp(ok, conj(good, eq(div(p.off(), rb.es), rb.phys(v.cap, rb.get(c.old, rb.tail), c.args[2])), eq(mod(p.off(), rb.es), 0)) if good else False))
            c.ensures("failed peek leaves the pointer alone", disj(ok, c.eng.ptr_eq(c.st, p, c.load(c.args[1], PTR, old=True))))
        else:
            st2 = c.st.fork(); st2.assume(no(ok)); c.st.assume(ok)
            c.eng.store(c.st, c.args[1], rb.get(c.st, rb.store, PTR).plus(0, [(rb.es, rb.phys(v.cap, rb.get(c.old, rb.tail), c.args[2]))]), PTR)
            c.extra = [(st2, False)]

class PeekContiguous(Base):
    sig = r"{C}::peek_contiguous\({T}\*\*, unsigned long\)"
    optional = True
    def params(s, c):
        r = Region("ptr", 8); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), NULL, PTR); return [Ptr(r), c.i("length")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); n = c.args[2]; ok = le(n, v.n); e = c.eng
        c.returns(ok, "succeeds exactly when that many elements are stored"); c.becomes(rb, v); c.touch(c.args[1].r)
        if c.mode == "verify":
            p = c.load(c.args[1], PTR); store = rb.get(c.st, rb.store, PTR); good = isinstance(p, Ptr) and p.r is store.r
            c.ensures("failed peek leaves the pointer alone", disj(ok, e.ptr_eq(c.st, p, c.load(c.args[1], PTR, old=True))))
            if good:
                fn = e.field_fn(c.st, store, INT(s.bits)); i = e.index_of(p)[1]
                c.ensures("elements lie inside the storage", imp(ok, conj(le(0, i), le(add(i, n), v.cap))))
                c.ensures_all("elements are contiguous and in order", lambda k: imp(ok, eq(fn(add(i, k)), v.at(k))), 0, n)
            else: c.ensures("pointer into the storage", no(ok))
        else:
            st2 = c.st.fork(); st2.assume(no(ok)); c.st.assume(ok)
            t = rb.get(c.st, rb.tail); c.st.assume(le(add(t, n), v.cap))
            e.store(c.st, c.args[1], rb.get(c.st, rb.store, PTR).plus(0, [(rb.es, t)]), PTR)
            c.extra = [(st2, False)]; c.ret = True

class DropLast(Base):
    sig = r"{C}::drop_last\(unsigned long\)"
    def params(s, c): return [c.i("n")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); m = tmin(c.args[1], v.n)
        c.returns(m, "drop_last reports the number of dropped elements")
        c.becomes(rb, View(v.cap, sub(v.n, m), lambda ow: le(ow, v.ow), v.at))
class DropFirst(Base):
    sig = r"{C}::drop_first\(unsigned long\)"
    def params(s, c): return [c.i("n")]
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); m = tmin(c.args[1], v.n)
        c.returns(m, "drop_first reports the number of dropped elements")
        c.becomes(rb, View(v.cap, sub(v.n, m), lambda ow: le(ow, v.ow), lambda k: v.at(add(k, m))))
class Clear(Base):
    sig = r"{C}::clear\(\)"
    def post(s, c):
        rb = s.rb(c); v = rb.view(c.old); c.becomes(rb, View(v.cap, 0, lambda ow: le(ow, v.ow), v.at))
def observer(sig_, what, f, weak=False):
    class O(Base):
        sig = sig_
        def pre(s, c):
            if not weak or c.mode == "verify": c.requires("buffer is well-formed", s.rb(c).inv(c.st, False))
        def post(s, c):
            v = s.rb(c).view(c.old); c.returns(f(v), what)
    return O
Empty = observer(r"{C}::empty\(\) const", "empty iff nothing is stored", lambda v: eq(v.n, 0))
Full = observer(r"{C}::full\(\) const", "full iff capacity elements are stored", lambda v: eq(v.n, v.cap))
Used = observer(r"{C}::used_space\(\) const", "used space is the number of stored elements", lambda v: v.n)
Free = observer(r"{C}::free_space\(\) const", "free space is capacity minus used", lambda v: sub(v.cap, v.n))
Cap = observer(r"{C}::capacity\(\) const", "capacity is constant", lambda v: v.cap, weak=True)
Over = observer(r"{C}::overrun_space\(\) const", "overrun count", lambda v: v.ow, weak=True)

def fresh_buffer(c, rb, cap, init):
    """a new, empty buffer, as its user sees it"""
    e, st = c.eng, c.st; r = Region("new storage", mul(rb.es, cap), [Part(0, rb.es, cap, {0: ("int", rb.bits)})], kind="heap"); st.mem[r] = Content().part((0, 0), init); st.ghost["heap_live"] = st.ghost.get("heap_live", ()) + (r,)
    at = fint("start"); st.assume(conj(le(0, at), lt(at, cap)))
    for f, v, ty in ((rb.store, Ptr(r), PTR), (rb.cap, cap, INT(64)), (rb.own, 1, INT(8)), (rb.head, at, INT(64)), (rb.tail, at, INT(64)), (rb.ow, 0, INT(64)), (rb.full, 0, INT(8))): e.store(st, f, v, ty)
class Ctor(Base):
    sig = r"{C}::RingBuffer\(unsigned long, {T}\)"
    def setup(s, c):
        r = Region("this", c.eng.layouts.size("spn::structure::RingBuffer<%s>" % s.T), init="undef"); c.st.mem[r] = Content()
        c.eng.heap_hint = (s.bits // 8, {0: ("int", s.bits)})
        return [Ptr(r), c.i("capacity", lo=1, hi=MAXCAP), c.i("init_value", s.bits)]
    def pre(s, c):
        c.requires("capacity is positive and allocatable", conj(le(1, c.args[1]), le(c.args[1], MAXCAP)))
    def post(s, c):
        rb = s.rb(c)
        if c.mode == "verify":
            c.touch(c.args[0].r)
            c.ensures("new buffer is well-formed", rb.inv(c.st))
            v = rb.view(c.st)
            c.ensures("new buffer is empty with the requested capacity", conj(eq(v.n, 0), eq(v.cap, c.args[1]), eq(v.ow, 0)))
        else:
            fresh_buffer(c, rb, c.args[1], lambda k: c.args[2])

D_ = r"%s defaults::%s<{T}>\({C}&%s\)"
DEFAULTS = [defaulted(Push, D_ % ("bool", "push", ", {T} const&"), [False]), defaulted(PushMany, D_ % ("unsigned long", "push", r", {T} const\*, unsigned long"), [False]),
            defaulted(DropLast, D_ % ("unsigned long", "drop_last", ""), [0]), defaulted(DropFirst, D_ % ("unsigned long", "drop_first", ""), [0])]
ALL = [Push, PushMany, Pop0, Pop, PopMany, Peek, PeekPtr, PeekContiguous, DropLast, DropFirst, Clear, Empty, Full, Used, Free, Cap, Over, Ctor]
def contracts(T="int", bits=32): return [k(T, bits) for k in ALL]
def defaults(T="int", bits=32): return [k(T, bits) for k in DEFAULTS]

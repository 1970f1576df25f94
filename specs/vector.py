"""Contracts for spn::structure::Array<T>, its iterators, Vector<T> and Stack<T>."""
from dv.contracts import *
from .ringbuffer import rep_loop
MAXCAP = 2 ** 60
NPOS = 2 ** 64 - 1
MAXLIST = 2 ** 31 - 1     # an initializer list is written out in the source

class AR:
    """representation of Array<T> at p"""
    def __init__(s, eng, p, T, bits):
        L = eng.layouts; A = "spn::structure::Array<%s>" % T
        s.eng, s.p, s.bits, s.es = eng, p, bits, bits // 8
        s.store, s.cap, s.own = p.plus(L.off(A, "m_store", 0)), p.plus(L.off(A, "m_max_size", 1)), p.plus(L.off(A, "m_store_is_internal", 2))
        s.region = p.r; s.size = L.size(A)
        s.name = A
    def get(s, st, f, ty=INT(64)): return s.eng.load(st, f, ty)
    def init(s, c, name="array", own=None, null=False):
        e = s.eng; cap = c.i(name + ".size", hi=MAXCAP) if not null else 0
        if null: e.store(c.st, s.store, NULL, PTR)
        else:
            r = Region(name + ".storage", mul(s.es, cap), [Part(0, s.es, cap, {0: ("int", s.bits)})], kind="obj"); r.heapblock = True
            e.store(c.st, s.store, Ptr(r), PTR)
        e.store(c.st, s.cap, cap, INT(64)); e.store(c.st, s.own, own if own is not None else c.i(name + ".own", hi=1), INT(8))
        return s
    def inv(s, st):
        cap, sp, ow = s.get(st, s.cap), s.get(st, s.store, PTR), s.get(st, s.own, INT(8))
        if not isinstance(sp, Ptr): return False
        if sp.r.kind == "null": return conj(eq(cap, 0), le(ow, 1))
        return conj(sp.r not in st.freed, eq(sp.off(), 0), le(cap, sp.r.parts[0].count) if sp.r.parts else False, le(0, cap), le(cap, MAXCAP), le(ow, 1))
    def fn(s, st):
        return s.eng.field_fn(st, s.get(st, s.store, PTR), INT(s.bits))

class ABase(Contract):
    cls = "spn::structure::Array<{T}>"; this = 0
    def __init__(s, T, bits):
        s.T, s.bits, s.ity = T, bits, INT(bits); E = re.escape(T)
        s.attach = s.sig.replace("{C}", "spn::structure::Array<%s>" % E).replace("{V}", "spn::structure::Vector<%s>" % E).replace("{S}", "spn::structure::Stack<%s>" % E).replace("{T}", E).replace("{I}", "spn::structure::ArrayIterator").replace("{R}", "spn::structure::ArrayReverseIterator")
    def rep(s, c, i=None): return AR(c.eng, c.args[s.this if i is None else i], s.T, s.bits)
    def obj(s, c, name="this", undef=False, own=None, null=False):
        r = Region(name, c.eng.layouts.size(s.cls.replace("{T}", s.T)), init="undef" if undef else "lazy"); c.st.mem[r] = Content(); r.closed = True
        if not undef: s.make(c, Ptr(r), name, own, null)
        return Ptr(r)
    def make(s, c, p, name, own, null): AR(c.eng, p, s.T, s.bits).init(c, name, own, null)
    def setup(s, c): return [s.obj(c)] + s.params(c)
    def params(s, c): return []
    def pre(s, c): c.requires("array is well-formed", s.rep(c).inv(c.st)); s.pre2(c)
    def pre2(s, c): pass
    def item(s, c, name="value"):
        r = Region(name, s.bits // 8); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), c.i(name, s.bits), s.ity); return Ptr(r)
    def init_list(s, c):
        n = c.i("list.length", hi=MAXLIST); a = Region("list", mul(s.bits // 8, n), [Part(0, s.bits // 8, n, {0: ("int", s.bits)})]); r = Region("initializer_list", 16); c.st.mem[r] = Content()
        c.eng.store(c.st, Ptr(r), Ptr(a), PTR); c.eng.store(c.st, Ptr(r, 8), n, INT(64)); return Ptr(r)
    def elem(s, c, name, rep, idx, pre_size=True):
        """returns the address of element idx"""
        sp = rep.get(c.old, rep.store, PTR); c.returns(sp.plus(0, [(rep.es, idx)]), name)

class ACtor(ABase):
    sig = r"{C}::Array\(unsigned long\)"
    def setup(s, c):
        c.eng.heap_hint = (s.bits // 8, {0: ("int", s.bits)}); return [s.obj(c, undef=True)] + s.params(c)
    def params(s, c): return [c.i("size", hi=MAXCAP)]
    def pre(s, c): c.requires("size is allocatable", le(c.args[1], MAXCAP))
    def want(s, c): return c.args[1], lambda k: 0
    def post(s, c):
        rep = s.rep(c); n, f = s.want(c); e = c.eng
        if c.mode == "verify":
            c.touch(rep.region); c.ensures("well-formed, with the requested size and its own store", conj(rep.inv(c.st), eq(rep.get(c.st, rep.cap), n), ne(rep.get(c.st, rep.own, INT(8)), 0)))
            cur = rep.fn(c.st); c.ensures_all("every element has its initial value", lambda k: eq(cur(k), f(k)), 0, n)
        else:
            r = Region("heap", mul(s.bits // 8, n), [Part(0, s.bits // 8, n, {0: ("int", s.bits)})], kind="heap"); c.st.mem[r] = Content().part((0, 0), f); c.touch(rep.region)
            e.store(c.st, rep.store, Ptr(r), PTR); e.store(c.st, rep.cap, n, INT(64)); e.store(c.st, rep.own, 1, INT(8))
            s.more(c)
    def more(s, c): pass
class ACtorFill(ACtor):
    sig = r"{C}::Array\(unsigned long, {T}\)"
    def params(s, c): return [c.i("size", hi=MAXCAP), c.i("init_value", s.bits)]
    def want(s, c): return c.args[1], lambda k: c.args[2]
class ACtorList(ACtor):
    sig = r"{C}::Array\(std::initializer_list<{T}> const&\)"
    def params(s, c): return [s.init_list(c)]
    def pre(s, c): c.requires("list is allocatable", le(c.load(c.args[1].plus(8), INT(64)), MAXLIST))
    def want(s, c):
        p = c.load(c.args[1], PTR, old=True); f = c.eng.field_fn(c.old, p, s.ity); i0 = c.eng.index_of(p)[1]; return c.load(c.args[1].plus(8), INT(64), old=True), lambda k: f(add(i0, k))
    def loop(s, L):
        """the first n list elements were copied"""
        if not L.args or L.args[0].r.name not in ("this",): return
        if L.fn.demangled.find("initializer_list") < 0: return
        rep = AR(L.eng, L.args[0], s.T, s.bits); p = L.eng.load(L.entry, L.args[1], PTR); f = L.eng.field_fn(L.entry, p, s.ity); n = L.eng.load(L.entry, L.args[1].plus(8), INT(64))
        old = rep.fn(L.entry)
        L.inv("iterations", le(L.n, n))
        L.array("copied so far", L.eng.load(L.entry, rep.store, PTR), lambda k: ite(conj(le(0, k), lt(k, L.n)), f(k), old(k)))
class AExternal(ABase):
    """an array over a store of the caller (one contract for every length instantiated)"""
    sig = r"{C}::Array<\d+ul>\({T} ?\(&\) ?\[(\d+)(?:ul)?\]\)"
    def len_(s, c): return int(re.search(r"\[(\d+)", c.title)[1])
    def ext(s, c, n):
        r = Region("external", mul(s.bits // 8, n), [Part(0, s.bits // 8, n, {0: ("int", s.bits)})]); return Ptr(r)
    def setup(s, c): return [s.obj(c, undef=True), s.ext(c, s.len_(c))] + s.params(c)
    def pre(s, c): pass
    def count(s, c): return s.len_(c)
    def post(s, c):
        r = s.rep(c); c.sets("looks at the store given", r.store, PTR, c.args[1]); c.sets("has its length", r.cap, INT(64), s.count(c)); c.sets("does not own it", r.own, INT(8), 0)
        if c.mode == "verify": c.ensures("nothing is released", not (c.st.freed - c.old.freed))
        s.more(c, r)
    def more(s, c, r): pass
class ABuffer(AExternal):
    sig = r"{C}::Array\(unsigned char\*, unsigned long\)"
    def setup(s, c): n = c.i("length", hi=MAXCAP); return [s.obj(c, undef=True), s.ext(c, n), n]
    def pre(s, c): c.requires("the length is that of the buffer", le(c.args[2], MAXCAP))
    def count(s, c): return c.args[2]
    def more(s, c, r): c.writes_array("the elements start as zero", c.args[1], lambda k: 0, 0, c.args[2], s.ity)
class ADtor(ABase):
    sig = r"{C}::~Array\(\)"; variants = ("internal", "external", "moved-from")
    def setup(s, c): return [s.obj(c, own=1 if c.variant == "internal" else 0, null=c.variant == "moved-from")]
    def post(s, c):
        rep = s.rep(c); c.touch(rep.region); p = rep.get(c.old, rep.store, PTR); own = ne(rep.get(c.old, rep.own, INT(8)), 0)
        if c.mode == "verify":
            c.ensures("the store is released exactly when the array owns it", eq(p.r in c.st.freed, conj(own, p.r.kind != "null")))
        else:
            if own is True and p.r.kind != "null": c.st.freed = c.st.freed | {p.r}
            elif own is not False: raise Unsupported("destruction of an array of unknown ownership")
def takes(src_own):
    pass
class ACopy(ABase):
    sig = r"{C}::Array\({C} const&\)"
    def setup(s, c): return [s.obj(c, undef=True), s.obj(c, "other")]
    def pre(s, c): c.requires("source is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1)
        c.sets("copy looks at the same elements", a.store, PTR, b.get(c.old, b.store, PTR)); c.sets("copy has the same size", a.cap, INT(64), b.get(c.old, b.cap)); c.sets("copy does not own the store", a.own, INT(8), 0)
        if c.mode == "verify": c.ensures("nothing is released", not (c.st.freed - c.old.freed))
class AMove(ACopy):
    sig = r"{C}::Array\({C}&&\)"
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1)
        c.sets("takes the elements", a.store, PTR, b.get(c.old, b.store, PTR)); c.sets("takes the size", a.cap, INT(64), b.get(c.old, b.cap)); c.sets("takes the ownership", a.own, INT(8), b.get(c.old, b.own, INT(8)))
        c.sets("source lets go of the store", b.store, PTR, NULL)
        c.touch(b.region); 
        if c.mode == "verify": c.ensures("source is left well-formed", b.inv(c.st)); c.ensures("nothing is released", not (c.st.freed - c.old.freed))
        else: c.eng.store(c.st, b.cap, 0, INT(64)); c.eng.store(c.st, b.own, 0, INT(8))
class AAssign(ABase):
    sig = r"{C}::operator=\({C} const&\)"; variants = ("owning", "not owning", "view of the same store", "itself")
    move = False
    def setup(s, c):
        a = s.obj(c, own=0 if c.variant == "not owning" else 1)
        if c.variant == "itself": return [a, a]
        b = s.obj(c, "other", own=1 if s.move and c.variant != "view of the same store" else 0)
        if c.variant == "view of the same store":
            x, y = AR(c.eng, a, s.T, s.bits), AR(c.eng, b, s.T, s.bits); c.eng.store(c.st, y.store, x.get(c.st, x.store, PTR), PTR); n = c.i("view.size", hi=MAXCAP); c.eng.store(c.st, y.cap, n, INT(64)); c.st.assume(le(n, x.get(c.st, x.cap)))
        return [a, b]
    def pre(s, c): ABase.pre(s, c); c.requires("source is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1); self_ = c.args[0].r is c.args[1].r; pa, pb = a.get(c.old, a.store, PTR), b.get(c.old, b.store, PTR); same = pa.r is pb.r
        if c.mode == "use" and not self_ and not isc(a.get(c.old, a.own, INT(8))): raise Unsupported("assignment to an array of unknown ownership")
        c.sets("has the elements of the source", a.store, PTR, pb); c.sets("has the size of the source", a.cap, INT(64), b.get(c.old, b.cap))
        if not self_:
            oa, ob = ne(a.get(c.old, a.own, INT(8)), 0), ne(b.get(c.old, b.own, INT(8)), 0); own = disj(conj(s.move, ob), conj(same, oa)); gone = conj(oa, not same, pa.r.kind != "null")
            if c.mode == "verify":
                c.touch(a.region, a.own.c, a.own.c + 1); c.ensures("owns the store exactly when it must release it", eq(ne(a.get(c.st, a.own, INT(8)), 0), own)); c.ensures("the store it owned before is released", eq(pa.r in c.st.freed, gone))
                c.ensures("nothing else is released", not (c.st.freed - c.old.freed - {pa.r}))
            else:
                c.sets("ownership", a.own, INT(8), ite(own, 1, 0))
                if gone is True: c.st.freed = c.st.freed | {pa.r}
            if s.move:
                c.sets("source lets go of the store", b.store, PTR, NULL); c.touch(b.region)
                if c.mode == "verify": c.ensures("source is left well-formed", b.inv(c.st))
                else: c.eng.store(c.st, b.cap, 0, INT(64)); c.eng.store(c.st, b.own, 0, INT(8))
        elif c.mode == "verify": c.ensures("nothing is released", not (c.st.freed - c.old.freed))
        c.returns(c.args[0], "returns itself")
class AMoveAssign(AAssign):
    sig = r"{C}::operator=\({C}&&\)"; move = True
class AListAssign(ABase):
    sig = r"{C}::operator=\(std::initializer_list<{T}> const&\)"; variants = ("owning", "not owning")
    def setup(s, c):
        c.eng.heap_hint = (s.bits // 8, {0: ("int", s.bits)}); return [s.obj(c, own=1 if c.variant == "owning" else 0), s.init_list(c)]
    def pre2(s, c): c.requires("list is allocatable", le(c.load(c.args[1].plus(8), INT(64)), MAXLIST))
    def post(s, c):
        rep = s.rep(c); c.touch(rep.region); pa = rep.get(c.old, rep.store, PTR); oa = ne(rep.get(c.old, rep.own, INT(8)), 0)
        p = c.load(c.args[1], PTR, old=True); f = c.eng.field_fn(c.old, p, s.ity); i0 = c.eng.index_of(p)[1]; n = c.load(c.args[1].plus(8), INT(64), old=True)
        if c.mode == "verify":
            c.ensures("well-formed with the elements of the list, owning its store", conj(rep.inv(c.st), eq(rep.get(c.st, rep.cap), n), ne(rep.get(c.st, rep.own, INT(8)), 0)))
            cur = rep.fn(c.st); c.ensures_all("elements are those of the list", lambda k: eq(cur(k), f(add(i0, k))), 0, n)
            c.ensures("the store it owned before is released exactly once", eq(pa.r in c.st.freed, oa)); c.returns(c.args[0], "returns itself")
        else:
            if not isc(rep.get(c.old, rep.own, INT(8))): raise Unsupported("list assignment to an array of unknown ownership")
            r = Region("heap", mul(s.bits // 8, n), [Part(0, s.bits // 8, n, {0: ("int", s.bits)})], kind="heap"); c.st.mem[r] = Content().part((0, 0), lambda k: f(add(i0, k)))
            c.eng.store(c.st, rep.store, Ptr(r), PTR); c.eng.store(c.st, rep.cap, n, INT(64)); c.eng.store(c.st, rep.own, 1, INT(8))
            if oa is True and pa.r.kind != "null": c.st.freed = c.st.freed | {pa.r}
            c.ret = c.args[0]
class AAt(ABase):
    sig = r"{C}::(at|operator\[\])\(unsigned long\)( const)?"
    def params(s, c): return [c.i("index")]
    def pre2(s, c): c.requires("index is below the size", lt(c.args[1], s.rep(c).get(c.st, s.rep(c).cap)))
    def post(s, c): s.elem(c, "reference to that element", s.rep(c), c.args[1])
class AFront(ABase):
    sig = r"{C}::(front|data)\(\)( const)?"
    def post(s, c): s.elem(c, "reference to the first element", s.rep(c), 0)
class ABack(ABase):
    sig = r"{C}::back\(\)"
    def pre2(s, c): c.requires("not empty", gt(s.rep(c).get(c.st, s.rep(c).cap), 0))
    def post(s, c): r = s.rep(c); s.elem(c, "reference to the last element", r, sub(r.get(c.old, r.cap), 1))
class ASize(ABase):
    sig = r"{C}::(size|max_size)\(\) const"
    def pre(s, c):
        if c.mode == "verify": ABase.pre(s, c)
    def post(s, c): r = s.rep(c); c.returns(r.get(c.old, r.cap), "the number of elements")
class AEmpty(ABase):
    sig = r"{C}::empty\(\) const"
    def post(s, c): r = s.rep(c); c.returns(eq(r.get(c.old, r.cap), 0), "no elements")
class ASwap(ABase):
    sig = r"{C}::swap\({C}&\)"; variants = ("two arrays", "itself")
    def setup(s, c): a = s.obj(c); return [a, a if c.variant == "itself" else s.obj(c, "other")]
    def pre2(s, c): c.requires("other is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1)
        for x, y in ((a, b), (b, a)):
            for f, ty, nm in (("store", PTR, "elements"), ("cap", INT(64), "size"), ("own", INT(8), "ownership")): c.sets("%s are exchanged" % nm, getattr(x, f), ty, y.get(c.old, getattr(y, f), ty))
        if c.mode == "verify": c.ensures("nothing is released", not (c.st.freed - c.old.freed))
class AFill(ABase):
    sig = r"{C}::fill\({T} const&\)"
    def params(s, c): return [s.item(c)]
    def pre2(s, c): c.requires("has a store", s.rep(c).get(c.st, s.rep(c).store, PTR).r.kind != "null")
    def post(s, c):
        r = s.rep(c); x = c.load(c.args[1], s.ity, old=True); c.writes_array("every element equals the value", r.get(c.old, r.store, PTR), lambda k: x, 0, r.get(c.old, r.cap), s.ity)
def iters(cls, V):
    """iterator getters: (first index, one-past index) for each direction"""
    out = []
    def mk(sig_, what, idx):
        class G(VBase if V else ABase):
            sig = sig_
            def post(s, c):
                r = s.rep(c); sp = r.get(c.old, r.store, PTR); i = idx(r, c.old)
                if c.mode == "verify": p, k = c.ret.v; c.ensures(what, conj(c.eng.ptr_eq(c.st, p, sp), eq(k, i)))
                else: c.ret = Agg([sp, i])
        G.__name__ = "Iter_" + re.sub(r"\W", "", sig_); out.append(G)
    lo = lambda r, st: r.get(st, r.head) if V else 0
    hi = lambda r, st: r.get(st, r.tail) if V else r.get(st, r.cap)
    dec = lambda x: ite(eq(x, 0), NPOS, sub(x, 1))
    same = lambda r, st: eq(lo(r, st), hi(r, st))
    mk(cls + r"::c?begin\(\)( const)?", "iteration starts at the first element", lo)
    mk(cls + r"::c?end\(\)( const)?", "iteration ends after the last element", hi)
    # backward iteration over an empty sequence starts where it ends; both positions are then arbitrary but equal
    if V:
        mk(cls + r"::c?rbegin\(\)( const)?", "backward iteration starts at the last element", lambda r, st: ite(same(r, st), hi(r, st), dec(hi(r, st))))
        mk(cls + r"::c?rend\(\)( const)?", "backward iteration ends before the first element", lambda r, st: ite(same(r, st), lo(r, st), dec(lo(r, st))))
    else:
        mk(cls + r"::c?rbegin\(\)( const)?", "backward iteration starts at the last element", lambda r, st: dec(hi(r, st)))
        mk(cls + r"::c?rend\(\)( const)?", "backward iteration ends before the first element", lambda r, st: dec(lo(r, st)))
    return out

# ---- iterators
class IBase(ABase):
    def it(s, c, name="this"):
        r = Region(name, 16); c.st.mem[r] = Content(); r.closed = True; n = c.i("length", hi=MAXCAP); a = Region("elements", mul(s.bits // 8, n), [Part(0, s.bits // 8, n, {0: ("int", s.bits)})])
        c.eng.store(c.st, Ptr(r), Ptr(a), PTR); c.eng.store(c.st, Ptr(r, 8), c.i(name + ".index"), INT(64)); return Ptr(r)
    def setup(s, c): return [s.it(c)] + s.params(c)
    def pre(s, c): s.pre2(c)
    def idx(s, c, st, i=0): return c.eng.load(st, c.args[i].plus(8), INT(64))
def step(sig_, d, post_):
    class St(IBase):
        sig = sig_
        def params(s, c): return [c.i("dummy", 32)] if post_ else []
        def post(s, c):
            i = s.idx(c, c.old); n = ite(eq(i, NPOS), 0, add(i, 1)) if d > 0 else ite(eq(i, 0), NPOS, sub(i, 1)); sp = c.load(c.args[0], PTR, old=True)
            c.sets("moves by one element", c.args[0].plus(8), INT(64), n)
            if not post_: c.returns(c.args[0], "returns itself")
            elif c.mode == "verify": p, k = c.ret.v; c.ensures("returns the old position", conj(c.eng.ptr_eq(c.st, p, sp), eq(k, i)))
            else: c.ret = Agg([sp, i])
    return St
class IDeref(IBase):
    sig = r"{I}<{T}( const)?>::operator\*\(\) const"
    def pre2(s, c):
        p = c.load(c.args[0], PTR); c.requires("position is inside the elements", lt(s.idx(c, c.st), p.r.parts[0].count))
    def post(s, c): p = c.load(c.args[0], PTR, old=True); c.returns(p.plus(0, [(s.bits // 8, s.idx(c, c.old))]), "the element at that position")
def cmp(sig_, neg):
    class Cm(IBase):
        sig = sig_
        def params(s, c): return [s.it(c, "other")]
        def post(s, c): e = eq(s.idx(c, c.old), s.idx(c, c.old, 1)); c.returns(no(e) if neg else e, "compares positions")
    return Cm
ITS = [step(r"{I}<{T}( const)?>::operator\+\+\(\)", 1, 0), step(r"{I}<{T}( const)?>::operator--\(\)", -1, 0), step(r"{I}<{T}( const)?>::operator\+\+\(int\)", 1, 1), step(r"{I}<{T}( const)?>::operator--\(int\)", -1, 1),
       step(r"{R}<{T}( const)?>::operator\+\+\(\)", -1, 0), step(r"{R}<{T}( const)?>::operator--\(\)", 1, 0), step(r"{R}<{T}( const)?>::operator\+\+\(int\)", -1, 1), step(r"{R}<{T}( const)?>::operator--\(int\)", 1, 1),
       IDeref, cmp(r"({I}|{R})<{T}( const)?>::operator==\(.*\) const", False), cmp(r"({I}|{R})<{T}( const)?>::operator!=\(.*\) const", True)]

# ---------------------------------------------------------------- Vector
class Seq:
    def __init__(s, n, at, cap=None): s.n, s.at, s.cap = n, at, cap
class VR(AR):
    def __init__(s, eng, p, T, bits):
        AR.__init__(s, eng, p, T, bits); L = eng.layouts; V = "spn::structure::Vector<%s>" % T
        s.head, s.tail = p.plus(L.off(V, "m_head", 1)), p.plus(L.off(V, "m_tail", 2)); s.extent = (p.c, p.c + L.size(V))
    def init(s, c, name="vector", own=None, null=False):
        AR.init(s, c, name, own, null); e = s.eng
        e.store(c.st, s.head, c.i(name + ".head") if not null else 0, INT(64)); e.store(c.st, s.tail, c.i(name + ".tail") if not null else 0, INT(64)); return s
    def inv(s, st, normal=True):
        """normal: an empty vector starts over at the first slot (between operations)"""
        h, t = s.get(st, s.head), s.get(st, s.tail); return conj(AR.inv(s, st), le(0, h), le(h, t), le(t, s.get(st, s.cap)), imp(eq(h, t), eq(h, 0)) if normal else True)
    def view(s, st):
        h, t = s.get(st, s.head), s.get(st, s.tail); f = s.fn(st) if s.get(st, s.store, PTR).r.kind != "null" else lambda k: 0; return Seq(sub(t, h), lambda k: f(add(h, k)), s.get(st, s.cap))
    def regions(s, st): return [s.get(st, s.store, PTR).r]
    def check(s, c, v, name="vector"):
        st = c.st; c.ensures("%s stays well-formed" % name, s.inv(st)); cur = s.view(st)
        c.ensures("%s keeps its store" % name, conj(s.eng.ptr_eq(st, s.get(st, s.store, PTR), s.get(c.old, s.store, PTR)), eq(cur.cap, s.get(c.old, s.cap)), eq(s.get(st, s.own, INT(8)), s.get(c.old, s.own, INT(8)))))
        c.ensures("%s: number of elements" % name, eq(cur.n, v.n)); c.ensures_all("%s: sequence of elements" % name, lambda k: eq(cur.at(k), v.at(k)), 0, v.n)
    def havoc_to(s, c, v):
        st, e = c.st, s.eng; h, t = fint("head"), fint("tail"); e.store(st, s.head, h, INT(64)); e.store(st, s.tail, t, INT(64))
        st.assume(z3.And(h >= 0, t >= 0)); st.assume(s.inv(st)); st.assume(eq(sub(t, h), v.n)); sp = s.get(st, s.store, PTR)
        if sp.r.kind == "null": return
        junk = fun("stale"); st.mem[sp.r] = st.content(sp.r).part((0, 0), lambda j: ite(conj(le(h, j), lt(j, t)), v.at(sub(j, h)), junk(I(j))))
class VBase(ABase):
    cls = "spn::structure::Vector<{T}>"; loose = False   # loose: also in the middle of an operation
    def pre(s, c): c.requires("array is well-formed", s.rep(c).inv(c.st, not s.loose)); s.pre2(c)
    def rep(s, c, i=None): return VR(c.eng, c.args[s.this if i is None else i], s.T, s.bits)
    def make(s, c, p, name, own, null): VR(c.eng, p, s.T, s.bits).init(c, name, own, null)
    def nonempty(s, c): v = s.rep(c).view(c.st); c.requires("not empty", gt(v.n, 0))
    def at_slot(s, c, what, idx_old, value):
        """returns a reference to a slot holding `value` (idx_old: its position in the store)"""
        r = s.rep(c); sp = r.get(c.old, r.store, PTR)
        if c.mode == "verify":
            p = c.ret; good = isinstance(p, Ptr) and p.r is sp.r
            c.ensures(what, eq(c.eng.load(c.st, p, s.ity), value) if good else False)
        else:
            i = fint("slot"); c.st.assume(conj(le(0, i), lt(i, r.get(c.old, r.cap)))); c.ret = sp.plus(0, [(r.es, i)])
            f = r.fn(c.st); c.st.assume(eq(f(i), value))
def pushed_back(v, x): ok = lt(v.n, v.cap); return Seq(ite(ok, add(v.n, 1), v.n), lambda k: ite(conj(ok, eq(k, v.n)), x, v.at(k)))
def inserted(v, i, x):
    ok = lt(v.n, v.cap); i = tmin(i, v.n); return Seq(ite(ok, add(v.n, 1), v.n), lambda k: ite(ok, ite(lt(k, i), v.at(k), ite(eq(k, i), x, v.at(sub(k, 1)))), v.at(k)))
def removed(v, i): return Seq(sub(v.n, 1), lambda k: ite(lt(k, i), v.at(k), v.at(add(k, 1))))
class VPushBack(VBase):
    sig = r"{V}::(push|emplace)_back\({T} const&&?\)"
    def params(s, c): return [s.item(c)]
    def post(s, c): r = s.rep(c); c.becomes(r, pushed_back(r.view(c.old), c.load(c.args[1], s.ity, old=True)))
class VPushFront(VBase):
    sig = r"{V}::(push|emplace)_front\({T} const&&?\)"
    def params(s, c): return [s.item(c)]
    def post(s, c): r = s.rep(c); c.becomes(r, inserted(r.view(c.old), 0, c.load(c.args[1], s.ity, old=True)))
class VInsert(VBase):
    sig = r"{V}::insert\(unsigned long, {T} const&\)"
    def params(s, c): return [c.i("index", hi=2 ** 62), s.item(c)]
    def pre2(s, c): c.requires("index is a possible position", le(c.args[1], 2 ** 62))
    def post(s, c): r = s.rep(c); c.becomes(r, inserted(r.view(c.old), c.args[1], c.load(c.args[2], s.ity, old=True)))
class VPopBack(VBase):
    sig = r"{V}::pop_back\(\)"
    def pre2(s, c): s.nonempty(c)
    def post(s, c): r = s.rep(c); v = r.view(c.old); n = sub(v.n, 1); c.becomes(r, Seq(n, v.at)); s.at_slot(c, "delivers the last element", None, v.at(n))
class VPopFront(VBase):
    sig = r"{V}::pop_front\(\)"
    def pre2(s, c): s.nonempty(c)
    def post(s, c): r = s.rep(c); v = r.view(c.old); c.becomes(r, removed(v, 0)); s.at_slot(c, "delivers the first element", None, v.at(0))
class VRemove(VBase):
    sig = r"{V}::remove\(unsigned long\)"
    def params(s, c): return [c.i("index")]
    def post(s, c):
        r = s.rep(c); v = r.view(c.old); i = tmin(c.args[1], sub(v.n, 1)); there = conj(gt(v.n, 0), le(c.args[1], v.n)); w = removed(v, i)
        c.becomes(r, Seq(ite(there, w.n, v.n), lambda k: ite(there, w.at(k), v.at(k)))); c.returns(ite(there, v.at(i), 0), "delivers the element at that position, or a blank one where there is none")
class VPeekBack(VBase):
    loose = True
    sig = r"{V}::(peek_back|back)\(\)( const)?"
    def pre2(s, c): s.nonempty(c)
    def post(s, c): r = s.rep(c); s.elem(c, "reference to the last element", r, sub(r.get(c.old, r.tail), 1))
class VPeekFront(VBase):
    loose = True
    sig = r"{V}::(peek_front|front)\(\)( const)?"
    def pre2(s, c): s.nonempty(c)
    def post(s, c): r = s.rep(c); s.elem(c, "reference to the first element", r, r.get(c.old, r.head))
class VAt(VBase):
    loose = True
    sig = r"{V}::(at|operator\[\])\(unsigned long\)( const)?"
    def params(s, c): return [c.i("index")]
    def pre2(s, c): r = s.rep(c); c.requires("index is below the size", lt(c.args[1], r.view(c.st).n))
    def post(s, c): r = s.rep(c); s.elem(c, "reference to that element", r, add(r.get(c.old, r.head), c.args[1]))
class VClear(VBase):
    sig = r"{V}::clear\(\)"
    def post(s, c): r = s.rep(c); c.becomes(r, Seq(0, lambda k: 0))
    def loop(s, L):
        r = VR(L.eng, L.args[0], s.T, s.bits); v = r.view(L.entry); L.inv("iterations", le(L.n, v.n)); rep_loop(L, r, Seq(sub(v.n, L.n), v.at, v.cap))
class VSize(VBase):
    loose = True
    sig = r"{V}::size\(\) const"
    def post(s, c): c.returns(s.rep(c).view(c.old).n, "the number of elements")
class VEmpty(VBase):
    loose = True
    sig = r"{V}::empty\(\) const"
    def post(s, c): c.returns(eq(s.rep(c).view(c.old).n, 0), "no elements")
class VFull(VBase):
    loose = True
    sig = r"{V}::full\(\) const"
    def post(s, c): v = s.rep(c).view(c.old); c.returns(eq(v.n, v.cap), "as many elements as the store can hold")
class VFill(VBase):
    sig = r"{V}::fill\({T} const&\)"
    def params(s, c): return [s.item(c)]
    def post(s, c):
        r = s.rep(c); x = c.load(c.args[1], s.ity, old=True); v = r.view(c.old); c.becomes(r, Seq(v.cap, lambda k: x))
class VSwap(VBase):
    sig = r"{V}::swap\({V}&\)"; variants = ("two vectors", "itself")
    def setup(s, c): a = s.obj(c); return [a, a if c.variant == "itself" else s.obj(c, "other")]
    def pre2(s, c): c.requires("other is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1)
        for x, y in ((a, b), (b, a)):
            for f, ty in (("store", PTR), ("cap", INT(64)), ("own", INT(8)), ("head", INT(64)), ("tail", INT(64))): c.sets("elements and ownership are exchanged", getattr(x, f), ty, y.get(c.old, getattr(y, f), ty))
class VCtor(VBase, ACtor):
    sig = r"{V}::Vector\(unsigned long\)"
    def setup(s, c): return ACtor.setup(s, c)
    def pre(s, c): c.requires("size is allocatable", le(c.args[1], MAXCAP))
    def want(s, c): return c.args[1], 0, lambda k: 0
    def post(s, c):
        r = s.rep(c); cap, n, f = s.want(c); c.touch(r.region)
        if c.mode == "use":
            e = c.eng; g = Region("heap", mul(s.bits // 8, cap), [Part(0, s.bits // 8, cap, {0: ("int", s.bits)})], kind="heap"); h = fint("first"); c.st.assume(conj(le(0, h), le(add(h, n), cap)))
            c.st.mem[g] = Content().part((0, 0), lambda k: f(sub(k, h)))
            for q, ty, x in ((r.store, PTR, Ptr(g)), (r.cap, INT(64), cap), (r.own, INT(8), 1), (r.head, INT(64), h), (r.tail, INT(64), add(h, n))): e.store(c.st, q, x, ty)
            c.st.assume(r.inv(c.st)); return
        v = r.view(c.st)
        c.ensures("new vector is well-formed, owns its store and has the right capacity and size", conj(r.inv(c.st), eq(v.cap, cap), eq(v.n, n), ne(r.get(c.st, r.own, INT(8)), 0)))
        c.ensures_all("elements have their initial value", lambda k: eq(v.at(k), f(k)), 0, n)
class VCtorFill(VCtor):
    sig = r"{V}::Vector\(unsigned long, {T}\)"
    def params(s, c): return [c.i("size", hi=MAXCAP), c.i("init_value", s.bits)]
    def want(s, c): return c.args[1], c.args[1], lambda k: c.args[2]
class VCtorList(VCtor):
    sig = r"{V}::Vector\(std::initializer_list<{T}> const&\)"
    def params(s, c): return [s.init_list(c)]
    def pre(s, c): c.requires("list is allocatable", le(c.load(c.args[1].plus(8), INT(64)), MAXLIST))
    def want(s, c): n, f = ACtorList.want(s, c); return n, n, f
class VMove(VBase):
    sig = r"{V}::Vector\({V}&&\)"
    def setup(s, c): return [s.obj(c, undef=True), s.obj(c, "other")]
    def pre(s, c): c.requires("source is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1)
        for f, ty in (("store", PTR), ("cap", INT(64)), ("own", INT(8)), ("head", INT(64)), ("tail", INT(64))): c.sets("takes over elements and ownership", getattr(a, f), ty, b.get(c.old, getattr(b, f), ty))
        c.touch(b.region)
        if c.mode == "verify": c.ensures("source is left well-formed and empty", conj(b.inv(c.st), eq(b.view(c.st).n, 0), b.get(c.st, b.store, PTR).r.kind == "null"))
        else: raise Unsupported("vector move inside a verified function")
class VExternal(VBase, AExternal):
    sig = AExternal.sig.replace("{C}::Array", "{V}::Vector").replace(r"\]\)", r"\], unsigned long\)")
    def setup(s, c): return AExternal.setup(s, c)
    def params(s, c): return [c.i("size", hi=s.len_(c))]
    def pre(s, c): c.requires("no more elements than slots", le(c.args[2], s.len_(c)))
    def post(s, c): AExternal.post(s, c)
    def more(s, c, r): c.sets("starts at the first slot", r.head, INT(64), 0); c.sets("holds the elements given", r.tail, INT(64), c.args[2])
class VCopy(VBase):
    """a copy is a view of the same elements"""
    sig = r"{V}::Vector\({V} const&\)"; own = 0
    def setup(s, c): return [s.obj(c, undef=True), s.obj(c, "other")]
    def pre(s, c): c.requires("source is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        a, b = s.rep(c), s.rep(c, 1)
        for f, ty in (("store", PTR), ("cap", INT(64)), ("head", INT(64)), ("tail", INT(64))): c.sets("has the elements of the source", getattr(a, f), ty, b.get(c.old, getattr(b, f), ty))
        c.sets("does not own them", a.own, INT(8), 0)
        if c.mode == "verify": c.ensures("nothing is released", not (c.st.freed - c.old.freed))
class VAssign(VBase):
    sig = r"{V}::operator=\({V} const&\)"; variants = AAssign.variants
    move = False; setup = AAssign.setup
    def obj(s, c, name="this", undef=False, own=None, null=False): return ABase.obj(s, c, name, undef, own, null)
    def pre(s, c): ABase.pre(s, c); c.requires("source is well-formed", s.rep(c, 1).inv(c.st))
    def post(s, c):
        AAssign.post(s, c); a, b = s.rep(c), s.rep(c, 1)
        for f in ("head", "tail"): c.sets("has the elements of the source", getattr(a, f), INT(64), b.get(c.old, getattr(b, f)))
class VMoveAssign(VBase):
    sig = r"{V}::operator=\({V}&&\)"
    def setup(s, c): return [s.obj(c, own=1), s.obj(c, "other", own=1)]
    def pre2(s, c): c.requires("source is well-formed", s.rep(c, 1).inv(c.st))
    post = VMove.post
class VRearrange(VBase):
    """private: move the elements to the start of the store; slots that hold no element are wiped (an owning element type must not see stale copies)"""
    sig = r"{V}::rearrange\(unsigned long\)"; optional = True
    def params(s, c): return [c.i("idx")]
    def pre2(s, c): r = s.rep(c); c.requires("elements fit behind the new start", conj(le(c.args[1], r.get(c.st, r.cap)), le(add(c.args[1], r.view(c.st).n), r.get(c.st, r.cap))))
    def post(s, c):
        r = s.rep(c); v = r.view(c.old); i = c.args[1]; n = v.n
        c.sets("elements start at idx", r.head, INT(64), i); c.sets("elements end behind them", r.tail, INT(64), add(i, n))
        c.writes_array("elements keep their order, every other slot is wiped", r.get(c.old, r.store, PTR), lambda k: ite(conj(le(i, k), lt(k, add(i, n))), v.at(sub(k, i)), 0), 0, v.cap, s.ity)
class VListAssign(VCtorList):
    sig = r"{V}::operator=\(std::initializer_list<{T}> const&\)"
    variants = ("owning", "not owning")
    def setup(s, c):
        c.eng.heap_hint = (s.bits // 8, {0: ("int", s.bits)}); return [s.obj(c, own=1 if c.variant == "owning" else 0), s.init_list(c)]
    def pre(s, c): VCtorList.pre(s, c); c.requires("vector is well-formed", s.rep(c).inv(c.st))
VALL = [VPushBack, VPushFront, VInsert, VPopBack, VPopFront, VRemove, VPeekBack, VPeekFront, VAt, VClear, VSize, VEmpty, VFull, VFill, VSwap, VCtor, VCtorFill, VCtorList, VMove, VExternal, VCopy, VAssign, VMoveAssign, VListAssign, VRearrange] + iters(r"{V}", True)
AALL = [AExternal, ACtor, ACtorFill, ACtorList, ADtor, ACopy, AMove, AAssign, AMoveAssign, AListAssign, AAt, AFront, ABack, ASize, AEmpty, ASwap, AFill] + iters(r"{C}", False) + ITS

# ---------------------------------------------------------------- Stack: a vector used from its back
class SBase(VBase):
    cls = "spn::structure::Stack<{T}>"
    def rep(s, c, i=None): return VR(c.eng, c.args[s.this].plus(c.eng.layouts.off("spn::structure::Stack<%s>" % s.T, "store", 0)), s.T, s.bits)
    def make(s, c, p, name, own, null): VR(c.eng, p.plus(c.eng.layouts.off("spn::structure::Stack<%s>" % s.T, "store", 0)), s.T, s.bits).init(c, name, own, null)
class SPush(SBase):
    sig = r"{S}::(push|emplace)\({T}&&?\)"
    def params(s, c): return [s.item(c)]
    def post(s, c): r = s.rep(c); c.becomes(r, pushed_back(r.view(c.old), c.load(c.args[1], s.ity, old=True)))
class SPop(SBase):
    sig = r"{S}::pop\(\)"
    def pre2(s, c): s.nonempty(c)
    def post(s, c): r = s.rep(c); v = r.view(c.old); c.becomes(r, Seq(sub(v.n, 1), v.at))
class STop(SBase):
    sig = r"{S}::top\(\)"
    def pre2(s, c): s.nonempty(c)
    def post(s, c): r = s.rep(c); s.elem(c, "reference to the newest element", r, sub(r.get(c.old, r.tail), 1))
class SSize(SBase):
    sig = r"{S}::size\(\)"
    def post(s, c): c.returns(s.rep(c).view(c.old).n, "the number of elements")
class SEmpty(SBase):
    sig = r"{S}::empty\(\)"
    def post(s, c): c.returns(eq(s.rep(c).view(c.old).n, 0), "no elements")
class SCtor(SBase):
    """a new stack is empty and owns a store of the size asked for"""
    sig = r"{S}::Stack\(unsigned long\)"
    def setup(s, c):
        c.eng.heap_hint = (s.bits // 8, {0: ("int", s.bits)}); r = Region("this", c.eng.layouts.size(s.cls.replace("{T}", s.T)), init="undef"); c.st.mem[r] = Content(); return [Ptr(r), c.i("size", hi=MAXCAP)]
    def pre(s, c): c.requires("size is allocatable", le(c.args[1], MAXCAP))
    def post(s, c):
        if c.mode == "use": raise Unsupported("construction of a stack inside a verified function")
        r = s.rep(c); c.touch(r.region); v = r.view(c.st)
        c.ensures("new stack is well-formed, empty, owns its store and has the capacity asked for", conj(r.inv(c.st), eq(v.cap, c.args[1]), eq(v.n, 0), ne(r.get(c.st, r.own, INT(8)), 0)))
SALL = [SCtor, SPush, SPop, STop, SSize, SEmpty]
def arrays(T="int", bits=32): return [k(T, bits) for k in AALL]
def bytes_(): return [k("unsigned char", 8) for k in (ABuffer, ACtor, ADtor, AAt, ASize, AFill)]
def vectors(T="int", bits=32): return [k(T, bits) for k in VALL]
def stacks(T="int", bits=32): return [k(T, bits) for k in SALL]

"""Contracts for futures, the event pipeline and the object pool.

Shared pointers are libstdc++'s own code, down to the three functions of the control block, which are modelled: an object and its
control block share an index k > 0; the control block's use count is a real field of it."""
from dv.contracts import *
from dv.models import model
from .timing import *
from . import timing as T, units as U
SP = 16
USE = 8           # offset of the use count in the control block
def fam_fn(eng, st, r, off): return eng.field_fn(st, Ptr(r, off))
def poke(eng, st, r, off, i, v):
    q = Ptr(r, off); _, key, _ = eng.field_key(q); old = eng.field_fn(st, q); st.stores = st.stores + ((r, key, i, v),); st.mem[r] = st.content(r).part(key, lambda k, old=old: ite(eq(k, i), v, old(k)))
class Fam:
    """the objects shared pointers point to and their control blocks"""
    def __init__(s, c, name, es, tags):
        s.obj = Region(name, None, [Part(0, es, None, tags)]); s.obj.nullable = True; c.st.mem[s.obj] = Content()
        s.ctl = Region("control blocks of " + name, None, [Part(0, 16, None, {USE: ("int", 32), 12: ("int", 32)})]); s.ctl.nullable = True; s.ctl.control = True
        use = fun("uses"); c.st.mem[s.ctl] = Content().part((0, USE), lambda k: use(I(k))); s.obj.fam = s
    def uses(s, eng, st): return fam_fn(eng, st, s.ctl, USE)
    def known(s, c):
        """every object is referenced fewer than 2^31 times"""
        f = s.uses(c.eng, c.st); k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], z3.And(I(f(k)) >= 0, I(f(k)) < 2 ** 31 - 8), patterns=[f(k)]))
    def ptr(s, c, k, name="pointer"):
        """a shared pointer object holding k"""
        r = Region(name, SP); r.closed = True; c.st.mem[r] = Content(); s.put(c.eng, c.st, Ptr(r), k); return Ptr(r)
    def put(s, eng, st, p, k):
        if isc(k) and k == 0: o = q = NULL
        else: o, q = Ptr(s.obj, 0, [(s.obj.parts[0].es, k)]), Ptr(s.ctl, 0, [(16, k)])
        eng.store(st, p, o, PTR); eng.store(st, p.plus(8), q, PTR)
    def get(s, eng, st, p):
        """index of the object; the two halves of a shared pointer must agree"""
        o, q = eng.load(st, p, PTR), eng.load(st, p.plus(8), PTR); return s.idx(eng, o), s.idx(eng, q)
    def idx(s, eng, p):
        if not isinstance(p, Ptr): return None
        return 0 if p.r.kind == "null" else eng.index_of(p)[1]
def _ctl(e, st, p, what):
    if not isinstance(p, Ptr) or not p.r.__dict__.get("control"): raise Unsupported("%s of an unknown control block" % what)
    i = e.index_of(p)[1]; u = fam_fn(e, st, p.r, USE)(i); e.oblige(st, "%s: the object is still referenced" % what, conj(gt(i, 0), ge(u, 1))); return i, u
SPB = r"std::_Sp_counted_base<\(__gnu_cxx::_Lock_policy\)2>::"
@model(SPB + r"_M_release\(\)", "std::shared_ptr: dropping a reference decrements the use count; the object goes with the last one")
def _release(e, st, name, a, rty): i, u = _ctl(e, st, a[0], "release"); poke(e, st, a[0].r, USE, i, sub(u, 1)); return None
@model(SPB + r"_M_add_ref_copy\(\)", "std::shared_ptr: a copy increments the use count")
def _addref(e, st, name, a, rty): i, u = _ctl(e, st, a[0], "copy"); poke(e, st, a[0].r, USE, i, add(u, 1)); return None
@model(SPB + r"_M_get_use_count\(\) const", "std::shared_ptr: use count")
def _count(e, st, name, a, rty): return fam_fn(e, st, a[0].r, USE)(e.index_of(a[0])[1])

# ---------------------------------------------------------------- a vector of shared pointers
class SV:
    """Vector<std::shared_ptr<T>> at p; slots in use hold objects, the others nothing"""
    def __init__(s, eng, p, T, off=None):
        L = eng.layouts; A = "spn::structure::Array<std::shared_ptr<%s> >" % T; V = A.replace("Array", "Vector"); s.eng, s.p = eng, p
        s.store, s.cap, s.own = p.plus(L.off(A, "m_store", 0)), p.plus(L.off(A, "m_max_size", 1)), p.plus(L.off(A, "m_store_is_internal", 2))
        s.head, s.tail = p.plus(L.off(V, "m_head", 1)), p.plus(L.off(V, "m_tail", 2)); s.size = L.size(V)
    def g(s, st, f, ty=INT(64)): return s.eng.load(st, f, ty)
    def init(s, c, fam, live=True):
        e = s.eng; cap = c.i("capacity", hi=2 ** 31); h, t = c.i("head"), c.i("tail"); c.st.assume(conj(le(0, h), le(h, t), le(t, cap), imp(eq(h, t), eq(h, 0))))
        r = Region("slots", mul(SP, cap), [Part(0, SP, cap, {0: ("ptr", fam.obj), 8: ("ptr", fam.ctl)})]); r.heapblock = True; f = fun("slot")
        k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], f(k) > 0, patterns=[f(k)])); s0 = lambda k: ite(conj(le(h, k), lt(k, t)), f(I(k)), 0)
        c.st.mem[r] = Content().part((0, 0), s0).part((0, 8), s0); c.first = lambda k: f(I(add(h, k))); c.raw = (f, h, t)
        for a, v, ty in ((s.store, Ptr(r), PTR), (s.cap, cap, INT(64)), (s.own, 1, INT(8)), (s.head, h, INT(64)), (s.tail, t, INT(64))): e.store(c.st, a, v, ty)
        return s
    def slots(s, st): return s.g(st, s.store, PTR)
    def at(s, st): f = s.eng.field_fn(st, s.slots(st)); h = s.g(st, s.head); return lambda k: f(add(h, k))
    def n(s, st): return sub(s.g(st, s.tail), s.g(st, s.head))
    def capacity(s, st): return s.g(st, s.cap)
    def havoc(s, c, n, at):
        """the vector holds at(0..n-1), at an unknown place of its store"""
        e, st = s.eng, c.st; h, t, cap = fint("head"), fint("tail"), s.g(st, s.cap); st.assume(conj(le(0, h), le(h, t), le(t, cap), imp(eq(h, t), eq(h, 0)), eq(sub(t, h), n)))
        e.store(st, s.head, h, I64); e.store(st, s.tail, t, I64); f = lambda k: ite(conj(le(h, k), lt(k, t)), at(sub(k, h)), 0); r = s.slots(st).r; st.mem[r] = st.content(r).part((0, 0), f).part((0, 8), f)
    def check(s, c, n, at, why, wiped=True):
        """ensures: the sequence is at(0..n-1); unused slots hold nothing"""
        if c.mode == "use": s.havoc(c, n, at); return
        e, st = s.eng, c.st; sp = s.slots(st); old = s.slots(c.old); h, t = s.g(st, s.head), s.g(st, s.tail); c.touch(s.p.r, s.p.c, s.p.c + s.size); c.touch(sp.r)
        c.ensures("the vector keeps its store", conj(e.ptr_eq(st, sp, old), eq(s.g(st, s.cap), s.g(c.old, s.cap)), eq(s.g(st, s.own, INT(8)), s.g(c.old, s.own, INT(8)))))
        c.ensures("the vector stays well-formed", conj(le(0, h), le(h, t), le(t, s.g(st, s.cap)), imp(eq(h, t), eq(h, 0))))
        c.ensures("%s: number" % why, eq(sub(t, h), n)); cur, ctl = e.field_fn(st, sp), e.field_fn(st, sp.plus(8)); cap = s.g(st, s.cap)
        c.ensures_all("%s: in order" % why, lambda k: eq(cur(add(h, k)), at(k)), 0, n)
        c.ensures_all("%s: every slot is a whole shared pointer" % why, lambda k: eq(ctl(k), cur(k)), 0, cap)
        if wiped: c.ensures_all("%s: unused slots hold nothing" % why, lambda k: imp(disj(lt(k, h), ge(k, t)), eq(cur(k), 0)), 0, cap)

def distinct(st, raw, pos):
    """the objects in the vector are different ones: pos tells the slot of each"""
    f, h, t = raw; k = z3.Int(fresh_name("q")); st.assume(z3.ForAll([k], B(imp(conj(le(h, k), lt(k, t)), eq(pos(f(k)), k))), patterns=[f(k)]))

def holds(pos, h, n, at, x):
    """x is one of at(0..n-1), which start at slot h"""
    i = sub(pos(I(x)), h); return conj(le(0, i), lt(i, n), eq(at(i), x))

# ---------------------------------------------------------------- futures
EV = "spn::eventsystem::"
FUT = EV + "Future"
class Futures(Fam):
    def __init__(s, c):
        L = c.eng.layouts; s.per = L.off(FUT, "_time_from_now", 0); t = L.off(FUT, "_timer", 1); s.when = t + L.off(TM + "AlarmTimer", "_future", 0); s.gone = t + L.off(TM + "AlarmTimer", "_expired", 1)
        Fam.__init__(s, c, "futures", L.size(FUT), {s.per: ("int", 64), s.when: ("int", 64), s.gone: ("int", 8)})
        P, W, G = fun("delay"), fun("when"), fun("expired"); k = z3.Int(fresh_name("q")); m = LIM // 4
        for f, m in (P, m // 2), (W, m): c.st.assume(z3.ForAll([k], z3.And(f(k) >= -m, f(k) <= m), patterns=[f(k)]))
        c.st.assume(z3.ForAll([k], z3.And(G(k) >= 0, G(k) <= 1), patterns=[G(k)]))
        c.st.mem[s.obj] = Content().part((0, s.per), lambda k: un(P(I(k)))).part((0, s.when), lambda k: un(W(I(k)))).part((0, s.gone), lambda k: G(I(k)))
    def f(s, eng, st, o): g = fam_fn(eng, st, s.obj, o); return (lambda k: sg(g(k))) if o != s.gone else g
class FBase(CBase):
    """member of a future: one of the family, given by index"""
    def __init__(s): s.attach = s.sig.replace("{C}", FUT).replace("{MS}", MS)
    def setup(s, c): s.fm = Futures(c); k = c.i("future", lo=1); return [Ptr(s.fm.obj, 0, [(s.fm.obj.parts[0].es, k)])] + s.params(c)
    def o(s, c): 
        L = c.eng.layouts; t = L.off(FUT, "_timer", 1); return dict(per=L.off(FUT, "_time_from_now", 0), when=t + L.off(TM + "AlarmTimer", "_future", 0), gone=t + L.off(TM + "AlarmTimer", "_expired", 1))
    def get(s, c, f, old=True):
        x = c.eng.load(c.old if old else c.st, c.args[0].plus(s.o(c)[f]), I8 if f == "gone" else I64); return x if f == "gone" else sg(x)
    def put(s, c, why, f, v):
        p = c.args[0].plus(s.o(c)[f]); c.sets(why, p, I8 if f == "gone" else I64, v if f == "gone" else un(v))
        if c.mode == "verify" and p.r.parts:
            i = c.eng.index_of(p)[1]; a, b = c.eng.field_fn(c.old, p), c.eng.field_fn(c.st, p); k = fint("k"); c.eng.oblige(c.st, "frame: other futures unchanged", disj(eq(k, i), eq(a(k), b(k))), assume=False)
    def pre2(s, c):
        c.requires("the future is in range", conj(tfits(s.get(c, "per", False), LIM // 8), tfits(s.get(c, "when", False), LIM // 4), le(s.get(c, "gone", False), 1)))
class FResched(FBase):
    sig = r"{C}::reschedule\({MS}\)"
    def params(s, c): return [s.t(c, "delay", LIM // 8)]
    def pre2(s, c): FBase.pre2(s, c); c.requires("the delay is in range", tfits(s.v(c, 1), LIM // 8))
    def post(s, c):
        d = ite(eq(s.v(c, 1), 0), s.get(c, "per"), s.v(c, 1)); s.put(c, "keeps the delay, unless a new one is given", "per", d); s.put(c, "fires that delay from now", "when", add(s.now(c), d)); s.put(c, "has not fired", "gone", 0)
class FExpired(FBase):
    sig = r"{C}::expired\(\)"
    def post(s, c):
        r = disj(ne(s.get(c, "gone"), 0), le(s.get(c, "when"), s.now(c))); c.returns(r, "ready exactly from its moment on"); s.put(c, "remembers it", "gone", ite(r, 1, 0))
class FFuture(FBase):
    sig = r"{C}::future\(\)"; optional = True
    def post(s, c): c.returns(un(s.get(c, "when")), "the moment it fires")
class FUntil(FBase):
    sig = r"{C}::time_until_future\(\)"; optional = True
    def post(s, c): c.returns(un(sub(s.get(c, "when"), s.now(c))), "the time until it fires")
class FCmp(FBase):
    sig = r"{C}::operator(?:==|<)\({C} const&\) const"; optional = True
    def params(s, c): return [Ptr(s.fm.obj, 0, [(s.fm.obj.parts[0].es, c.i("other", lo=1))])]
    def pre2(s, c):
        FBase.pre2(s, c); L = c.eng.layouts; c.requires("the other future is in range", tfits(sg(c.eng.load(c.st, c.args[1].plus(s.o(c)["when"]), I64)), LIM // 4))
    def post(s, c):
        a, b = s.get(c, "when"), sg(c.eng.load(c.old, c.args[1].plus(s.o(c)["when"]), I64)); c.returns(eq(a, b) if "==" in c.title else lt(a, b), "compares the moments they fire")
class FCtor(FBase):
    sig = r"{C}::Future\({MS}\)"
    def setup(s, c): r = Region("this", c.eng.layouts.size(FUT), init="undef"); c.st.mem[r] = Content(); return [Ptr(r), s.t(c, "delay", LIM // 8)]
    def pre2(s, c): c.requires("the delay is in range", tfits(s.v(c, 1), LIM // 8))
    def post(s, c): d = s.v(c, 1); s.put(c, "keeps the delay", "per", d); s.put(c, "fires that delay from now", "when", add(s.now(c), d)); s.put(c, "has not fired", "gone", 0)
DResched = defaulted(FResched, r"defaults::reschedule\({C}&\)", [0]); DFuture = defaulted(FCtor, r"defaults::future\({C}\*\)", [0])
def default_arguments(): return [DResched(), DFuture()]
def futures(): return [K() for K in (FCtor, FResched, FExpired, FFuture, FUntil, FCmp)]

# ---------------------------------------------------------------- the pipeline: futures in the order they fire
PL = EV + "Pipeline"
class PLB(CBase):
    def __init__(s): s.attach = s.sig.replace("{C}", PL).replace("{F}", r"std::shared_ptr<%s>" % FUT).replace("{MS}", MS)
    def rep(s, c): return SV(c.eng, c.args[s.this].plus(c.eng.layouts.off(PL, "_pipe", 0)), FUT)
    this = 0
    def pipe(s, c):
        s.fm = c.fm = Futures(c); c.fm.known(c); r = Region("this", c.eng.layouts.size(PL)); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); v = SV(c.eng, p.plus(c.eng.layouts.off(PL, "_pipe", 0)), FUT).init(c, c.fm)
        k = z3.Int(fresh_name("q")); u = c.fm.uses(c.eng, c.st); x = c.first(k); n = v.n(c.st)
        c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), ge(u(x), 1))), patterns=[x])); return p
    def setup(s, c): return [s.pipe(c)] + s.params(c)
    def pre(s, c):
        if c.mode == "use": c.fm = s.rep(c).slots(c.st).r.parts[0].tags[0][1].fam
        CBase.pre(s, c)
    def when(s, c, old=True): return c.fm.f(c.eng, c.old if old else c.st, c.fm.when)
    def ready(s, c, k): return disj(ne(c.fm.f(c.eng, c.old, c.fm.gone)(k), 0), le(s.when(c)(k), s.now(c)))
    def unchanged(s, c): v = s.rep(c); v.check(c, v.n(c.old), v.at(c.old), "the futures in the pipeline stay")
    def asked(s, c):
        """asking a future whether it is ready lets it remember that it is"""
        c.touch(c.fm.obj); e = c.eng; w0, w1 = fam_fn(e, c.old, c.fm.obj, c.fm.when), fam_fn(e, c.st, c.fm.obj, c.fm.when); g0, g1 = fam_fn(e, c.old, c.fm.obj, c.fm.gone), fam_fn(e, c.st, c.fm.obj, c.fm.gone)
        p0, p1 = fam_fn(e, c.old, c.fm.obj, c.fm.per), fam_fn(e, c.st, c.fm.obj, c.fm.per); k = fint("k")
        if c.mode == "use":
            p = Ptr(c.fm.obj, c.fm.gone); r, key, _ = e.field_key(p); f = fun("expired"); c.st.mem[r] = c.st.content(r).part(key, lambda k: f(I(k))); k = z3.Int(fresh_name("q")); g0 = g0
            c.st.assume(z3.ForAll([k], B(disj(eq(f(k), g0(k)), conj(eq(f(k), 1), s.ready(c, k)))), patterns=[f(k)])); return
        e.oblige(c.st, "ensures no future changes its moment", conj(eq(w1(k), w0(k)), eq(p1(k), p0(k)), disj(eq(g1(k), g0(k)), conj(eq(g1(k), 1), s.ready(c, k)))), assume=False)
class PLAny(PLB):
    sig = r"{C}::contains_futures\(\) const"
    def post(s, c): c.returns(gt(s.rep(c).n(c.old), 0), "whether there is any future")
class PLExpired(PLB):
    sig = r"{C}::contains_expired_futures\(\) const"
    def post(s, c):
        v = s.rep(c); c.returns(conj(gt(v.n(c.old), 0), s.ready(c, v.at(c.old)(0))), "whether the first future is ready"); s.asked(c)
class PLNext(PLB):
    sig = r"{C}::time_until_next_future\(\) const"
    def post(s, c):
        v = s.rep(c); d = sub(s.when(c)(v.at(c.old)(0)), s.now(c)); c.returns(un(ite(conj(gt(v.n(c.old), 0), gt(d, 0)), d, 0)), "time until the first future is due")
class PLPush(PLB):
    sig = r"{C}::push\({F}&&\)"
    def params(s, c): k = s.x = c.i("future", lo=1); return [c.fm.ptr(c, k)]
    def pre2(s, c):
        v = s.rep(c); n = v.n(c.st); e = c.eng; x = s.x; at = v.at(c.st); u = c.fm.uses(e, c.st); w = s.when(c, False); gap = add(s.now(c), c.fm.f(e, c.st, c.fm.per)(x))
        c.st.assume(ge(u(x), 1)); k, j = z3.Int(fresh_name("q")), z3.Int(fresh_name("q"))
        # the future is not in the pipeline yet; the pipeline is in order
        c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), ne(c.first(k), x))), patterns=[c.first(k)]))
        c.st.assume(z3.ForAll([j, k], B(imp(conj(le(0, j), lt(j, k), lt(k, n)), le(w(c.first(j)), w(c.first(k))))), patterns=[z3.MultiPattern(c.first(j), c.first(k))]))
        i = fint("place"); c.st.assume(conj(le(0, i), le(i, n), imp(lt(i, n), lt(gap, w(c.first(i)))), imp(gt(i, 0), le(w(c.first(sub(i, 1))), gap)))); c.g.update(place=i, gap=gap)
        k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], B(conj(imp(conj(le(0, k), lt(k, i)), le(w(c.first(k)), gap)), imp(conj(le(i, k), lt(k, n)), lt(gap, w(c.first(k)))))), patterns=[c.first(k)]))
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); i, x = c.g["place"], s.x; at = v.at(c.old); room = lt(n, v.capacity(c.old)); e = c.eng
        v.check(c, ite(room, add(n, 1), n), lambda k: ite(room, ite(lt(k, i), at(k), ite(eq(k, i), x, at(sub(k, 1)))), at(k)), "the future takes its place behind all that fire no later, the others keep their order")
        c.touch(c.fm.obj); c.touch(c.fm.ctl); u0, u1 = c.fm.uses(e, c.old), c.fm.uses(e, c.st); a, b = c.fm.get(e, c.st, c.args[1]); c.touch(c.args[1].r); held = ne(a, 0); k = fint("k")
        c.ensures("the caller's pointer is kept or emptied as a whole", conj(eq(a, b), disj(eq(a, 0), eq(a, x))))
        e.oblige(c.st, "ensures the pipeline shares the future", eq(u1(k), ite(eq(k, x), add(u0(k), ite(room, 1, 0), ) if False else add(add(u0(k), ite(room, 1, 0)), ite(held, 0, -1)), u0(k))), assume=False)
        w0, w1 = s.when(c), s.when(c, False); e.oblige(c.st, "ensures the future is scheduled from now, no other changes its moment", eq(w1(k), ite(eq(k, x), c.g["gap"], w0(k))), assume=False)
    def loop(s, L):
        e = L.eng
        if L.args[0].r.name != "this": return
        v = SV(e, L.args[0], FUT); fm = L.args[1] and e.load(L.entry, L.args[1], PTR).r.fam; n = v.n(L.entry); at = v.at(L.entry); w = fm.f(e, L.entry, fm.when); x = fm.get(e, L.entry, L.args[1])[0]
        L.inv("iterations", le(L.n, n)); L.forall("all passed so far fire no later", lambda k: le(w(at(k)), w(x)), 0, L.n)
class PLExpire(PLB):
    sig = r"{C}::expire\(\)"; this = 1
    def setup(s, c): r = Region("result", SP, init="undef"); c.st.mem[r] = Content(); p = s.pipe(c); return [Ptr(r), p]
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); e = c.eng; take = conj(gt(n, 0), s.ready(c, at(0))); c.touch(c.args[0].r)
        v.check(c, ite(take, sub(n, 1), n), lambda k: at(ite(take, add(k, 1), k)), "only a ready future leaves the pipeline, the others keep their order")
        if c.mode == "use": s.used(c, take, at); s.asked(c); return
        a, b = c.fm.get(e, c.st, c.args[0]); c.ensures("hands out the first future if it is ready", conj(eq(a, ite(take, at(0), 0)), eq(b, a))); s.asked(c)
    def used(s, c, take, at):
        """two outcomes, as seen by a caller"""
        e = c.eng; other = c.st.fork(); other.assume(z3.Not(B(take))); c.fm.put(e, other, c.args[0], 0); c.st.assume(take); k = at(0); c.fm.put(e, c.st, c.args[0], k); c.extra = [(other, None)] if e.pr.feasible(other.pc) else []
        old = c.st.ghost.get("taken"); e.oblige(c.st, "every future taken from the pipeline is triggered before the next", old is None or old == 0); c.st.ghost["taken"] = (k,)
class PLCtor(PLB):
    sig = r"{C}::Pipeline\(unsigned long\)"
    def setup(s, c):
        s.fm = c.fm = Futures(c); r = Region("this", c.eng.layouts.size(PL), init="undef"); c.st.mem[r] = Content(); c.eng.heap_hint = (SP, {0: ("ptr", c.fm.obj), 8: ("ptr", c.fm.ctl)}); return [Ptr(r), c.i("events_cap", hi=2 ** 31)]
    def pre(s, c): pass
    def post(s, c):
        v = s.rep(c); st = c.st; c.touch(c.args[0].r); c.ensures("room for as many futures as asked for", eq(v.capacity(st), c.args[1])); c.ensures("no futures in it", conj(eq(v.g(st, v.head), 0), eq(v.g(st, v.tail), 0)))
class PLDtor(PLB):
    sig = r"{C}::~Pipeline\(\)"
    def pre2(s, c):
        v = s.rep(c); n = v.n(c.st)
        if c.mode == "use": at = v.at(c.st); pos = c.st.ghost["pos"][0]; u = c.fm.uses(c.eng, c.st); c.requires("not released before", v.slots(c.st).r not in c.st.freed); c.requires_all("the futures in the pipeline are different ones, each held by it", lambda k: conj(eq(pos(I(at(k))), add(v.g(c.st, v.head), k)), ge(u(at(k)), 1)), 0, n); return
        pos = fun("pos"); distinct(c.st, c.raw, pos); c.st.ghost["pos"] = (pos,)
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); e = c.eng; c.touch(c.args[0].r); sp = v.slots(c.old); c.touch(sp.r); c.touch(c.fm.ctl); pos = c.old.ghost["pos"][0]; u0, u1 = c.fm.uses(e, c.old), c.fm.uses(e, c.st); k = fint("k")
        if c.mode == "use": c.st.freed = c.st.freed | {sp.r}; r = c.fm.ctl; c.st.mem[r] = c.st.content(r).part((0, USE), lambda k: sub(u0(k), ite(holds(pos, v.g(c.old, v.head), n, at, k), 1, 0))); return
        e.oblige(c.st, "ensures a destroyed pipeline drops its reference to each future, once", eq(u1(k), sub(u0(k), ite(holds(pos, v.g(c.old, v.head), n, at, k), 1, 0))), assume=False); c.ensures("the slots are released", sp.r in c.st.freed)
    def loop(s, L):
        if L.args[0].r.name == "this": drained(L, SV(L.eng, L.args[0].plus(L.eng.layouts.off(PL, "_pipe", 0)), FUT), L.entry.ghost["pos"][0])
def drained(L, v, pos):
    """invariant of a loop that takes the first object until none is left, dropping the reference to it"""
    e = L.eng; n, at, h0 = v.n(L.entry), v.at(L.entry), v.g(L.entry, v.head); sp = v.slots(L.entry); fm = sp.r.parts[0].tags[0][1].fam; u = fm.uses(e, L.entry); m = L.n
    L.inv("iterations", le(m, n)); h, t = v.g(L.st, v.head), v.g(L.st, v.tail); done = eq(m, n); L.inv("objects left", conj(eq(h, ite(conj(done, gt(n, 0)), 0, add(h0, m))), eq(t, ite(conj(done, gt(n, 0)), 0, add(h0, n)))))
    L.array("each object taken so far lost one reference", Ptr(fm.ctl, USE), lambda k: sub(u(k), ite(holds(pos, h0, m, at, k), 1, 0)))
    for o in (0, 8):
        f0 = e.field_fn(L.entry, sp.plus(o)); L.array("slots so far are empty", sp.plus(o), lambda k, f0=f0: ite(conj(le(h0, k), lt(k, add(h0, m))), 0, f0(k)))
def pipeline(): return U.optional(T.all_timers()) + futures() + [K() for K in (PLCtor, PLDtor, PLAny, PLExpired, PLNext, PLPush, PLExpire)]

# ---------------------------------------------------------------- the pool: reusable objects, handed out while nobody else holds them
POOL = "spn::structure::Pool<%s>"
def pool_at(e, p, T): return SV(e, p.plus(e.layouts.off(POOL % T, "_pointers", 0)), T)
def lookup_at(e, p, T): return p.plus(e.layouts.off(POOL % T, "_lookup_index", 1))
def the(argv, name="this"): return next((a for a in argv if isinstance(a, Ptr) and a.r.name == name), None)
class PoolB(Contract):
    this = 0; distinct = False; sig = ""
    def __init__(s, T="Item"): s.T = T; s.attach = s.sig.replace("{C}", POOL % T).replace("{S}", r"std::shared_ptr<%s>" % T)
    def base(s, c): return c.args[s.this]
    def rep(s, c): return pool_at(c.eng, s.base(c), s.T)
    def at_idx(s, c): return lookup_at(c.eng, s.base(c), s.T)
    def family(s, c): return Fam(c, "items", 4, {0: ("int", 32)})
    def pool(s, c):
        c.fm = fm = s.family(c); fm.known(c); r = Region("this", c.eng.layouts.size(POOL % s.T)); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); c.args = [p]; s.fill(c, p); return p
    def fill(s, c, p):
        fm = c.fm; v = pool_at(c.eng, p, s.T).init(c, fm); c.eng.store(c.st, lookup_at(c.eng, p, s.T), c.i("lookup_index"), I64)
        k = z3.Int(fresh_name("q")); u = fm.uses(c.eng, c.st); x = c.first(k); n = v.n(c.st); mem, pos = fun("member"), fun("pos")
        c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), conj(ge(u(x), 1), eq(mem(x), 1)))), patterns=[x]))
        if s.distinct: distinct(c.st, c.raw, pos)
        c.st.ghost["pool"] = (mem, pos)
    def setup(s, c): p = s.pool(c); return [p] + s.params(c)
    def params(s, c): return []
    def pre(s, c):
        if c.mode == "use": c.fm = s.rep(c).slots(c.st).r.parts[0].tags[0][1].fam
        s.pre2(c)
    def pre2(s, c): pass
    def same_pool(s, c): v = s.rep(c); v.check(c, v.n(c.old), v.at(c.old), "the pool keeps its objects")
    def uses(s, c, why, fn):
        c.touch(c.fm.ctl); u0, u1 = c.fm.uses(c.eng, c.old), c.fm.uses(c.eng, c.st); k = fint("k")
        if c.mode == "verify": c.eng.oblige(c.st, "ensures " + why, eq(u1(k), fn(u0, k)), assume=False)
        else: r = c.fm.ctl; c.st.mem[r] = c.st.content(r).part((0, USE), lambda k: fn(u0, k))
class PoAcquire(PoolB):
    sig = r"{C}::acquire\(\)"; this = 1
    def used(s, c, n, at):
        e = c.eng; i = s.at_idx(c); e.store(c.st, i, c.i("lookup"), I64); u0 = c.fm.uses(e, c.old); mem = c.st.ghost["pool"][0]; s.rep(c).havoc(c, n, at)
        other = c.st.fork(); c.fm.put(e, other, c.args[0], 0); k = z3.Int(fresh_name("q")); other.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), gt(u0(at(k)), 1))))); c.extra = [(other, None)]
        a = fint("acquired"); c.st.assume(conj(gt(a, 0), eq(mem(a), 1), eq(u0(a), 1))); c.fm.put(e, c.st, c.args[0], a); poke(e, c.st, c.fm.ctl, USE, a, add(u0(a), 1)); c.st.ghost["created"] = (a,); other.ghost["created"] = (0,)
    def inner(s, e, this): return pool_at(e, this, s.T)
    def setup(s, c): r = Region("result", SP, init="undef"); c.st.mem[r] = Content(); p = s.pool(c); return [Ptr(r), p]
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); e = c.eng
        if c.mode == "use": return s.used(c, n, at)
        a, b = c.fm.get(e, c.st, c.args[0]); c.touch(c.args[0].r); u0 = c.fm.uses(e, c.old); i = s.at_idx(c); c.touch(i.r, i.c, i.c + 8)
        s.same_pool(c); c.ensures("a whole shared pointer", eq(a, b) if a is not None and b is not None else False); mem = c.st.ghost["pool"][0]
        if isc(a) and a == 0: c.ensures_all("nothing is handed out only if every object is in use", lambda k: gt(u0(at(k)), 1), 0, n)
        else:
            c.ensures("hands out an object of the pool", conj(gt(a, 0), eq(mem(I(a)), 1))); c.ensures("which nobody else holds", eq(u0(a), 1))
        s.uses(c, "only the object handed out gains a reference", lambda u0, k: ite(conj(eq(k, a), ne(a, 0)), add(u0(k), 1), u0(k)))
    def loop(s, L):
        e = L.eng; this = the(L.args)
        if this is None: return
        v = s.inner(e, this); n, at = v.n(L.entry), v.at(L.entry); u = v.slots(L.entry).r.parts[0].tags[0][1].fam.uses(e, L.entry)
        for nm, v0, cur in L.vals:
            if not isc(cur) and is_expr(cur) and z3.is_int(cur) or isc(cur) and not isinstance(cur, bool): L.forall("all objects looked at so far are in use", lambda k: imp(conj(le(v0, k), lt(k, cur)), gt(u(at(k)), 1)), 0, n)
class PoAdd(PoolB):
    sig = r"{C}::populate\({S}\)"
    def params(s, c): k = s.x = c.i("object", lo=1); c.st.assume(ge(c.fm.uses(c.eng, c.st)(k), 1)); return [c.fm.ptr(c, k)]
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); e = c.eng; x = s.x; room = lt(n, v.capacity(c.old)); v.check(c, ite(room, add(n, 1), n), lambda k: ite(eq(k, n), x, at(k)), "the object joins the pool behind the others")
        a, b = c.fm.get(e, c.st, c.args[1]); c.touch(c.args[1].r); c.ensures("the caller's pointer is kept or emptied as a whole", conj(eq(a, b), disj(eq(a, 0), eq(a, x)), imp(eq(a, 0), room))); s.uses(c, "the pool shares the object", lambda u, k: add(u(k), ite(conj(eq(k, x), room, ne(a, 0)), 1, 0)))
class PoAddRaw(PoolB):
    sig = r"{C}::populate\(Item\*\)"
    def params(s, c): k = s.x = c.i("object", lo=1); c.st.assume(eq(c.fm.uses(c.eng, c.st)(k), 0)); n = s.rep(c); c.st.assume(lt(n.n(c.st), n.capacity(c.st))); return [Ptr(c.fm.obj, 0, [(4, k)])]
    def setup(s, c): p = s.pool(c); c.args = [p]; return [p] + s.params(c)
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); x = s.x; v.check(c, add(n, 1), lambda k: ite(eq(k, n), x, at(k)), "the object joins the pool behind the others"); s.uses(c, "the pool holds the only reference", lambda u, k: ite(eq(k, x), 1, u(k)))
class PoAddItem(PoolB):
    sig = r"{C}::populate\(Item&&\)"
    def params(s, c):
        r = Region("item", 4); r.closed = True; c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), c.i("value", 32), INT(32)); v = s.rep(c); c.st.assume(lt(v.n(c.st), v.capacity(c.st))); c.st.ghost["items"] = (c.fm, c.b("any")); return [Ptr(r)]
    def setup(s, c): p = s.pool(c); c.args = [p]; return [p] + s.params(c)
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); now = v.at(c.st); x = now(n); e = c.eng; v.check(c, add(n, 1), lambda k: ite(eq(k, n), x, at(k)), "an object joins the pool behind the others"); u0 = c.fm.uses(e, c.old)
        c.touch(c.args[1].r); c.touch(c.fm.obj); c.ensures("a new one, holding the value", conj(gt(x, 0), eq(u0(x), 0), eq(fam_fn(e, c.st, c.fm.obj, 0)(x), e.load(c.old, c.args[1], INT(32))))); s.uses(c, "the pool holds the only reference", lambda u, k: ite(eq(k, x), 1, u(k)))
class PoTake(PoolB):
    sig = r"{C}::depopulate\(\)"
    def pre2(s, c): c.requires("the pool is not empty", gt(s.rep(c).n(c.st), 0))
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); e = c.eng
        last = eq(n, 1); h, t = v.g(c.old, v.head), v.g(c.old, v.tail); c.sets("the first place is free", v.head, I64, ite(last, 0, add(h, 1))); c.sets("the last place stays", v.tail, I64, ite(last, 0, t)); c.returns(v.slots(c.old).plus(0, [(SP, h)]), "hands out the place of the first object")
        if c.mode == "use": return
        v.check(c, sub(n, 1), lambda k: at(add(k, 1)), "the first object leaves the pool", wiped=False); r = c.ret; i, j = c.fm.get(e, c.st, r)
        c.ensures("hands out the first object", conj(eq(i, at(0)), eq(j, at(0)))); s.uses(c, "nobody gains or loses a reference", lambda u, k: u(k))
class PoDtor(PoolB):
    sig = r"{C}::~Pool\(\)"; distinct = True
    def pre2(s, c):
        if c.mode != "use": return
        v = s.rep(c); n, at = v.n(c.st), v.at(c.st); pos = c.st.ghost["pool"][1]; u = c.fm.uses(c.eng, c.st); c.requires("not released before", v.slots(c.st).r not in c.st.freed); c.requires_all("the objects of the pool are different ones, each held by it", lambda k: conj(eq(pos(I(at(k))), add(v.g(c.st, v.head), k)), ge(u(at(k)), 1)), 0, n)
    def post(s, c):
        v = s.rep(c); n = v.n(c.old); at = v.at(c.old); c.touch(c.args[0].r); sp = v.slots(c.old); c.touch(sp.r); pos = c.st.ghost["pool"][1]
        if c.mode == "use": c.st.freed = c.st.freed | {sp.r}
        s.uses(c, "the pool drops its reference to each object, once", lambda u, k: sub(u(k), ite(holds(pos, v.g(c.old, v.head), n, at, k), 1, 0))); c.ensures("the slots are released", sp.r in c.st.freed)
    def loop(s, L):
        e = L.eng; this = L.args[0]
        if this.r.name != "this": return
        drained(L, pool_at(e, this, s.T), L.entry.ghost["pool"][1])
class PoMove(PoolB):
    sig = r"{C}::operator=\({C}&&\)"; variants = (False, True)
    def setup(s, c):
        p = s.pool(c); distinct(c.st, c.raw, c.st.ghost["pool"][1]); g = c.st.ghost["pool"]
        if c.variant: return [p, p]
        r = Region("other", c.eng.layouts.size(POOL % s.T)); r.closed = True; c.st.mem[r] = Content(); s.fill(c, Ptr(r)); c.st.ghost["pool"] = g; return [p, Ptr(r)]
    def post(s, c):
        v, w = s.rep(c), pool_at(c.eng, c.args[1], s.T); e, st = c.eng, c.st; n, at = v.n(c.old), v.at(c.old); c.returns(c.args[0], "itself")
        if c.variant: s.same_pool(c); s.uses(c, "nothing happens to a pool assigned to itself", lambda u, k: u(k)); return
        m, its = w.n(c.old), w.at(c.old); pos = c.st.ghost["pool"][1]; sp, sq = v.slots(c.old), w.slots(c.old); c.touch(c.args[0].r); c.touch(c.args[1].r); c.touch(sp.r)
        s.uses(c, "the objects held so far are released, once", lambda u, k: sub(u(k), ite(holds(pos, v.g(c.old, v.head), n, at, k), 1, 0)))
        c.ensures("the slots held so far are released", sp.r in st.freed); c.ensures("it takes over the slots, and their ownership", conj(e.ptr_eq(st, v.slots(st), sq), eq(v.g(st, v.own, INT(8)), 1), sq.r not in st.freed)); c.ensures("it takes over the objects", conj(*[eq(v.g(st, x), w.g(c.old, y)) for x, y in ((v.cap, w.cap), (v.head, w.head), (v.tail, w.tail))]))
        c.ensures("the other is empty and owns nothing", conj(eq(w.n(st), 0), eq(w.g(st, w.head), 0), eq(w.g(st, w.cap), 0), eq(w.g(st, w.own, INT(8)), 0)))
    def loop(s, L):
        if L.args[0].r.name == "this" and len(L.args) > 1: drained(L, pool_at(L.eng, L.args[0], s.T), L.entry.ghost["pool"][1])
class PoSize(PoolB):
    sig = r"{C}::size\(\) const"; optional = True
    def post(s, c): c.returns(s.rep(c).n(c.old), "number of objects in the pool")
class PoFull(PoolB):
    sig = r"{C}::is_fully_populated\(\)"
    def post(s, c): v = s.rep(c); c.returns(eq(v.n(c.old), v.capacity(c.old)), "whether every place is taken")
class PoCtor(PoolB):
    sig = r"{C}::Pool\(unsigned long\)"
    def setup(s, c):
        c.fm = Fam(c, "items", 4, {0: ("int", 32)}); r = Region("this", c.eng.layouts.size(POOL % s.T), init="undef"); c.st.mem[r] = Content(); c.eng.heap_hint = (SP, {0: ("ptr", c.fm.obj), 8: ("ptr", c.fm.ctl)}); return [Ptr(r), c.i("size", hi=2 ** 31)]
    def pre(s, c): pass
    def post(s, c):
        v = s.rep(c); st = c.st; c.touch(c.args[0].r); c.ensures("room for as many objects as asked for", eq(v.capacity(st), c.args[1])); c.ensures("empty", conj(eq(v.g(st, v.head), 0), eq(v.g(st, v.tail), 0), eq(c.eng.load(st, s.at_idx(c), I64), 0)))
@model(r"std::__shared_count<\(__gnu_cxx::_Lock_policy\)2>::__shared_count<Item\*>\(Item\*\)", "std::shared_ptr: adopting an object gives it one reference")
def _adopt(e, st, name, a, rty):
    fm = a[1].r.fam; i = e.index_of(a[1])[1]; e.oblige(st, "adopting an object: nobody holds it yet", conj(gt(i, 0), eq(fm.uses(e, st)(i), 0))); poke(e, st, fm.ctl, USE, i, 1); e.store(st, a[0], Ptr(fm.ctl, 0, [(16, i)]), PTR); return None
@model(r"std::shared_ptr<.*> std::make_shared<Item, Item>\(Item&&\)", "std::make_shared: a new object, moved from the given one, with one reference")
def _make(e, st, name, a, rty):
    fm = st.ghost["items"][0]; k = fint("new"); st.assume(conj(gt(k, 0), eq(fm.uses(e, st)(k), 0))); poke(e, st, fm.ctl, USE, k, 1); poke(e, st, fm.obj, 0, k, e.load(st, a[1], INT(32))); fm.put(e, st, a[0], k); return None
def pool(): return [K() for K in (PoCtor, PoAcquire, PoAdd, PoAddItem, PoAddRaw, PoTake, PoDtor, PoMove, PoSize, PoFull)]

# ---------------------------------------------------------------- the event system
CE = "spn::core::Event"
ESY = "spn::core::EventSystem"
HV = "spn::structure::Vector<spn::core::EventHandler*>"
AM = "spn::structure::Array<std::unique_ptr<%s, std::default_delete<%s > > >" % (HV, HV)
class Events(Futures):
    """events are futures with an id and data"""
    def __init__(s, c):
        Futures.__init__(s, c); L = c.eng.layouts; s.id, s.data = L.off(CE, "_id", 3 - 1), L.off(CE, "_data", 3); p = s.obj.parts[0]; p.es = L.size(CE)
        p.tags.update({s.id: ("int", 64), s.data: ("int", 64), s.data + 8: ("int", 8), s.data + 16: ("int", 8)}); g = {o: fun("event%d" % o) for o in (s.id, s.data, s.data + 8, s.data + 16)}
        for o, f in g.items(): 
            k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], z3.And(f(k) >= 0, f(k) < 2 ** (64 if o in (s.id, s.data) else 8 if o == s.data + 8 else 1)), patterns=[f(k)])); c.st.mem[s.obj] = c.st.mem[s.obj].part((0, o), lambda k, f=f: f(I(k)))
class ESB(CBase):
    """member of the event system: handlers by event id, the pipeline, the store of events"""
    def __init__(s): s.attach = s.sig.replace("{C}", ESY).replace("{E}", r"std::shared_ptr<%s>" % CE).replace("{MS}", MS)
    this = 0
    def o(s, c, f): return c.args[s.this].plus(c.eng.layouts.off(ESY, f, {"_cfg": 0, "_map": 1, "_pipeline": 2, "_store": 3}[f]))
    def cfg(s, c, f, st=None): return s.o(c, "_cfg").plus(c.eng.layouts.off(ESY + "::Config", f))
    def cv(s, c, f):
        x = c.eng.load(c.old, s.cfg(c, f), I8 if f == "delay_between_ticks" else I64); return sg(x) if f.startswith("m") else x
    def system(s, c):
        e, L = c.eng, c.eng.layouts; c.fm = fm = Events(c); fm.known(c); r = Region("this", L.size(ESY)); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); c.args = [None] * s.this + [p]
        ids = c.i("event_ids", hi=2 ** 20); caps = c.i("events_cap", hi=2 ** 31); hc = c.i("handler_cap", hi=2 ** 20)
        for f, v, ty in (("events_count", ids, I64), ("events_cap", caps, I64), ("handler_cap", hc, I64), ("delay_between_ticks", c.i("delay_between_ticks", 8, hi=1), I8)): e.store(c.st, s.cfg(c, f), v, ty)
        for f in ("min_delay_between_ticks", "max_delay_between_ticks"):
            v = c.i(f, hi=2 ** 50); e.store(c.st, s.cfg(c, f), v, I64)
        # handlers: map[id] -> list -> slots -> handler
        H = Region("handlers", None, [Part(0, L.size("spn::core::EventHandler"), None, {8: ("int", 64)})]); H.nullable = True
        vt = abstract_vtable(e, e.mod.vtables.get("spn::core::EventHandler"), [(r".*::handle_event\(.*", _handle)]); H.parts[0].tags[0] = ("ptr", vt.r); c.st.mem[H] = Content().part((0, 0), lambda k: vt)
        S = Region("handler slots", None, [Part(0, 8, None, {0: ("ptr", H)})]); sl = fun("handler"); k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], sl(k) > 0, patterns=[sl(k)])); c.st.mem[S] = Content().part((0, 0), lambda k: sl(I(k)))
        of = s.of(c)
        V = Region("handler lists", None, [Part(0, L.size(HV), None, {of["store"]: ("ptr", S), of["cap"]: ("int", 64), of["own"]: ("int", 8), of["head"]: ("int", 64), of["tail"]: ("int", 64)})]); V.nullable = True
        b, h, t, cp = fun("base"), fun("hhead"), fun("htail"), fun("hcap"); c.st.assume(z3.ForAll([k], B(conj(le(0, h(k)), le(h(k), t(k)), le(t(k), cp(k)), le(cp(k), 2 ** 20), le(0, b(k)), imp(eq(h(k), t(k)), eq(h(k), 0)))), patterns=[h(k)])); c.st.assume(z3.ForAll([k], h(k) >= 0, patterns=[t(k)]))
        m = Content()
        for f, g in (("store", lambda k: b(I(k))), ("cap", lambda k: cp(I(k))), ("own", lambda k: 1), ("head", lambda k: h(I(k))), ("tail", lambda k: t(I(k)))): m = m.part((0, of[f]), g)
        c.st.mem[V] = m; M = Region("map", mul(8, ids), [Part(0, 8, ids, {0: ("ptr", V)})]); ls = fun("list"); c.st.assume(z3.ForAll([k], ls(k) > 0, patterns=[ls(k)])); c.st.mem[M] = Content().part((0, 0), lambda k: ls(I(k)))
        mp = s.o(c, "_map")
        for a, v, ty in ((L.off(AM, "m_store", 0), Ptr(M), PTR), (L.off(AM, "m_max_size", 1), ids, I64), (L.off(AM, "m_store_is_internal", 2), 1, I8)): e.store(c.st, mp.plus(a), v, ty)
        # the store of events, the pipeline
        PoolB.fill(_ps, c, s.o(c, "_store")); c.firstpool, c.rawpool = c.first, c.raw; _init_pipe(c, s.pipe(c))
        L0 = Region("log of calls", None, [Part(0, 16, None, {0: ("int", 64), 8: ("int", 64)})]); L0.scratch = True; c.st.mem[L0] = Content(); c.st.ghost["log"] = 0; c.st.ghost["events"] = (fm, L0, H); return p
    def of(s, c): L = c.eng.layouts; A = "spn::structure::Array<spn::core::EventHandler*>"; return dict(store=L.off(A, "m_store", 0), cap=L.off(A, "m_max_size", 1), own=L.off(A, "m_store_is_internal", 2), head=L.off(HV, "m_head", 1), tail=L.off(HV, "m_tail", 2))
    def pipe(s, c): return SV(c.eng, s.o(c, "_pipeline").plus(c.eng.layouts.off(PL, "_pipe", 0)), FUT)
    def setup(s, c): p = s.system(c); return [p] + s.params(c)
    def hl(s, c, st, f, l): return fam_fn(c.eng, st, s.map(c, st)[1], s.of(c)[f])(l)
    def map(s, c, st):
        e = c.eng; q = e.load(st, s.o(c, "_map").plus(e.layouts.off(AM, "m_store", 0)), PTR); return q, q.r.parts[0].tags[0][1]
    def world(s, c, st, held):
        """what handlers and other callers may have done: scheduled, made, kept or released events; the clock moves on"""
        e = c.eng; fm = st.ghost["events"][0]; c2 = Ctx(e, st, "use", None, ""); c2.args = c.args; c2.inputs = []; c2.fm = fm; v = s.pipe(c2); n = fint("futures"); f = fun("scheduled"); j = z3.Int(fresh_name("q")); st.assume(conj(le(0, n), le(n, v.g(st, v.cap)))); v.havoc(c2, n, lambda k: f(I(k))); k = Clock(e, st); t0 = k.micros(st)
        u, g = fun("uses"), {o: fun("event%d" % o) for o in (fm.per, fm.when, fm.gone, fm.id, fm.data, fm.data + 8, fm.data + 16)}; cnt = e.load(st, s.cfg(c2, "events_count"), I64); sm = {fm.per: LIM // 8, fm.when: LIM // 4}
        st.assume(z3.ForAll([j], B(imp(conj(le(0, j), lt(j, n)), conj(gt(f(j), 0), ge(u(f(j)), 1), lt(g[fm.id](f(j)), cnt)))), patterns=[f(j)])); st.assume(z3.ForAll([j], z3.And(u(j) >= 0, u(j) < 2 ** 31 - 8), patterns=[u(j)])); st.mem[fm.ctl] = st.content(fm.ctl).part((0, USE), lambda k: u(I(k)))
        if held is not None: st.assume(ge(u(held), 1)); st.assume(z3.ForAll([j], B(imp(conj(le(0, j), lt(j, n), eq(f(j), held)), ge(u(held), 2))), patterns=[f(j)]))
        m = st.content(fm.obj)
        for o, h in g.items():
            b = sm.get(o); top = 2 ** 64 if o in (fm.id, fm.data) else 256 if o == fm.data + 8 else 2; st.assume(z3.ForAll([j], z3.And(h(j) >= -b, h(j) <= b) if b else z3.And(h(j) >= 0, h(j) < top), patterns=[h(j)])); m = m.part((0, o), (lambda k, h=h: un(h(I(k)))) if b else lambda k, h=h: h(I(k)))
        st.mem[fm.obj] = m; a, b = fint("ms"), fint("us"); st.assume(conj(le(0, a), le(a, 2 ** 49), le(0, b), le(b, 2 ** 59))); e.store(st, k.ms, a, I64); e.store(st, k.us, b, I64); st.assume(ge(k.micros(st), t0)); e.store(st, lookup_at(e, s.o(c2, "_store"), CE), s.fresh64(st), I64)
    def fresh64(s, st): x = fint("lookup"); st.assume(conj(le(0, x), lt(x, 2 ** 64))); return x
    def handlers(s, c, st, id):
        """(number of handlers, k -> handler) for an event id"""
        q, V = s.map(c, st); e = c.eng; l = e.field_fn(st, q)(id); h, t, b = s.hl(c, st, "head", l), s.hl(c, st, "tail", l), s.hl(c, st, "store", l); S = V.parts[0].tags[s.of(c)["store"]][1]; f = e.field_fn(st, Ptr(S)); return sub(t, h), lambda k: f(add(add(b, h), k)), l
def _init_pipe(c, v):
    v.init(c, c.fm); k = z3.Int(fresh_name("q")); u = c.fm.uses(c.eng, c.st); x = c.first(k); n = v.n(c.st); c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), ge(u(x), 1))), patterns=[x]))
_ps = PoolB(CE)
def _handle(eng, st, a):
    fm, lg, H = st.ghost["events"]; i = eng.index_of(a[0])[1]; n = st.ghost["log"]; ev = st.ghost.get("event"); eng.oblige(st, "the handler called exists", gt(i, 0)); poke(eng, st, lg, 0, n, i)
    e0 = eng.load(st, a[1].plus(fm.id), I64); poke(eng, st, lg, 8, n, e0); eng.oblige(st, "the handler is given the event itself", eng.ptr_eq(st, a[1], ev[0])); st.ghost["log"] = add(n, 1); return None
class EvTrigger(ESB):
    sig = r"{C}::trigger\(spn::core::Event const&\)"
    def params(s, c):
        r = Region("event", c.eng.layouts.size(CE)); r.closed = True; c.st.mem[r] = Content(); id = c.i("id"); c.eng.store(c.st, Ptr(r, c.fm.id), id, I64); return [Ptr(r)]
    def pre2(s, c):
        fm = c.st.ghost["events"][0]; id = c.eng.load(c.st, c.args[s.this + 1].plus(fm.id), I64); c.requires("the id is one of the system's", lt(id, c.eng.load(c.st, s.cfg(c, "events_count"), I64))); c.g["id"] = id
        if c.mode == "verify": c.st.ghost["event"] = (s.event(c),)
    def event(s, c): return c.args[1]
    def post(s, c):
        if c.mode == "use": return s.used(c)
        s.called(c, c.g["id"])
    def called(s, c, id):
        n, h, _ = s.handlers(c, c.old, id); e = c.eng; n0, n1 = c.old.ghost["log"], c.st.ghost["log"]; lg = c.st.ghost["events"][1]; f, g = fam_fn(e, c.st, lg, 0), fam_fn(e, c.st, lg, 8)
        c.ensures("as many calls as handlers", eq(n1, add(n0, n))); c.ensures_all("every handler of the id is called once, in the order attached", lambda k: eq(f(add(n0, k)), h(k)), 0, n); c.ensures_all("with the event", lambda k: eq(g(add(n0, k)), id), 0, n)
    def used(s, c):
        e = c.eng; st = c.st; id = c.g["id"]; n, h, _ = s.handlers(c, c.old, id); n0 = st.ghost["log"]; fm, lg, H = st.ghost["events"]; f, g = fam_fn(e, st, lg, 0), fam_fn(e, st, lg, 8)
        new = lambda a, b: (lambda k: ite(conj(le(n0, k), lt(k, add(n0, n))), a(sub(k, n0)), b(k))); st.mem[lg] = st.content(lg).part((0, 0), new(h, f)).part((0, 8), new(lambda k: id, g)); st.ghost["log"] = add(n0, n)
        if "taken" in st.ghost:
            t = st.ghost["taken"]; p = s.event(c)
            e.oblige(st, "only a future taken from the pipeline is triggered, and only once", t is not None)
            if t is not None:
                k = t[0]; same = [eq(e.load(st, p.plus(o), INT(b)), fam_fn(e, st, fm.obj, o)(k)) for o, b in ((fm.id, 64), (fm.data, 64), (fm.data + 8, 8), (fm.data + 16, 8))]; e.oblige(st, "the event triggered is the one taken", conj(*same)); st.ghost["taken"] = None
            s.world(c, st, t[0] if t else None)
    def loop(s, L):
        e = L.eng; this = the(L.args)
        if this is None or "event" not in L.entry.ghost: return
        c = Ctx(e, L.entry, "use", None, ""); c.args = [this]; c.old = L.entry; d = dict(this=0); s0, s.this = s.this, 0
        try:
            fm, lg, H = L.entry.ghost["events"]; ev = L.entry.ghost["event"][0]; id = e.load(L.entry, ev.plus(fm.id), I64); n, h, _ = s.handlers(c, L.entry, id)
        finally: s.this = s0
        n0 = L.entry.ghost["log"]; f, g = fam_fn(e, L.entry, lg, 0), fam_fn(e, L.entry, lg, 8); m = L.n; L.inv("iterations", le(m, n))
        if L.mode == "assume": L.st.ghost["log"] = add(n0, m)
        else: L.inv("one call per handler so far", eq(L.st.ghost["log"], add(n0, m)))
        L.array("handlers called in order", Ptr(lg, 0), lambda k: ite(conj(le(n0, k), lt(k, add(n0, m))), h(sub(k, n0)), f(k))); L.array("with the event", Ptr(lg, 8), lambda k: ite(conj(le(n0, k), lt(k, add(n0, m))), id, g(k)))
class EvTriggerPtr(EvTrigger):
    sig = r"{C}::trigger\({E} const&\)"; variants = ("event", "none")
    def params(s, c):
        if c.variant == "none": return [c.fm.ptr(c, 0)]
        k = s.x = c.i("event", lo=1); c.st.assume(ge(c.fm.uses(c.eng, c.st)(k), 1)); return [c.fm.ptr(c, k)]
    def event(s, c): return Ptr(c.fm.obj, 0, [(c.fm.obj.parts[0].es, s.x)])
    def pre2(s, c):
        if c.mode == "use":
            q = c.eng.load(c.st, c.args[1], PTR); s.x = 0 if q.r.kind == "null" else c.eng.index_of(q)[1]; c.fm = c.st.ghost["events"][0]
            if not (isc(s.x) and s.x == 0): c.g["id"] = id = fam_fn(c.eng, c.st, c.fm.obj, c.fm.id)(s.x); c.requires("the id is one of the system's", lt(id, c.eng.load(c.st, s.cfg(c, "events_count"), I64)))
            return
        if c.variant != "none": c.st.ghost["event"] = (s.event(c),); c.g["id"] = id = fam_fn(c.eng, c.st, c.fm.obj, c.fm.id)(s.x); c.requires("the id is one of the system's", lt(id, c.eng.load(c.st, s.cfg(c, "events_count"), I64)))
    def post(s, c):
        if c.mode == "use": return EvTrigger.used(s, c) if not (isc(s.x) and s.x == 0) else None
        if c.variant == "none": c.ensures("without an event nothing is called", eq(c.st.ghost["log"], c.old.ghost["log"])); return
        s.called(c, c.g["id"])
class EvEvent(ESB):
    sig = r"{E} {C}::event<unsigned long>\(unsigned long, {MS} const&, spn::core::Event::Data const&\)"; this = 1
    def setup(s, c):
        r = Region("result", SP, init="undef"); c.st.mem[r] = Content(); p = s.system(c); c.first = c.firstpool; d = Region("data", 24); d.closed = True; c.st.mem[d] = Content(); e = c.eng
        for o, b, h in ((0, 64, None), (8, 8, 3), (16, 8, 1)): e.store(c.st, Ptr(d, o), c.i("data%d" % o, b, hi=h), INT(b))
        return [Ptr(r), p, c.i("id"), s.ref(c, "delay", lim=LIM // 8), Ptr(d)]
    def pre2(s, c): c.requires("the delay is in range", tfits(sg(c.eng.load(c.st, c.args[3], I64)), LIM // 8))
    def values(s, c):
        e = c.eng; fm = c.st.ghost["events"][0]; d = c.args[4]; return {fm.per: e.load(c.old, c.args[3], I64), fm.id: c.args[2], fm.data: e.load(c.old, d, I64), fm.data + 8: e.load(c.old, d.plus(8), I8), fm.data + 16: e.load(c.old, d.plus(16), I8)}
    def post(s, c):
        e = c.eng; fm = c.st.ghost["events"][0]; new = s.values(c); mem = c.st.ghost["pool"][0]; pv = pool_at(e, s.o(c, "_store"), CE); n, at = pv.n(c.old), pv.at(c.old); u0 = fm.uses(e, c.old)
        if c.mode == "use":
            other = c.st.fork(); fm.put(e, other, c.args[0], 0); other.ghost["created"] = (0,); c.extra = [(other, None)]
            a = fint("created"); c.st.assume(conj(gt(a, 0), eq(mem(a), 1), eq(u0(a), 1))); fm.put(e, c.st, c.args[0], a); poke(e, c.st, fm.ctl, USE, a, 2); c.st.ghost["created"] = (a,)
            for o, x in new.items(): poke(e, c.st, fm.obj, o, a, x)
            c.g["id"] = new[fm.id]
            for st in (c.st, other): e.store(st, lookup_at(e, s.o(c, "_store"), CE), c.i("lookup"), I64)
            return
        a, b = fm.get(e, c.st, c.args[0]); c.touch(c.args[0].r); c.touch(fm.obj); c.touch(fm.ctl); i = lookup_at(e, s.o(c, "_store"), CE); c.touch(i.r, i.c, i.c + 8); c.ensures("a whole shared pointer", eq(a, b) if a is not None and b is not None else False)
        pv.check(c, n, at, "the store keeps its events")
        if isc(a) and a == 0: c.ensures_all("no event only if all are in use", lambda k: gt(u0(at(k)), 1), 0, n)
        else: c.ensures("an event of the store, which nobody else holds", conj(gt(a, 0), eq(mem(I(a)), 1), eq(u0(a), 1)))
        u1 = fm.uses(e, c.st); k = fint("k"); e.oblige(c.st, "ensures only that event gains a reference", eq(u1(k), ite(conj(eq(k, a), ne(a, 0)), add(u0(k), 1), u0(k))), assume=False)
        what = {fm.per: "delay", fm.id: "id", fm.data: "data", fm.data + 8: "kind of data", fm.data + 16: "whether there is data", fm.when: "moment", fm.gone: "state"}
        for o, w in what.items():
            f0, f1 = fam_fn(e, c.old, fm.obj, o), fam_fn(e, c.st, fm.obj, o); g = eq(f1(k), ite(conj(eq(k, a), ne(a, 0)), new[o], f0(k)) if o in new else f0(k)); e.oblige(c.st, "ensures the event has the %s asked for, no other changes" % w if o in new else "ensures no event changes its %s" % w, g, assume=False)
class EvSchedule(ESB):
    sig = r"{C}::schedule\({E}&&\)"; variants = ("event", "none")
    q = PLPush()
    def setup(s, c): p = s.system(c); a = [p]; c.args = a; return a + ([c.fm.ptr(c, 0)] if c.variant == "none" else s.q.params(c))
    def pre2(s, c):
        if c.mode == "use" or c.variant == "none": return
        q = s.q; q.rep = s.pipe; q.pre2(c)
    def post(s, c):
        if c.mode == "use":
            k = c.eng.index_of(c.eng.load(c.st, c.args[1], PTR))[1] if c.eng.load(c.st, c.args[1], PTR).r.kind != "null" else 0
            c.st.ghost["scheduled"] = c.st.ghost.get("scheduled", ()) + (k,); return
        if c.variant == "none": c.ensures("without an event nothing changes", True); return
        s.q.rep = s.pipe; s.q.post(c)
    inner_loops = {PL + r"::push\(.*": PLPush().loop}
class EvScheduleT(EvEvent):
    sig = r"void {C}::schedule<unsigned long>\(unsigned long, {MS} const&, spn::core::Event::Data const&\)"; this = 0
    def setup(s, c): s.this = 1; a = EvEvent.setup(s, c)[1:]; s.this = 0; return a
    def pre2(s, c): c.requires("the delay is in range", tfits(sg(c.eng.load(c.st, c.args[2], I64)), LIM // 8))
    def post(s, c):
        if c.mode == "use": raise Unsupported("schedule(id) through its contract")
        g = c.st.ghost; fm = g["events"][0]; e = c.eng; made, put = g.get("created"), g.get("scheduled"); c.ensures("one event is made and scheduled", made is not None and put is not None and len(put) == 1 and (eq(put[0], made[0]) if made else False)); c.touch(fm.obj); c.touch(fm.ctl); i = lookup_at(e, s.o(c, "_store"), CE); c.touch(i.r, i.c, i.c + 8)
        if made and not (isc(made[0]) and made[0] == 0):
            c.args = [None] + list(c.args)
            for o, x in s.values(c).items(): c.ensures("with the delay, id and data given", eq(fam_fn(e, c.st, fm.obj, o)(made[0]), x))
class EvTriggerT(EvEvent):
    sig = r"void {C}::trigger<unsigned long>\(unsigned long, spn::core::Event::Data const&\)"; this = 0
    def setup(s, c): s.this = 1; a = EvEvent.setup(s, c); s.this = 0; return [a[1], a[2], a[4]]
    def pre2(s, c): c.requires("the id is one of the system's", lt(c.args[1], c.eng.load(c.st, s.cfg(c, "events_count"), I64)))
    def post(s, c):
        g = c.st.ghost; fm, lg, H = g["events"]; e = c.eng; made = g.get("created"); c.touch(fm.obj); c.touch(fm.ctl); i = lookup_at(e, s.o(c, "_store"), CE); c.touch(i.r, i.c, i.c + 8)
        if made is None: c.ensures("an event is made", False); return
        u0, u1 = fm.uses(e, c.old), fm.uses(e, c.st); k = fint("k"); e.oblige(c.st, "ensures the event goes back to the store", eq(u1(k), u0(k)), assume=False)
        if isc(made[0]) and made[0] == 0: c.ensures("nothing is called when no event is left", eq(g["log"], c.old.ghost["log"])); return
        EvTrigger.called(s, c, c.args[1]); d = c.args[2]
        for o, b in ((0, 64), (8, 8), (16, 8)): c.ensures("the event carries the data", eq(fam_fn(e, c.st, fm.obj, fm.data + o)(made[0]), e.load(c.old, d.plus(o), INT(b))))
class EvAttach(ESB):
    sig = r"void {C}::attach<unsigned long>\(unsigned long, spn::core::EventHandler\*\)"
    def params(s, c):
        H = c.st.ghost["events"][2]; k = s.x = c.i("handler", lo=1); id = c.i("id"); e = c.eng; M, V = s.map(c, c.st); ls, b, cp = e.field_fn(c.st, M), fam_fn(e, c.st, V, s.of(c)["store"]), fam_fn(e, c.st, V, s.of(c)["cap"]); inv = fun("id of"); j, l = z3.Int(fresh_name("q")), z3.Int(fresh_name("q"))
        # every id has a list of its own, every list slots of its own
        c.st.assume(z3.ForAll([j], B(eq(inv(ls(j)), j)), patterns=[ls(j)])); c.st.assume(z3.ForAll([j, l], B(disj(eq(j, l), le(add(b(j), cp(j)), b(l)), le(add(b(l), cp(l)), b(j)))), patterns=[z3.MultiPattern(b(j), b(l))])); s.k = c.i("other_id")
        return [id, Ptr(H, 0, [(H.parts[0].es, k)])]
    def pre2(s, c): c.requires("the id is one of the system's", lt(c.args[1], c.eng.load(c.st, s.cfg(c, "events_count"), I64)))
    def post(s, c):
        e = c.eng; id = c.args[1]; M, V = s.map(c, c.old); S = V.parts[0].tags[s.of(c)["store"]][1]; c.touch(V); c.touch(S); n0, h0, l = s.handlers(c, c.old, id); n1, h1, l1 = s.handlers(c, c.st, id); room = lt(n0, s.hl(c, c.old, "cap", l))
        c.ensures("the handler joins those of the id, if there is room", eq(n1, ite(room, add(n0, 1), n0))); c.ensures_all("behind the others, which keep their order", lambda k: eq(h1(k), ite(eq(k, n0), s.x, h0(k))), 0, n1)
        o = s.k; n2, h2, l2 = s.handlers(c, c.old, o); n3, h3, l3 = s.handlers(c, c.st, o); diff = conj(ne(o, id), lt(o, e.load(c.old, s.cfg(c, "events_count"), I64)))
        c.ensures("no other id gains a handler", imp(diff, conj(eq(n3, n2), eq(l3, l2)))); c.ensures_all("the handlers of the others stay", lambda k: imp(diff, eq(h3(k), h2(k))), 0, n2)
class EvLoop(ESB):
    sig = r"{C}::loop\(\)"
    def pre2(s, c):
        if c.mode == "use": raise Unsupported("loop through its contract")
        k = c.g["clock"]; m, u = k.vals(c.st); c.st.assume(conj(le(m, 2 ** 49), le(u, 2 ** 59)))
        for f in ("min", "max"): c.st.assume(le(c.eng.load(c.st, s.cfg(c, f + "_delay_between_ticks"), I64), 2 ** 45))
        c.st.ghost["taken"] = None; c.st.ghost["tick"] = (c.g["now"],); s.ids(c, c.st)
    def ids(s, c, st):
        """every event in the pipeline has an id of the system"""
        fm = c.fm; f = fam_fn(c.eng, st, fm.obj, fm.id); k = z3.Int(fresh_name("q")); n = c.eng.load(st, s.cfg(c, "events_count"), I64); v = s.pipe(c); at, m = v.at(st), v.n(st); st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, m)), lt(f(at(k)), n)))))
    def post(s, c):
        e = c.eng; fm = c.fm; v = s.pipe(c); n, at = v.n(c.st), v.at(c.st); k = Clock(e, c.st); tick = c.st.ghost["tick"][0]; w, g = fm.f(e, c.st, fm.when), fm.f(e, c.st, fm.gone)
        for r in (s.o(c, "_pipeline").r, v.slots(c.old).r, fm.obj, fm.ctl, k.p.r): c.touch(r)
        c.ensures("every future taken was triggered", c.st.ghost["taken"] is None); c.ensures("no ready future is left", disj(eq(n, 0), conj(eq(g(at(0)), 0), gt(w(at(0)), tick))))
        mn, mx = [div(add(s.cv(c, f + "_delay_between_ticks"), 500), 1000) for f in ("min", "max")]; d = ite(eq(s.cv(c, "delay_between_ticks"), 0), 0, ite(gt(n, 0), ite(lt(sub(w(at(0)), tick), mx), sub(w(at(0)), tick), mx), mn)); c.ensures("waits until the next future is due, but no longer than the longest delay; without futures, the shortest", eq(k.millis(c.st), add(tick, d)))
    def loop(s, L):
        e = L.eng; this = the(L.args)
        if this is None or "taken" not in L.entry.ghost or L.fn.demangled.split("(")[0] != ESY + "::loop": return
        c = Ctx(e, L.st, "use", None, ""); c.args = [this]; c.fm = L.entry.ghost["events"][0]; c.inputs = []; c.old = L.entry
        if L.mode == "assume":
            L.st.ghost["taken"] = None; s.world(c, L.st, None); k = Clock(e, L.st); L.st.assume(ge(k.micros(L.st), Clock(e, L.entry).micros(L.entry))); L.st.ghost["tick"] = (Clock(e, L.st).millis(L.st),); return
        L.inv("every future taken was triggered", L.st.ghost["taken"] is None); v = s.pipe(c); st = L.st; h, t, cap = v.g(st, v.head), v.g(st, v.tail), v.g(st, v.cap); L.inv("the pipeline is well-formed", conj(le(0, h), le(h, t), le(t, cap), imp(eq(h, t), eq(h, 0))))
        f, q = e.field_fn(st, v.slots(st)), e.field_fn(st, v.slots(st).plus(8)); used = lambda k: conj(le(h, k), lt(k, t)); u = c.fm.uses(e, st); ids = fam_fn(e, st, c.fm.obj, c.fm.id); L.forall("the pipeline holds whole shared pointers", lambda k: conj(eq(f(k), q(k)), imp(used(k), conj(gt(f(k), 0), ge(u(f(k)), 1), lt(ids(f(k)), e.load(st, s.cfg(c, "events_count"), I64)))), imp(B(z3.Not(B(used(k)))), eq(f(k), 0))), 0, cap)
        fm = c.fm; P, W, G = [fm.f(e, st, o) for o in (fm.per, fm.when, fm.gone)]; L.forall("futures are in range", lambda k: conj(tfits(P(k), LIM // 8), tfits(W(k), LIM // 4), le(0, G(k)), le(G(k), 1))); k = Clock(e, st); m, us = k.vals(st); L.inv("the clock is in range", conj(le(m, 2 ** 49), le(us, 2 ** 59), ge(k.micros(st), Clock(e, L.entry).micros(L.entry))))
@model(r"std::shared_ptr<.*> std::make_shared<%s>\(\)" % CE, "std::make_shared: a new, default-made object with one reference")
def _make_event(e, st, name, a, rty):
    fm = st.ghost["events"][0]; k = add(st.ghost["made"], 1); e.oblige(st, "the new event is nobody's yet", eq(fm.uses(e, st)(k), 0)); poke(e, st, fm.ctl, USE, k, 1); fm.put(e, st, a[0], k); st.ghost["made"] = k; return None
def tables(c, s):
    """the families of handler lists and their slots; contents are left to the caller"""
    L = c.eng.layouts; H = Region("handlers", None, [Part(0, 8, None, {0: ("int", 64)})]); H.nullable = True; c.st.mem[H] = Content(); of = s.of(c)
    S = Region("handler slots", None, [Part(0, 8, None, {0: ("ptr", H)})]); S.nullable = True; S.scratch = True; c.st.mem[S] = Content()
    V = Region("handler lists", None, [Part(0, L.size(HV), None, {of["store"]: ("ptr", S), of["cap"]: ("int", 64), of["own"]: ("int", 8), of["head"]: ("int", 64), of["tail"]: ("int", 64)})]); V.nullable = True; c.st.mem[V] = Content()
    return V, S
class EvCtor(ESB):
    """lists and events are numbered in the order they are made"""
    sig = r"{C}::EventSystem\({C}::Config const&\)"
    def setup(s, c):
        e, L = c.eng, c.eng.layouts; c.fm = fm = Events(c); c.st.mem[fm.ctl] = c.st.content(fm.ctl).part((0, USE), lambda k: 0); c.st.assume(True)
        r = Region("this", L.size(ESY), init="undef"); c.st.mem[r] = Content(); V, S = tables(c, s); f = Region("cfg", L.size(ESY + "::Config")); f.closed = True; c.st.mem[f] = Content(); c.args = [Ptr(r), Ptr(f)]; s.cv0 = {}
        for n, ty, hi in (("events_count", I64, 2 ** 20), ("events_cap", I64, 2 ** 30), ("handler_cap", I64, 2 ** 20), ("delay_between_ticks", I8, 1), ("min_delay_between_ticks", I64, 2 ** 50), ("max_delay_between_ticks", I64, 2 ** 50)):
            v = s.cv0[n] = c.i(n, ty.n, hi=hi); e.store(c.st, Ptr(f, L.off(ESY + "::Config", n)), v, ty)
        base = s.base = fun("base"); k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], base(k) > 0, patterns=[base(k)])); c.st.ghost.update(lists=0, made=0, events=(fm, None, None)); st0 = c.st
        sp = (SP, {0: ("ptr", fm.obj), 8: ("ptr", fm.ctl)})
        def heap(e, st, size):
            w = e.where or ""
            if w.startswith("Array<EventHandler"): return Ptr(S, 0, [(8, base(I(st.ghost["lists"])))])
            return (8, {0: ("ptr", V)}) if w.startswith("Array<std::unique_ptr<Vector<EventHandler") else sp if w.startswith("Array<std::shared_ptr<") else None
        def new(e, st, size):
            if isc(size) and size == L.size(HV): st.ghost["lists"] = add(st.ghost["lists"], 1); return Ptr(V, 0, [(L.size(HV), st.ghost["lists"])])
        def free(e, st, p):
            if p.r not in (V, S): return False
            e.oblige(st, "no list is released while the system is made", False); return True
        e.heap_hint, e.new_hook, e.free_hook, s.V = heap, new, free, V; return c.args
    def pre(s, c): CBase.pre(s, c)
    def store_of(s, c): return pool_at(c.eng, s.o(c, "_store"), CE)
    def post(s, c):
        e, st = c.eng, c.st; L = e.layouts; c.touch(c.args[0].r); c.touch(s.V); c.touch(c.fm.ctl); c.touch(c.fm.obj); v0 = s.cv0
        for n, v in v0.items(): ty = I8 if n == "delay_between_ticks" else I64; c.ensures("the configuration is kept", eq(e.load(st, s.cfg(c, n), ty), v))
        mp = s.o(c, "_map"); M = e.load(st, mp.plus(L.off(AM, "m_store", 0)), PTR); ids = v0["events_count"]; c.ensures("an id for every event configured", conj(eq(e.load(st, mp.plus(L.off(AM, "m_max_size", 1)), I64), ids), ne(e.load(st, mp.plus(L.off(AM, "m_store_is_internal", 2)), I8), 0)))
        ls = e.field_fn(st, M); of = s.of(c); g = {f: fam_fn(e, st, s.V, of[f]) for f in of}; j = fint("other")
        c.ensures_all("every id has a list of handlers", lambda k: gt(ls(k), 0), 0, ids); c.ensures_all("of its own", lambda k: imp(conj(le(0, j), lt(j, k)), ne(ls(j), ls(k))), 0, ids)
        c.ensures_all("which is empty and has room for the handlers configured", lambda k: conj(eq(g["cap"](ls(k)), v0["handler_cap"]), eq(g["head"](ls(k)), 0), eq(g["tail"](ls(k)), 0), eq(g["own"](ls(k)), 1), gt(g["store"](ls(k)), 0)), 0, ids)
        v = s.pipe(c); c.ensures("the pipeline is empty and has room for the events configured", conj(eq(v.g(st, v.cap), v0["events_cap"]), eq(v.g(st, v.head), 0), eq(v.g(st, v.tail), 0)))
        v = s.store_of(c); n = v.n(st); at = v.at(st); u = c.fm.uses(e, st); c.ensures("the store holds as many events as configured", conj(eq(n, v0["events_cap"]), ge(v.g(st, v.cap), n)))
        c.ensures_all("the events of the store are free", lambda k: conj(gt(at(k), 0), eq(u(at(k)), 1)), 0, n); c.ensures_all("and different ones", lambda k: imp(conj(le(0, j), lt(j, k)), ne(at(j), at(k))), 0, n)
    def loop(s, L):
        this = L.args[0]
        if not isinstance(this, Ptr) or this.r.name != "this" or L.fn.demangled.split("(")[0] != ESY + "::EventSystem": return
        e, st = L.eng, L.st; c = Ctx(e, st, "use", None, ""); c.args = [this]; fm = L.entry.ghost["events"][0]; v0 = s.cv0; m, d = st.ghost["lists"], st.ghost["made"]; of = s.of(c)
        L.inv("no more lists than ids, no more events than configured", conj(le(0, m), le(m, v0["events_count"]), le(0, d), le(d, v0["events_cap"])))
        for x in ("lists", "made"):
            a, b = L.entry.ghost[x], st.ghost[x]
            if a is not b: L.inv("one more every time", eq(b, add(a, L.n)))
        M = e.load(L.entry, s.o(c, "_map").plus(e.layouts.off(AM, "m_store", 0)), PTR); L.array("the ids so far have lists", M, lambda k: ite(lt(k, m), add(k, 1), 0), 0, v0["events_count"])
        for f, x in (("cap", lambda k: v0["handler_cap"]), ("head", lambda k: 0), ("tail", lambda k: 0), ("own", lambda k: 1), ("store", lambda k: s.base(I(k)))):
            f0 = fam_fn(e, L.entry, s.V, of[f]); p = Ptr(s.V, of[f]); L.array("the lists so far are empty: " + f, p, lambda k, x=x, f0=f0: ite(conj(le(1, k), le(k, m)), x(k), f0(k)))
        v = s.store_of(c); sp = v.slots(L.entry); L.inv("the store has the events made so far", conj(eq(v.g(st, v.head), 0), eq(v.g(st, v.tail), d)))
        for o in (0, 8): L.array("in the order they were made", sp.plus(o), lambda k: ite(lt(k, d), add(k, 1), 0), 0, v0["events_cap"])
        L.array("nobody else holds them", Ptr(fm.ctl, USE), lambda k: ite(conj(le(1, k), le(k, d)), 1, 0))
class EvDtor(ESB):
    """every list, its slots and every slot of pipeline and store are released once; so is every reference to an event"""
    sig = r"{C}::~EventSystem\(\)"
    def setup(s, c):
        p = s.system(c); e, st = c.eng, c.st; fm = c.fm; M, V = s.map(c, st); of = s.of(c); S = V.parts[0].tags[of["store"]][1]; S.nullable = True; S.scratch = True; M.r.heapblock = True; s.V, s.S = V, S
        ls, b, u = e.field_fn(st, M), fam_fn(e, st, V, of["store"]), fm.uses(e, st); inv, binv, pos, pos2 = fun("id of"), fun("list of"), fun("pos"), fun("pos in pipeline"); k = z3.Int(fresh_name("q")); ids = e.load(st, s.cfg(c, "events_count"), I64)
        # every id has a list of its own, every list slots of its own; events are in the store and in the pipeline at most once
        st.assume(z3.ForAll([k], B(conj(eq(inv(ls(k)), k), eq(binv(b(ls(k))), k), gt(b(ls(k)), 0))), patterns=[ls(k)]))
        s.inv, s.binv = inv, binv; v, w = pool_at(e, s.o(c, "_store"), CE), s.pipe(c); n, m, at, bt = v.n(st), w.n(st), v.at(st), w.at(st); distinct(st, c.rawpool, pos); distinct(st, c.raw, pos2)
        s.inpool, s.inpipe = [(lambda q, at=at, pos=pos, n=n, h=h: holds(pos, h, n, at, q)) for at, pos, n, h in ((at, pos, n, v.g(st, v.head)), (bt, pos2, m, w.g(st, w.head)))]
        st.assume(z3.ForAll([k], B(ge(u(k), add(ite(s.inpool(k), 1, 0), ite(s.inpipe(k), 1, 0)))), patterns=[u(k)]))
        g = [Region(x, None, [Part(0, 1, None, {0: ("int", 8)})]) for x in ("lists released", "slots released")]
        for r in g: r.scratch = True; st.mem[r] = Content().part((0, 0), lambda k: 0)
        st.ghost["pool"] = (st.ghost["pool"][0], pos); st.ghost["pos"] = (pos2,); s.rel = g
        def free(e, st, p):
            if p.r not in (V, S): return False
            i = e.index_of(p)[1]; r = g[0 if p.r is V else 1]; f = fam_fn(e, st, r, 0); e.oblige(st, "what is released is in use", conj(gt(i, 0), eq(f(i), 0))); poke(e, st, r, 0, i, 1); return True
        e.free_hook = free; return [p]
    def post(s, c):
        e, st, o = c.eng, c.st, c.old; c.touch(c.args[0].r); c.touch(s.V); c.touch(c.fm.ctl); ids = e.load(o, s.cfg(c, "events_count"), I64); q, _ = s.map(c, o); ls, b = e.field_fn(o, q), fam_fn(e, o, s.V, s.of(c)["store"]); f, g = [fam_fn(e, st, r, 0) for r in s.rel]
        c.ensures_all("every list of handlers is released", lambda k: eq(f(ls(k)), 1), 0, ids); c.ensures_all("with its slots", lambda k: eq(g(b(ls(k))), 1), 0, ids)
        v, w = pool_at(e, s.o(c, "_store"), CE), s.pipe(c)
        for x in (q, v.slots(o), w.slots(o)): c.touch(x.r); c.ensures("its blocks are released", x.r in st.freed)
        u0, u1 = c.fm.uses(e, o), c.fm.uses(e, st); k = fint("k"); e.oblige(st, "ensures a destroyed event system drops the references of its store and its pipeline, once each", eq(u1(k), sub(u0(k), add(ite(s.inpool(k), 1, 0), ite(s.inpipe(k), 1, 0)))), assume=False)
    def loop(s, L):
        this = L.args[0]
        if not isinstance(this, Ptr) or this.r.name != "this" or L.fn.demangled.split("(")[0] != ESY + "::~EventSystem": return
        e, st, o = L.eng, L.st, L.entry; c = Ctx(e, st, "use", None, ""); c.args = [this]; of = s.of(c); q, _ = s.map(c, o); key = e.field_key(q)[:2]; ls, b = e.field_fn(o, q), fam_fn(e, o, s.V, of["store"])
        v = pool_at(e, s.o(c, "_store"), CE)
        if st.mem[q.r] is not o.mem[q.r]:
            m = L.n; L.inv("no more than there are", le(m, e.load(o, s.o(c, "_map").plus(e.layouts.off(AM, "m_max_size", 1)), I64))); gone = lambda l: conj(le(0, s.inv(I(l))), lt(s.inv(I(l)), m), eq(ls(s.inv(I(l))), l))
            L.array("ids so far have no list", q, lambda k: ite(lt(k, m), 0, ls(k))); L.array("lists so far have no slots", Ptr(s.V, of["store"]), lambda l: ite(gone(l), 0, b(l)))
            L.array("lists released so far", Ptr(s.rel[0]), lambda l: ite(gone(l), 1, 0)); L.array("slots released so far", Ptr(s.rel[1]), lambda x: ite(conj(le(0, s.binv(I(x))), lt(s.binv(I(x)), m), eq(b(ls(s.binv(I(x)))), x)), 1, 0))
        if st.mem[v.slots(o).r] is not o.mem[v.slots(o).r]: drained(L, v, o.ghost["pool"][1])
# ---------------------------------------------------------------- what an event carries
KINDS = (("value", FLOAT), ("unsigned_value", INT(32)), ("s", I64), ("ms", I64))
class DataB(Contract):
    """a float, a number, seconds or milliseconds; or nothing"""
    def __init__(s): s.attach = s.sig.replace("{C}", CE + "::Data")
    def data(s, c, kind=None):
        r = Region("data", 24); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); e = c.eng; e.store(c.st, p.plus(16), 0 if kind is None else 1, I8)
        if kind is not None: n, ty = KINDS[kind]; e.store(c.st, p, c.f("held", ty) if ty.k == "float" else c.i("held", ty.n), ty); e.store(c.st, p.plus(8), kind, I8)
        return p
class DataGet(DataB):
    sig = r"{C}::(?:value|unsigned_value|ms|s)\(\) const"; variants = ("nothing", "value", "unsigned_value", "s", "ms"); noreturn_ok = True
    def setup(s, c): return [s.data(c, None if c.variant == "nothing" else [n for n, _ in KINDS].index(c.variant))]
    def want(s, c): return re.search(r"::(\w+)\(\) const", c.title)[1]
    def pre(s, c): c.throws = c.variant not in ("nothing", s.want(c))
    def post(s, c):
        want = re.search(r"::(\w+)\(\) const", c.title)[1]; ty = dict(KINDS)[want]
        if c.variant == "nothing": c.returns(c.eng.fpconst(ty, "0.0") if ty.k == "float" else 0, "nothing is 0")
        elif c.variant == want: c.returns(c.eng.load(c.old, c.args[0], ty), "exactly the value held")
        else: c.ensures("a value of another kind is never taken for it", False)
class DataHas(DataB):
    sig = r"{C}::has_value\(\) const"; variants = ("nothing", "value", "ms"); optional = True
    def setup(s, c): return [s.data(c, None if c.variant == "nothing" else [n for n, _ in KINDS].index(c.variant))]
    def post(s, c): c.returns(c.variant != "nothing", "whether there is a value")
class DataMake(DataB):
    sig = r"{C}::Data\((?:float|unsigned int|%s|%s)\)" % (MS, MS.replace("Milli", "Base"))
    def kind(s, c): t = c.title; return 0 if "Data(float" in t else 1 if "Data(unsigned" in t else 2 if "Base" in t else 3
    def setup(s, c): r = Region("this", 24, init="undef"); c.st.mem[r] = Content(); ty = KINDS[s.kind(c)][1]; return [Ptr(r), c.f("given", ty) if ty.k == "float" else c.i("given", ty.n)]
    def post(s, c):
        p = c.args[0]; ty = KINDS[s.kind(c)][1]; c.touch(p.r); e = c.eng; c.ensures("holds the value given", c.eq(e.load(c.st, p, ty), c.args[1], ty)); c.ensures("as that kind of value", conj(eq(e.load(c.st, p.plus(8), I8), s.kind(c)), eq(e.load(c.st, p.plus(16), I8), 1)))
class DataNone(DataB):
    sig = r"{C}::Data\(\)"
    def setup(s, c): r = Region("this", 24, init="undef"); c.st.mem[r] = Content(); return [Ptr(r)]
    def post(s, c): p = c.args[0]; c.touch(p.r); c.ensures("holds nothing", eq(c.eng.load(c.st, p.plus(16), I8), 0))
DATA = (DataGet, DataHas, DataMake, DataNone)
def evsys(): return U.optional(T.all_timers() + futures() + [PLAny(), PLExpired(), PLNext(), PLExpire()]) + [PoAcquire(CE), PoDtor(CE), PLDtor()] + [K() for K in (EvTrigger, EvTriggerPtr, EvEvent, EvSchedule, EvScheduleT, EvTriggerT, EvAttach, EvLoop, EvCtor, EvDtor) + DATA]

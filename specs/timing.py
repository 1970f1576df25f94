"""Contracts for the mock clock, timers, the set-reset latch and schedules."""
from dv.contracts import *
from .units import sg, un, fits, Throws
from . import units as U
TM = "spn::structure::time::"
LIM = 2 ** 61          # times are far from the ends of the 64 bit range
def tfits(x, lim=LIM): return conj(le(-lim, x), le(x, lim))

# ---------------------------------------------------------------- the clock: one ghost time in microseconds, kept as milliseconds + microseconds
class Clock:
    def __init__(s, eng, st):
        n = next((k for k, d in eng.mod.dem.items() if d == "spn::platform::MockStateInstance()" and eng.mod.funcs.get(k)), None)
        if n is None: raise Unsupported("MockStateInstance is not in the extracted code")
        outs = eng.run_function(st.fork(), eng.mod.func(n), [])
        s.p = outs[0][1]; s.eng = eng; L = eng.layouts
        s.ms, s.us = s.p.plus(L.off("spn::platform::MockState", "millis", 0)), s.p.plus(L.off("spn::platform::MockState", "micros", 1))
        st.content(s.p.r)
    def vals(s, st): return sg(s.eng.load(st, s.ms, INT(64))), sg(s.eng.load(st, s.us, INT(64)))
    def ok(s, st):
        m, u = s.vals(st); return conj(le(0, m), le(m, 2 ** 50), le(0, u), le(u, 2 ** 60))
    def micros(s, st): m, u = s.vals(st); return add(mul(1000, m), u)
    def millis(s, st): m, u = s.vals(st); return add(m, div(u, 1000))
class CBase(Contract):
    """anything that reads the clock"""
    def __init__(s): s.attach = s.sig
    def clock(s, c): return Clock(c.eng, c.st)
    def pre(s, c):
        c.g["clock"] = k = s.clock(c); c.requires("the clock is in range", k.ok(c.st)); c.g["now"] = k.millis(c.st); s.pre2(c)
    def pre2(s, c): pass
    def now(s, c): return c.g["now"]
    def params(s, c): return []
    def setup(s, c): return s.params(c)
    def t(s, c, name, lim=LIM):
        x = fint(name); c.st.assume(tfits(x, lim)); c.inputs.append((name, x)); return un(x)
    def v(s, c, i): return sg(c.args[i])
    def ref(s, c, name, ty=INT(64), lim=LIM):
        r = Region(name, 8); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); c.eng.store(c.st, p, s.t(c, name, lim), ty); return p
PLAT = r"spn::platform::(?:Mock|Platform<.*>)::"
UM = r"spn::structure::units::Unit<spn::structure::units::TagKernelTime, spn::structure::units::%s, long>"
MS, US = UM % "Milli", UM % "Micro"
class Millis(CBase):
    sig = PLAT + r"millis\(\)"
    def post(s, c): c.returns(un(c.g["clock"].millis(c.old)), "milliseconds of the clock")
class Micros(CBase):
    sig = PLAT + r"micros\(\)"
    def post(s, c): c.returns(un(c.g["clock"].micros(c.old)), "microseconds of the clock")
class Delay(CBase):
    sig = PLAT + r"delay(?:_ms)?\((?:%s|unsigned int)\)" % MS; field = "ms"; top = 2 ** 50
    def params(s, c):
        if "unsigned int" in c.title: return [c.i("delay", 32)]
        return [s.t(c, "delay")]
    def amount(s, c): return c.args[0] if "unsigned int" in c.title else sg(c.args[0])
    def pre2(s, c):
        k = c.g["clock"]; d = s.amount(c); m, u = k.vals(c.st); c.requires("the clock stays in range", conj(le(0, d), le(add(d, m if s.field == "ms" else u), s.top)))
    def post(s, c):
        k = c.g["clock"]; d = s.amount(c); m, u = k.vals(c.old); c.touch(k.p.r)
        if c.mode == "verify":
            c.ensures("the clock stays in range", k.ok(c.st)); c.ensures("the clock advances by exactly the delay", eq(k.micros(c.st), add(k.micros(c.old), mul(d, 1000 if s.field == "ms" else 1))))
        else: c.eng.store(c.st, k.ms if s.field == "ms" else k.us, un(add(m if s.field == "ms" else u, d)), INT(64))
class DelayUs(Delay):
    sig = PLAT + r"delay_us\((?:%s|unsigned int)\)" % US; field = "us"; top = 2 ** 60
def clock(): return [Millis(), Micros(), Delay(), DelayUs()]

# ---------------------------------------------------------------- timers
class TBase(CBase):
    """member function of a timer object"""
    fields = (); cls = None
    def __init__(s): s.attach = s.sig.replace("{C}", TM + s.cls)
    def f(s, c, name, i=0):
        i = next(k for k, (n, t) in enumerate(s.fields) if n == name); return c.args[0].plus(c.eng.layouts.off(TM + s.cls, name, i))
    def get(s, c, name, old=True):
        ty = dict(s.fields)[name]; x = c.eng.load(c.old if old else c.st, s.f(c, name), ty); return sg(x) if ty.n == 64 else x
    def obj(s, c, undef=False):
        r = Region("this", c.eng.layouts.size(TM + s.cls), init="undef" if undef else "lazy"); c.st.mem[r] = Content(); p = Ptr(r)
        if not undef:
            for i, (n, ty) in enumerate(s.fields):
                c.eng.store(c.st, p.plus(c.eng.layouts.off(TM + s.cls, n, i)), s.t(c, n) if ty.n == 64 else c.i(n, 8, hi=1), ty)
        return p
    ctor = False
    def setup(s, c): return [s.obj(c, s.ctor)] + s.params(c)
    def pre2(s, c):
        if not s.ctor: c.requires("the timer is in range", conj(*[tfits(s.get(c, n, False)) if ty.n == 64 else le(s.get(c, n, False), 1) for n, ty in s.fields]))
        for i in s.times: c.requires("the given time is in range", tfits(s.v(c, i)))
    times = ()
    def put(s, c, name, v, why): ty = dict(s.fields)[name]; c.sets(why, s.f(c, name), ty, un(v) if ty.n == 64 else v)
I64 = INT(64); I8 = INT(8)
class TimerB(TBase): cls = "Timer"; fields = (("_last", I64),)
class TimerCtor(TimerB):
    sig = r"{C}::Timer\(.*\)"; ctor = True; times = (1,)
    def params(s, c): return [s.t(c, "epoch")]
    def post(s, c): s.put(c, "_last", s.v(c, 1), "counts from the given moment")
class TimerSince(TimerB):
    sig = r"{C}::time_since_last\(bool\)"
    def params(s, c): return [c.b("reset")]
    def post(s, c):
        c.returns(un(sub(s.now(c), s.get(c, "_last"))), "time since the last reset"); s.put(c, "_last", ite(c.args[1], s.now(c), s.get(c, "_last")), "restarts exactly when asked to")
class TimerReset(TimerB):
    sig = r"{C}::reset\(.*\)"; times = (1,)
    def params(s, c): return [s.t(c, "epoch")]
    def post(s, c): s.put(c, "_last", s.v(c, 1), "counts from the given moment")
class AlarmB(TBase): cls = "AlarmTimer"; fields = (("_future", I64), ("_expired", I8))
class AlarmCtor(AlarmB):
    sig = r"{C}::AlarmTimer\(.*\)"; ctor = True
    def params(s, c): return [s.t(c, "future", LIM // 2), c.b("absolute")]
    def pre2(s, c): c.requires("the given time is in range", tfits(s.v(c, 1), LIM // 2))
    def post(s, c): s.put(c, "_future", ite(c.args[2], s.v(c, 1), add(s.now(c), s.v(c, 1))), "expires at the given moment"); s.put(c, "_expired", 0, "has not expired")
class AlarmExpired(AlarmB):
    sig = r"{C}::expired\(\)"
    def post(s, c):
        r = disj(ne(s.get(c, "_expired"), 0), le(s.get(c, "_future"), s.now(c))); c.returns(r, "expired exactly from its moment on, and for good"); s.put(c, "_expired", ite(r, 1, 0), "remembers it")
class AlarmFuture(AlarmB):
    sig = r"{C}::future\(\) const"
    def post(s, c): c.returns(un(s.get(c, "_future")), "moment of expiry")
class AlarmFrom(AlarmB):
    sig = r"{C}::time_from_now\(\) const"
    def post(s, c): c.returns(un(sub(s.get(c, "_future"), s.now(c))), "time until expiry")
class IntervalB(TBase): cls = "IntervalTimer"; fields = (("_previous", I64), ("_interval", I64), ("_allow_catch_up", I8))
class IntervalCtor(IntervalB):
    sig = r"{C}::IntervalTimer\(.*\)"; ctor = True; times = (1,)
    def params(s, c): return [s.t(c, "interval"), c.b("catch up")]
    def post(s, c):
        s.put(c, "_previous", s.now(c), "counts from now"); s.put(c, "_interval", s.v(c, 1), "keeps the interval"); s.put(c, "_allow_catch_up", ite(c.args[2], 1, 0), "keeps the mode")
class IntervalExpired(IntervalB):
    sig = r"{C}::expired\(\)"
    def post(s, c):
        p, i, now = s.get(c, "_previous"), s.get(c, "_interval"), s.now(c); r = gt(sub(now, p), i); c.returns(r, "expires when more than the interval has passed")
        s.put(c, "_previous", ite(r, ite(ne(s.get(c, "_allow_catch_up"), 0), add(p, i), now), p), "the next interval starts now, or exactly one interval later when catching up")
class IntervalReset(IntervalB):
    sig = r"{C}::reset\(\)"
    def post(s, c): s.put(c, "_previous", s.now(c), "counts from now")
class IntervalFuture(IntervalB):
    sig = r"{C}::future\(\) const"
    def post(s, c): c.returns(un(add(s.get(c, "_previous"), s.get(c, "_interval"))), "moment of expiry")
class IntervalUntil(IntervalB):
    sig = r"{C}::time_until_next\(\) const"
    def post(s, c): c.returns(un(sub(add(s.get(c, "_previous"), s.get(c, "_interval")), s.now(c))), "time until expiry")
class IntervalInterval(IntervalB):
    sig = r"{C}::interval\(\) const"
    def post(s, c): c.returns(un(s.get(c, "_interval")), "the interval")
DSince = defaulted(TimerSince, r"defaults::since\(.*\)", [True])
DLook = defaulted(TimerSince, r"defaults::look\(.*\)", [False])
DAlarm = defaulted(AlarmCtor, r"defaults::alarm\(.*\)", [False])
DInterval = defaulted(IntervalCtor, r"defaults::interval\(.*\)", [False])
def clock_now(c): return [un(Clock(c.eng, c.st).millis(c.st))]
DTimer = defaulted(TimerCtor, r"defaults::timer\(.*\)", clock_now)
DReset = defaulted(TimerReset, r"defaults::restart\(.*\)", clock_now)
def default_arguments(): return [DTimer(), DReset(), DSince(), DLook(), DAlarm(), DInterval()]
def timers(): return [K() for K in (TimerCtor, TimerSince, TimerReset, AlarmCtor, AlarmExpired, AlarmFuture, AlarmFrom, IntervalCtor, IntervalExpired, IntervalReset, IntervalFuture, IntervalUntil, IntervalInterval)]
def all_timers(): return U.optional(U.kernel()) + clock() + timers()

# ---------------------------------------------------------------- set-reset latch
LC = "spn::controller::SRLatch"; LCF = LC + "::Config"
class LBase(CBase):
    def __init__(s): s.attach = s.sig.replace("{C}", LC)
    T = ("minimal_on_time", "maximal_on_time", "minimal_off_time", "maximal_off_time")
    def cf(s, c, base, name): return base.plus(c.eng.layouts.off(LCF, name, ("high", "low") .index(name) if name in ("high", "low") else 2 + s.T.index(name)))
    def make_cfg(s, c, base):
        for n in ("high", "low"): c.eng.store(c.st, s.cf(c, base, n), c.f(n, finite=False), FLOAT)
        for n in s.T: c.eng.store(c.st, s.cf(c, base, n), s.t(c, n, LIM // 2), I64)
    def parts(s, c):
        p, L = c.args[0], c.eng.layouts; return p.plus(L.off(LC, "_cfg", 0)), p.plus(L.off(LC, "_value", 1)), p.plus(L.off(LC, "_last_turned", 2) + L.off(TM + "Timer", "_last", 0))
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(LC)); r.closed = True; c.st.mem[r] = Content(); c.args = [Ptr(r)]; cfg, val, last = s.parts(c); s.make_cfg(c, cfg); c.eng.store(c.st, val, c.i("state", 32, hi=1), INT(32)); c.eng.store(c.st, last, s.t(c, "last turned"), I64)
        return [Ptr(r)] + s.params(c)
    def time(s, c, n, old=True): return sg(c.eng.load(c.old if old else c.st, s.cf(c, s.parts(c)[0], n), I64))
    def pre2(s, c):
        cfg, val, last = s.parts(c); c.requires("the latch is well-formed", conj(le(c.eng.load(c.st, val, INT(32)), 1), tfits(sg(c.eng.load(c.st, last, I64))), *[tfits(s.time(c, n, False), LIM // 2) for n in s.T]))
def fgt(c, a, b): return c.eng.fcmp("ogt", a, b)
class LatchCtor(LBase):
    sig = r"{C}::SRLatch\({C}::Config const&&\)"
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(LC), init="undef"); c.st.mem[r] = Content(); g = Region("config", c.eng.layouts.size(LCF)); g.closed = True; c.st.mem[g] = Content(); s.make_cfg(c, Ptr(g)); return [Ptr(r), Ptr(g)]
    def pre2(s, c): c.requires("times are in range", conj(*[tfits(sg(c.eng.load(c.st, s.cf(c, c.args[1], n), I64)), LIM // 2) for n in s.T]))
    def post(s, c):
        cfg, val, last = s.parts(c)
        for n in ("high", "low"): c.sets("keeps %s" % n, s.cf(c, cfg, n), FLOAT, c.eng.load(c.old, s.cf(c, c.args[1], n), FLOAT))
        for n in s.T: c.sets("keeps %s" % n, s.cf(c, cfg, n), I64, c.eng.load(c.old, s.cf(c, c.args[1], n), I64))
        c.sets("starts turned off", val, INT(32), 0); c.sets("and may be turned on at once", last, I64, un(sub(s.now(c), sg(c.eng.load(c.old, s.cf(c, c.args[1], "minimal_off_time"), I64)))))
class LatchRead(LBase):
    sig = r"{C}::new_reading\(float\)"
    def params(s, c): return [c.f("reading", finite=False)]
    def post(s, c):
        cfg, val, last = s.parts(c); e = c.eng; on = ne(e.load(c.old, val, INT(32)), 0); t0 = sg(e.load(c.old, last, I64)); el = sub(s.now(c), t0); T = lambda n: s.time(c, n)
        hi, lo = fgt(c, c.args[1], e.load(c.old, s.cf(c, cfg, "high"), FLOAT)), fgt(c, e.load(c.old, s.cf(c, cfg, "low"), FLOAT), c.args[1])
        hold = ite(on, lt(el, T("minimal_on_time")), lt(el, T("minimal_off_time"))); mx = ite(on, T("maximal_on_time"), T("maximal_off_time")); force = conj(ne(mx, 0), gt(el, mx))
        new = ite(hold, on, ite(force, no(on), ite(hi, True, ite(lo, False, on))))
        c.sets("holds for the minimal time, changes after the maximal time, follows the thresholds in between", val, INT(32), ite(new, 1, 0)); c.sets("the time limits count from the last change", last, I64, un(ite(eq(B(new), B(on)), t0, s.now(c))))
class LatchSet(LBase):
    sig = r"{C}::set\(.*\)"; optional = True
    def params(s, c): return [c.i("state", 32, hi=1)]
    def post(s, c):
        cfg, val, last = s.parts(c); e = c.eng; old = e.load(c.old, val, INT(32)); c.sets("state", val, INT(32), c.args[1]); c.sets("restarts the time limits on a change", last, I64, un(ite(eq(old, c.args[1]), sg(e.load(c.old, last, I64)), s.now(c))))
class LatchResponse(LBase):
    sig = r"{C}::response\(\) const"
    def pre(s, c): pass
    def post(s, c): c.returns(eq(c.eng.load(c.old, s.parts(c)[1], INT(32)), 1), "on")
def latch(): return U.optional(all_timers()) + [LatchCtor(), LatchRead(), LatchSet(), LatchResponse()]

# ---------------------------------------------------------------- schedules
SC = TM + "Schedule"; BLK = SC + "::Block"; AB = "spn::structure::Array<%s>" % BLK; DAY = 86400; TLIM = 2 ** 40
class SBase(Contract):
    """a schedule over n blocks (start, duration, value); times are seconds"""
    def __init__(s): s.attach = s.sig.replace("{C}", SC)
    def part(s, c, name, n):
        L = c.eng.layouts; s.o = [L.off(BLK, f, i) for i, f in enumerate(("start", "duration", "value"))]
        return Region(name, mul(24, n), [Part(0, 24, n, {s.o[0]: ("int", 64), s.o[1]: ("int", 64), s.o[2]: ("fp", c.eng.fpsort(FLOAT))})])
    def off(s, c, f, i): return c.eng.layouts.off(AB, f, i)
    def setup(s, c):
        n = c.i("blocks", hi=2 ** 31 - 1); a = s.part(c, "blocks", n); r = Region("this", c.eng.layouts.size(SC)); c.st.mem[r] = Content(); e = c.eng; p = Ptr(r)
        b = c.eng.layouts.off(SC, "_blocks", 0)
        e.store(c.st, p.plus(b + s.off(c, "m_store", 0)), Ptr(a), PTR); e.store(c.st, p.plus(b + s.off(c, "m_max_size", 1)), n, INT(64)); e.store(c.st, p.plus(b + s.off(c, "m_store_is_internal", 2)), c.i("own", 8, hi=1), INT(8))
        return [p] + s.params(c)
    def params(s, c):
        x = fint("time of day"); c.st.assume(conj(le(0, x), le(x, TLIM))); c.inputs.append(("t", x)); s.tv = x
        if c.fn.params[1][0].k == "ptr": r = Region("t", 8); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), x, INT(64)); return [Ptr(r)]
        return [x]
    def t(s, c): return sg(c.eng.load(c.old, c.args[1], INT(64)) if isinstance(c.args[1], Ptr) else c.args[1])
    @staticmethod
    def blocks(eng, st, this):
        L = eng.layouts; b = L.off(SC, "_blocks", 0); sp = eng.load(st, this.plus(b + L.off(AB, "m_store", 0)), PTR); n = eng.load(st, this.plus(b + L.off(AB, "m_max_size", 1)), INT(64))
        o = [L.off(BLK, f, i) for i, f in enumerate(("start", "duration", "value"))]; f = [eng.field_fn(st, sp.plus(x), ty) for x, ty in zip(o, (I64, I64, FLOAT))]
        return n, lambda k: sg(f[0](k)), lambda k: sg(f[1](k)), f[2]
    def pre(s, c):
        n, st, du, _ = s.blocks(c.eng, c.st, c.args[0]); ok = lambda k: conj(le(0, st(k)), le(st(k), DAY), lt(0, du(k)), le(du(k), DAY))
        if c.mode == "verify":
            k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), ok(k)))))
        else: raise Unsupported("schedules are not used inside the repository")
def active(t, st, du):
    """t lies in [start, start+duration) of today, or of yesterday's block running past midnight"""
    return lambda k: disj(conj(le(st(k), t), lt(t, add(st(k), du(k)))), conj(le(sub(st(k), DAY), t), lt(t, sub(add(st(k), du(k)), DAY))))
class SValue(SBase):
    sig = r"{C}::value_at\(.*\) const"
    def post(s, c):
        n, st, du, va = s.blocks(c.eng, c.old, c.args[0]); t = s.t(c); a = active(t, st, du)
        j = z3.Int(fresh_name("q")); i = fint("block")
        none = z3.ForAll([j], B(imp(conj(le(0, j), lt(j, n)), no(a(j))))); first = z3.And(B(conj(le(0, i), lt(i, n), a(i))), z3.ForAll([j], B(imp(conj(le(0, j), lt(j, i)), no(a(j))))))
        c.ensures("0 outside every block", z3.Implies(none, B(eq(c.ret, c.eng.fpconst(FLOAT, "0.0"))))); c.ensures("the value of the first block that holds the time", z3.Implies(first, B(ident(c.ret, va(i)))))
    def loop(s, L):
        if L.args[0].r.name != "this": return
        n, st, du, va = SBase.blocks(L.eng, L.entry, L.args[0]); t = sg(L.eng.load(L.entry, L.args[1], INT(64)) if isinstance(L.args[1], Ptr) else L.args[1]); a = active(t, st, du)
        L.inv("iterations", le(L.n, n)); L.forall("no block so far holds the time", lambda k: no(a(k)), 0, L.n)
class SNext(SBase):
    sig = r"{C}::start_of_next_block\(.*\) const"
    def post(s, c):
        n, st, du, va = s.blocks(c.eng, c.old, c.args[0]); t = s.t(c); r = sg(c.ret); i = fint("block"); j = z3.Int(fresh_name("q"))
        c.ensures("no block starts between the time and the result", imp(conj(le(0, i), lt(i, n), lt(t, st(i))), le(r, st(i))))
        c.ensures("it is the start of a later block, or 24 hours", disj(eq(r, DAY), z3.Exists([j], B(conj(le(0, j), lt(j, n), lt(t, st(j)), eq(st(j), r)))))); c.ensures("at most 24 hours", le(r, DAY))
    def loop(s, L):
        if L.args[0].r.name != "this": return
        n, st, du, va = SBase.blocks(L.eng, L.entry, L.args[0]); t = sg(L.eng.load(L.entry, L.args[1], INT(64)) if isinstance(L.args[1], Ptr) else L.args[1])
        L.inv("iterations", le(L.n, n))
        for nm, v0, v in L.vals:      # the earliest start found so far: the variable that starts at 24 hours
            if not (isc(v0) and v0 == DAY): continue
            r = sg(v); L.inv("at most 24 hours", conj(le(0, r), le(r, DAY))); L.forall("no later start so far is earlier", lambda k: imp(lt(t, st(k)), le(r, st(k))), 0, L.n)
            j = z3.Int(fresh_name("q")); L.inv("found in a block so far", disj(eq(r, DAY), z3.Exists([j], B(conj(le(0, j), lt(j, L.n), lt(t, st(j)), eq(st(j), r))))))
class SCtor(SBase):
    """a schedule made from a list holds the blocks of the list"""
    sig = r"{C}::Schedule\(std::initializer_list<{C}::Block> const&\)"
    def list_(s, c):
        n = c.i("blocks", hi=2 ** 31 - 1); a = s.part(c, "list", n); r = Region("initializer list", 16); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), Ptr(a), PTR); c.eng.store(c.st, Ptr(r, 8), n, INT(64)); return Ptr(r)
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(SC), init="undef"); c.st.mem[r] = Content(); p = s.list_(c); o = [c.eng.layouts.off(BLK, f, i) for i, f in enumerate(("start", "duration", "value"))]
        c.eng.heap_hint = (24, {o[0]: ("int", 64), o[1]: ("int", 64), o[2]: ("fp", c.eng.fpsort(FLOAT))}); return [Ptr(r), p]
    @staticmethod
    def given(e, st, p):
        L = e.layouts; sp = e.load(st, p, PTR); n = e.load(st, p.plus(8), INT(64)); f = [e.field_fn(st, sp.plus(L.off(BLK, x, i)), ty) for i, (x, ty) in enumerate((("start", I64), ("duration", I64), ("value", FLOAT)))]
        return n, lambda k: sg(f[0](k)), lambda k: sg(f[1](k)), f[2]
    def pre(s, c):
        n, st, du, _ = s.given(c.eng, c.st, c.args[1]); ok = lambda k: conj(le(0, st(k)), le(st(k), DAY), lt(0, du(k)), le(du(k), DAY))
        if c.mode == "verify": k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], B(imp(conj(le(0, k), lt(k, n)), ok(k)))))
        else: c.requires("list is allocatable", lt(n, 2 ** 31)); c.requires_all("blocks start within the day and last at most a day", ok, 0, n)
    def post(s, c):
        e = c.eng; m, a, b, v = s.given(e, c.old, c.args[1])
        if c.mode == "use":
            o = [e.layouts.off(BLK, f, i) for i, f in enumerate(("start", "duration", "value"))]; r = Region("blocks", mul(24, m), [Part(0, 24, m, {o[0]: ("int", 64), o[1]: ("int", 64), o[2]: ("fp", e.fpsort(FLOAT))})], kind="heap"); b0 = e.layouts.off(SC, "_blocks", 0)
            ct = Content()
            for x, f in zip(o, (a, b, v)): ct = ct.part((0, x), f)
            c.st.mem[r] = ct; c.st.ghost["heap_live"] = c.st.ghost.get("heap_live", ()) + (r,)
            for f, i, x, ty in (("m_store", 0, Ptr(r), PTR), ("m_max_size", 1, m, INT(64)), ("m_store_is_internal", 2, 1, INT(8))): e.store(c.st, c.args[0].plus(b0 + s.off(c, f, i)), x, ty)
            return
        c.touch(c.args[0].r); n, st, du, va = s.blocks(e, c.st, c.args[0]); c.ensures("as many blocks as listed", eq(n, m)); c.ensures_all("each block as listed", lambda k: conj(eq(st(k), a(k)), eq(du(k), b(k)), ident(va(k), v(k))), 0, m)
        own = e.load(c.st, c.args[0].plus(e.layouts.off(SC, "_blocks", 0) + s.off(c, "m_store_is_internal", 2)), INT(8)); c.ensures("the blocks are its own", eq(own, 1))
    def loop(s, L):      # adding up the durations
        if L.args[0].r.name != "this": return
        n = s.given(L.eng, L.entry, L.args[1])[0]; L.inv("iterations", le(L.n, n))
        for nm, v0, v in L.vals:
            if isc(v0) and v0 == 0 and not isinstance(v0, bool): L.inv("total so far", conj(le(0, sg(v)), le(sg(v), mul(DAY, L.n))))
    def copy(s, L):
        if L.args[0].r.name != "this" or L.args[1].r.name != "initializer list": return
        e = L.eng; sp = e.load(L.entry, L.args[0].plus(s.o0), PTR)
        n = s.given(e, L.entry, L.args[1])[0]; L.inv("iterations", le(L.n, n)); src = e.load(L.entry, L.args[1], PTR)
        for i, (x, ty) in enumerate((("start", I64), ("duration", I64), ("value", FLOAT))):
            f = e.field_fn(L.entry, src.plus(e.layouts.off(BLK, x, i)), ty); q = sp.plus(e.layouts.off(BLK, x, i)); f0 = e.field_fn(L.entry, q, ty); L.array("copied so far: %s" % x, q, lambda k, f=f, f0=f0: ite(lt(k, L.n), f(k), f0(k)))
    o0 = 0
    @property
    def inner_loops(s): return {r"spn::structure::Array<%s::Block>::Array\(std::initializer_list<%s::Block> const&\)" % (SC, SC): s.copy}
class SCtorConfig(SCtor):
    sig = r"{C}::Schedule\({C}::Config const&&\)"; inner_loops = {}
def schedule(): return U.optional(U.kernel()) + [SValue(), SNext(), SCtor(), SCtorConfig()]

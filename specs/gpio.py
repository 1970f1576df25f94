"""Contracts for outputs (platform/gpio): digital outputs, analogue outputs and fading."""
import re
from dv.contracts import *
from .filters import num

DO = r"spn::platform::DigitalOutput<h::Pin>"
AO = r"spn::platform::AnalogueOutput<h::Dac>"
G = "output"           # ghost: the value or state the hardware was given last, and how often it was initialised
def ghost(c_or_e, st):
    g = st.ghost.get(G)
    if g is None:
        g = Region("the hardware", 16); g.scratch = True; st.ghost[G] = g; st.content(g)
    return g
class Impl(Contract):
    trusted = True
    def __init__(s): s.attach = s.sig
class PinInit(Impl):
    """the pin of the platform is initialised"""
    sig = r"h::Pin::initialize_impl\(\)"
    def use(s, e, st, name, a, rty):
        st.ghost["log"] = st.ghost.get("log", ()) + (("init",),); return [(st, None)]
class PinSet(Impl):
    """the pin of the platform takes the state given"""
    sig = r"h::Pin::set_state_impl\(spn::core::LogicalState\)"
    def use(s, e, st, name, a, rty):
        st.ghost["log"] = st.ghost.get("log", ()) + (("set", a[0], a[1]),); return [(st, None)]
class DacSet(Impl):
    """the converter of the platform takes the value given"""
    sig = r"h::Dac::set_value\(float\)"
    def use(s, e, st, name, a, rty):
        e.store(st, Ptr(ghost(e, st)), a[1], FLOAT); st.ghost["dac"] = a[0]; return [(st, None)]
class Wait(Impl):
    """HAL::delay waits"""
    sig = r"spn::platform::Platform<.*>::delay\(.*\)"; optional = True
    def use(s, e, st, name, a, rty):
        want = getattr(e.cur_ctx, "interval", None)
        if want is not None: e.oblige(st, "the steps are one interval apart", eq(a[0], want)); e.store(st, Ptr(ghost(e, st), 8), 1, INT(32))
        return [(st, None)]

class DBase(Contract):
    def __init__(s): s.attach = s.sig
    def setup(s, c):
        r = Region("this", 4); c.st.mem[r] = Content(); c.st.assume(le(c.eng.load(c.st, Ptr(r), INT(32)), 2)); return [Ptr(r)] + s.params(c)
    def params(s, c): return []
    def off(s, c): return c.eng.layouts.off("spn::platform::DigitalOutput<h::Pin>", "_active", 0)
    def st_(s, c, old=True): return c.eng.load(c.old if old else c.st, c.args[0].plus(s.off(c)), INT(32))
    def set_(s, c, v, init=False):
        """the pin was driven once, with v, and v is remembered"""
        c.sets("the state is remembered", c.args[0].plus(s.off(c)), INT(32), v)
        if c.mode == "use":
            c.st.ghost["log"] = c.st.ghost.get("log", ()) + ((("init",),) if init else ()) + (("set", c.args[0], v),); return
        log = c.st.ghost.get("log", ()); n = 2 if init else 1
        c.ensures("the pin is %sdriven once" % ("initialised, then " if init else ""), len(log) == n and [x[0] for x in log] == ["init", "set"][-n:])
        if len(log) == n and log[-1][0] == "set": c.ensures("on this output", c.eng.ptr_eq(c.st, log[-1][1], c.args[0])); c.ensures("with the state given", eq(log[-1][2], v))
class DSet(DBase):
    sig = DO + r"::set_state\(spn::core::LogicalState\)"
    def params(s, c): return [c.i("state", 32, hi=2)]
    def post(s, c): s.set_(c, c.args[1])
def bit(x): return x if isc(x) else z3.If(x, 1, 0) if z3.is_bool(x) else mod(x, 2)
class DSetB(DBase):
    sig = DO + r"::set_state\(bool\)"
    def params(s, c): return [c.b("active")]
    def post(s, c): s.set_(c, bit(c.args[1]))
class DInit(DBase):
    sig = DO + r"::initialize\(bool\)"
    def params(s, c): return [c.b("active")]
    def post(s, c): s.set_(c, bit(c.args[1]), True)
class DFlip(DBase):
    sig = DO + r"::flip\(\)"
    def post(s, c): s.set_(c, ite(eq(s.st_(c), 0), 1, 0))
class DState(DBase):
    sig = DO + r"::state\(\) const"
    def post(s, c): c.returns(s.st_(c), "the state set last")

# -------------------------------------------------------------------------------------------------------------- fading
def absr(x): return z3.If(x >= 0, x, -x)
def toward(v, a, b):
    """v lies between a and b"""
    return z3.And(z3.If(a <= b, z3.And(a <= v, v <= b), z3.And(b <= v, v <= a)))
class Fade(Contract):
    attach = r"spn::platform::detail::fade_to\(.*\)"; fp = "real"
    def setup(s, c):
        e = c.eng; imp = Ptr(Region("imp", 4)); v, sp, inc = c.f("value"), c.f("setpoint"), c.f("increment"); iv = c.i("interval")
        g = ghost(e, c.st); e.store(c.st, Ptr(g), v, FLOAT); e.store(c.st, Ptr(g, 8), 1, INT(32)); c.interval = iv
        def step(e2, st, a):
            e2.oblige(st, "the callback gets the object given", e2.ptr_eq(st, a[0], imp)); last = e2.load(st, Ptr(g), FLOAT); x = a[1]
            e2.oblige(st, "a step goes toward the setpoint and not beyond it", toward(x, last, sp)); 
            e2.oblige(st, "a step is not larger than the increment", z3.Implies(inc > 0, absr(x - last) <= inc))
            e2.oblige(st, "between two steps it waits", z3.Or(eq(e2.load(st, Ptr(g, 8), INT(32)), 1), x == last))
            e2.store(st, Ptr(g), x, FLOAT); e2.store(st, Ptr(g, 8), 0, INT(32)); return None
        return [VFn("set_value", step), imp, v, sp, inc, iv]
    def pre(s, c):
        v, sp, inc = c.args[2:5]; c.requires("value and setpoint lie in 0..1", z3.And(v >= 0, v <= 1, sp >= 0, sp <= 1))
    def post(s, c):
        e = c.eng; f, imp, v, sp, inc = c.args[:5]
        if c.mode == "verify":
            c.ensures("the output ends at the setpoint", e.load(c.st, Ptr(ghost(e, c.st)), FLOAT) == sp); return
        c.st.ghost["fade"] = (inc, c.args[5])
        # any value on the way was set before, and the setpoint last
        x = e.fresh_fp(FLOAT, "on the way"); c.st.assume(toward(x, v, sp))
        outs = [c.st]
        for y in (x, sp):
            nxt = []
            for st in outs: nxt += [st2 for st2, _ in e.call_ptr(st, f, [imp, y])]
            outs = nxt
        c.st = outs[0]; c.extra = [(st, None) for st in outs[1:]]
    def loop(s, L):
        f, imp, v, sp, inc = L.args[:5]; g = L.st.ghost.get(G)
        cur = [x for nm, v0, x in L.vals if not nm.startswith("the hardware") and is_expr(v0) and z3.is_real(v0) and v0.eq(v)]; dif = [(v0, x) for nm, v0, x in L.vals if is_expr(v0) and z3.is_real(v0) and not v0.eq(v)]
        if len(cur) != 1 or len(dif) != 1 or g is None: return      # what the loop modifies is not known yet
        cur = cur[0]; d0, d = dif[0]
        L.inv("the value was set last", L.eng.load(L.st, Ptr(g), FLOAT) == cur)
        L.inv("the last step has been waited for", eq(L.eng.load(L.st, Ptr(g, 8), INT(32)), 1))
        L.inv("the value is on its way", toward(cur, v, sp)); L.inv("a valid increment", inc > 0)
        L.inv("the rest of the way is in the steps left", absr(sp - cur) <= z3.If(d > 0, d, z3.RealVal(0)) + inc / 2)
class ABase(Contract):
    fp = "real"
    def __init__(s): s.attach = s.sig
    def setup(s, c):
        r = Region("this", 4); c.st.mem[r] = Content(); v = c.f("current value"); c.eng.store(c.st, Ptr(r), v, FLOAT); ghost(c.eng, c.st); return [Ptr(r)] + s.params(c)
    def params(s, c): return []
    def val(s, c, old=True): return c.eng.load(c.old if old else c.st, c.args[0], FLOAT)
    def drives(s, c, v):
        c.sets("the value is remembered", c.args[0], FLOAT, v)
        if c.mode == "use": c.eng.store(c.st, Ptr(ghost(c.eng, c.st)), v, FLOAT); return
        c.ensures("the converter is given the value", c.eng.load(c.st, Ptr(ghost(c.eng, c.st)), FLOAT) == v)
        d = c.st.ghost.get("dac"); c.ensures("on this output", c.eng.ptr_eq(c.st, d, c.args[0]) if isinstance(d, Ptr) else False)
class ASet(ABase):
    sig = AO + r"::set_value\(float\)"
    def params(s, c): return [c.f("value")]
    def post(s, c):
        if c.mode == "use": c.st.ghost["dac"] = c.args[0]
        s.drives(c, c.args[1])
class AVal(ABase):
    sig = AO + r"::value\(\) const"
    def post(s, c): c.returns(s.val(c), "the value set last")
class AFade(ABase):
    sig = AO + r"::fade_to\(float, float, spn::structure::units::Unit<[^()]*>\)"
    def params(s, c): return [c.f("setpoint"), c.f("increment"), c.i("interval")]
    def pre(s, c):
        v, sp = s.val_now(c), c.args[1]; c.requires("value and setpoint lie in 0..1", z3.And(v >= 0, v <= 1, sp >= 0, sp <= 1))
    def val_now(s, c): return c.eng.load(c.st, c.args[0], FLOAT)
    def post(s, c): s.drives(c, c.args[1])
def gpio(): return [PinInit(), PinSet(), DacSet(), Wait(), DSet(), DSetB(), DInit(), DFlip(), DState(), Fade(), ASet(), AVal(), AFade()]

DInitDefault = defaulted(DInit, r"defaults::initialize\(h::Pin&\)", [False])
TENTH = z3.RealVal("13421773/134217728")     # 0.1f
class DFade(defaulted(AFade, r"defaults::fade\([^,]*, float\)", [TENTH, 250])):
    """steps of a tenth, 250 ms apart"""
    step = None
    def post(s, c):
        super().post(c); inc, iv = c.st.ghost.get("fade", (None, None))
        c.ensures("in steps of the size asked for, or of a tenth", inc is not None and inc == (TENTH if s.step is None else c.args[2])); c.ensures("with 250 ms between them", iv is not None and eq(iv, 250))
class DFadeBy(DFade):
    sig = r"defaults::fade\(.*, float, float\)"; step = 2
    def more(s, c): return [250]
def default_arguments(): return [PinInit(), PinSet(), DacSet(), Wait(), Fade(), DInitDefault(), DFade(), DFadeBy()]

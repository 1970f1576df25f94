"""Contracts for the PID controller and the autotuner.  Floating point is real arithmetic here."""
from dv.contracts import *
from .units import sg, un
from . import units as U
from . import timing as T
NS = "spn::controller::"; PCN, PIDN, ATN = NS + "PIDController", NS + "PID", NS + "PIDAutotuner"
I8, I32, I64 = INT(8), INT(32), INT(64)
F, E, M, P = "f", "e", "ms", "p"
TLIM = 2 ** 40
TY = {F: FLOAT, E: I32, M: I64, "i": I32, "b": I8}
BACK = (("kp", "_kp", F), ("ki", "_ki", F), ("kd", "_kd", F), ("dir", "_controller_direction", E), ("uin", "_user_input", P), ("uout", "_user_output", P), ("usp", "_user_setpoint", P), ("last", "_last_time", M),
        ("cum", "_cumulative_output", F), ("lr", "_last_reading", F), ("T", "_sampling_time", M), ("lo", "_output_lower_limit", F), ("hi", "_output_upper_limit", F), ("prop", "_proportionality", E))
CFG = (("Kp", 0), ("Ki", 1), ("Kd", 2), ("clo", "output_lower_limit", F), ("chi", "output_upper_limit", F), ("cT", "sample_interval", M), ("cprop", "proportionality", E), ("cdir", "direction", E))
REAL = lambda x: z3.ToReal(I(x))
def clamp(x, lo, hi): return z3.If(x > hi, hi, z3.If(x < lo, lo, x))
# ---------------------------------------------------------------- the controller as a value: what each operation does to it
def m_update(v, now):
    due = ge(sub(now, v["last"]), v["T"]); e = v["sp"] - v["in"]; d = v["in"] - v["lr"]; onm = eq(v["prop"], 0)
    cum = clamp(v["cum"] + v["ki"] * e - z3.If(B(onm), v["kp"] * d, z3.RealVal(0)), v["lo"], v["hi"])
    out = clamp(z3.If(B(onm), z3.RealVal(0), v["kp"] * e) + cum - v["kd"] * d, v["lo"], v["hi"])
    pick = lambda a, b: z3.If(B(due), a, b) if is_expr(a) and z3.is_real(a) else ite(due, a, b)
    return due, dict(v, cum=pick(cum, v["cum"]), out=pick(out, v["out"]), lr=pick(v["in"], v["lr"]), last=pick(now, v["last"]))
def secs(t): return REAL(t) / 1000
def m_tunings(v, Kp, Ki, Kd, prop):
    s = z3.If(B(eq(v["dir"], 1)), z3.RealVal(-1), z3.RealVal(1)); return dict(v, kp=s * Kp, ki=s * Ki * secs(v["T"]), kd=s * Kd / secs(v["T"]), prop=prop)
def m_direction(v, d):
    s = z3.If(B(eq(v["dir"], d)), z3.RealVal(1), z3.RealVal(-1)); return dict(v, kp=s * v["kp"], ki=s * v["ki"], kd=s * v["kd"], dir=d)
def m_limits(v, lo, hi):
    ok = B(lo < hi); l, h = z3.If(ok, lo, v["lo"]), z3.If(ok, hi, v["hi"])
    return dict(v, lo=l, hi=h, out=z3.If(ok, clamp(v["out"], lo, hi), v["out"]), cum=z3.If(ok, clamp(v["cum"], lo, hi), v["cum"]))
def m_sampling(v, t):
    ok = B(lt(0, t)); r = REAL(t) / REAL(v["T"]); return dict(v, ki=z3.If(ok, v["ki"] * r, v["ki"]), kd=z3.If(ok, v["kd"] / r, v["kd"]), T=ite(ok, t, v["T"]))
def m_init(v): return dict(v, cum=clamp(v["out"], v["lo"], v["hi"]), lr=v["in"])
def valid(v): return conj(v["lo"] < v["hi"], lt(0, v["T"]), lt(v["T"], TLIM), T.tfits(v["last"]), le(v["dir"], 1), le(v["prop"], 1))
class PB(T.CBase):
    """member function of PIDController"""
    fp = "real"; clocked = False
    def __init__(s): s.attach = s.sig.replace("{C}", PCN)
    def at(s, c, p):
        L = c.eng.layouts; return {k: (p.plus(L.off(PCN, f, i)), t) for i, (k, f, t) in enumerate(BACK)}
    def cells(s, c, st): return s.at(c, c.args[0])
    def read(s, c, st):
        a = s.cells(c, st); v = {}
        for k, (p, t) in a.items():
            if t == P: a[k] = p
        full = {k: x for k, x in a.items() if isinstance(x, tuple)}
        for k, u in (("in", "uin"), ("out", "uout"), ("sp", "usp")):
            if k not in full: full[k] = (c.eng.load(st, a[u], PTR), F)
        for k, (p, t) in full.items(): x = c.eng.load(st, p, TY[t]); v[k] = sg(x) if t == M else x
        return v, full
    def fill(s, c, cells, only=None):
        for k, (p, t) in cells.items():
            if t == P or (only and k not in only): continue
            x = c.f(k) if t == F else s.t(c, k) if t == M else c.i(k, 32, hi=1); c.eng.store(c.st, p, x, TY[t])
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(PCN)); r.closed = True; c.st.mem[r] = Content(); a = s.at(c, Ptr(r)); s.fill(c, a)
        for k, u in (("in", "uin"), ("out", "uout"), ("sp", "usp")):
            q = Region(k, 4); c.st.mem[q] = Content(); c.eng.store(c.st, Ptr(q), c.f(k), FLOAT); c.eng.store(c.st, a[u][0], Ptr(q), PTR)
        return [Ptr(r)] + s.params(c)
    def pre(s, c):
        if s.clocked: T.CBase.pre(s, c)
        else: s.pre2(c)
    def pre2(s, c): v, _ = s.read(c, c.st); c.requires("the controller is valid", valid(v)); s.pre3(c)
    def pre3(s, c): pass
    def update(s, c, new, why):
        v, cells = s.read(c, c.old)
        for k, (p, t) in cells.items():
            x = new[k]
            if x is v[k]: continue
            c.sets("%s (%s)" % (why, k), p, TY[t], un(x) if t == M else x)
class PUpdate(PB):
    sig = r"{C}::update\(.*\)"
    def params(s, c): return [s.t(c, "now")]
    def pre3(s, c): c.requires("the time is in range", T.tfits(s.v(c, 1)))
    def post(s, c):
        v, _ = s.read(c, c.old); due, n = m_update(v, s.v(c, 1)); c.returns(due, "computes exactly once per sampling time"); s.update(c, n, "control law")
        if c.mode == "verify": w, _ = s.read(c, c.st); c.ensures("the output stays within the limits", imp(due, conj(v["lo"] <= w["out"], w["out"] <= v["hi"])))
class PInit(PB):
    sig = r"{C}::initialize\(\)"
    def post(s, c): s.update(c, m_init(s.read(c, c.old)[0]), "starts from the present output")
class PLimits(PB):
    sig = r"{C}::set_output_limits\(float, float\)"
    def params(s, c): return [c.f("min"), c.f("max")]
    def post(s, c): s.update(c, m_limits(s.read(c, c.old)[0], c.args[1], c.args[2]), "limits apply at once, unless empty")
class PTunings(PB):
    sig = r"{C}::set_tunings\(float, float, float, .*\)"
    def params(s, c): return [c.f("Kp"), c.f("Ki"), c.f("Kd"), c.i("proportionality", 32, hi=1)]
    def post(s, c): s.update(c, m_tunings(s.read(c, c.old)[0], *c.args[1:5]), "gains per second become gains per sample, with the sign of the direction")
class PDirection(PB):
    sig = r"{C}::set_controller_direction\(.*\)"
    def params(s, c): return [c.i("direction", 32, hi=1)]
    def post(s, c): s.update(c, m_direction(s.read(c, c.old)[0], c.args[1]), "turning the direction turns the sign of every gain")
class PSampling(PB):
    sig = r"{C}::set_sampling_time\(.*\)"
    def params(s, c): return [s.t(c, "time", TLIM - 1)]
    def pre3(s, c): c.requires("the time is in range", T.tfits(s.v(c, 1), TLIM - 1))
    def post(s, c): s.update(c, m_sampling(s.read(c, c.old)[0], s.v(c, 1)), "gains per second are kept")
class PCtor(PB):
    sig = r"{C}::PIDController\(float\*, float\*, float\*, float, float, float, {C}::Proportionality, .*\)"; clocked = True
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(PCN), init="undef"); c.st.mem[r] = Content(); q = []
        for k in ("in", "out", "sp"): g = Region(k, 4); c.st.mem[g] = Content(); c.eng.store(c.st, Ptr(g), c.f(k), FLOAT); q.append(Ptr(g))
        return [Ptr(r)] + q + [c.f("Kp"), c.f("Ki"), c.f("Kd"), c.i("proportionality", 32, hi=1), c.i("direction", 32, hi=1)]
    def pre2(s, c): pass
    def post(s, c):
        a = s.at(c, c.args[0])
        for k, x in zip(("uin", "uout", "usp"), c.args[1:4]): c.sets("linked to the variables (%s)" % k, a[k][0], PTR, x)
        z = z3.RealVal(0); v = dict(dir=c.args[8], T=100, last=sub(s.now(c), 100), cum=z, lr=z, lo=z, hi=z3.RealVal(255)); v = m_tunings(v, *c.args[4:8])
        for k, (p, t) in a.items():
            if t != P: c.sets("initial %s" % k, p, TY[t], un(v[k]) if t == M else v[k])
class PCtor2(PCtor):
    sig = r"{C}::PIDController\(float\*, float\*, float\*, float, float, float, {C}::Direction\)"; optional = True
    def setup(s, c): a = PCtor.setup(s, c); return a[:7] + a[8:]
    def post(s, c): c.args = list(c.args[:7]) + [1, c.args[7]]; PCtor.post(s, c)
class PGet(PB):
    sig = r"{C}::(?:Kp|Ki|Kd)\(\) const"; optional = True
    def post(s, c): c.returns(s.read(c, c.old)[0][re.search("::(K.)\\(", c.title)[1].lower()], "the gain in use")
def backend(): return [K() for K in (PUpdate, PInit, PLimits, PTunings, PDirection, PSampling, PCtor, PCtor2, PGet)]

# ---------------------------------------------------------------- PID
class QB(PB):
    """member function of PID: the controller linked to the object's own input, output and setpoint"""
    this = 0
    def __init__(s): s.attach = s.sig.replace("{C}", PIDN)
    def cells(s, c, st, p=None):
        L = c.eng.layouts; p = p or c.args[s.this]; a = s.at(c, p.plus(L.off(PIDN, "_pid_backend", 1)))
        for k, f, i in (("in", "_input", 3), ("out", "_output", 4), ("sp", "_setpoint", 2)): a[k] = (p.plus(L.off(PIDN, f, i)), F)
        a.update(s.cfg_cells(c, p.plus(L.off(PIDN, "_cfg", 0)))); return a
    def cfg_cells(s, c, p):
        L = c.eng.layouts; a = {}; t = L.off(PIDN + "::Config", "tunings", 0)
        for i, k in enumerate(("Kp", "Ki", "Kd")): a[k] = (p.plus(t + L.off(PIDN + "::Tunings", k, i)), F)
        for i, (k, f, ty) in enumerate(CFG[3:]): a[k] = (p.plus(L.off(PIDN + "::Config", f, 1 + i)), ty)
        return a
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(PIDN)); r.closed = True; c.st.mem[r] = Content(); a = s.cells(c, c.st, Ptr(r)); s.fill(c, a)
        for u, k in (("uin", "in"), ("uout", "out"), ("usp", "sp")): c.eng.store(c.st, a[u][0], a[k][0], PTR)
        return [Ptr(r)] + s.params(c)
    def linked(s, c, st, p=None):
        a = s.cells(c, st, p); return conj(*[c.eng.ptr_eq(st, c.eng.load(st, a[u][0], PTR), a[k][0]) for u, k in (("uin", "in"), ("uout", "out"), ("usp", "sp"))])
    def tuned(s, v):
        w = m_tunings(v, v["Kp"], v["Ki"], v["Kd"], 0); return conj(*[v[k] == w[k] for k in ("kp", "ki", "kd")])
    def inv(s, c, st): v, _ = s.read(c, st); return conj(valid(v), s.linked(c, st), s.tuned(v), T.tfits(v["cT"], TLIM - 1))
    def pre2(s, c): c.requires("the controller is valid", s.inv(c, c.st)); s.pre3(c)
    def keep(s, c): c.ensures("the controller stays valid, its gains are those of the tunings", s.inv(c, c.st))
class QCtor(QB):
    sig = r"{C}::PID\({C}::Config(?:&&| const&)\)"; clocked = True
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(PIDN), init="undef"); c.st.mem[r] = Content(); g = Region("config", c.eng.layouts.size(PIDN + "::Config")); g.closed = True; c.st.mem[g] = Content(); s.fill(c, s.cfg_cells(c, Ptr(g))); return [Ptr(r), Ptr(g)]
    def pre2(s, c): a = s.cfg_cells(c, c.args[1]); c.requires("times are in range", T.tfits(sg(c.eng.load(c.st, a["cT"][0], I64)), TLIM - 1)); c.requires("the configuration is valid", conj(*[le(c.eng.load(c.st, a[k][0], I32), 1) for k in ("cprop", "cdir")]))
    def post(s, c):
        v = {k: c.eng.load(c.old, p, TY[t]) for k, (p, t) in s.cfg_cells(c, c.args[1]).items()}; v["cT"] = sg(v["cT"]); a = s.cells(c, c.st); z = z3.RealVal(0)
        v.update({"in": z, "out": z, "sp": z}); v.update(dir=v["cdir"], T=100, last=sub(s.now(c), 100), cum=z, lr=z, lo=z, hi=z3.RealVal(255)); v = m_tunings(v, v["Kp"], v["Ki"], v["Kd"], v["cprop"])
        for u, k in (("uin", "in"), ("uout", "out"), ("usp", "sp")): c.sets("linked to its own %s" % k, a[u][0], PTR, a[k][0])
        for k, (p, t) in a.items():
            if t != P: c.sets("initial %s, as configured" % k, p, TY[t], un(v[k]) if t == M else v[k])
class QInit(QB):
    sig = r"{C}::initialize\(\)"
    def post(s, c):
        v, _ = s.read(c, c.old); s.update(c, m_init(m_sampling(m_limits(v, v["clo"], v["chi"]), v["cT"])), "applies limits and sampling time of the configuration"); s.keep(c)
class QTarget(QB):
    sig = r"{C}::set_target_setpoint\(float\)"
    def params(s, c): return [c.f("value")]
    def post(s, c): v, _ = s.read(c, c.old); s.update(c, dict(v, sp=c.args[1]), "setpoint")
class QTunings(QB):
    sig = r"{C}::set_tunings\(.*\)"
    def params(s, c):
        g = Region("tunings", 12); g.closed = True; c.st.mem[g] = Content()
        for i, k in enumerate(("Kp", "Ki", "Kd")): c.eng.store(c.st, Ptr(g).plus(4 * i), c.f(k), FLOAT)
        return [Ptr(g), c.i("proportionality", 32, hi=1)]
    def post(s, c):
        v, _ = s.read(c, c.old); K = [c.eng.load(c.old, c.args[1].plus(4 * i), FLOAT) for i in range(3)]; n = dict(m_tunings(v, *K, c.args[2]), Kp=K[0], Ki=K[1], Kd=K[2]); s.update(c, n, "tunings"); s.keep(c)
class QGetT(QB):
    sig = r"{C}::tunings\(\) const"
    def setup(s, c):
        a = QB.setup(s, c)
        if c.rty.k == "void": s.this = 1; g = Region("result", 12, init="undef"); c.st.mem[g] = Content(); return [Ptr(g)] + a
        s.this = 0; return a
    def post(s, c):
        v, _ = s.read(c, c.old); K = [v["Kp"], v["Ki"], v["Kd"]]
        if c.rty.k == "void":
            for i, x in enumerate(K): c.sets("the tunings last set (%d)" % i, c.args[0].plus(4 * i), FLOAT, x)
            return
        if c.mode != "verify": return
        c.ensures("the tunings last set", conj(*[eq(a, b) for a, b in zip(flatten(c.ret), K)]))
def flatten(x): return [z for y in x.v for z in flatten(y)] if isinstance(x, Agg) else [x]
class QRead(QB):
    sig = r"{C}::new_reading\(float, .*\)"
    def params(s, c): return [c.f("value"), s.t(c, "now")]
    def pre3(s, c): c.requires("the time is in range", T.tfits(s.v(c, 2)))
    def when(s, c): return s.v(c, 2)
    def post(s, c):
        v, _ = s.read(c, c.old); due, n = m_update(dict(v, **{"in": c.args[1]}), s.when(c)); s.update(c, n, "control law"); s.keep(c)
class QReadNow(QRead):
    sig = r"{C}::new_reading\(float\)"; clocked = True
    def params(s, c): return [c.f("value")]
    def pre3(s, c): pass
    def when(s, c): return s.now(c)
class QGet(QB):
    sig = r"{C}::(?:response|error|setpoint)\(\) const"
    def post(s, c):
        v, _ = s.read(c, c.old); e = v["sp"] - v["in"]; k = re.search(r"::(\w+)\(", c.title)[1]; c.returns(v["out"] if k == "response" else v["sp"] if k == "setpoint" else z3.If(e >= 0, e, -e), k)
class QEq(Contract):
    sig = r"%s::Tunings::operator==\(.*\) const" % PIDN; fp = "real"; attach = sig
    def setup(s, c):
        out = []
        for nm in ("this", "other"):
            g = Region(nm, 12); c.st.mem[g] = Content(); out.append(Ptr(g))
            for i, k in enumerate(("Kp", "Ki", "Kd")): c.eng.store(c.st, Ptr(g).plus(4 * i), c.f(k), FLOAT)
        return out
    def post(s, c): L = lambda p, i: c.eng.load(c.old, p.plus(4 * i), FLOAT); c.returns(conj(*[eq(L(c.args[0], i), L(c.args[1], i)) for i in range(3)]), "equal gains")
def pid(): return U.optional(U.kernel()) + U.optional(T.clock()) + backend() + [K() for K in (QCtor, QInit, QTarget, QTunings, QGetT, QRead, QReadNow, QGet, QEq)]

# ---------------------------------------------------------------- autotuner (relay method)
AT = (("target", "targetInputValue", F), ("hyst", "targetHysteresis", F), ("interval", "loopInterval", M), ("omin", "minOutput", F), ("omax", "maxOutput", F), ("mode", "znMode", E), ("cycles", "cycles", "i"), ("cycle", "cycle", "i"),
      ("on", "output", "b"), ("ov", "outputValue", F), ("t1", "t1", M), ("t2", "t2", M), ("th", "tHigh", M), ("tl", "tLow", M), ("max", "max", F), ("min", "min", F), ("pA", "pAverage", F), ("iA", "iAverage", F), ("dA", "dAverage", F), ("kp", "kp", F), ("ki", "ki", F), ("kd", "kd", F))
from .filters import num
ONE = z3.RealVal(1)
def m_tune(v, x, ms):
    rif = lambda c, a, b: z3.If(B(c), a, b)
    mx, mn = rif(v["max"] > x, v["max"], x), rif(v["min"] < x, v["min"], x)
    A = conj(ne(v["on"], 0), x > v["target"] + v["hyst"]); t1 = ite(A, ms, v["t1"]); th = ite(A, sub(ms, v["t2"]), v["th"]); mx = rif(A, v["target"], mx)
    D = conj(disj(eq(v["on"], 0), A), x < v["target"] - v["hyst"]); tl = ite(D, sub(ms, t1), v["tl"])
    ku = (4 * ((v["omax"] - v["omin"]) / 2)) / (num(3.14159265358979323846, FLOAT) * (mx - mn) / 2); tu = REAL(add(tl, th))
    K = lambda *a: rif(eq(v["mode"], 0), num(a[0], FLOAT), rif(eq(v["mode"], 1), num(a[1], FLOAT), num(a[2], FLOAT)))
    kp = K(0.6, 0.33, 0.2) * ku; ki = kp / (num(0.5, FLOAT) * tu) * REAL(v["interval"]); kd = K(0.125, 0.33, 0.33) * kp * tu / REAL(v["interval"])
    late = conj(D, gt(v["cycle"], 1)); n = add(v["cycle"], ite(D, 1, 0)); fin = ge(n, v["cycles"]); avg = conj(fin, gt(n, 2)); m = REAL(sub(n, 2)); new = dict(v)
    for k, g, s in (("kp", kp, "pA"), ("ki", ki, "iA"), ("kd", kd, "dA")):
        new[s] = rif(late, v[s] + g, v[s]); new[k] = rif(avg, new[s] / m, rif(D, g, v[k]))
    on = conj(disj(conj(ne(v["on"], 0), no(A)), D), no(fin))
    ov = rif(fin, v["omin"], rif(D, v["omax"], rif(A, v["omin"], v["ov"])))
    new.update(max=mx, min=rif(D, v["target"], mn), t1=t1, th=th, t2=ite(D, ms, v["t2"]), tl=tl, cycle=n, on=ite(on, 1, 0), ov=ov); return new
class AB(Contract):
    fp = "real"; undef = False
    def __init__(s): s.attach = s.sig.replace("{C}", ATN)
    def cells(s, c): L = c.eng.layouts; return {k: (c.args[0].plus(L.off(ATN, f, i)), t) for i, (k, f, t) in enumerate(AT)}
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(ATN), init="undef" if s.undef else "lazy"); c.st.mem[r] = Content(); c.args = [Ptr(r)]
        if not s.undef:
            r.closed = True
            for k, (p, t) in s.cells(c).items():
                if t == M: x = fint(k); c.st.assume(T.tfits(x, 2 ** (51 if k in ("th", "tl") else 50))); c.inputs.append((k, x)); x = un(x)
                else: x = c.f(k) if t == F else c.i(k, 8, hi=1) if t == "b" else c.i(k, 32, hi=2 if t == E else 2 ** 30)
                c.eng.store(c.st, p, x, TY[t])
        return [Ptr(r)] + s.params(c)
    def params(s, c): return []
    def read(s, c, st): return {k: sg(c.eng.load(st, p, TY[t])) if t == M else c.eng.load(st, p, TY[t]) for k, (p, t) in s.cells(c).items()}
    def pre(s, c): s.v = v = s.read(c, c.st); c.requires("the tuner is valid", conj(v["hyst"] >= 0, le(v["cycle"], 2 ** 30), le(v["cycles"], 2 ** 30), *[T.tfits(v[k], 2 ** (51 if k in ("th", "tl") else 50)) for k in ("t1", "t2", "th", "tl", "interval")])); s.pre2(c)
    def pre2(s, c): pass
    def update(s, c, new, why):
        v = s.read(c, c.old)
        for k, (p, t) in s.cells(c).items():
            if new[k] is not v[k]: c.sets("%s (%s)" % (why, k), p, TY[t], un(new[k]) if t == M else new[k])
    def ms(s, c, nm="ms"): x = fint(nm); c.st.assume(T.tfits(x, 2 ** 50)); c.inputs.append((nm, x)); return un(x)
class ACtor(AB):
    sig = r"{C}::PIDAutotuner\(\)"; undef = True
    def pre(s, c): pass
    def post(s, c):
        for k, (p, t) in s.cells(c).items(): c.sets("initial %s" % k, p, TY[t], z3.RealVal(0) if t == F else {"mode": 2, "cycles": 10}.get(k, 0))
class AStart(AB):
    sig = r"{C}::start_tuning_loop\(.*\)"
    def params(s, c): return [s.ms(c)]
    def post(s, c):
        v = s.read(c, c.old); z = z3.RealVal(0); t = sg(c.args[1])
        for k, (p, ty) in s.cells(c).items():
            if k in ("max", "min"): c.touch(p.r, p.c, p.c + 4)
        run_start(c, v)
        new = dict(v, cycle=0, on=1, ov=v["omax"], t1=t, t2=t, th=0, tl=0, pA=z, iA=z, dA=z); s.update(c, new, "a new tuning starts with the output on"); w = s.read(c, c.st)
        if c.mode == "verify": c.ensures("the extremes are reset", conj(w["max"] <= -999999000000, w["min"] >= 999999000000))
class AStep(AB):
    sig = r"{C}::do_autotune\(float, .*\)"
    def params(s, c): return [c.f("input"), s.ms(c)]
    def pre2(s, c): c.requires("the time is in range", T.tfits(sg(c.args[2]), 2 ** 50))
    def post(s, c):
        v = s.read(c, c.old)
        if c.mode == "verify": w = s.read(c, c.st); c.ensures("the tuner stays valid", conj(w["hyst"] >= 0, *[T.tfits(w[k], 2 ** 51) for k in ("t1", "t2", "th", "tl")]))
        n = m_tune(v, c.args[1], sg(c.args[2])); run_step(c, v, n); c.returns(n["ov"], "returns the output"); s.update(c, n, "relay tuning")
        if c.mode == "verify": c.ensures("the output stays at its limits", imp(disj(v["ov"] == v["omin"], v["ov"] == v["omax"]), disj(c.ret == v["omin"], c.ret == v["omax"])))
class ASet(AB):
    sig = r"{C}::(?:set_target_input_value|set_loop_interval|set_hysteresis|setOutputRange|set_aggressiveness|set_tuning_cycles)\(.*\)"
    def name(s, c): return re.search(r"::(set\w+)\(", c.title)[1]
    def params(s, c): n = s.name(c); return [s.ms(c)] if n == "set_loop_interval" else [c.f("lower"), c.f("upper")] if n == "setOutputRange" else [c.i("mode", 32, hi=2)] if n == "set_aggressiveness" else [c.i("cycles", 32, hi=2 ** 30)] if n == "set_tuning_cycles" else [c.f("value")]
    def post(s, c):
        n = s.name(c); a = c.args[1:]; f = lambda x: z3.If(x >= 0, x, -x)
        up = {"set_target_input_value": lambda: dict(target=a[0]), "set_loop_interval": lambda: dict(interval=sg(a[0])), "set_hysteresis": lambda: dict(hyst=f(a[0])), "setOutputRange": lambda: dict(omin=a[0], omax=a[1]), "set_aggressiveness": lambda: dict(mode=a[0]), "set_tuning_cycles": lambda: dict(cycles=a[0])}[n]()
        s.update(c, dict(s.read(c, c.old), **up), "configures it")
class AGet(AB):
    def pre(s, c): pass
    sig = r"{C}::(?:get_Kp|get_Ki|get_Kd|is_finished|get_cycle)\(\) const"
    def post(s, c): v = s.read(c, c.old); k = re.search(r"::(\w+)\(", c.title)[1]; c.returns(ge(sg(v["cycle"], 32), sg(v["cycles"], 32)) if k == "is_finished" else v[{"get_Kp": "kp", "get_Ki": "ki", "get_Kd": "kd", "get_cycle": "cycle"}[k]], k)

# ---------------------------------------------------------------- PID::autotune: the experiment on a process known by its call-backs only.
# Ghost state: what the process was given and what it showed.  The call-backs answer anything; time (the uptime call-back and
# the platform clock) does not run backwards and stays in range.
ULIM = 2 ** 40
def is_run(st): return "driven" in st.ghost
def tick(e, st):
    k = T.Clock(e, st); t0 = k.micros(st); m, u = fint("ms"), fint("us"); e.store(st, k.ms, m, I64); e.store(st, k.us, u, I64)
    st.assume(z3.And(m >= 0, m <= 2 ** 49, u >= 0, u <= 2 ** 59)); st.assume(B(le(t0, k.micros(st))))
def who(e, st, a, what):
    if not is_run(st): raise Unsupported("call-back outside autotuning")
from dv.models import model
@model(r"std::function<void \(float\)>::operator\(\)\(float\) const", "process_setter: any function")
def _setter(e, st, name, a, rty):
    who(e, st, a, "set"); g = st.ghost; x = a[1]; lo, hi, sp = g["limits"]; k = T.Clock(e, st)
    started, done = eq(g["started"], 1), eq(g["done"], 1)
    late = ge(k.millis(st), add(g["t0"][1], 1800000))
    e.oblige(st, "a value driven before tuning starts is the upper limit while the process is below the start point, then the lower limit once",
             disj(started, conj(sp > 0, eq(g["warm"], 0), disj(conj(x == hi, g["reading"] < sp), conj(x == lo, disj(g["reading"] >= sp, late))))))
    e.oblige(st, "a value driven while tuning is the output of the experiment, once", disj(no(started), conj(eq(g["pending"], 1), x == g["control"]), conj(done, eq(g["pending"], 0), x == 0)))
    g["warm"] = ite(conj(no(started), x == lo, disj(g["reading"] >= sp, late), no(conj(x == hi, g["reading"] < sp))), 1, g["warm"]); g["heat"] = ite(conj(no(started), x == hi), 1, 0); g["driven"] = x; g["pending"] = 0; tick(e, st); return None
@model(r"std::function<float \(\)>::operator\(\)\(\) const", "process_getter: any function")
def _getter(e, st, name, a, rty): who(e, st, a, "get"); x = e.fresh_fp(FLOAT, "reading"); st.ghost["reading"] = x; st.ghost["unused"] = 1; tick(e, st); return x
@model(r"std::function<void \(\)>::operator bool\(\) const", "std::function: whether there is a function")
def _has(e, st, name, a, rty): return st.ghost["loop given"][0] if is_run(st) else fbool("given")
@model(r"std::function<void \(\)>::operator\(\)\(\) const", "loop: any function")
def _loopfn(e, st, name, a, rty): who(e, st, a, "loop"); e.oblige(st, "an empty function is not called", st.ghost["loop given"][0]); st.ghost["looped"] = 1; tick(e, st); return None
@model(r"std::function<spn::structure::units::Unit<.*> \(\)>::operator\(\)\(\) const", "uptime: does not run backwards")
def _uptime(e, st, name, a, rty):
    who(e, st, a, "uptime"); x = fint("uptime"); st.assume(B(conj(le(st.ghost["up"], x), le(x, ULIM)))); st.ghost["up"] = x; tick(e, st); return x if rty.k == "int" else Agg([x])
@model(r"std::function<void \(spn::structure::units::Unit<.*>\)>::operator\(\)\(spn::structure::units::Unit<.*>\) const", "sleep: any function")
def _sleep(e, st, name, a, rty):
    who(e, st, a, "sleep"); e.oblige(st, "the loop call-back gets its turn between two waits", disj(eq(st.ghost["looped"], 1), no(st.ghost["loop given"][0]))); e.oblige(st, "a wait before the start point is reached drives the upper limit", disj(eq(st.ghost["started"], 1), eq(st.ghost["warm"], 1), eq(st.ghost["heat"], 1))); st.ghost["looped"] = 0; tick(e, st); return None
@model(r"spn::logging::is_loggable\(.*\)", "logging: decides whether a message is due (P22)")
def _loggable(e, st, name, a, rty): return fbool("loggable")
@model(r"spn::logging::detail::print\(.*\)", "logging: printing has no effect on anything else (P22)")
def _print(e, st, name, a, rty): return None
def run_start(c, v):
    if c.mode != "use" or not is_run(c.st): return
    g, e = c.st.ghost, c.eng; lo, hi, sp = g["limits"]; f = g["config"]
    e.oblige(c.st, "tuning starts once, after the start point has been reached", conj(eq(g["started"], 0), disj(sp <= 0, conj(eq(g["warm"], 1), g["driven"] == lo))))
    e.oblige(c.st, "the experiment uses the configuration given", conj(v["target"] == f["setpoint"], v["hyst"] == z3.If(f["hysteresis"] >= 0, f["hysteresis"], -f["hysteresis"]), v["omin"] == lo, v["omax"] == hi, eq(v["interval"], f["interval"]), eq(v["mode"], f["mode"]), eq(v["cycles"], f["cycles"])))
    e.oblige(c.st, "tuning starts now", eq(sg(c.args[1]), g["up"])); g["started"] = 1; g["done"] = ite(le(sg(v["cycles"], 32), 0), 1, 0); g["tuner"] = (c.args[0],)
def run_step(c, v, n):
    if c.mode != "use" or not is_run(c.st): return
    g, e = c.st.ghost, c.eng; ms = sg(c.args[2])
    e.oblige(c.st, "a step of the experiment takes a reading of its own, after the last output was driven", conj(eq(g["started"], 1), eq(g["unused"], 1), eq(g["pending"], 0), c.args[1] == g["reading"]))
    e.oblige(c.st, "steps are at least the sampling interval apart", imp(eq(g["stepped"], 1), conj(ge(ms, add(g["last step"], g["config"]["interval"])), le(ms, g["up"]))))
    e.oblige(c.st, "no step is taken when the experiment is finished", eq(g["done"], 0))
    g["unused"] = 0; g["pending"] = 1; g["control"] = n["ov"]; g["stepped"] = 1; g["last step"] = ms; g["done"] = ite(ge(sg(n["cycle"], 32), sg(n["cycles"], 32)), 1, 0)
    for k in ("kp", "ki", "kd"): g[k] = n[k]
class RAlarm(T.AlarmCtor):
    def post(s, c):
        T.AlarmCtor.post(s, c)
        if c.mode == "use" and is_run(c.st): c.st.ghost["alarm"] = (c.args[0],)
class ATune(Contract):
    attach = r"%s::autotune\((?:(?!const::).)*\) const" % PIDN; fp = "real"
    def setup(s, c):
        e = c.eng; L = e.layouts; q = _QB(); r = Region("this", L.size(PIDN)); r.closed = True; c.st.mem[r] = Content(); p = Ptr(r); c.args = [p]; q.fill(c, q.cells(c, c.st, p)); a = q.cells(c, c.st, p)
        for u, k in (("uin", "in"), ("uout", "out"), ("usp", "sp")): e.store(c.st, a[u][0], a[k][0], PTR)
        g = Region("tune config", L.size(PIDN + "::TuneConfig")); g.closed = True; c.st.mem[g] = Content(); w = Ptr(g); o = lambda i, f: w.plus(L.off(PIDN + "::TuneConfig", f, i)); x = {}
        for i, f in enumerate(("setpoint", "startpoint", "hysteresis")): x[f] = c.f(f); e.store(c.st, o(i, f), x[f], FLOAT)
        e.store(c.st, o(3, "satured_at_start"), c.i("saturated", 8, hi=1), I8); x["cycles"] = c.i("cycles", 32, hi=2 ** 20); x["mode"] = c.i("mode", 32, hi=2); e.store(c.st, o(4, "cycles"), x["cycles"], I32); e.store(c.st, o(5, "aggressiveness"), x["mode"], I32)
        v = lambda k: e.load(c.st, a[k][0], TY[a[k][1]]); lo, hi = v("clo"), v("chi"); x["interval"] = sg(v("cT")); c.st.assume(B(conj(lt(0, x["interval"]), le(x["interval"], TLIM), lo < hi)))
        k = T.Clock(e, c.st); c.st.assume(B(k.ok(c.st))); z = z3.RealVal(0); up = fint("uptime"); c.st.assume(z3.And(up >= 0, up <= ULIM)); c.inputs.append(("uptime", up)); m, u = k.vals(c.st); c.st.assume(z3.And(I(m) <= 2 ** 49, I(u) <= 2 ** 59))
        c.st.ghost.update({"driven": e.fresh_fp(FLOAT, "driven before"), "reading": e.fresh_fp(FLOAT, "shown before"), "unused": 0, "looped": 0, "heat": 0, "control": z, "pending": 0, "started": 0, "warm": 0, "stepped": 0, "last step": 0, "done": 0, "kp": z, "ki": z, "kd": z, "up": up, "limits": (lo, hi, x["startpoint"]), "config": x, "t0": (k.micros(c.st), k.millis(c.st)), "loop given": (c.b("loop given"),)})
        fs = []
        for nm in ("setter", "getter", "loop", "uptime", "sleep"): f = Region(nm, 32); c.st.mem[f] = Content(); fs.append(Ptr(f))
        return [p, w] + fs
    def post(s, c):
        g = c.st.ghost; c.touch(T.Clock(c.eng, c.st).p.r); r = flatten(c.ret)
        c.ensures("the output is turned off at the end", conj(eq(g["driven"], z3.RealVal(0)), eq(g["pending"], 0)))
        c.ensures("it returns when the experiment is finished", conj(eq(g["started"], 1), eq(g["done"], 1)))
        for k, x in zip(("kp", "ki", "kd"), r): c.ensures("the gains are those of the experiment (%s)" % k, eq(x, g[k]))
    def spec(s, L):
        st, g, e = L.st, L.st.ghost, L.eng
        if not is_run(st): return
        k = T.Clock(e, st); L.inv("the clock is in range", conj(k.ok(st), le(k.vals(st)[0], 2 ** 49), le(k.vals(st)[1], 2 ** 59))); L.inv("time does not run backwards", conj(le(g["t0"][0], k.micros(st)), le(L.entry.ghost["up"], g["up"]), le(g["up"], ULIM)))
        L.inv("flags", conj(*[conj(le(0, g[x]), le(g[x], 1)) for x in ("unused", "looped", "heat", "pending", "started", "warm", "stepped", "done")]))
        L.inv("what was driven is the output of the last step", eq(g["pending"], 0))
        al = g.get("alarm")
        if al:
            off = lambda f, i: al[0].plus(e.layouts.off(T.TM + "AlarmTimer", f, i)); ex, fu = e.load(st, off("_expired", 1), I8), sg(e.load(st, off("_future", 0), I64)); L.inv("an alarm that has expired stays expired", conj(le(ex, 1), imp(ne(ex, 0), le(fu, k.millis(st)))))
        if isc(L.entry.ghost["started"]) and L.entry.ghost["started"] == 0: L.inv("the start point is not reached", conj(eq(g["warm"], L.entry.ghost["warm"]))); return
        tn = g.get("tuner")
        if not tn: return
        c = Ctx(e, st, "use", None, None, [tn[0]]); v = AB.read(_AB, c, st)
        s0 = L.entry.ghost["stepped"]; main = isc(s0) and s0 == 0
        L.inv("the tuner is valid", conj(v["hyst"] >= 0, ge(sg(v["cycle"], 32), 0), le(v["cycle"], 2 ** 30), *[T.tfits(v[q], ULIM if q in ("t1", "t2") else 2 * ULIM) for q in ("t1", "t2", "th", "tl")]))
        L.inv("the experiment of the ghost state is the tuner's", conj(*([v[q] == g[q] for q in ("kp", "ki", "kd")] + [eq(g["done"], ite(ge(sg(v["cycle"], 32), sg(v["cycles"], 32)), 1, 0))])))
        for nm, v0, x in L.vals:
            if nm.startswith("tuner") or "MockState" in nm: continue
            if isinstance(x, bool) or is_expr(x) and z3.is_bool(x): x = ite(x, 1, 0); v0 = None
            if not (isc(x) or is_expr(x) and z3.is_int(x)): continue
            L.candidate("cycles seen", (nm, 1), le(x, v["cycle"])); L.candidate("times are in range", (nm, 2), conj(le(0, sg(x)), le(sg(x), ULIM)))
            L.candidate("whether the experiment is over", (nm, 3), eq(x, g["done"])); L.candidate("whether the experiment goes on", (nm, 4), eq(x, sub(1, g["done"])))
        L.inv("the last step lies in the past", imp(eq(g["stepped"], 1), conj(le(g["last step"], g["up"]), le(0, g["last step"]))))
        if main: L.inv("a sampling interval has passed since the last step", imp(eq(g["stepped"], 1), le(add(g["last step"], g["config"]["interval"]), g["up"])))
    loop = spec
    @property
    def inner_loops(s): return {r"%s::autotune\(.*\) const::.*" % PIDN: s.spec}
class _QB(QB): sig = ""
class _A(AB): sig = ""
_AB = _A()
def autotune(): return [RAlarm()] + U.optional([T.AlarmExpired()]) + [ATune()]
def tuner(): return U.optional(U.kernel()) + [K() for K in (ACtor, AStart, AStep, ASet, AGet)] + U.optional(T.clock()) + autotune()

QTuningsDefault = defaulted(QTunings, r"defaults::set_tunings\(.*\)", [1])
def default_arguments(): return U.optional(U.kernel()) + U.optional(T.clock()) + backend() + [QTuningsDefault()]

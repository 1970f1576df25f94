"""Contract language: a contract is a Python class with setup/pre/post, attached to the real function by its demangled
signature.  post() states the result and the new abstract state; it is proved when the function is verified and is all a
caller gets to know when the function is called."""
import re, z3, time
from .ir import *
from .term import *
from .exec import *

class Ctx:
    def __init__(s, eng, st, mode, fn, sym, args=None):
        s.eng, s.st, s.mode, s.fn, s.sym, s.args = eng, st, mode, fn, sym, args
        s.old = None; s.ret = None; s.touched = {}; s.objs = []; s.variant = None; s.rty = fn.ret if fn else None
        s.g = {}          # ghost values computed by pre()
    # --- clauses
    def requires(s, name, f):
        if s.mode == "verify": s.st.assume(f)
        else: s.eng.oblige(s.st, "precondition of %s: %s" % (short(s.title), name), f)
    def ensures(s, name, f):
        if s.mode == "verify": s.eng.oblige(s.st, "ensures %s" % name, f)
        else: s.st.assume(f)
    def ensures_all(s, name, f, lo=0, hi=None):
        if s.mode == "verify":
            k = fint("k"); s.eng.oblige(s.st, "ensures %s" % name, imp(conj(le(lo, k), lt(k, hi) if hi is not None else True), f(k)), assume=False)
        else:
            k = z3.Int(fresh_name("q")); body = imp(conj(le(lo, k), lt(k, hi) if hi is not None else True), f(k))
            if body is not True: s.st.assume(z3.ForAll([k], B(body)))
    def requires_all(s, name, f, lo, hi, pat=None):
        """requires f(k) for lo <= k < hi; pat: trigger term at k"""
        if s.mode != "verify":
            k = fint("k"); s.eng.oblige(s.st, "precondition of %s: %s" % (short(s.title), name), imp(conj(le(lo, k), lt(k, hi)), f(k)), assume=False)
        else:
            k = z3.Int(fresh_name("q")); b = imp(conj(le(lo, k), lt(k, hi)), f(k))
            if b is not True: s.st.assume(z3.ForAll([k], B(b), patterns=[pat(k)]) if pat else z3.ForAll([k], B(b)))
    def returns(s, v, name="result"):
        if s.mode == "verify":
            if isinstance(v, Ptr):
                s.ensures("%s" % name, s.eng.ptr_eq(s.st, s.ret, v) if isinstance(s.ret, (Ptr, FnPtr)) else False)
            else: s.ensures(name, ident(s.ret, v) if s.ret is not UNDEF else False)
        else: s.ret = v
    def becomes(s, rep, view):
        """object `rep` now represents `view`"""
        if hasattr(rep, "extent"): s.touch(rep.region, *rep.extent)
        else: s.touch(rep.region)
        for r in rep.regions(s.st): s.touch(r)
        if s.mode == "verify": rep.check(s, view)
        else: rep.havoc_to(s, view)
    def writes(s, name, ptr, ty, v):
        s.touch(ptr.r)
        if s.mode == "verify": s.ensures(name, s.eq(s.eng.load(s.st, ptr, ty), v, ty))
        else: s.eng.store(s.st, ptr, v, ty)
    def writes_array(s, name, ptr, fn, lo, hi, ty=None):
        """elements [lo,hi) of the array field at ptr become fn(k), the others keep their value"""
        s.touch(ptr.r)
        r, key, tag = s.eng.field_key(ptr)
        old = s.eng.field_fn(s.old, ptr, ty)
        new = lambda k: ite(conj(le(lo, k), lt(k, hi)), fn(k), old(k))
        if s.mode == "verify":
            k = fint("k"); cur = s.eng.field_fn(s.st, ptr, ty)
            s.eng.oblige(s.st, "ensures %s" % name, eq(cur(k), new(k)), assume=False)
        else: s.st.mem[r] = s.st.content(r).part(key, new)
    def touch(s, r, lo=None, hi=None):
        """the region (or bytes [lo,hi) of it) may change"""
        if lo is None: s.touched[r] = True
        elif s.touched.get(r) is not True: s.touched[r] = s.touched.get(r, ()) + ((lo, hi),)
    def may_change(s, r, kind, k):
        t = s.touched.get(r)
        if t is True or t is None: return t is True
        off = k if kind == "cell" else r.parts[k[0]].base + k[1]
        return any(lo <= off < hi for lo, hi in t)
    def fields(s, p, **kw):
        """field by field: (offset, type, new value, clause)"""
    def sets(s, name, p, ty, v):
        """scalar field at p gets value v"""
        z = 8 if ty.k == "ptr" else layout(ty)[0]
        s.touch(p.r, p.c, p.c + z)
        if s.mode == "verify":
            x = s.eng.load(s.st, p, ty); s.ensures(name, s.eq(x, v, ty) if x is not UNDEF else False)
        else: s.eng.store(s.st, p, v, ty)
    def modifies(s, *ps):
        for p in ps: s.touch(p.r if isinstance(p, Ptr) else p)
    def eq(s, a, b, ty):
        if isinstance(a, (Ptr, FnPtr)): return s.eng.ptr_eq(s.st, a, b)
        if isinstance(a, Agg): return conj(*[s.eq(x, y, None) for x, y in zip(a.v, b.v)])
        if a is UNDEF: return False
        return ident(a, b)
    # --- helpers
    def load(s, ptr, ty, old=False):
        v = s.eng.load(s.old if old else s.st, ptr, ty)
        if v is UNDEF and s.mode == "use": v = s.eng.fresh(s.st, ty)
        return v
    def i(s, name, bits=64, signed=False, lo=None, hi=None):
        """fresh integer argument (unsigned machine representation)"""
        v = fint(name)
        s.st.assume(z3.And(v >= 0, v < 2 ** bits))
        if lo is not None: s.st.assume(v >= lo)
        if hi is not None: s.st.assume(v <= hi)
        s.inputs.append((name, v)); return v
    def b(s, name):
        v = fbool(name); s.inputs.append((name, v)); return v
    def f(s, name, ty=FLOAT, finite=True):
        v = s.eng.fresh_fp(ty, name); s.inputs.append((name, v))
        if s.eng.fp != "real" and finite: s.st.assume(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        return v
    @property
    def title(s): return s.fn.demangled if s.fn else s.sym
    inputs = None; extra = None

class VFn(FnPtr):
    """a virtual function known only by its behavioural contract"""
    def __init__(s, name, apply): s.name = name; s._apply = apply
    def apply(s, eng, st, argv, ins):
        eng.used_models.add("behaviour assumed of any override of %s" % s.name)
        r = s._apply(eng, st, argv); return r if isinstance(r, list) else [(st, r)]
def abstract_vtable(eng, gname, behaviours):
    """vtable of an unknown derived class: slot order taken from the vtable emitted for `gname`; behaviours: [(regex, fn)]"""
    g = eng.mod.glob(gname)
    if g is None or g.init is None: raise Unsupported("vtable %s is not in the extracted code" % gname)
    arr = g.init[1][0][1][1]
    r = Region("vtable of " + gname, kind="global", const=True); 
    for j, (t, v) in enumerate(arr[2:]):
        nm = v[1] if v[0] == "glob" else None
        d = eng.mod.dem.get(nm, nm) or ""
        f = next((f for p, f in behaviours if re.fullmatch(p, d) or re.fullmatch(p, nm or "")), None)
        if f is not None: r.cell_tags[8 * j] = lambda e, st, d=d, f=f: VFn(d, f)
    return Ptr(r)

class Contract:
    """attach = regular expression over demangled names; instances are matched against the module at load time"""
    attach = None
    variants = (None,)
    noreturn_ok = False
    frame = True
    trusted = False          # assumed, not verified
    def pre(s, c): pass
    def post(s, c): pass
    def setup(s, c): raise NotImplementedError
    def title(s, sym, eng): return eng.mod.dem.get(sym, sym)
    def verify(s, eng, sym):
        """generate and discharge every obligation of one function; returns number of paths"""
        fn = eng.mod.func(sym)
        if fn is None or fn.is_decl: raise Unsupported("no body for %s" % sym)
        total = 0
        for var in s.variants:
            st = State(); c = Ctx(eng, st, "verify", fn, sym); c.inputs = []; c.variant = var
            eng.cur_fn = short(fn.demangled) + (" [%s]" % var if var else "")
            eng.where = None
            c.args = s.setup(c)
            s.pre(c)
            # vacuity guard: the precondition must be satisfiable
            eng.pr.sync(st.pc); eng.pr.solver.set("timeout", 10000)
            sat = eng.pr.solver.check()
            cover = Obligation(name="cover: precondition satisfiable", fn=eng.cur_fn, status="proved" if sat != z3.unsat else "refuted", backend="z3", time=0, info="cover")
            eng.covers.append(cover)
            if sat == z3.unsat: eng.obligations.append(cover); continue
            eng.cur_ctx = c
            old = st.fork(); c.old = old
            entry = dict(st.mem)
            saved = eng.contracts.pop(sym, None)
            try:
                eng.topargs = c.args
                outs = eng.run_function(st.fork(), fn, c.args)
            finally:
                if saved is not None: eng.contracts[sym] = saved
            live = 0
            for st2, ret in outs:
                if not eng.pr.feasible(st2.pc): continue
                live += 1
                c2 = Ctx(eng, st2, "verify", fn, sym, c.args); c2.old = old; c2.ret = ret; c2.inputs = c.inputs; c2.variant = var; c2.g = dict(c.g); c2.__dict__.update({k: v for k, v in c.__dict__.items() if k not in c2.__dict__ })
                eng.where = "return"; eng.cur_ctx = c2
                s.post(c2)
                if s.frame: s.check_frame(c2, old)
            if live == 0 and not s.noreturn_ok:
                o = Obligation(name="cover: some execution returns", fn=eng.cur_fn, status="refuted", backend="z3", time=0, info="cover"); eng.obligations.append(o)
            total += live
        return total
    def check_frame(s, c, old):
        eng = c.eng; eng.reshape_ok = True
        try: keys = eng.diff_mem(old, c.st) if not (c.st.freed - old.freed) else eng.diff_mem_nofree(old, c.st)
        finally: eng.reshape_ok = False
        for key in keys:
            r, kind, k = key
            if kind == "ghost" or c.may_change(r, kind, k) or r.__dict__.get("scratch"): continue
            if kind == "cell":
                a, b = eng.get_key(old, key), eng.get_key(c.st, key)
                if a is UNDEF or b is UNDEF: g = False
                elif isinstance(a, Ptr): g = eng.ptr_eq(c.st, a, b)
                else: g = c.eq(a, b, None)
                eng.oblige(c.st, "frame: %s at offset %s unchanged" % (r, k), g)
            else:
                kk = fint("k"); fa, fb = eng.get_key(old, key), eng.get_key(c.st, key)
                eng.oblige(c.st, "frame: elements of %s unchanged" % r, identical(fa(kk), fb(kk)), assume=False)
    def use(s, eng, st, name, argv, rty):
        fn = eng.mod.func(name)
        c = Ctx(eng, st, "use", fn, name, argv); c.rty = rty; c.inputs = []; c.variant = None
        s.pre(c)
        c.old = st.fork()
        if rty is not None and rty.k != "void" and not has_ptr(rty): c.ret = eng.fresh(st, rty, "ret")
        st.trace = st.trace
        r = s.post(c)
        return [(c.st, c.ret)] + (c.extra or [])

def diff_mem_nofree(self, a, b):
    f = b.freed; b.freed = a.freed
    try: return self.diff_mem(a, b)
    finally: b.freed = f
Engine.diff_mem_nofree = diff_mem_nofree
Engine.covers = None

def attach(eng, contracts):
    """bind contract objects to symbols of the module; returns {symbol: contract}"""
    bound = {}
    names = list(eng.mod.dem.items())
    for c in contracts:
        hits = [n for n, d in names if re.fullmatch(c.attach, d)]
        # complete-object constructors/destructors delegate to the base variant
        hits = [n for n in hits if eng.mod.funcs.get(n) is not None]
        c.symbols = hits
        for h in hits: bound[h] = c
    eng.contracts = bound
    return bound

def defaulted(K, sig_, extra):
    """the contract K for a call that leaves out its last arguments: `extra` (values, or a function of the context) is what they must then mean"""
    class D(K):
        sig = sig_
        loop = None
        def more(s, c):
            if not hasattr(c, "defaults"): c.defaults = list(extra(c) if callable(extra) else extra)
            return c.defaults
        def setup(s, c):
            a = list(K.setup(s, c)); return a[:len(a) - len(s.more(c))]
        def wide(s, c, f):
            short_ = c.args; c.args = list(short_) + s.more(c)
            try: f(s, c)
            finally: c.args = short_
        def pre(s, c): s.wide(c, K.pre)
        def post(s, c): s.wide(c, K.post)
    D.__name__ = K.__name__ + "Default"; D.__doc__ = K.__doc__
    return D

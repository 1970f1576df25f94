"""Contracts for Result."""
from dv.contracts import *
NS = "spn::structure::Result"
I8, I32, I64 = INT(8), INT(32), INT(64)
PAY = {"long": ((0, I64),), "h::Err": ((0, I32), (4, I32)), "h::Mid": ((0, I64), (8, I32)), "h::Tok": ((0, I64),)}
STATES = ("nothing", "success", "intermediary", "failed"); ENUM = ("NO_VALUE", "OK", "INTERMEDIARY", "FAILED"); WHICH = dict(success=0, failed=1, intermediary=2)
def targs(s):
    """top-level template arguments of the text after the first <"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<": d += 1
        elif ch == ">":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]
class Lay:
    def __init__(s, eng, a):
        s.a = tuple(a); s.cls = "%s<%s>" % (NS, ", ".join(a)); L = eng.layouts; s.size = L.size(s.cls); v = L.off(s.cls, "_v", 0); s.type = L.off(s.cls, "_type", 1)
        k = next(m for m in L.members(s.cls) if m[1] == v)[3]; lv = {x[2]: x[0] for x in L.leaves(L.strip(k), v) if x[2] in ("_M_index", "_M_engaged")}; s.v, s.index, s.eng = v, lv["_M_index"], lv["_M_engaged"]
        u = []
        for t in reversed(s.a):
            if t not in u: u.insert(0, t)
        s.idx = {t: i for i, t in enumerate(u)}
        en = {}
        for x in eng.layouts.md.values():
            m = re.match(r'!DIEnumerator\(name: "(NO_VALUE|OK|INTERMEDIARY|FAILED)", value: (\d+)', x)
            if m: en.setdefault(m[1], int(m[2]))
        s.en = {st: en.get(n, i) for i, (st, n) in enumerate(zip(STATES, ENUM))}
    def kind(s, state): return s.a[WHICH[state]]
def fill(c, lay, p, state, name):
    e = c.eng; e.store(c.st, p.plus(lay.type), lay.en[state], I8); e.store(c.st, p.plus(lay.eng), 0 if state == "nothing" else 1, I8); out = []
    if state != "nothing":
        k = lay.kind(state); e.store(c.st, p.plus(lay.index), lay.idx[k], I8)
        for o, ty in PAY[k]: x = c.i(name, ty.n) if c.inputs is not None else e.fresh(c.st, ty); e.store(c.st, p.plus(lay.v + o), x, ty); out.append(x)
    return tuple(out)
def state_of(c, lay, p, st):
    t = c.eng.load(st, p.plus(lay.type), I8); t = z3.simplify(t) if is_expr(t) else t
    for k, v in lay.en.items():
        if isc(t) and t == v: return k
    raise Unsupported("state of a Result that is not known")
def leaves(c, st, p, kind): return tuple(c.eng.load(st, p.plus(o), ty) for o, ty in PAY[kind])
class RB(Contract):
    variants = STATES; skip = (); nargs = 0
    def __init__(s): s.attach = s.sig.replace("{C}", NS + "<[^()]*>")
    def lay(s, c):
        """the class this is a member of"""
        m = re.match(r"(?:(?!%s<[^()]*>::\w).)*?(?=%s)" % (NS, NS), c.title); t = c.title
        best = None
        for m in re.finditer(re.escape(NS) + "<", t):
            a = targs(t[m.end():]); end = m.end() + s.span(t[m.end():])
            if t[end:end + 2] == "::" and best is None and re.match(s.name, t[end + 2:]): best = a
        if best is None: raise Unsupported("class of " + t)
        return Lay(c.eng, best)
    def span(s, t):
        d = 0
        for i, ch in enumerate(t):
            if ch == "<": d += 1
            elif ch == ">":
                if d == 0: return i + 1
                d -= 1
    name = r"\w"
    def new(s, c, name, size, undef=False):
        r = Region(name, size, init="undef" if undef else "lazy"); r.closed = True; c.st.mem[r] = Content(); return Ptr(r)
    def obj(s, c, lay, state, name="held"): p = s.new(c, "this", lay.size); fill(c, lay, p, state, name); return p
    def payload(s, c, kind, name):
        p = s.new(c, name, max(8, PAY[kind][-1][0] + PAY[kind][-1][1].n // 8))
        for o, ty in PAY[kind]: c.eng.store(c.st, p.plus(o), c.i(name, ty.n), ty)
        return p
    def becomes(s, c, lay, p, state, vals, why):
        e = c.eng; c.touch(p.r, p.c, p.c + lay.size)
        for o, x, w in [(lay.type, lay.en[state], "state"), (lay.eng, 0 if state == "nothing" else 1, "has a value")] + ([] if state == "nothing" else [(lay.index, lay.idx[lay.kind(state)], "kind of value")] + [(lay.v + o, v, "value") for (o, _), v in zip(PAY[lay.kind(state)], vals)]):
            ty = I8 if w != "value" else dict(PAY[lay.kind(state)])[o - lay.v]
            if c.mode == "verify": y = e.load(c.st, p.plus(o), ty); c.ensures("%s (%s)" % (why, w), eq(y, x) if y is not UNDEF and x is not UNDEF else False)
            else: e.store(c.st, p.plus(o), x, ty)
    def given(s, c, p, kind, moved, why="the payload given"):
        """value of the payload at p before the call; moved: it may be left moved from"""
        v = leaves(c, c.old, p, kind)
        if moved and kind == "h::Tok":
            c.touch(p.r)
            if c.mode == "verify": x = c.eng.load(c.st, p, I64); c.ensures("%s is handed over once" % why, disj(eq(x, 0), eq(x, v[0])) if moved == "or copied" else eq(x, 0))
            else: c.eng.store(c.st, p, 0, I64)
        return v
    def state(s, c, p=None, lay=None):
        if c.mode == "verify": return c.variant
        return state_of(c, lay or s.lay(c), p if p is not None else c.args[0], c.old or c.st)
    def cur(s, c, i=0, st=None): p = c.args[i]; l = s.lay(c); x = s.state(c, p, l); return l, x, (leaves(c, st or c.old, p.plus(l.v), l.kind(x)) if x != "nothing" else ())
    def ok(s, c, l, x): return x not in s.skip
    def pre(s, c):
        if hasattr(s, "skip") and c.args: c.requires("in a state this may be asked in", s.ok(c, s.lay(c), s.state(c, c.args[s.this])))
    this = 0
    def verify(s, eng, sym):
        d = eng.mod.dem.get(sym, sym); class_ = type("C", (), {}); x = class_(); x.title = d; x.eng = eng; l = s.lay(x); s.variants = [v for v in type(s).variants if s.ok(x, l, v)]
        return Contract.verify(s, eng, sym)
# ---------------------------------------------------------------- states
class RDefault(RB):
    sig = r"{C}::Result\(\)"; name = r"Result\(\)"; variants = (None,)
    def setup(s, c): return [s.new(c, "this", s.lay(c).size, True)]
    def pre(s, c): pass
    def post(s, c): s.becomes(c, s.lay(c), c.args[0], "nothing", (), "a new Result holds nothing")
class RMake(RB):
    """from a payload"""
    variants = (None,); sret = False
    def setup(s, c): l = s.lay(c); return [s.new(c, "result", l.size, True), s.payload(c, l.kind(s.into), "given")]
    def pre(s, c): pass
    def post(s, c):
        l = s.lay(c); k = l.kind(s.into); mv = "&&" in c.title[c.title.rindex("("):]
        s.becomes(c, l, c.args[0], s.into, s.given(c, c.args[1], k, mv), "holds the payload given as %s" % s.into)
class ROk(RMake): sig = r"{C}::Result\((?:long|h::\w+)(?: const)?&&?\)"; name = r"Result\((?:long|h::\w+)"; into = "success"
class RErr(RMake): sig = r"{C}::Result<[^()]*, void>\(.*\)"; name = r"Result<[^()]*, void>"; into = "failed"
class RFailed(RMake): sig = r"{C}::failed\(.*\)"; name = "failed"; into = "failed"
class RInter(RMake): sig = r"{C}::intermediary\(.*\)"; name = r"intermediary\("; into = "intermediary"
class RIs(RB):
    sig = r"{C}::(?:is_success|is_intermediary|is_failed|operator bool)\(\) const"
    def setup(s, c): return [s.obj(c, s.lay(c), c.variant)]
    def post(s, c): w = re.search(r"::is_(\w+)\(\) const", c.title); c.returns(s.state(c) == (w[1] if w else "success"), "exactly the state it is in")
class RGet(RB):
    sig = r"{C}::(?:value|error_value|intermediary_value|intermediary_value_mut|operator->|operator\*)\(\)(?: const)?"
    def want(s, c): t = c.title; return "failed" if "error_value(" in t else "intermediary" if "::intermediary_value" in t else "success"
    def ok(s, c, l, x): return x == s.want(c)
    def setup(s, c): return [s.obj(c, s.lay(c), c.variant)]
    def post(s, c): c.returns(c.args[0].plus(s.lay(c).v), "the payload held")
class RUnwrap(RB):
    sig = r"{C}::(?:unwrap|unwrap_error_value|unwrap_intermediary_value)\(\)"
    def want(s, c): t = c.title; return "failed" if "error_value(" in t else "intermediary" if "intermediary_value" in t else "success"
    def ok(s, c, l, x): return x == s.want(c) or ("::unwrap()" in c.title and x == "intermediary" and l.kind(x) == l.kind("success"))
    def kind(s, c): return s.lay(c).kind(s.want(c))
    def by_ref(s, c): return s.kind(c) == "h::Tok"
    def setup(s, c): s.this = 1 if s.by_ref(c) else 0; return ([s.new(c, "result", 8, True)] if s.this else []) + [s.obj(c, s.lay(c), c.variant)]
    def pre(s, c): s.this = 1 if s.by_ref(c) else 0; RB.pre(s, c)
    def post(s, c):
        l = s.lay(c); k = s.kind(c); p = c.args[s.this]; v = s.given(c, p.plus(l.v), k, True, "the payload")
        value(s, c, k, v, "the payload held")
def value(s, c, k, v, why):
    """the function returns payload v of kind k by value"""
    e = c.eng
    if k == "h::Tok": c.sets(why, c.args[0], I64, v[0]); return
    if c.mode == "use": raise Unsupported("use of a payload returned by value")
    r = c.ret
    if k == "long": c.returns(v[0], why)
    elif k == "h::Err":
        x = v[0]; y = v[1]; c.ensures(why, eq(e_word(r), add(x, mul(2 ** 32, y))) if not isinstance(r, Agg) else conj(eq(r.v[0], x), eq(r.v[1], y)))
    else: c.ensures(why, conj(*[eq(a, b) for a, b in zip(r.v, v)]))
def e_word(r):
    if isinstance(r, Bits):
        out = 0
        for o, z, x in r.parts: out = add(out, mul(256 ** o, x))
        return out
    return r
# ---------------------------------------------------------------- copies
class RCopy(RB):
    sig = r"{C}::(?:Result|operator=)\((?!.*::Type)spn::structure::Result<[^()]*>(?: const)?&&?\)"; name = r"(?:Result|operator=)\(" + NS; skip = (); variants = tuple("%s onto %s" % (a, b) for a in STATES for b in STATES + ("new",)); optional = True
    def ok(s, c, l, x): return ("operator=" in c.title) != x.endswith("new")
    def setup(s, c):
        l = s.lay(c); a, b = c.variant.split(" onto "); r = s.new(c, "this", l.size, b == "new")
        if b != "new": fill(c, l, r, b, "previous")
        return [r, s.obj(c, l, a, "other")]
    def pre(s, c): pass
    def post(s, c):
        l = s.lay(c); o = c.args[1]; x = c.variant.split(" onto ")[0] if c.mode == "verify" else state_of(c, l, o, c.old); mv = "const&" not in c.title.split("(")[-1]
        v = () if x == "nothing" else s.given(c, o.plus(l.v), l.kind(x), mv)
        s.becomes(c, l, c.args[0], x, v, "the state and payload of the other")
        if "operator=" in c.title: c.returns(c.args[0], "returns itself")
class RHandOver(RB):
    """returning a copy, handing over and assigning in user code picks the copy and move operations"""
    sig = r"h::Use<.*>::(?:copy|move|assign)\(.*\)"; this = 1
    def lay(s, c): t = c.title; return Lay(c.eng, targs(t[t.index("h::Use<") + 7:]))
    def setup(s, c):
        l = s.lay(c); a = [s.new(c, "result", l.size, True), s.obj(c, l, c.variant)]; 
        if "::assign(" in c.title: r = s.new(c, "previous", l.size); fill(c, l, r, "success", "previous"); a.insert(1, r)
        return a
    def pre(s, c): pass
    def post(s, c):
        l = s.lay(c); p = c.args[-1]; x = c.variant; v = () if x == "nothing" else s.given(c, p.plus(l.v), l.kind(x), "::move(" in c.title)
        if len(c.args) == 3: c.touch(c.args[1].r)
        s.becomes(c, l, c.args[0], x, v, "the same state and payload")
class RErrUse(RMake):
    sig = r".*h::Use<.*>::error<.*>\(.*\)"; into = "failed"; lay = RHandOver.lay
class RDtor(RB):
    sig = r"{C}::~Result\(\)"; optional = True
    def setup(s, c): return [s.obj(c, s.lay(c), c.variant)]
    def post(s, c): c.touch(c.args[0].r)
# ---------------------------------------------------------------- functions over results
class AnyFn(Contract):
    """any function given to chain, map, ...: called with what it was given, returns anything"""
    attach = r"(?:.* )?h::Fn<.*>::operator\(\)\(.*\) const"; trusted = True
    def post(s, c):
        a, r = targs(re.search(r"h::Fn<(.*)$", c.title)[1]); kind = re.sub(r"( const)?&$", "", a); res = r.startswith(NS) or r == "h::Tok"; out = c.args[0] if res else None; x = c.args[2 if res else 1]; e = c.eng
        log = lambda st, v, state: st.ghost.__setitem__("calls", st.ghost.get("calls", ()) + ((a, r, arg, v, state),))
        arg = leaves(c, c.old, x, kind) if kind != "int" else ()
        if kind != "int" and "const" not in a:
            for o, ty in PAY[kind]: e.store(c.st, x.plus(o), e.fresh(c.st, ty, "changed"), ty)
        if r.startswith(NS):
            l = Lay(e, targs(r[len(NS) + 1:])); c.inputs = None; base = c.st; c.extra = []
            for i, state in enumerate(STATES):
                st = base if i == 3 else base.fork(); c.st = st; v = fill(c, l, out, state, "made"); log(st, v, state)
                if i < 3: c.extra.append((st, None))
            c.ret = None
        elif r == "h::Tok": v = e.fresh(c.st, I64, "made"); e.store(c.st, out, v, I64); log(c.st, (v,), None)
        elif r == "h::Mid": v = (e.fresh(c.st, I64, "made"), e.fresh(c.st, I32, "made")); c.ret = Agg(v); log(c.st, v, None)
        else: log(c.st, (c.ret,), None)
class RFun(RB):
    """chain, map, and_then, ...: called in state `on`, all other states pass through"""
    def setup(s, c): l = s.lay(c); c.st.ghost["calls"] = (); return [s.new(c, "result", s.out(c, l).size, True), s.obj(c, l, c.variant), s.new(c, "function", 8)]
    this = 1
    def fn(s, c): return targs(re.search(r"h::Fn<(.*)$", c.title)[1])
    def post(s, c):
        l = s.lay(c); o = s.out(c, l); x = c.variant; v = leaves(c, c.old, c.args[1].plus(l.v), l.kind(x)) if x != "nothing" else (); calls = c.st.ghost["calls"]
        if x == s.on:
            c.ensures("the function is called exactly once, with the payload", len(calls) == 1 and conj(*[eq(a, b) for a, b in zip(calls[0][2], v)])); 
            if len(calls) == 1: s.called(c, o, calls[0], v)
        else: c.ensures("the function is not called", len(calls) == 0); s.becomes(c, o, c.args[0], x, v, "%s falls through" % x)
class RChain(RFun):
    sig = r".* {C}::chain<.*>\(.*\)"; name = "chain<"; on = "intermediary"
    def out(s, c, l): return l
    def called(s, c, o, call, v): c.touch(c.args[1].r); s.becomes(c, o, c.args[0], call[4], call[3], "the result of the function")
class RMap(RFun):
    sig = r".* {C}::(?:map|map_error|map_intermediary)<.*>\(.*\) const"; name = "map(?:_error|_intermediary)?<"
    @property
    def on(s): return s._on
    def out(s, c, l):
        r = s.fn(c)[1]; w = re.search(r"::map(_error|_intermediary|)<", c.title)[1]; s._on = {"": "success", "_error": "failed", "_intermediary": "intermediary"}[w]; a = list(l.a); a[WHICH[s._on]] = r; return Lay(c.eng, a)
    def called(s, c, o, call, v): s.becomes(c, o, c.args[0], s.on, call[3], "the payload the function made, in the same state")
class RThen(RFun):
    sig = r".* {C}::(?:and_then|or_else)<.*>\(.*\) const"; name = "(?:and_then|or_else)<"
    @property
    def on(s): return s._on
    def out(s, c, l): s._on = "success" if "and_then<" in c.title else "failed"; return Lay(c.eng, targs(s.fn(c)[1][len(NS) + 1:]))
    def called(s, c, o, call, v): s.becomes(c, o, c.args[0], call[4], call[3], "the result of the function")
class RMatch(RB):
    sig = r".* {C}::match<.*>\(.*\) const"; name = "match<"; skip = ("nothing",)
    def setup(s, c): l = s.lay(c); c.st.ghost["calls"] = (); return [s.obj(c, l, c.variant)] + [s.new(c, "function for " + k, 8) for k in ("success", "failed", "intermediary")]
    def post(s, c):
        l, x, v = s.cur(c); calls = c.st.ghost["calls"]; one = len(calls) == 1 and calls[0][0] == l.kind(x) + " const&"
        c.ensures("exactly the function of its state is called, once, with the payload", one and conj(*[eq(a, b) for a, b in zip(calls[0][2], v)]))
        if one: c.returns(calls[0][3][0], "what the function returned")
class ROr(RB):
    sig = r"{C}::(?:value_or|error_or)\(.*\) const"; name = "(?:value|error)_or"
    def want(s, c): return "failed" if "::error_or(" in c.title else "success"
    def by_ref(s, c): return s.lay(c).kind(s.want(c)) == "h::Tok"
    def setup(s, c): l = s.lay(c); s.this = int(s.by_ref(c)); return ([s.new(c, "result", 8, True)] if s.this else []) + [s.obj(c, l, c.variant), s.payload(c, l.kind(s.want(c)), "default")]
    def pre(s, c): s.this = int(s.by_ref(c)); RB.pre(s, c)
    def post(s, c):
        l, x, v = s.cur(c, s.this); k = l.kind(s.want(c)); d = c.args[s.this + 1]
        value(s, c, k, v if x == s.want(c) else s.given(c, d, k, "or copied"), "the payload held, or the default")
class ROrElse(RB):
    sig = r".* {C}::unwrap_or_else<.*>\(.*\) const"; name = "unwrap_or_else<"
    def by_ref(s, c): return s.lay(c).kind("success") == "h::Tok"
    def setup(s, c):
        l = s.lay(c); s.this = int(s.by_ref(c)); c.st.ghost["calls"] = (); f = s.new(c, "fallback", 8); c.eng.store(c.st, f, s.new(c, "function", 8), PTR)
        return ([s.new(c, "result", 8, True)] if s.this else []) + [s.obj(c, l, c.variant), f]
    def pre(s, c): s.this = int(s.by_ref(c)); RB.pre(s, c)
    def post(s, c):
        l, x, v = s.cur(c, s.this); k = l.kind("success"); calls = c.st.ghost["calls"]; n = 0 if x == "success" else 1
        c.ensures("the fallback is called exactly when there is no success", len(calls) == n)
        if len(calls) == n: value(s, c, k, v if not n else calls[0][3], "the payload held, or what the fallback made")
ALL = (RDefault, ROk, RErr, RFailed, RInter, RIs, RGet, RUnwrap, RCopy, RHandOver, RErrUse, RDtor, RChain, RMap, RThen, RMatch, ROr, ROrElse)
def result(): return [AnyFn()] + [K() for K in ALL]

"""Parser for the textual LLVM IR that clang emits from /repo's sources.

Only what the verifier executes is parsed; function bodies are parsed lazily."""
import re, subprocess, functools

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elem", "fields", "packed", "name")
    def __init__(s, k, n=0, elem=None, fields=None, packed=False, name=None):
        s.k, s.n, s.elem, s.fields, s.packed, s.name = k, n, elem, fields, packed, name
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k == "array": return "[%d x %r]" % (s.n, s.elem)
        if s.k == "vec": return "<%d x %r>" % (s.n, s.elem)
        if s.k == "struct": return s.name or "{%s}" % ", ".join(map(repr, s.fields or []))
        return s.k

VOID, PTR, FLOAT, DOUBLE, X86FP = Ty("void"), Ty("ptr"), Ty("float"), Ty("double"), Ty("x86_fp80")
META, LABEL, TOKEN, FUNC, VARARG = Ty("metadata"), Ty("label"), Ty("token"), Ty("func"), Ty("...")
_INTS = {}
def INT(n):
    if n not in _INTS: _INTS[n] = Ty("int", n)
    return _INTS[n]

TOK = re.compile(r'''
  (?P<ws>[\s]+)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<md>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMHR]+|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    m = TOK.match
    while i < n:
        if s[i] == ';': break
        t = m(s, i)
        if not t: raise IRError("token at %r" % s[i:i+60])
        k = t.lastgroup
        if k != "ws": out.append((k, t.group()))
        i = t.end()
    return out

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t, s.i, s.mod = toks, 0, mod
    def peek(s, o=0): return s.t[s.i+o][1] if s.i+o < len(s.t) else None
    def kind(s, o=0): return s.t[s.i+o][0] if s.i+o < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def accept(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if s.peek() != v: raise IRError("expected %r got %r in %s" % (v, s.peek(), " ".join(x[1] for x in s.t)))
        s.i += 1
    # types
    def type(s):
        t = s.base_type()
        while True:
            if s.peek() == "(" :     # function type
                s.next(); args = []
                while not s.accept(")"):
                    args.append(s.type()); s.accept(",")
                t = Ty("func", elem=t, fields=args)
            elif s.peek() == "*": s.next(); t = PTR
            else: return t
    def base_type(s):
        v = s.next()
        if v == "ptr":
            if s.peek() == "addrspace": s.next(); s.next(); s.next(); s.next()
            return PTR
        if v[0] == "i" and v[1:].isdigit(): return INT(int(v[1:]))
        if v == "void": return VOID
        if v == "float": return FLOAT
        if v == "double": return DOUBLE
        if v == "x86_fp80": return X86FP
        if v == "metadata": return META
        if v == "label": return LABEL
        if v == "token": return TOKEN
        if v == "...": return VARARG
        if v == "opaque": return Ty("opaque")
        if v[0] == "%": return s.mod.named_type(v)
        if v == "[":
            n = int(s.next()); s.expect("x"); e = s.type(); s.expect("]"); return Ty("array", n, e)
        if v == "<":
            if s.peek() == "{":
                s.next(); fs = s.fields(); s.expect(">"); return Ty("struct", fields=fs, packed=True)
            n = int(s.next()); s.expect("x"); e = s.type(); s.expect(">"); return Ty("vec", n, e)
        if v == "{":
            return Ty("struct", fields=s.fields())
        raise IRError("type %r in %s" % (v, " ".join(x[1] for x in s.t)))
    def fields(s):
        fs = []
        while not s.accept("}"):
            fs.append(s.type()); s.accept(",")
        return fs
    # attributes before a value
    ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
             "returned", "immarg", "inreg", "nofree", "nest", "swiftself", "allocptr", "dead_on_unwind", "writable", "noext",
             "allocalign", "initializes"}
    def attrs(s):
        out = {}
        while True:
            v = s.peek()
            if v in s.ATTRS: s.next(); out[v] = 1
            elif v == "align": s.next(); s.next()
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "preallocated", "elementtype",
                       "range", "memory", "captures", "nofpclass"):
                name = s.next()
                if s.accept("("):
                    d = 1; inner = []
                    while d:
                        w = s.next()
                        if w == "(": d += 1
                        elif w == ")": d -= 1
                        if d: inner.append(w)
                    out[name] = inner
                else: out[name] = 1
            else: return out
    # values -> ('reg',name) ('glob',name) ('int',v) ('fp',..) ('null',) ('undef',) ('cexpr',...)
    def value(s, ty):
        k, v = s.t[s.i]
        s.i += 1
        if k == "id":
            return ("reg", unq(v[1:])) if v[0] == "%" else ("glob", unq(v[1:]))
        if k == "num":
            if ty.k == "int": return ("int", int(v))
            if v.startswith("0x"): return ("fp", v)
            return ("fp", v)
        if v == "true": return ("int", 1)
        if v == "false": return ("int", 0)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef",)
        if v == "zeroinitializer": return ("zero", ty)
        if v == "none": return ("none",)
        if k == "str": return ("str", decode_str(v))
        if k == "md":
            # metadata operand
            if s.peek() == "(":
                d = 0
                while True:
                    w = s.next()
                    if w == "(": d += 1
                    if w == ")":
                        d -= 1
                        if d == 0: break
            return ("md", v)
        if v in ("getelementptr",):
            inb = s.accept("inbounds")
            if s.peek() == "inrange":
                s.next(); s.expect("(")
                while s.next() != ")": pass
            s.expect("("); bt = s.type(); s.expect(",")
            pt = s.type(); base = s.value(pt); idx = []
            while s.accept(","):
                s.accept("inrange")
                it = s.type(); idx.append((it, s.value(it)))
            s.expect(")")
            return ("gep", bt, base, idx)
        if v in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext", "sext"):
            s.expect("("); t1 = s.type(); a = s.value(t1); s.expect("to"); t2 = s.type(); s.expect(")")
            return ("ccast", v, t1, a, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "icmp", "select", "shl", "lshr"):
            d = 0; start = s.i
            while True:
                w = s.next()
                if w == "(": d += 1
                if w == ")":
                    d -= 1
                    if d == 0: break
            sub = P(s.t[start:s.i], s.mod)
            while sub.peek() in ("nuw", "nsw"): sub.next()
            if v == "sub" or v == "add":
                sub.expect("("); t1 = sub.type(); a = sub.value(t1); sub.expect(","); t2 = sub.type(); b = sub.value(t2)
                return ("cbin", v, t1, a, b)
            return ("cother", v)
        if v == "[":
            out = []
            while not s.accept("]"):
                t = s.type(); out.append((t, s.value(t))); s.accept(",")
            return ("agg", out)
        if v == "{":
            out = []
            while not s.accept("}"):
                t = s.type(); out.append((t, s.value(t))); s.accept(",")
            return ("agg", out)
        if v == "<":
            out = []
            if s.peek() == "{":
                s.next()
                while not s.accept("}"):
                    t = s.type(); out.append((t, s.value(t))); s.accept(",")
                s.expect(">")
                return ("agg", out)
            while not s.accept(">"):
                t = s.type(); out.append((t, s.value(t))); s.accept(",")
            return ("agg", out)
        if v == "dso_local_equivalent" or v == "no_cfi":
            return s.value(ty)
        if v == "asm":
            while s.kind() == "word": s.next()
            a = s.next(); s.expect(","); b = s.next()
            return ("asm", a)
        raise IRError("value %r in %s" % (v, " ".join(x[1] for x in s.t)))
    def tv(s):
        t = s.type(); a = s.attrs()
        return t, s.value(t)

def unq(v):
    return v[1:-1] if v.startswith('"') else v

def decode_str(v):
    if v[0] == 'c': v = v[1:]
    v = v[1:-1]
    out = bytearray(); i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i+1:i+3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return bytes(out)

class Instr:
    __slots__ = ("op", "dst", "ty", "a", "dbg", "text")
    def __init__(s, op, dst, ty, a, dbg, text):
        s.op, s.dst, s.ty, s.a, s.dbg, s.text = op, dst, ty, a, dbg, text
    def __repr__(s): return s.text.strip()

class Func:
    def __init__(s, name, ret, params, mod, lines, dbg, retattrs=None):
        s.name, s.ret, s.params, s.mod, s._lines, s.dbg = name, ret, params, mod, lines, dbg
        s._blocks = None; s._loops = None
        s.demangled = None
    @property
    def is_decl(s): return s._lines is None
    @property
    def blocks(s):
        if s._blocks is None: s._parse()
        return s._blocks
    @property
    def entry(s):
        s.blocks; return s._entry
    def _parse(s):
        blocks = {}; cur = None; order = []
        unnamed = sum(1 for (t, n, a) in s.params if n.isdigit())
        lines = s._lines; i = 0
        while i < len(lines):
            ln = lines[i]; i += 1
            st = ln.strip()
            if not st or st[0] == ';': continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(?:\s*;.*)?$', ln)
            if m:
                cur = unq(m.group(1)); blocks[cur] = []; order.append(cur); continue
            if cur is None:
                cur = str(unnamed); blocks[cur] = []; order.append(cur)
            # multi-line: switch, landingpad clauses, invoke continuation
            if re.match(r'^(switch )', st):
                while ']' not in st:
                    st += " " + lines[i].strip(); i += 1
            elif " invoke " in " "+st or " landingpad " in " "+st+" ":
                while i < len(lines) and re.match(r'^\s{8,}', lines[i]):
                    st += " " + lines[i].strip(); i += 1
            if "@llvm.dbg." in st: continue
            ins = parse_instr(st, s.mod)
            blocks[cur].append(ins)
        s._blocks = blocks; s._entry = order[0]; s.order = order
    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == "br":
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == "switch": return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == "invoke": return [t.a["normal"]]
        return []
    @property
    def loops(s):
        """header -> set of blocks (natural loops, exceptional edges ignored)"""
        if s._loops is not None: return s._loops
        blocks = s.blocks
        # reachable + dominators (iterative)
        order = []; seen = set()
        def dfs(b):
            stack = [(b, iter(s.succs(b)))]; seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); stack.append((y, iter(s.succs(y)))); break
                else:
                    order.append(x); stack.pop()
        dfs(s.entry)
        rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for t in s.succs(b): preds[t].append(b)
        dom = {s.entry: {s.entry}}
        allb = set(rpo)
        for b in rpo[1:]: dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in rpo:
            for t in s.succs(b):
                if t in dom[b]:
                    body = {t, b}; work = [b] if b != t else []
                    while work:
                        x = work.pop()
                        for p in preds[x]:
                            if p not in body: body.add(p); work.append(p)
                    loops.setdefault(t, set()).update(body)
        s._loops = loops; s._rpo = idx
        return loops

BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
          "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr",
         "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg"}

def parse_instr(st, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', st)
    if m: dbg = int(m.group(1))
    text = st
    # strip trailing metadata
    st2 = re.sub(r',\s*![a-zA-Z_.]+(\.\w+)*\s+!\d+', '', st)
    st2 = re.sub(r',\s*!(noundef|nonnull|range|tbaa|srcloc|heapallocsite) !\{?\}?', '', st2)
    toks = tokenize(st2)
    p = P(toks, mod)
    dst = None
    if p.kind() == "id" and p.peek(1) == "=":
        dst = unq(p.next()[1:]); p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"): op = p.next()
    flags = set()
    def fl():
        while p.peek() in FLAGS: flags.add(p.next())
    I = lambda op, ty, a: Instr(op, dst, ty, a, dbg, text)
    if op in BINOPS:
        fl(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return I(op, t, (a, b, flags))
    if op in ("icmp", "fcmp"):
        fl(); pred = p.next(); fl(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return I(op, t, (pred, a, b))
    if op == "fneg":
        fl(); t = p.type(); return I(op, t, (p.value(t),))
    if op in CASTS:
        fl(); t = p.type(); a = p.value(t); p.expect("to"); t2 = p.type()
        return I(op, t2, (t, a))
    if op == "freeze":
        t = p.type(); return I(op, t, (p.value(t),))
    if op == "alloca":
        p.accept("inalloca"); t = p.type(); n = ("int", 1)
        if p.accept(",") and p.peek() != "align":
            nt = p.type(); n = p.value(nt)
        return I(op, t, (n,))
    if op == "load":
        at = p.accept("atomic"); p.accept("volatile"); t = p.type(); p.expect(","); pt = p.type(); a = p.value(pt)
        return I(op, t, (a,))
    if op == "store":
        at = p.accept("atomic"); p.accept("volatile"); t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); a = p.value(pt)
        return I(op, t, (v, a))
    if op == "getelementptr":
        inb = p.accept("inbounds"); bt = p.type(); p.expect(","); pt = p.type(); base = p.value(pt); idx = []
        while p.accept(","):
            it = p.type(); idx.append((it, p.value(it)))
        return I(op, PTR, (bt, base, idx))
    if op == "br":
        if p.accept("label"): return I(op, None, (unq(p.next()[1:]),))
        p.next(); c = p.value(INT(1)); p.expect(","); p.expect("label"); t = unq(p.next()[1:]); p.expect(","); p.expect("label"); f = unq(p.next()[1:])
        return I(op, None, (c, t, f))
    if op == "switch":
        t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = unq(p.next()[1:]); p.expect("[")
        cs = []
        while not p.accept("]"):
            tt = p.type(); cv = p.value(tt); p.expect(","); p.expect("label"); cs.append((cv, unq(p.next()[1:])))
        return I(op, t, (t, v, d, cs))
    if op == "ret":
        t = p.type(); return I(op, t, (None if t is VOID else p.value(t),))
    if op == "unreachable": return I(op, None, ())
    if op == "resume": return I(op, None, ())
    if op == "phi":
        fl(); t = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(t); p.expect(","); b = unq(p.next()[1:]); p.expect("]"); inc.append((v, b))
            if not p.accept(","): break
        return I(op, t, (inc,))
    if op == "select":
        fl(); ct = p.type(); c = p.value(ct); p.expect(","); t, a = p.tv(); p.expect(","); t2, b = p.tv()
        return I(op, t, (c, a, b))
    if op in ("call", "invoke"):
        fl()
        while p.kind() == "word" and p.peek() in ("fastcc", "coldcc", "ccc"): p.next()
        ra = p.attrs(); rt = p.type()
        if rt.k == "func": rt = rt.elem
        callee = p.value(PTR); p.expect("(")
        args = []
        while not p.accept(")"):
            t = p.type()
            if t is META:
                d = 0
                while True:
                    w = p.peek()
                    if w == "(": d += 1
                    elif w == ")":
                        if d == 0: break
                        d -= 1
                    elif w == "," and d == 0: break
                    p.next()
                args.append((META, ("md", ""), {})); p.accept(","); continue
            at = p.attrs(); v = p.value(t); args.append((t, v, at)); p.accept(",")
        a = {"callee": callee, "args": args}
        if op == "invoke":
            while p.peek() != "to": p.next()
            p.next(); p.expect("label"); a["normal"] = unq(p.next()[1:]); p.expect("unwind"); p.expect("label"); a["unwind"] = unq(p.next()[1:])
        return I(op, rt, a)
    if op == "extractvalue":
        t = p.type(); v = p.value(t); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return I(op, t, (v, idx))
    if op == "insertvalue":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); e = p.value(t2); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return I(op, t, (v, t2, e, idx))
    if op == "extractelement":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); i = p.value(t2)
        return I(op, t, (v, i))
    if op == "insertelement":
        t = p.type(); v = p.value(t); p.expect(","); t2 = p.type(); e = p.value(t2); p.expect(","); t3 = p.type(); i = p.value(t3)
        return I(op, t, (v, e, i))
    if op == "atomicrmw":
        p.accept("volatile"); k = p.next(); pt = p.type(); a = p.value(pt); p.expect(","); t = p.type(); v = p.value(t)
        return I(op, t, (k, a, v))
    if op == "landingpad": return I(op, None, ())
    if op in ("fence",): return I(op, None, ())
    return I("unsupported", None, (op,))

class Global:
    def __init__(s, name, ty, init, const): s.name, s.ty, s.init, s.const = name, ty, init, const

class Module:
    def __init__(s, path):
        s.path = path
        s.types_src = {}; s.types = {}; s.funcs = {}; s.globals = {}; s.aliases = {}; s._gsrc = {}
        s.md = {}
        s._scan(open(path).read())
        s._demangle()
    def _scan(s, txt):
        lines = txt.split("\n"); i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == '%':
                m = re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln)
                if m: s.types_src[m.group(1)] = m.group(2)
            elif c == '@':
                m = re.match(r'^@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', ln)
                if m: s._gsrc[unq(m.group(1))] = m.group(2)
            elif c == '!':
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m: s.md[int(m.group(1))] = m.group(2)
            elif ln.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                s._func(ln, lines[i+1:j]); i = j
            elif ln.startswith("declare "):
                s._func(ln, None)
            i += 1
    def _func(s, ln, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
        name = unq(m.group(1))
        if name.startswith("llvm.dbg"): return
        s.funcs[name] = LazyFunc(s, ln, body, name, m)
    def named_type(s, v):
        if v in s.types: return s.types[v]
        t = Ty("struct", name=v); s.types[v] = t
        src = s.types_src.get(v)
        if src is None: raise IRError("type " + v)
        if src == "opaque": t.k = "opaque"; return t
        p = P(tokenize(src), s); r = p.type()
        t.fields, t.packed, t.k = r.fields, r.packed, r.k
        return t
    def func(s, name):
        name = s.resolve_alias(name)
        f = s.funcs.get(name)
        if f is None: return None
        if isinstance(f, LazyFunc): f = f.make(); s.funcs[name] = f
        return f
    def resolve_alias(s, name):
        if name in s.funcs: return name
        g = s._gsrc.get(name)
        if g and " alias " in " " + g:
            m = re.search(r'ptr @("(?:[^"\\]|\\.)*"|[-\w$.]+)$', g.strip())
            if m: return s.resolve_alias(unq(m.group(1)))
        return name
    def glob(s, name):
        if name in s.globals: return s.globals[name]
        src = s._gsrc.get(name)
        if src is None: return None
        m = re.search(r'\b(global|constant)\s+', src)
        if not m: return None
        const = m.group(1) == "constant"
        rest = src[m.end():]
        toks = tokenize(re.sub(r',\s*(comdat|align|section|!dbg|!type).*$', '', rest) if not rest.lstrip().startswith("[") or True else rest)
        p = P(toks, s); t = p.type(); init = None
        if p.peek() is not None and p.peek() not in (",",):
            try: init = p.value(t)
            except IRError: init = None
        g = Global(name, t, init, const); s.globals[name] = g
        return g
    def _demangle(s):
        names = list(s.funcs)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        s.dem = dict(zip(names, out))
        left = [n for n in names if n.startswith("_Z") and s.dem[n] == n]      # newer manglings
        if left:
            out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(left), capture_output=True, text=True).stdout.split("\n")
            for n, d in zip(left, out):
                while ">>" in d.replace("operator>>", ""): d = re.sub(r"(?<!operator)>>", "> >", d)
                s.dem[n] = d
        vt = [n for n in s._gsrc if n.startswith("_ZTV")]
        out = subprocess.run(["c++filt"], input="\n".join(vt), capture_output=True, text=True).stdout.split("\n")
        s.vtables = {d.replace("vtable for ", ""): n for n, d in zip(vt, out)}
        gs = [n for n in s._gsrc if n.startswith("_Z")]
        s.dem_globals = dict(zip(gs, subprocess.run(["c++filt"], input="\n".join(gs), capture_output=True, text=True).stdout.split("\n")))
        al = [n for n, g in s._gsrc.items() if " alias " in " " + g]
        out = subprocess.run(["c++filt"], input="\n".join(al), capture_output=True, text=True).stdout.split("\n")
        s.dem_alias = dict(zip(al, out))
    def line(s, dbg):
        if dbg is None: return None
        m = re.match(r'.*DILocation\(line: (\d+)', s.md.get(dbg, ""))
        return int(m.group(1)) if m else None
    # layout
    def sizeof(s, t): return layout(t)[0]

class LazyFunc:
    def __init__(s, mod, ln, body, name, m): s.mod, s.ln, s.body, s.name, s.m = mod, ln, body, name, m
    def make(s):
        head = s.ln[:s.m.start()]; rest = s.ln[s.m.end()-1:]
        # ret type
        p = P(tokenize(re.sub(r'![\w.]+ !\d+\s+', '', re.sub(r'^(define|declare)\s+', '', head))), s.mod)
        while p.kind() == "word" and p.peek() in ("weak_odr", "linkonce_odr", "internal", "private", "dso_local", "available_externally", "hidden",
                "weak", "external", "fastcc", "linkonce", "protected", "unnamed_addr", "local_unnamed_addr"): p.next()
        p.attrs(); ret = p.type()
        q = P(tokenize(rest), s.mod); q.expect("("); params = []; k = 0
        va = False
        while not q.accept(")"):
            if q.accept("..."): va = True; continue
            t = q.type(); at = q.attrs(); nm = None
            if q.kind() == "id": nm = unq(q.next()[1:])
            else: nm = str(k)
            k += 1
            params.append((t, nm, at)); q.accept(",")
        f = Func(s.name, ret, params, s.mod, s.body, None)
        f.vararg = va
        f.demangled = s.mod.dem.get(s.name, s.name)
        return f

@functools.lru_cache(maxsize=None)
def layout(t):
    """(size, align, field offsets)"""
    if t.k == "int":
        n = (t.n + 7) // 8
        a = 1
        while a < n: a *= 2
        a = min(a, 16)
        return (a if t.n > 8 else 1, a, None)
    if t.k == "ptr": return (8, 8, None)
    if t.k == "float": return (4, 4, None)
    if t.k == "double": return (8, 8, None)
    if t.k == "x86_fp80": return (16, 16, None)
    if t.k == "array":
        s, a, _ = layout(t.elem); return (s * t.n, a, None)
    if t.k == "vec":
        s, a, _ = layout(t.elem); return (s * t.n, s * t.n, None)
    if t.k == "struct":
        off = 0; al = 1; offs = []
        for f in t.fields:
            s, a, _ = layout(f)
            if t.packed: a = 1
            off = (off + a - 1) // a * a; offs.append(off); off += s; al = max(al, a)
        off = (off + al - 1) // al * al
        return (off, al, tuple(offs))
    if t.k in ("func", "opaque", "void"): return (1, 1, None)
    raise IRError("layout %r" % t)

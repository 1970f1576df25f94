"""Symbolic executor / verification-condition generator over the extracted LLVM IR.

Every function is executed path by path on symbolic inputs.  Loops are cut by inductive invariants (no unrolling bound
unless a loop is decided by constants), calls to functions under contract use the contract, other repository functions are
inlined, and library functions use the assumed contracts in models.py."""
import re, time, z3
from .ir import *
from .term import *
from .solver import PC, Prover

import os
TRACE = os.environ.get('DV_TRACE')
class Unsupported(Exception): pass
class Undef:
    def __repr__(s): return "undef"
UNDEF = Undef()

class Part:
    """array-shaped portion of a region: `count` elements of `es` bytes from byte offset `base`"""
    __slots__ = ("base", "es", "count", "tags")
    def __init__(s, base, es, count, tags=None): s.base, s.es, s.count, s.tags = base, es, count, dict(tags or {})

_rid = [0]
class Region:
    def __init__(s, name, size=None, parts=(), kind="obj", init="lazy", const=False):
        _rid[0] += 1
        s.id = _rid[0]; s.name, s.size, s.parts, s.kind, s.init, s.const = name, size, list(parts), kind, init, const
        s.lazy = {}; s.ptr_family = {}; s.fnname = None; s.nullable = False
        s.addr = None
        s.cell_tags = {}     # off -> hook(state) for lazily created cells
    def __repr__(s): return s.name

NULLR = Region("null", 0, kind="null")

class Ptr:
    """region + constant byte offset + sum of scale*term"""
    __slots__ = ("r", "c", "t")
    def __init__(s, r, c=0, t=()): s.r, s.c, s.t = r, c, tuple(t)
    def __repr__(s):
        return "&%s%+d%s" % (s.r, s.c, "".join("+%d*%s" % (a, b) for a, b in s.t))
    def off(s):
        o = s.c
        for sc, t in s.t: o = add(o, mul(sc, t))
        return o
    def plus(s, c, terms=()):
        t = list(s.t)
        for sc, x in terms:
            if isc(x): c += sc * x
            elif sc != 0: t.append((sc, x))
        return Ptr(s.r, s.c + c, t)
NULL = Ptr(NULLR)

class FnPtr:
    def __init__(s, name): s.name = name
    def __repr__(s): return "fn:" + s.name

class Agg:
    __slots__ = ("v",)
    def __init__(s, v): s.v = list(v)
    def __repr__(s): return "{%s}" % ", ".join(map(repr, s.v))

class Bits:
    """a machine word assembled from adjacent typed cells: [(byte offset, size, value)]"""
    __slots__ = ("size", "parts")
    def __init__(s, size, parts): s.size, s.parts = size, parts

class Content:
    __slots__ = ("gen", "cells", "parts")
    def __init__(s, gen=0, cells=None, parts=None): s.gen, s.cells, s.parts = gen, cells or {}, parts or {}
    def cell(s, off, size, v):
        c = dict(s.cells)
        for o in [o for o, (sz, _) in c.items() if o < off + size and off < o + sz and o != off]:
            del c[o]
        c[off] = (size, v)
        return Content(s.gen, c, s.parts)
    def part(s, key, fn):
        p = dict(s.parts); p[key] = fn
        return Content(s.gen, s.cells, p)

class State:
    def __init__(s):
        s.pc = PC(None, None); s.mem = {}; s.freed = frozenset(); s.ghost = {}; s.known = set(); s.trace = ()
        s.stores = ()
    def fork(s):
        n = State.__new__(State)
        n.pc, n.mem, n.freed, n.ghost, n.known, n.trace = s.pc, dict(s.mem), s.freed, dict(s.ghost), set(s.known), s.trace
        n.stores = s.stores
        return n
    def assume(s, f):
        if f is True: return
        if isinstance(f, (list, tuple)):
            for x in f: s.assume(x)
            return
        s.pc = PC(s.pc, B(f))
    def content(s, r):
        c = s.mem.get(r)
        if c is None: c = Content(); s.mem[r] = c
        return c

class Obligation:
    __slots__ = ("name", "fn", "where", "status", "backend", "time", "model", "goal", "info", "trace")
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k.get(a))

class Path:
    __slots__ = ("st", "env", "block", "prev")
    def __init__(s, st, env, block, prev): s.st, s.env, s.block, s.prev = st, env, block, prev

class LoopCtx:
    """what a loop specification sees"""
    def __init__(s, eng, fn, header, entry, st, n, mode, args, vals=()): s.eng, s.fn, s.header, s.entry, s.st, s.n, s.mode, s.args, s.vals = eng, fn, header, entry, st, mul(4, n) if "9__find_if" in fn.name else n, mode, args, vals   # n: elements visited (libstdc++ looks at four per iteration)
       # vals: (name, value on entry, current value) of every loop variable
    dropped = None
    def candidate(s, name, key, f):
        """an invariant if it turns out to be one: dropped when it does not hold on entry or is not preserved"""
        if s.dropped is None: return
        if s.mode == "assume": s.dropped.setdefault(key, False)
        s.seen.add(key)
        if s.dropped.get(key, True): return
        if s.mode == "probe":
            if not s.eng.pr.quick_valid(s.st.pc, B(f)): s.dropped[key] = True
        else: s.inv(name, f)
    def inv(s, name, f):
        if s.mode == "probe": return
        if s.mode == "assume": s.st.assume(f)
        else: s.eng.oblige(s.st, "loop invariant %s (%s)" % (name, s.mode), f)
    def forall(s, name, f, lo=0, hi=None):
        """for every k in [lo,hi): f(k)"""
        if s.mode == "probe": return
        if s.mode == "assume":
            k = z3.Int(fresh_name("q"))
            g = conj(le(lo, k), lt(k, hi) if hi is not None else True)
            body = imp(g, f(k))
            if body is not True: s.st.assume(z3.ForAll([k], B(body)))
        else:
            k = fint("k"); st = s.st
            g = conj(le(lo, k), lt(k, hi) if hi is not None else True)
            s.eng.oblige(st, "loop invariant %s (%s)" % (name, s.mode), imp(g, f(k)), assume=False)
    def array(s, name, ptr, fn, lo=0, hi=None):
        """the array field `ptr` points into equals fn(k) for all k"""
        if s.mode == "probe": return
        r, key, tag = s.eng.field_key(ptr)
        if s.mode == "assume":
            s.st.mem[r] = s.st.content(r).part(key, fn)
        else:
            k = fint("k"); cur = s.eng.field_fn(s.st, ptr)
            s.eng.oblige(s.st, "loop invariant %s (%s)" % (name, s.mode), imp(conj(le(lo, k), lt(k, hi) if hi is not None else True), identical(cur(k), fn(k))), assume=False)

class Engine:
    def __init__(s, mod, contracts=None, models=None, fp="ieee", ob_timeout=20000):
        s.mod = mod; s.pr = Prover(ob_timeout=ob_timeout)
        s.contracts = contracts or {}     # symbol -> Contract
        s.models = models                 # callable(name, demangled) -> model or None
        s.obligations = []; s.quiet = 0; s.cur_fn = None; s.depth = 0
        s.fp = fp; s.real_used = False
        s.globals = {}; s.inlined = set(); s.used_contracts = set(); s.used_models = set()
        s.heap_hint = s.new_hook = s.free_hook = None; s.where = None; s.notes = []
        s.loop_specs = {}; s.max_unroll = 80; s.termination = []
        s.paths = 0; s.deadline = None
        s.may_throw = False; s.skip_top = None
        s.topargs = None; s.stack = []; s.known_loops = None
        s.fatal_unknown = None

    # ------------------------------------------------------------ obligations
    def oblige(s, st, name, goal, assume=True, info=None, trivial=False):
        if s.deadline and time.time() > s.deadline: raise Unsupported("time budget of the obligation generator exhausted")
        if isinstance(goal, (list, tuple)): goal = conj(*goal)
        if s.quiet:
            if assume: st.assume(goal)
            return True
        if goal is True and trivial: return True
        t = time.time()
        status, be, model = s.pr.prove(st.pc, goal)
        o = Obligation(name=name, fn=s.cur_fn, where=s.where, status=status, backend=be, time=time.time() - t, model=model, goal=goal, info=info, trace=st.trace)
        s.obligations.append(o)
        if status != "proved" and s.on_fail: s.on_fail(o, st)
        if assume and goal is not True: st.assume(goal)
        return status == "proved"
    on_fail = None

    # ------------------------------------------------------------ fresh values
    def fresh(s, st, ty, name="v"):
        if ty.k == "int":
            if ty.n == 1: return fbool(name)
            v = fint(name); st.assume(z3.And(v >= 0, v < 2 ** ty.n)); return v
        if ty.k in ("float", "double"): return s.fresh_fp(ty, name)
        if ty.k == "struct": return Agg([s.fresh(st, f, name) for f in ty.fields])
        if ty.k == "void": return None
        raise Unsupported("fresh value of type %r" % ty)
    def fpsort(s, ty):
        if s.fp == "real": s.real_used = True; return z3.RealSort()
        return z3.Float32() if ty.k == "float" else z3.Float64()
    def fresh_fp(s, ty, name): return z3.Const(fresh_name(name), s.fpsort(ty))
    def fpconst(s, ty, v):
        import struct, fractions
        if v.startswith("0x"):
            d = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
        else: d = float(v)
        if s.fp == "real":
            if d != d or d in (float("inf"), float("-inf")):
                return z3.Const({"inf": "real_pos_inf", "-inf": "real_neg_inf"}.get(str(d), "real_nan"), z3.RealSort())
            fr = fractions.Fraction(d); return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator))
        return z3.FPVal(d, s.fpsort(ty))

    # ------------------------------------------------------------ machine integers
    def norm(s, st, n, t):
        """wrap mathematical t into [0,2^n)"""
        M = 2 ** n
        if isc(t): return int(t) % M
        if s.pr.quick_valid(st.pc, z3.And(t >= 0, t < M)): return t
        if s.pr.quick_valid(st.pc, z3.And(t >= -M, t < 2 * M)):
            return z3.If(t < 0, t + M, z3.If(t >= M, t - M, t))
        return t % M
    def signed(s, st, n, t):
        M = 2 ** n
        if isc(t): t = int(t); return t - M if t >= M // 2 else t
        if s.pr.quick_valid(st.pc, t < M // 2): return t
        # If(x<0, x+M, ..) round trip
        b = strip_wrap(t, M)
        if b is not None and s.pr.quick_valid(st.pc, z3.And(b >= -(M // 2), b < M // 2)): return b
        if s.pr.quick_valid(st.pc, t >= M // 2): return sub(t, M)
        return z3.If(t >= M // 2, t - M, t)

    # ------------------------------------------------------------ pointers & memory
    def null_check(s, st, p, what):
        if not isinstance(p, Ptr):
            raise Unsupported("%s through %r" % (what, p))
        if p.r.kind == "null":
            s.oblige(st, "%s: null pointer dereference" % what, False); return False
        if p.r.nullable:
            s.oblige(st, "%s: pointer into %s is not null" % (what, p.r), gt(s.index_of(p)[1], 0))
        if p.r in st.freed:
            s.oblige(st, "%s: memory of %s already released" % (what, p.r), False); return False
        return True
    def part_of(s, p):
        r = p.r
        if not r.parts: return None
        if not p.t:
            for i, a in enumerate(r.parts):
                ln = mul(a.es, a.count) if a.count is not None else None
                if p.c >= a.base and (ln is None or not isc(ln) or p.c < a.base + ln): return i
            if len(r.parts) == 1 and (r.size is None or not isc(r.size)) and r.parts[0].base == 0: return 0
            return None
        best = None
        for i, a in enumerate(r.parts):
            if all(sc % a.es == 0 for sc, _ in p.t):
                ln = mul(a.es, a.count) if a.count is not None else None
                if p.c >= a.base and (ln is None or not isc(ln) or p.c <= a.base + ln): return i
                best = i if best is None else best
        return best
    def index_of(s, p):
        """(part index, element index term, field offset)"""
        i = s.part_of(p)
        if i is None: return None, None, None
        a = p.r.parts[i]; d = p.c - a.base
        idx = d // a.es
        for sc, t in p.t: idx = add(idx, mul(sc // a.es, t))
        return i, idx, d % a.es
    def field_key(s, p):
        i, idx, f = s.index_of(p)
        return p.r, (i, f), p.r.parts[i].tags.get(f)
    def field_fn(s, st, p, ty=None):
        r, key, tag = s.field_key(p)
        fn = st.content(r).parts.get(key)
        if fn is None: fn = s.lazy_part(r, st.content(r).gen, key, tag or ty)
        return fn
    def lazy_part(s, r, gen, key, tag):
        k = (gen,) + key
        if k not in r.lazy:
            if tag is None: raise Unsupported("untyped array field of %s at %r" % (r, key))
            if isinstance(tag, Ty):
                if tag.k == "ptr":
                    fam = r.ptr_family.get(key)
                    if fam is None: raise Unsupported("array of pointers in %s" % r)
                    tag = ("ptr", fam)
                elif tag.k == "int": tag = ("int", tag.n)
                else: tag = ("fp", s.fpsort(tag))
            f = fun("%s.%s" % (r.name, key[1]), tag[1] if tag[0] == "fp" else None)
            r.parts[key[0]].tags[key[1]] = tag
            r.lazy[k] = lambda i, f=f: f(I(i))
        return r.lazy[k]
    def bounds(s, st, p, i, idx, n, what):
        a = p.r.parts[i]
        if a.count is None: return
        s.oblige(st, "%s: index inside %s" % (what, p.r), conj(le(0, idx), le(add(idx, n), a.count)), trivial=True)
    def load(s, st, p, ty, what="load"):
        if not s.null_check(st, p, what): return s.fresh(st, ty) if ty.k != "ptr" else NULL
        r = p.r
        i, idx, f = s.index_of(p)
        if i is None:
            if p.t: raise Unsupported("symbolic offset into %s: %r" % (r, p))
            return s.load_cell(st, r, p.c, ty, what)
        if ty.k == "struct": return Agg([s.load(st, p.plus(o), ft, what) for o, ft in zip(layout(ty)[2], ty.fields)])
        if ty.k == "vec":
            es = layout(ty.elem)[0]
            return Agg([s.load(st, p.plus(es * j), ty.elem, what) for j in range(ty.n)])
        s.bounds(st, p, i, idx, 1, what)
        tag = r.parts[i].tags.get(f)
        if tag is None:
            # narrower access into a wider field?
            fn = st.content(r).parts.get((i, f)) or s.lazy_part(r, st.content(r).gen, (i, f), ty)
            tag = r.parts[i].tags.get(f)
        else:
            fn = s.field_fn(st, p, ty)
        v = fn(idx)
        if tag[0] == "int":
            if ty.k == "int" and ty.n == tag[1]:
                if is_expr(v): st.assume_range(v, ty.n)
                return v
            if ty.k == "int" and ty.n == 1: return ne(v, 0)
            if ty.k == "int" and ty.n < tag[1]: return mod(v, 2 ** ty.n)
            if ty.k == "int" and ty.n > tag[1] and r.parts[i].es * 8 == tag[1]:
                acc = 0
                for j in range(ty.n // tag[1]):
                    s.bounds(st, p, i, add(idx, j), 1, what)
                    x = fn(add(idx, j)); st.assume_range(x, tag[1]); acc = add(acc, mul(2 ** (tag[1] * j), x))
                return acc
            if ty.k in ("float", "double"): return s.int_to_fpbits(v, ty)
        if tag[0] == "ptr":
            if ty.k != "ptr": raise Unsupported("integer view of a pointer array")
            if isinstance(v, Ptr): return v
            fam = tag[1]
            return Ptr(fam, fam.parts[0].base, [(fam.parts[0].es, v)]) if not isc(v) else Ptr(fam, fam.parts[0].base + fam.parts[0].es * v)
        if tag[0] == "fp":
            if ty.k in ("float", "double"): return v
        raise Unsupported("load %r from field %r of %s" % (ty, tag, r))
    def int_to_fpbits(s, v, ty):
        if isc(v) and v == 0: return s.fpconst(ty, "0.0")
        raise Unsupported("bit pattern of a float")
    def load_cell(s, st, r, off, ty, what):
        if r.kind == "func": raise Unsupported("load from function")
        sz = layout(ty)[0]
        if ty.k == "struct": return Agg([s.load(st, Ptr(r, off + o), ft, what) for o, ft in zip(layout(ty)[2], ty.fields)])
        if ty.k == "vec":
            es = layout(ty.elem)[0]
            return Agg([s.load(st, Ptr(r, off + es * i), ty.elem, what) for i in range(ty.n)])
        if r.size is not None and isc(r.size) and (off < 0 or off + sz > r.size):
            s.oblige(st, "%s: offset inside %s" % (what, r), False); return s.fresh(st, ty) if ty.k != "ptr" else NULL
        c = st.content(r)
        e = c.cells.get(off)
        if e is not None:
            esz, v = e
            if esz == sz: return s.coerce(st, v, ty)
            if esz > sz: return s.slice(st, v, 0, sz, ty)
            # assemble
        for o, (esz, v) in c.cells.items():
            if o < off and off + sz <= o + esz: return s.slice(st, v, off - o, sz, ty)
        inside = [(o, esz, v) for o, (esz, v) in c.cells.items() if off <= o and o + esz <= off + sz]
        if inside:
            inside.sort(key=lambda x: x[0])
            return s.assemble(st, r, off, sz, inside, ty)
        if r.init == "undef":
            return UNDEF
        if r.init == "zero":
            return s.zero(ty)
        k = (c.gen, off)
        if k not in r.lazy:
            h = r.cell_tags.get(off)
            if h is not None: r.lazy[k] = (sz, h(s, st))
            elif ty.k == "ptr": raise Unsupported("unspecified pointer field of %s at %d" % (r, off))
            else:
                if ty.k == "int" and ty.n == 1: v = fbool(r.name)
                elif ty.k == "int": v = fint("%s+%d" % (r.name, off))
                else: v = s.fresh_fp(ty, "%s+%d" % (r.name, off))
                r.lazy[k] = (sz, v)
        esz, v = r.lazy[k]
        if isinstance(v, tuple) and v[0] == "const": v = s.val(st, {}, v[1], v[2]); r.lazy[k] = (esz, v)
        if esz != sz: raise Unsupported("mixed-size access to %s at %d" % (r, off))
        if ty.k == "int" and is_expr(v) and z3.is_int(v): st.assume_range(v, ty.n)
        return s.coerce(st, v, ty)
    def zero(s, ty):
        if ty.k == "int": return False if ty.n == 1 else 0
        if ty.k == "ptr": return NULL
        if ty.k in ("float", "double"): return s.fpconst(ty, "0.0")
        if ty.k == "struct": return Agg([s.zero(f) for f in ty.fields])
        if ty.k in ("array", "vec"): return Agg([s.zero(ty.elem) for _ in range(ty.n)])
        raise Unsupported("zero of %r" % ty)
    def coerce(s, st, v, ty):
        if v is UNDEF: return v
        if isinstance(v, Bits):
            if len(v.parts) == 1 and v.parts[0][1] == v.size: return s.coerce(st, v.parts[0][2], ty)
            if all(isc(x) and int(x) == 0 for _, _, x in v.parts) and sum(z for _, z, _ in v.parts) == v.size: return s.coerce(st, 0, ty)
            if ty.k == "int" and sum(z for _, z, _ in v.parts) == v.size and all(isc(x) or (is_expr(x) and z3.is_int(x)) for _, _, x in v.parts):
                acc = 0
                for o, z, x in v.parts: acc = add(acc, mul(2 ** (8 * o), int(x) if isc(x) else x))
                return acc
            return v
        if ty.k == "int":
            if ty.n == 1:
                if isinstance(v, bool) or (is_expr(v) and z3.is_bool(v)): return v
                return ne(mod(v, 2), 0) if not (isc(v)) else bool(v & 1)
            if isinstance(v, bool): return int(v)
            if is_expr(v) and z3.is_bool(v): return ite(v, 1, 0)
            if isinstance(v, Ptr): return s.ptrtoint(st, v) if v is not NULL and v.r is not NULLR else 0
            if is_expr(v) and (z3.is_fp(v) or z3.is_real(v)): return Bits(layout(ty)[0], [(0, layout(ty)[0], v)])
            return v
        if ty.k in ("float", "double"):
            if isc(v) and int(v) == 0: return s.fpconst(ty, "0.0")
            if isc(v):
                import struct
                d = struct.unpack("<f", struct.pack("<I", int(v)))[0] if ty.k == "float" else struct.unpack("<d", struct.pack("<Q", int(v)))[0]
                return s.fpconst(ty, "0x" + struct.pack(">d", d).hex())
            if is_expr(v) and z3.is_int(v): raise Unsupported("float view of an integer")
            return v
        if ty.k == "ptr":
            if isc(v) and int(v) == 0: return NULL
            if isinstance(v, (Ptr, FnPtr)): return v
            raise Unsupported("pointer view of %r" % (v,))
        return v
    def slice(s, st, v, o, sz, ty):
        if v is UNDEF: return v
        if isinstance(v, Bits):
            ps = [(po - o, pz, x) for po, pz, x in v.parts if po >= o and po + pz <= o + sz]
            if len(ps) == 1 and ps[0][1] == sz: return s.coerce(st, ps[0][2], ty)
            return s.coerce(st, Bits(sz, ps), ty)
        if isc(v): return s.coerce(st, (int(v) >> (8 * o)) & (2 ** (8 * sz) - 1), ty)
        if is_expr(v) and z3.is_int(v):
            return s.coerce(st, mod(div(v, 2 ** (8 * o)) if o else v, 2 ** (8 * sz)), ty)
        raise Unsupported("partial read of %r" % (v,))
    def assemble(s, st, r, off, sz, inside, ty):
        parts = [(o - off, z, v) for o, z, v in inside]
        parts = [p for p in parts if p[2] is not UNDEF]
        if not parts: return UNDEF
        if r.init != "undef" and sum(z for _, z, _ in parts) != sz: raise Unsupported("mixed-size read of %s at %d" % (r, off))
        return s.coerce(st, Bits(sz, parts), ty)
    def store(s, st, p, v, ty, what="store"):
        if not s.null_check(st, p, what): return
        r = p.r
        if r.const: s.oblige(st, "%s: write to constant %s" % (what, r), False)
        if ty.k == "struct" or (ty.k == "array" and isinstance(v, Agg)) or (ty.k == "vec" and isinstance(v, Agg)):
            offs = layout(ty)[2] if ty.k == "struct" else [layout(ty.elem)[0] * j for j in range(ty.n)]
            fts = ty.fields if ty.k == "struct" else [ty.elem] * ty.n
            if v is UNDEF: return
            for o, ft, x in zip(offs, fts, v.v): s.store(st, p.plus(o), x, ft, what)
            return
        i, idx, f = s.index_of(p)
        if i is None:
            if p.t: raise Unsupported("symbolic offset into %s: %r" % (r, p))
            sz = layout(ty)[0]
            if r.size is not None and isc(r.size) and (p.c < 0 or p.c + sz > r.size):
                s.oblige(st, "%s: offset inside %s" % (what, r), False); return
            c = st.content(r)
            for o, (esz, ov) in c.cells.items():
                if o < p.c + sz and p.c < o + esz and not (p.c <= o and o + esz <= p.c + sz):
                    # partial overwrite of a wider integer cell
                    if isinstance(ov, Bits):
                        pass
                    elif isc(ov) or (is_expr(ov) and z3.is_int(ov)):
                        cells = dict(c.cells); del cells[o]
                        for b in range(esz):
                            cells[o + b] = (1, mod(div(ov, 2 ** (8 * b)), 256))
                        c = Content(c.gen, cells, c.parts)
                    break
            if r.init != "undef":   # keep lazily known neighbours consistent
                pass
            st.mem[r] = c.cell(p.c, sz, s.simp(v))
            return
        s.bounds(st, p, i, idx, 1, what)
        tags = r.parts[i].tags
        tag = tags.get(f)
        if isinstance(v, Bits) and len(v.parts) == 1: v = v.parts[0][2]
        if v is UNDEF: v = s.fresh(st, ty) if ty.k != "ptr" else NULL
        if tag is None:
            fam = r.ptr_family.get((i, f))
            tag = ("int", ty.n) if ty.k == "int" else ("fp", s.fpsort(ty)) if ty.k in ("float", "double") else ("ptr", fam)
            if ty.k == "ptr" and fam is None: raise Unsupported("pointer stored into untyped array %s" % r)
            tags[f] = tag
        old = s.field_fn(st, p, ty)
        if tag[0] == "int":
            if ty.k == "int" and ty.n > tag[1] and r.parts[i].es * 8 == tag[1]:
                for j in range(ty.n // tag[1]):
                    s.store(st, p.plus(j * r.parts[i].es), mod(div(v, 2 ** (tag[1] * j)), 2 ** tag[1]), INT(tag[1]), what)
                return
            if ty.k == "int" and ty.n != tag[1] and ty.n != 1: raise Unsupported("store %r to field %r of %s" % (ty, tag, r))
            if isinstance(v, bool) or (is_expr(v) and z3.is_bool(v)): v = ite(v, 1, 0)
        elif tag[0] == "ptr":
            if isinstance(v, Ptr):
                if v.r is NULLR: v = 0
                elif v.r is tag[1]:
                    v = s.index_of(v)[1]
                else: raise Unsupported("pointer to %s stored in array of %s" % (v.r, tag[1]))
        st.stores = st.stores + ((r, (i, f), idx, v),)
        st.mem[r] = st.content(r).part((i, f), lambda k, idx=idx, v=v, old=old: ite(eq(k, idx), v, old(k)))
    def simp(s, v):
        return v
    def copy_bytes(s, st, d, sp, n, what):
        """memcpy/memmove"""
        if isc(n) and n == 0: return
        if not s.null_check(st, d, what) or not s.null_check(st, sp, what): return
        di, didx, df = s.index_of(d); si, sidx, sf = s.index_of(sp)
        if di is not None and si is not None and (not isc(n) or (d.t or sp.t) and n >= d.r.parts[di].es or n > d.r.parts[di].es):
            a, b = d.r.parts[di], sp.r.parts[si]
            if isc(n) and n % a.es: raise Unsupported("copy of part of an array element")
            if a.es != b.es or df or sf: raise Unsupported("copy between differently shaped arrays %s <- %s" % (d, sp))
            es = a.es
            if not isc(n): s.oblige(st, "%s: whole elements" % what, eq(mod(n, es), 0), trivial=True) if es > 1 else None
            m = div(n, es)
            if es > 1 and not isc(m):
                q = divide_out(n, es)
                if q is not None: m = q
            s.oblige(st, "%s: destination range inside %s" % (what, d.r), disj(eq(m, 0), conj(le(0, didx), le(add(didx, m), a.count) if a.count is not None else True)), trivial=True)
            s.oblige(st, "%s: source range inside %s" % (what, sp.r), disj(eq(m, 0), conj(le(0, sidx), le(add(sidx, m), b.count) if b.count is not None else True)), trivial=True)
            for f in sorted(set(a.tags) | set(b.tags)):
                tag = a.tags.get(f) or b.tags.get(f)
                if tag[0] == "ptr" and a.tags.get(f) and b.tags.get(f) and a.tags[f] != b.tags[f]: raise Unsupported("copy of pointers between families")
                a.tags[f] = tag; b.tags[f] = tag
                old = s.field_fn(st, Ptr(d.r, a.base + f)); src = s.field_fn(st, Ptr(sp.r, b.base + f))
                st.stores = st.stores + ((d.r, (di, f), None, None),)
                st.mem[d.r] = st.content(d.r).part((di, f), lambda k, old=old, src=src: ite(conj(le(didx, k), lt(k, add(didx, m))), src(add(sub(k, didx), sidx)), old(k)))
            return
        if not isc(n): raise Unsupported("variable-size copy %s <- %s" % (d, sp))
        for o, z, v in s.read_range(st, sp, n, what):
            if v is UNDEF: continue
            ty = PTR if isinstance(v, (Ptr, FnPtr)) else INT(8 * z) if isc(v) or (is_expr(v) and (z3.is_int(v) or z3.is_bool(v))) else FLOAT if z == 4 else DOUBLE
            if isinstance(v, Bits): ty = INT(8 * z)
            s.store(st, d.plus(o), v, ty, what)
    def read_range(s, st, p, n, what):
        i, idx, f = s.index_of(p); out = []
        if i is not None:
            a = p.r.parts[i]
            for fo, tag in sorted(a.tags.items()):
                z = 8 if tag[0] == "ptr" else tag[1] // 8 if tag[0] == "int" else (4 if s.fp == "real" or tag[1] == z3.Float32() else 8)
                ty = PTR if tag[0] == "ptr" else INT(tag[1]) if tag[0] == "int" else FLOAT if z == 4 else DOUBLE
                j = 0
                while True:
                    o = fo - f + j * a.es
                    if o < n < o + z: raise Unsupported("copy splits a field of %s" % p.r)
                    if o + z > n: break
                    if o >= 0: out.append((o, z, s.load(st, p.plus(o), ty, what)))
                    j += 1
            return out
        if p.t: raise Unsupported("symbolic copy from %r" % p)
        r = p.r
        for j, a in enumerate(r.parts):
            if isc(a.count) and p.c <= a.base and a.base + a.es * a.count <= p.c + n:
                for fo, tag in sorted(a.tags.items()):
                    fn = s.field_fn(st, Ptr(r, a.base + fo))
                    z = 8 if tag[0] == "ptr" else tag[1] // 8 if tag[0] == "int" else 4
                    for q in range(a.count): out.append((a.base + fo + a.es * q - p.c, z, fn(q)))
        c = st.content(r)
        seen = set()
        for o, (z, v) in c.cells.items():
            if p.c <= o and o + z <= p.c + n: out.append((o - p.c, z, v)); seen.add(o)
            elif o < p.c + n and p.c < o + z: raise Unsupported("copy splits a cell of %s" % r)
        for (g, *k), e in list(r.lazy.items()):
            if g == c.gen and len(k) == 1 and k[0] not in seen and p.c <= k[0] and k[0] + e[0] <= p.c + n:
                if not any(o < k[0] + e[0] and k[0] < o + z for o, (z, v) in c.cells.items()):
                    out.append((k[0] - p.c, e[0], s.load(st, Ptr(r, k[0]), e[1][2], what) if isinstance(e[1], tuple) and e[1][0] == "const" else e[1]))
        if r.init == "lazy" and not r.__dict__.get("closed") and sum(z for o, z, v in out) < n:
            r.__dict__.setdefault("copied", True)
            lay = r.__dict__.get("layout")
            if lay:
                have = [(o, z) for o, z, v in out]
                for o, ty in lay:
                    z = layout(ty)[0]
                    if p.c <= o and o + z <= p.c + n and not any(h < o - p.c + z and o - p.c < h + hz for h, hz in have):
                        out.append((o - p.c, z, s.load(st, Ptr(r, o), ty, what)))
            else: raise Unsupported("copy of an object of unknown layout: %s" % r)
        if r.init == "zero":
            raise Unsupported("copy from zero-initialised global %s" % r)
        return sorted(out, key=lambda x: x[0])
    def set_bytes(s, st, d, b, n, what):
        if isc(n) and n == 0: return
        if not s.null_check(st, d, what): return
        di, didx, df = s.index_of(d)
        if di is not None:
            a = d.r.parts[di]; es = a.es
            if df: raise Unsupported("memset at a field")
            m = div(n, es)
            if es > 1 and not isc(n):
                s.oblige(st, "%s: whole elements" % what, eq(mod(n, es), 0), trivial=True)
                q = divide_out(n, es)
                if q is not None: m = q
            s.oblige(st, "%s: range inside %s" % (what, d.r), disj(eq(m, 0), conj(le(0, didx), le(add(didx, m), a.count) if a.count is not None else True)), trivial=True)
            if not a.tags: raise Unsupported("memset of untyped array %s" % d.r)
            for f, tag in a.tags.items():
                if tag[0] == "int":
                    if isc(b): v = int.from_bytes(bytes([b]) * (tag[1] // 8), "little")
                    elif tag[1] == 8: v = b
                    else: raise Unsupported("memset value")
                elif isc(b) and b == 0: v = 0 if tag[0] == "ptr" else z3.RealVal(0) if tag[1] == z3.RealSort() else z3.FPVal(0.0, tag[1])
                else: raise Unsupported("memset value")
                old = s.field_fn(st, Ptr(d.r, a.base + f))
                st.stores = st.stores + ((d.r, (di, f), None, None),)
                st.mem[d.r] = st.content(d.r).part((di, f), lambda k, old=old, v=v: ite(conj(le(didx, k), lt(k, add(didx, m))), v, old(k)))
            return
        if not isc(n) or d.t: raise Unsupported("variable memset of %s" % d)
        if not (isc(b) and b == 0):
            for j in range(n): s.store(st, d.plus(j), b, INT(8), what)
            return
        r = d.r
        if isc(r.size) and r.size is not None and d.c + n > r.size: s.oblige(st, "%s: range inside %s" % (what, r), False); return
        c = st.content(r); cells = {}
        for o, (z, v) in c.cells.items():
            if d.c <= o and o + z <= d.c + n: continue
            if o < d.c + n and d.c < o + z: raise Unsupported("memset splits a cell")
            cells[o] = (z, v)
        # zero cells are kept as one wide integer zero; loads slice it
        cells[d.c] = (n, 0)
        nc = Content(c.gen, cells, c.parts)
        for j, a in enumerate(r.parts):
            if a.base >= d.c and isc(a.count) and a.base + a.es * a.count <= d.c + n:
                for f, tag in a.tags.items():
                    v = 0 if tag[0] != "fp" else z3.RealVal(0) if tag[1] == z3.RealSort() else z3.FPVal(0.0, tag[1])
                    nc = nc.part((j, f), lambda k, v=v: v)
                del nc.cells[d.c]
        st.mem[r] = nc
    def ptrtoint(s, st, p):
        if isinstance(p, FnPtr): raise Unsupported("address of function")
        if p.r is NULLR: return p.off()
        if p.r.addr is None:
            p.r.addr = z3.Int("addr!%s!%d" % (p.r.name, p.r.id))
        st.assume(z3.And(p.r.addr >= 4096, p.r.addr < 2 ** 47))
        return add(p.r.addr, p.off())
    def ptr_eq(s, st, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
            return False
        if a.r is b.r: return eq(a.off(), b.off())
        for x, y in ((a, b), (b, a)):
            if y.r is NULLR:
                if x.r.nullable: return eq(s.index_of(x)[1], 0)
                return False
        return False

    # ------------------------------------------------------------ values
    def val(s, st, env, v, ty):
        k = v[0]
        if k == "reg":
            x = env.get(v[1], env)
            if x is env: raise Unsupported("register %s" % v[1])
            return x
        if k == "int":
            if ty.k == "int":
                if ty.n == 1: return bool(v[1] & 1)
                return v[1] % (2 ** ty.n)
            return v[1]
        if k == "fp": return s.fpconst(ty, v[1])
        if k == "null": return NULL
        if k in ("undef",): 
            if ty.k == "struct": return Agg([UNDEF] * len(ty.fields))
            if ty.k == "vec": return Agg([UNDEF] * ty.n)
            return UNDEF
        if k == "zero": return s.zero(ty)
        if k == "glob": return s.glob(st, v[1])
        if k == "gep":
            base = s.val(st, env, v[2], PTR)
            return s.gep(st, v[1], base, [(t, s.val(st, env, x, t)) for t, x in v[3]])
        if k == "ccast":
            x = s.val(st, env, v[3], v[2])
            if v[1] == "ptrtoint": return s.ptrtoint(st, x) if isinstance(x, Ptr) else ("fnaddr", x)
            if v[1] == "inttoptr" and isc(x) and x == 0: return NULL
            if v[1] in ("bitcast",): return x
            raise Unsupported("constant cast " + v[1])
        if k == "agg": return Agg([s.val(st, env, x, t) for t, x in v[1]])
        if k == "str": return Agg(list(v[1]))
        if k == "md": return None
        raise Unsupported("value %r" % (v,))
    def glob(s, st, name):
        if name in s.globals: return Ptr(s.globals[name])
        name2 = s.mod.resolve_alias(name)
        if name2 in s.mod.funcs: return FnPtr(name2)
        g = s.mod.glob(name)
        if g is None: raise Unsupported("global " + name)
        sz, _, _ = layout(g.ty) if g.ty.k not in ("opaque",) else (None, 1, None)
        r = Region("@" + name, sz, kind="global", init="lazy", const=g.const)
        r.gname = name
        s.globals[name] = r
        if g.const and g.init is not None:
            s.init_const(st, r, 0, g.ty, g.init); r.closed = True
        else:
            s.region_shape(r, 0, g.ty)
        return Ptr(r)
    def init_const(s, st, r, off, ty, init):
        if ty.k == "array" and ty.elem.k == "int":
            es = layout(ty.elem)[0]
            vals = list(init[1]) if init[0] == "str" else [0] * ty.n if init[0] == "zero" else [x[1][1] % (2 ** ty.elem.n) for x in init[1]]
            pi = len(r.parts); r.parts.append(Part(off, es, ty.n, {0: ("int", ty.elem.n)}))
            def fn(i, vals=vals):
                if isc(i): return vals[i] if 0 <= i < len(vals) else 0
                e = I(0)
                for j in range(len(vals) - 1, -1, -1): e = z3.If(i == j, vals[j], e)
                return e
            r.lazy[(0, pi, 0)] = fn
            return
        if ty.k == "struct":
            offs = layout(ty)[2]
            for j, (o, ft) in enumerate(zip(offs, ty.fields)):
                sub_ = ("zero", ft) if init[0] == "zero" else init[1][j][1] if init[0] == "agg" else ("undef",)
                s.init_const(st, r, off + o, ft, sub_)
            return
        if ty.k == "array":
            es = layout(ty.elem)[0]
            for j in range(ty.n):
                s.init_const(st, r, off + es * j, ty.elem, ("zero", ty.elem) if init[0] == "zero" else init[1][j][1])
            return
        if init[0] == "undef": return
        r.lazy[(0, off)] = (layout(ty)[0], ("const", init, ty))
    def region_shape(s, r, off, ty):
        """declare array parts of an object of IR type ty at offset off"""
        if ty.k == "array":
            if ty.elem.k == "int" or ty.elem.k in ("float", "double"):
                r.parts.append(Part(off, layout(ty.elem)[0], ty.n, {0: ("int", ty.elem.n) if ty.elem.k == "int" else ("fp", s.fpsort(ty.elem))}))
            elif ty.elem.k == "struct" and ty.n > 1 and not has_ptr(ty.elem):
                tags = {}
                flat(s, ty.elem, 0, tags); r.parts.append(Part(off, layout(ty.elem)[0], ty.n, tags))
            else:
                es = layout(ty.elem)[0]
                for j in range(ty.n): s.region_shape(r, off + es * j, ty.elem)
        elif ty.k == "struct":
            for o, ft in zip(layout(ty)[2], ty.fields): s.region_shape(r, off + o, ft)
    def gep(s, st, bt, base, idx):
        if not isinstance(base, Ptr): raise Unsupported("gep on %r" % (base,))
        c = 0; terms = []
        cur = bt
        for j, (t, v) in enumerate(idx):
            if j == 0: sz = layout(bt)[0]
            else:
                if cur.k == "struct":
                    c += layout(cur)[2][v]; cur = cur.fields[v]; continue
                cur = cur.elem; sz = layout(cur)[0]
            if v is UNDEF: raise Unsupported("undefined index")
            x = s.signed(st, t.n, v) if t.k == "int" else v
            if isc(x): c += sz * x
            else: terms.append((sz, x))
        return base.plus(c, terms)

    # ------------------------------------------------------------ functions
    def run_function(s, st, fn, args):
        """-> list of (state, return value)"""
        if s.depth > 40: raise Unsupported("inlining depth")
        env = {}
        for (t, n, a), v in zip(fn.params, args): env[n] = v
        s.depth += 1; saved = s.where; s.stack.append((fn, args))
        frame_fn = fn
        allocas = []
        try:
            exits, rets, backs = s.run_region(fn, [Path(st, env, fn.entry, None)], None, None, args)
        finally:
            s.depth -= 1; s.where = saved; s.stack.pop()
        return rets
    def run_region(s, fn, work, header, blocks, args):
        """Run paths; when `header` is given, stop at it (back edges) and on leaving `blocks`."""
        exits, rets, backs = [], [], []
        work = list(work); first = True
        while work:
            p = work.pop()
            if s.deadline and time.time() > s.deadline: raise Unsupported("time budget exhausted")
            if header is not None and not first and p.block == header: backs.append(p); continue
            if header is not None and p.block not in blocks: exits.append(p); continue
            if p.block in fn.loops and not (first and p.block == header):
                e2, r2 = s.run_loop(fn, p, args)
                rets += r2; work += e2
                first = False
                continue
            first = False
            s.exec_block(fn, p, work, rets, args)
        return exits, rets, backs
    def phis(s, fn, p):
        out = []
        for ins in fn.blocks[p.block]:
            if ins.op != "phi": break
            for v, b in ins.a[0]:
                if b == p.prev: out.append((ins, s.val(p.st, p.env, v, ins.ty))); break
            else: raise Unsupported("phi without edge")
        return out
    def exec_block(s, fn, p, work, rets, args, skip_phi=False):
        st, env = p.st, p.env
        if not skip_phi:
            ph = s.phis(fn, p)
            if ph:
                env = dict(env)
                for ins, v in ph: env[ins.dst] = v
        else: env = dict(env)
        env = dict(env)
        s._cont(fn, st, env, p.block, 0, work, rets, args)
    def _cont(s, fn, st, env, block, i, work, rets, args):
        code = fn.blocks[block]
        while True:
            ins = code[i]; i += 1; op = ins.op
            if op == "phi": continue
            s.where = "%s:%s" % (short(fn.demangled), s.mod.line(ins.dbg) or block)
            if op in ("call", "invoke"):
                outs = s.call(fn, st, env, ins)
                if op == "invoke":
                    for st2, v in outs:
                        e2 = dict(env)
                        if ins.dst is not None: e2[ins.dst] = v
                        work.append(Path(st2, e2, ins.a["normal"], block))
                    return
                if not outs: return
                for st2, v in outs[1:]:
                    e2 = dict(env)
                    if ins.dst is not None: e2[ins.dst] = v
                    s._cont(fn, st2, e2, block, i, work, rets, args)
                st, v = outs[0]
                if ins.dst is not None: env[ins.dst] = v
                continue
            if op == "br":
                if len(ins.a) == 1: work.append(Path(st, env, ins.a[0], block)); return
                c = s.val(st, env, ins.a[0], INT(1))
                s.branch(st, env, c, ins.a[1], ins.a[2], block, work); return
            if op == "switch":
                t, v, d, cs = ins.a
                x = s.val(st, env, v, t)
                if x is UNDEF: s.oblige(st, "switch on an uninitialised value", False); return
                rest = []
                for cv, lab in cs:
                    k = cv[1] % (2 ** t.n); c = eq(x, k)
                    if c is True: work.append(Path(st, env, lab, block)); rest = None; break
                    if c is False: continue
                    if s.pr.feasible(conj_pc(st, rest), c):
                        st2 = st.fork(); st2.assume(rest); st2.assume(c); work.append(Path(st2, dict(env), lab, block))
                    rest.append(no(c))
                if rest is not None:
                    st.assume(rest)
                    if not rest or s.pr.feasible(st.pc): work.append(Path(st, env, d, block))
                return
            if op == "ret":
                v = None if ins.a[0] is None else s.val(st, env, ins.a[0], ins.ty)
                s.paths += 1
                rets.append((st, v)); return
            if op == "unreachable":
                return
            if op == "select":
                c = s.val(st, env, ins.a[0], INT(1)); a = s.val(st, env, ins.a[1], ins.ty); b = s.val(st, env, ins.a[2], ins.ty)
                if c is UNDEF: s.oblige(st, "select on an uninitialised value", False); return
                if isinstance(c, bool): env[ins.dst] = a if c else b; continue
                if (isc(a) or is_expr(a)) and (isc(b) or is_expr(b)):
                    env[ins.dst] = ite(c, a, b); continue
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and not a.t and not b.t and a.c == b.c: env[ins.dst] = a; continue
                # fork
                t_ok, f_ok = s.pr.feasible(st.pc, c), s.pr.feasible(st.pc, z3.Not(c))
                if t_ok and f_ok:
                    st2 = st.fork(); st2.assume(no(c)); e2 = dict(env); e2[ins.dst] = b
                    s._cont(fn, st2, e2, block, i, work, rets, args)
                if t_ok: st.assume(c); env[ins.dst] = a
                elif f_ok: st.assume(no(c)); env[ins.dst] = b
                else: return
                continue
            if op == "unsupported": raise Unsupported("instruction " + ins.a[0])
            if op in ("landingpad", "resume"): return
            s.ir_fn = fn
            v = s.simple(st, env, ins)
            if ins.dst is not None: env[ins.dst] = v
    ir_fn = None
    def speculated(s, ins):
        """the result only feeds selects (directly or through arithmetic and comparisons): simplifycfg executed it early, so an
        overflow is a poison value that counts only where it is selected"""
        fn = s.ir_fn
        if fn is None or ins.dst is None: return False
        m = fn.__dict__.get("spec_uses") if hasattr(fn, "__dict__") else None
        if m is None:
            m = {}
            for b in fn.blocks.values():
                for i in (b if isinstance(b, list) else b.ins):
                    for u in set(re.findall(r'%("[^"]*"|[-\w$.]+)', i.text.split(", !dbg")[0])):
                        if u.strip('"') != i.dst: m.setdefault(u.strip('"'), []).append(i)
            fn.spec_uses = m
        memo = fn.__dict__.setdefault("spec_memo", {})
        def spec(d, depth=0):
            if d in memo: return memo[d]
            if depth > 12: return False
            us = m.get(d, []); r = bool(us)
            for i in us:
                if i.op == "call" and "llvm.dbg" in i.text: continue
                if i.op == "select": continue
                if (i.op in BINOPS and i.op not in ("udiv", "sdiv", "urem", "srem") or i.op in ("icmp", "fcmp") or i.op in CASTS) and spec(i.dst, depth + 1): continue
                r = False; break
            memo[d] = r; return r
        return spec(ins.dst)
    const_branches = frozenset()
    def branch(s, st, env, c, t, f, block, work):
        if isinstance(c, bool): s.const_branches = s.const_branches | {block}
        if c is UNDEF: s.oblige(st, "branch on an uninitialised value", False); return
        if isinstance(c, bool): work.append(Path(st, env, t if c else f, block)); return
        t_ok = s.pr.feasible(st.pc, c)
        f_ok = s.pr.feasible(st.pc, z3.Not(c)) if t_ok else True
        if t_ok and f_ok:
            st2 = st.fork(); st2.assume(no(c)); work.append(Path(st2, dict(env), f, block))
            st.assume(c); work.append(Path(st, env, t, block))
        elif t_ok: st.assume(c); work.append(Path(st, env, t, block))
        else:
            if s.pr.feasible(st.pc): st.assume(no(c)); work.append(Path(st, env, f, block))

    def simple(s, st, env, ins):
        op = ins.op
        V = lambda v, t: s.val(st, env, v, t)
        if op in BINOPS: return s.binop(st, ins, V(ins.a[0], ins.ty), V(ins.a[1], ins.ty))
        if op == "icmp":
            pred, a, b = ins.a; a, b = V(a, ins.ty), V(b, ins.ty)
            return s.icmp(st, pred, a, b, ins.ty)
        if op == "fcmp":
            pred, a, b = ins.a; return s.fcmp(pred, V(a, ins.ty), V(b, ins.ty))
        if op == "fneg":
            a = V(ins.a[0], ins.ty)
            if a is UNDEF: return a
            return z3.simplify(-a) if s.fp == "real" else z3.fpNeg(a)
        if op in CASTS: return s.cast(st, op, V(ins.a[1], ins.a[0]), ins.a[0], ins.ty)
        if op == "alloca":
            n = V(ins.a[0], INT(64))
            if not (isc(n) and n == 1): raise Unsupported("dynamic alloca")
            r = Region("%s" % ins.dst, layout(ins.ty)[0], kind="stack", init="undef")
            r.irty = ins.ty
            s.region_shape(r, 0, ins.ty)
            st.mem[r] = Content()
            return Ptr(r)
        if op == "load": return s.load(st, V(ins.a[0], PTR), ins.ty)
        if op == "store":
            s.store(st, V(ins.a[1], PTR), V(ins.a[0], ins.ty), ins.ty); return None
        if op == "getelementptr":
            bt, base, idx = ins.a
            return s.gep(st, bt, V(base, PTR), [(t, V(x, t)) for t, x in idx])
        if op == "freeze":
            v = V(ins.a[0], ins.ty)
            return s.fresh(st, ins.ty) if v is UNDEF else v
        if op == "extractvalue":
            v = V(ins.a[0], ins.ty)
            for i in ins.a[1]: v = v.v[i] if v is not UNDEF else UNDEF
            return v
        if op == "insertvalue":
            v, t2, e, idx = ins.a; v = V(v, ins.ty); e = V(e, t2)
            def ins_(a, ix, ty):
                if a is UNDEF: a = Agg([UNDEF] * len(ty.fields))
                n = Agg(a.v); n.v[ix[0]] = e if len(ix) == 1 else ins_(a.v[ix[0]], ix[1:], ty.fields[ix[0]]); return n
            return ins_(v, idx, ins.ty)
        if op == "extractelement":
            v = V(ins.a[0], ins.ty); return v.v[ins.a[1][1]]
        if op == "insertelement":
            v, e, i = ins.a; v = V(v, ins.ty); n = Agg(v.v if v is not UNDEF else [UNDEF] * ins.ty.n); n.v[i[1]] = V(e, ins.ty.elem); return n
        if op == "atomicrmw":
            k, a, v = ins.a; p = V(a, PTR); x = V(v, ins.ty); old = s.load(st, p, ins.ty)
            new = {"add": lambda: s.norm(st, ins.ty.n, add(old, x)), "sub": lambda: s.norm(st, ins.ty.n, sub(old, x)), "xchg": lambda: x}.get(k)
            if not new: raise Unsupported("atomicrmw " + k)
            s.store(st, p, new(), ins.ty); return old
        if op == "fence": return None
        raise Unsupported("instruction %s" % ins)
    def binop(s, st, ins, a, b):
        op, ty = ins.op, ins.ty
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.k == "vec":
            sub_ = Instr(op, None, ty.elem, ins.a, ins.dbg, ins.text)
            return Agg([s.binop(st, sub_, x, y) for x, y in zip(a.v, b.v)])
        if op[0] == "f" : return s.fbin(op, a, b, ty)
        n = ty.n
        flags = ins.a[2]
        if isinstance(a, Bits) or isinstance(b, Bits):
            if op in ("lshr",) and isc(b) and b % 8 == 0:
                k = b // 8
                return s.coerce(st, Bits(a.size, [(o - k, z, x) for o, z, x in a.parts if o >= k]), ty)
            if op == "and" and isc(b):
                m = b; k = 0
                while m & 0xff == 0xff: k += 1; m >>= 8
                if m == 0: return s.coerce(st, Bits(a.size, [(o, z, x) for o, z, x in a.parts if o + z <= k]), ty)
            if op == "shl" and isinstance(a, Bits) and isc(b) and b % 8 == 0:
                return Bits(a.size, [(o + b // 8, z, x) for o, z, x in a.parts if o + z + b // 8 <= n // 8])
            if op == "or":
                A = a.parts if isinstance(a, Bits) else []; Bp = b.parts if isinstance(b, Bits) else []
                if (isinstance(a, Bits) or (isc(a) and a == 0)) and (isinstance(b, Bits) or (isc(b) and b == 0)):
                    return Bits(n // 8, sorted(A + Bp, key=lambda x: x[0]))
            raise Unsupported("%s on packed bits" % op)
        if n == 1:
            if op == "and": return conj(a, b)
            if op == "or": return disj(a, b)
            if op == "xor":
                if isinstance(b, bool): return no(a) if b else a
                if isinstance(a, bool): return no(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if op in ("add", "sub", "mul"):
            f = {"add": add, "sub": sub, "mul": mul}[op]
            if "nsw" in flags:
                x, y = s.signed(st, n, a), s.signed(st, n, b); t = f(x, y)
                ok = conj(le(-(2 ** (n - 1)), t), lt(t, 2 ** (n - 1)))
                if ok is not True and s.speculated(ins) and not s.pr.quick_valid(st.pc, ok):
                    poison = fint("poison"); st.assume(z3.And(poison >= -(2 ** (n - 1)), poison < 2 ** (n - 1)))
                    return s.norm(st, n, ite(ok, t, poison))
                s.oblige(st, "no signed overflow", ok, trivial=True)
                return s.norm(st, n, t)
            if isc(b) and b >= 2 ** (n - 1) and op == "add": return s.norm(st, n, sub(a, 2 ** n - b))
            t = f(a, b)
            if "nuw" in flags: s.oblige(st, "no unsigned overflow (nuw)", conj(le(0, t), lt(t, 2 ** n)), trivial=True)
            if op == "mul" and not isc(a) and not isc(b) and not s.pr.quick_valid(st.pc, t < 2 ** n): return t % (2 ** n)
            return s.norm(st, n, t)
        if op in ("udiv", "urem"):
            s.oblige(st, "division by zero", ne(b, 0), trivial=True)
            if isc(a) and isc(b): return a // b if op == "udiv" else a % b
            if op == "urem" and not isc(b):
                # exact case split for dividends below 4x the divisor; otherwise the mathematical remainder
                if s.pr.quick_valid(st.pc, lt(a, b)): return a
                if s.pr.quick_valid(st.pc, conj(ge(a, b), lt(a, mul(2, b)))): return sub(a, b)
                if s.pr.quick_valid(st.pc, lt(a, mul(2, b))): return ite(lt(a, b), a, sub(a, b))
                if s.pr.quick_valid(st.pc, lt(a, mul(3, b))): return ite(lt(a, b), a, ite(lt(a, mul(2, b)), sub(a, b), sub(a, mul(2, b))))
                q, r = fint("quot"), fint("rem")
                st.assume(z3.And(q >= 0, r >= 0, r < I(b), I(a) == q * I(b) + r))
                key = ("urem", a.get_id() if is_expr(a) else a, b.get_id())
                c = st.ghost.get(key)
                if c is not None: return c
                st.ghost[key] = r
                st.assume(z3.Implies(I(a) < I(b), r == I(a))); st.assume(z3.Implies(z3.And(I(a) >= I(b), I(a) < 2 * I(b)), r == I(a) - I(b)))
                return r
            if op == "udiv" and not isc(b):
                q, r = fint("quot"), fint("rem")
                st.assume(z3.And(q >= 0, r >= 0, r < I(b), I(a) == q * I(b) + r, q <= I(a)))
                return q
            return div(a, b) if op == "udiv" else mod(a, b)
        if op in ("sdiv", "srem"):
            s.oblige(st, "division by zero", ne(b, 0), trivial=True)
            x, y = s.signed(st, n, a), s.signed(st, n, b)
            s.oblige(st, "no signed overflow in division", disj(ne(x, -(2 ** (n - 1))), ne(y, -1)), trivial=True)
            if isc(x) and isc(y):
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            elif isc(y) and y != 0:
                ay = abs(y)
                q0 = divide_out(x, ay)
                if q0 is None: q0 = ite(ge(x, 0), div(x, ay), sub(0, div(sub(0, x), ay)))
                q = q0 if y > 0 else sub(0, q0)
            else:
                q, r = fint("quot"), fint("rem")
                st.assume(z3.And(I(x) == q * I(y) + r, z3.If(I(x) >= 0, r >= 0, r <= 0), z3.If(I(y) > 0, z3.And(r < I(y), r > -I(y)), z3.And(r < -I(y), r > I(y)))))
                if op == "srem": st.assume(q == z3.If(I(x) >= 0, z3.If(I(y) > 0, I(x) / I(y), -(I(x) / -I(y))), z3.If(I(y) > 0, -(-I(x) / I(y)), (-I(x)) / (-I(y)))))     # a theorem about q
            if op == "sdiv": return s.norm(st, n, q)
            return s.norm(st, n, sub(x, mul(q, y)))
        if op == "shl":
            if isc(b):
                if b >= n: raise Unsupported("oversized shift")
                if "nsw" in flags:
                    t = mul(s.signed(st, n, a), 2 ** b)
                    s.oblige(st, "no signed overflow", conj(le(-(2 ** (n - 1)), t), lt(t, 2 ** (n - 1))), trivial=True)
                    return s.norm(st, n, t)
                return s.norm(st, n, mul(a, 2 ** b))
        if op == "lshr" and isc(b): return div(a, 2 ** b)
        if op == "ashr" and isc(b): return s.norm(st, n, div(s.signed(st, n, a), 2 ** b))
        if op in ("and", "or", "xor"):
            if isc(a) and isc(b): return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            if isc(a): a, b = b, a
            if isc(b):
                if op == "and":
                    if b == 0: return 0
                    if b & (b + 1) == 0: return mod(a, b + 1)
                    lo = (b & -b)
                    if ((b // lo) & (b // lo + 1)) == 0: return mul(mod(div(a, lo), b // lo + 1), lo)
                    if b == 2 ** n - lo: return sub(a, mod(a, lo))
                if b == 0: return a
                if op == "xor" and b == 2 ** n - 1: return sub(2 ** n - 1, a)
                if op == "or" and b & (b - 1) == 0: return ite(eq(mod(div(a, b), 2), 1), a, add(a, b))
            bvf = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
            return z3.BV2Int(bvf(z3.Int2BV(I(a), n), z3.Int2BV(I(b), n)))
        if op in ("shl", "lshr", "ashr"):
            bvf = {"shl": lambda x, y: x << y, "lshr": z3.LShR, "ashr": lambda x, y: x >> y}[op]
            return z3.BV2Int(bvf(z3.Int2BV(I(a), n), z3.Int2BV(I(b), n)))
        raise Unsupported(op)
    def fbin(s, op, a, b, ty):
        if isinstance(a, Bits): a = a.parts[0][2]
        if isinstance(b, Bits): b = b.parts[0][2]
        if s.fp == "real":
            if op == "fadd": return z3.simplify(a + b)
            if op == "fsub": return z3.simplify(a - b)
            if op == "fmul": return z3.simplify(a * b)
            if op == "fdiv": return z3.simplify(a / b)
        else:
            rm = z3.RNE()
            if op == "fadd": return z3.fpAdd(rm, a, b)
            if op == "fsub": return z3.fpSub(rm, a, b)
            if op == "fmul": return z3.fpMul(rm, a, b)
            if op == "fdiv": return z3.fpDiv(rm, a, b)
        raise Unsupported(op)
    def fcmp(s, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pred == "true": return True
        if pred == "false": return False
        if s.fp == "real":
            m = {"eq": lambda: a == b, "gt": lambda: a > b, "ge": lambda: a >= b, "lt": lambda: a < b, "le": lambda: a <= b, "ne": lambda: a != b}
            if pred == "ord": return True
            if pred == "uno": return False
            return fold(z3.simplify(m[pred[1:]]()))
        m = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == "ord": r = z3.Not(nan)
        elif pred == "uno": r = nan
        elif pred[1:] == "ne":
            r = z3.Not(z3.fpEQ(a, b)) if pred[0] == "u" else z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))
        elif pred[0] == "o": r = m[pred[1:]](a, b)
        else: r = z3.Or(nan, m[pred[1:]](a, b))
        return fold(z3.simplify(r))
    def icmp(s, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF: return UNDEF
        if ty.k == "ptr":
            if pred == "eq": return s.ptr_eq(st, a, b)
            if pred == "ne": return no(s.ptr_eq(st, a, b))
            if a.r is b.r: a, b = a.off(), b.off(); pred = pred.replace("u", "s")
            else: a, b = s.ptrtoint(st, a), s.ptrtoint(st, b)
            return {"slt": lt, "sle": le, "sgt": gt, "sge": ge}[pred.replace("u", "s")](a, b)
        if isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported("comparison of packed bits")
        if pred == "eq": return eq(a, b)
        if pred == "ne": return ne(a, b)
        if ty.n == 1: a, b = ite(a, 1, 0), ite(b, 1, 0)
        if pred[0] == "s": a, b = s.signed(st, ty.n, a), s.signed(st, ty.n, b)
        return {"lt": lt, "le": le, "gt": gt, "ge": ge}[pred[1:]](a, b)
    def cast(s, st, op, v, t1, t2):
        if v is UNDEF: return v
        if op == "zext":
            if t1.n == 1: return ite(v, 1, 0)
            return v
        if op == "sext":
            if t1.n == 1: return ite(v, 2 ** t2.n - 1, 0)
            return s.norm(st, t2.n, s.signed(st, t1.n, v))
        if op == "trunc":
            if isinstance(v, Bits): return s.slice(st, v, 0, t2.n // 8, t2)
            if t2.n == 1:
                if isc(v): return bool(v & 1)
                if is_expr(v) and z3.is_app_of(v, z3.Z3_OP_ITE) and isint(v.arg(1), 1) and isint(v.arg(2), 0): return v.arg(0)
                if s.pr.quick_valid(st.pc, lt(v, 2)): return eq(v, 1)
                return eq(mod(v, 2), 1)
            if isc(v): return v % 2 ** t2.n
            if s.pr.quick_valid(st.pc, lt(v, 2 ** t2.n)): return v
            return mod(v, 2 ** t2.n)
        if op == "ptrtoint": return s.ptrtoint(st, v)
        if op == "inttoptr":
            if isc(v) and v == 0: return NULL
            raise Unsupported("inttoptr")
        if op in ("bitcast", "addrspacecast"):
            if t1.k == t2.k: return v
            if t2.k == "int": return s.coerce(st, v, t2) if not (isinstance(v, Agg)) else Bits(layout(t2)[0], [(layout(t1.elem)[0] * i, layout(t1.elem)[0], x) for i, x in enumerate(v.v)])
            if t2.k == "vec" and isinstance(v, Bits):
                es = layout(t2.elem)[0]
                return Agg([s.slice(st, v, es * i, es, t2.elem) for i in range(t2.n)])
            if t2.k in ("float", "double"):
                if isinstance(v, Bits) and len(v.parts) == 1: return v.parts[0][2]
                return s.coerce(st, v, t2)
            raise Unsupported("bitcast %r to %r" % (t1, t2))
        if op in ("fpext", "fptrunc"):
            if s.fp == "real": return v
            return z3.fpToFP(z3.RNE(), v, s.fpsort(t2))
        if op in ("sitofp", "uitofp"):
            x = (s.signed(st, t1.n, v) if t1.n > 1 else ite(v, -1, 0)) if op == "sitofp" else (ite(v, 1, 0) if t1.n == 1 else v)
            if s.fp == "real": return R(x)
            if isc(x): return z3.FPVal(x, s.fpsort(t2))
            return z3.fpToFP(z3.RNE(), z3.ToReal(I(x)), s.fpsort(t2)) if s.int2fp == "real" else z3.fpSignedToFP(z3.RNE(), z3.Int2BV(I(x), 72), s.fpsort(t2))
        if op in ("fptosi", "fptoui"):
            lo, hi = (-(2 ** (t2.n - 1)), 2 ** (t2.n - 1)) if op == "fptosi" else (0, 2 ** t2.n)
            if s.fp == "real":
                if isc(v): v = R(v)
                s.oblige(st, "float to integer conversion in range", z3.And(v > lo - 1, v < hi), trivial=True)
                f = z3.ToInt(v); r = z3.If(v >= 0, f, -z3.ToInt(-v))
                return s.norm(st, t2.n, z3.simplify(r))
            so = v.sort()
            s.oblige(st, "float to integer conversion in range", z3.And(z3.fpGT(v, z3.FPVal(lo - 1, so)) if t2.n < 20 or op == "fptoui" else z3.fpGEQ(v, z3.FPVal(lo, so)), z3.fpLT(v, z3.FPVal(hi, so))), trivial=True)
            bv = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2.n)) if op == "fptosi" else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2.n))
            return z3.BV2Int(bv)
        raise Unsupported(op)
    int2fp = "bv"

    # ------------------------------------------------------------ calls
    def call(s, fn, st, env, ins):
        a = ins.a; callee = a["callee"]
        argv = [s.val(st, env, v, t) for t, v, _ in a["args"]]
        if callee[0] == "asm": raise Unsupported("inline assembly")
        f = s.val(st, env, callee, PTR) if callee[0] != "glob" else None
        if callee[0] == "glob": name = s.mod.resolve_alias(callee[1])
        elif hasattr(f, "apply"): return f.apply(s, st, argv, ins)
        elif isinstance(f, FnPtr): name = f.name
        else: return s.call_unknown(st, f, argv, ins)
        # byval copies
        for i, (t, v, at) in enumerate(a["args"]):
            if "byval" in at and isinstance(argv[i], Ptr):
                ty = P(tokenize(" ".join(at["byval"])), s.mod).type()
                r = Region("byval", layout(ty)[0], kind="stack", init="undef"); s.region_shape(r, 0, ty); st.mem[r] = Content()
                s.copy_bytes(st, Ptr(r), argv[i], layout(ty)[0], "byval copy"); argv[i] = Ptr(r)
        return s.call_named(st, name, argv, ins.ty, ins)
    def call_unknown(s, st, f, argv, ins):
        if hasattr(f, "apply"): return f.apply(s, st, argv, ins)
        raise Unsupported("indirect call through %r" % (f,))
    def call_ptr(s, st, f, argv, rty=None):
        """call a function value (for contracts that call back)"""
        if hasattr(f, "apply"): return f.apply(s, st, argv, None)
        if isinstance(f, FnPtr): return s.call_named(st, f.name, argv, rty or Ty("void"))
        raise Unsupported("indirect call through %r" % (f,))
    def call_named(s, st, name, argv, rty, ins=None):
        if name.startswith("llvm."): return s.intrinsic(st, name, argv, rty)
        dem = s.mod.dem.get(name, name)
        c = s.contracts.get(name)
        if c is not None:
            s.used_contracts.add(name)
            return c.use(s, st, name, argv, rty)
        m = s.models(name, dem) if s.models else None
        if m is not None:
            s.used_models.add(m.title)
            r = m.fn(s, st, name, argv, rty)
            return r if isinstance(r, list) else [(st, r)]
        g = s.mod.func(name)
        if g is None or g.is_decl: raise Unsupported("call of external function %s" % dem)
        s.inlined.add(short(dem))
        return s.run_function(st, g, argv)
    def intrinsic(s, st, name, a, rty):
        b = name.split(".")[1]
        if b in ("lifetime", "dbg", "assume", "experimental", "donothing", "prefetch", "invariant", "stacksave", "stackrestore", "va_end", "va_start", "eh"): return [(st, None)] if rty.k == "void" else [(st, UNDEF)]
        if b in ("memcpy", "memmove"):
            s.copy_bytes(st, a[0], a[1], a[2], b); return [(st, None)]
        if b == "memset": s.set_bytes(st, a[0], a[1], a[2], "memset"); return [(st, None)]
        if b == "expect": return [(st, a[0])]
        if b in ("umin", "umax"): return [(st, tmin(a[0], a[1]) if b == "umin" else tmax(a[0], a[1]))]
        if b in ("smin", "smax", "abs"):
            n = rty.n; x = s.signed(st, n, a[0])
            if b == "abs":
                return [(st, s.norm(st, n, ite(lt(x, 0), sub(0, x), x)))]
            y = s.signed(st, n, a[1]); return [(st, s.norm(st, n, tmin(x, y) if b == "smin" else tmax(x, y)))]
        if b == "fabs":
            x = a[0]
            return [(st, z3.simplify(z3.If(x >= 0, x, -x)) if s.fp == "real" else z3.fpAbs(x))]
        if b in ("fmuladd", "fma"):
            if s.fp == "real": return [(st, a[0] * a[1] + a[2])]
            return [(st, z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2]) if b == "fmuladd" else z3.fpFMA(z3.RNE(), *a))]
        if b == "is" and "constant" in name: return [(st, False)]
        if b == "trap":
            s.oblige(st, "trap reached", False); return []
        if b in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
            if s.fp == "real":
                x = a[0]
                fl = lambda y: z3.ToReal(z3.ToInt(y))
                r = {"floor": lambda: fl(x), "ceil": lambda: -fl(-x), "trunc": lambda: z3.If(x >= 0, fl(x), -fl(-x)),
                     "round": lambda: z3.If(x >= 0, fl(x + z3.RealVal("1/2")), -fl(-x + z3.RealVal("1/2")))}[b]()
                return [(st, r)]
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA()}.get(b, z3.RNE())
            return [(st, z3.fpRoundToIntegral(rm, a[0]))]
        if b in ("umul", "uadd", "usub"):   # with.overflow
            n = rty.fields[0].n; f = {"umul": mul, "uadd": add, "usub": sub}[b]; t = f(a[0], a[1])
            ov = no(conj(le(0, t), lt(t, 2 ** n)))
            return [(st, Agg([s.norm(st, n, t), ov]))]
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ loops
    def run_loop(s, fn, p, args):
        """-> (exit paths, rets).  p is about to enter a loop header from outside."""
        header = p.block; blocks = fn.loops[header]
        st0 = p.st
        init = s.phis(fn, p)
        # 1. loops decided by constants are executed (complete unrolling)
        u = s.try_unroll(fn, p, blocks, args)
        if u is not None: return u
        spec0 = s.loop_spec(fn, header); dropped = {}
        def spec(L):
            L.dropped, L.seen = dropped, set()
            if L.mode == "assume":
                for k in [k for k in dropped if not dropped[k]]: del dropped[k]
            spec0(L)
            if L.mode == "probe":
                for k in dropped: dropped[k] |= k not in L.seen      # not stated on this path: not known to hold there
            elif L.mode != "assume" and any(not dropped[k] and k not in L.seen for k in dropped): raise Unsupported("candidate invariant of %s not checked" % short(fn.demangled))
        if not spec0: spec = None
        modified = {}      # (region, kind, key) -> True
        nat = {}           # phi name -> ("affine", d) | ("free",)
        cands = None
        for rnd in range(30):
            n = fint("n"); H = st0.fork(); H.stores = ()
            H.assume(n >= 0)
            env = dict(p.env); curv = {}
            ctr0 = int(n.decl().name().split("!")[1])
            for ins, v in init:
                sh = nat.get(("phi", ins.dst))
                curv[ins.dst] = s.havoc_value(H, v, ins.ty, sh, n, ins.dst)
                env[ins.dst] = curv[ins.dst]
                if sh and sh[0] == "affine" and ins.ty.k == "int":   # header values are machine values, hence in range
                    H.assume(z3.And(I(curv[ins.dst]) >= 0, I(curv[ins.dst]) < 2 ** ins.ty.n))
            cellv = {}
            for key in modified: cellv[key] = s.havoc_key(st0, H, key, nat, n)
            base_pc = H.pc
            entry_v = [v for _, v in init] + [s.get_key(st0, k) for k in modified if k[1] == "cell"]
            names_v = [i2.dst for i2, _ in init] + [s.key_name(k) for k in modified if k[1] == "cell"]
            if spec: spec(LoopCtx(s, fn, header, st0, H, n, "assume", args, list(zip(names_v, entry_v, [curv[i2.dst] for i2, _ in init] + [s.get_key(H, k) for k in modified if k[1] == "cell"]))))
            if cands:
                for c in cands: H.assume(c.at(n))
            start = H.fork()
            s.quiet += 1
            try:
                pth = Path(H.fork(), env, header, None)
                ex, rets, backs = s.run_region_from_header(fn, pth, header, blocks, args)
            finally: s.quiet -= 1
            changed = False
            # newly modified memory
            for b in backs:
                for key in s.diff_mem(start, b.st):
                    if key not in modified: modified[key] = True; changed = True
            if changed: continue
            # affine shapes
            s.natprev = dict(nat); s.meet_ctx = (backs, n, ctr0, st0, start)
            for b in backs:
                for ins, v in init:
                    nv = next(x for i2, x in s.phis(fn, b) if i2.dst == ins.dst)
                    changed |= s.update_nat(nat, ("phi", ins.dst), v, curv[ins.dst], nv, b.st, n)
                for key in modified:
                    if key[1] == "cell":
                        old = s.get_key(st0, key); cur = s.get_key(start, key); nv = s.get_key(b.st, key)
                        changed |= s.update_nat(nat, key, old, cur, nv, b.st, n)
            if changed: cands = None; continue
            # array shapes
            for key in modified:
                if key[1] == "part" and nat.get(key) is None:
                    nat[key] = s.guess_part(st0, start, key, backs, n, ctr0) or ("free",)
                    if nat[key][0] != "free": changed = True
            if changed: continue
            # Houdini over branch-condition candidates
            if cands is None:
                cands = s.cond_candidates(start, backs, n, ctr0)
                cands += s.mono_candidates(init, curv, modified, st0, start, nat)
                if cands: continue
            bad = []
            for c in cands:
                if not s.pr.quick_valid(st0.pc, B(c.at0(0))): bad.append(c); continue
                for b in backs:
                    goal = c.at_back(b, fn, s, n)
                    if goal is True: continue
                    if not s.pr.quick_valid(b.st.pc, B(goal)): bad.append(c); break
            if bad:
                cands = [c for c in cands if c not in bad]; continue
            # guessed array shapes must be inductive
            for key in modified:
                if key[1] == "part" and nat.get(key) and nat[key][0] == "map":
                    shp = nat[key][1]
                    for b in backs:
                        k = fint("k"); cur = s.get_key(b.st, key)
                        if not s.pr.quick_valid(b.st.pc, B(eq(cur(k), shp(add(n, 1), k)))): nat[key] = ("free",); changed = True; break
            if changed: continue
            if dropped:
                nd = sum(dropped.values()); vals = lambda st, ph: list(zip(names_v, entry_v, ph + [s.get_key(st, k) for k in modified if k[1] == "cell"]))
                spec(LoopCtx(s, fn, header, st0, st0.fork(), 0, "probe", args, list(zip(names_v, entry_v, entry_v))))
                for b in backs: spec(LoopCtx(s, fn, header, st0, b.st.fork(), add(n, 1), "probe", args, vals(b.st, [v for _, v in s.phis(fn, b)])))
                if sum(dropped.values()) > nd: continue
            break
        else: raise Unsupported("loop analysis did not converge in %s" % short(fn.demangled))
        # final, with obligations
        if spec: spec(LoopCtx(s, fn, header, st0, st0.fork(), 0, "on entry", args, list(zip(names_v, entry_v, entry_v))))
        pth = Path(start.fork(), env, header, None)
        ex, rets, backs = s.run_region_from_header(fn, pth, header, blocks, args)
        if spec:
            for b in backs:
                ph = s.phis(fn, b)
                sp = LoopCtx(s, fn, header, st0, b.st.fork(), add(n, 1), "preserved", args, list(zip(names_v, entry_v, [v for _, v in ph] + [s.get_key(b.st, k) for k in modified if k[1] == "cell"]))); spec(sp)
        # every modification must have been accounted for
        for b in backs:
            for key in s.diff_mem(start, b.st):
                if key not in modified: raise Unsupported("loop frame")
        # termination: n is bounded by some loop-entry expression
        if backs and not s.quiet:
            ok = s.check_termination(start, backs, n, cands or [], init)
            s.termination.append((short(fn.demangled), ok))
        return ex, rets
    def loop_spec(s, fn, header):
        sp = s.loop_specs.get(fn.name)
        if sp is None: return s.helper_spec(fn)
        if isinstance(sp, dict):
            hs = sorted(fn.loops, key=lambda h: fn._rpo[h])
            return sp.get(hs.index(header))
        return sp
    def helper_spec(s, fn):
        """a loop in a function that did not exist when the specifications were written was moved there: it is the caller's loop"""
        if s.known_loops is None or fn.demangled in s.known_loops or not s.stack or s.stack[-1][0] is not fn: return None
        for f, args in reversed(s.stack[:-1]):
            sp = s.loop_specs.get(f.name)
            if isinstance(sp, dict): return None
            if sp is not None:
                def moved(L, f=f, args=args, sp=sp): L.args, L.fn = args, f; return sp(L)
                return moved
            if f.demangled in s.known_loops: return None
        return None
    def run_region_from_header(s, fn, pth, header, blocks, args):
        work, rets = [], []
        exits, backs = [], []
        s.exec_block(fn, pth, work, rets, args, skip_phi=True)
        while work:
            q = work.pop()
            if q.block == header: backs.append(q); continue
            if q.block not in blocks: exits.append(q); continue
            if q.block in fn.loops:
                e2, r2 = s.run_loop(fn, q, args); rets += r2; work += e2; continue
            s.exec_block(fn, q, work, rets, args)
        return exits, rets, backs
    def try_unroll(s, fn, p, blocks, args):
        """Execute the loop directly while every trip decision is forced by constants."""
        header = p.block
        if s.loop_spec(fn, header) is not None: return None
        s.quiet += 1
        exits, rets = [], []
        exiting = [b for b in blocks if any(x not in blocks for x in fn.succs(b))]
        cur = [Path(p.st.fork(), dict(p.env), header, p.prev)]
        try:
            for it in range(s.max_unroll):
                nxt = []
                for q in cur:
                    env = dict(q.env)
                    for ins, v in s.phis(fn, q): env[ins.dst] = v
                    s.const_branches = frozenset()
                    ex, rt, backs = s.run_region_from_header(fn, Path(q.st, env, header, None), header, blocks, args)
                    if backs and not any(b in s.const_branches for b in exiting): return None
                    exits += ex; rets += rt; nxt += backs
                if not nxt: break
                if len(nxt) + len(exits) > 48: return None
                cur = nxt
            else: return None
        except Unsupported:
            return None
        finally: s.quiet -= 1
        if s.quiet: return exits, rets
        # redo with obligations
        exits, rets = [], []
        cur = [Path(p.st, dict(p.env), header, p.prev)]
        while cur:
            nxt = []
            for q in cur:
                env = dict(q.env)
                for ins, v in s.phis(fn, q): env[ins.dst] = v
                ex, rt, backs = s.run_region_from_header(fn, Path(q.st, env, header, None), header, blocks, args)
                exits += ex; rets += rt; nxt += backs
            cur = nxt
        return exits, rets
    # -- havoc helpers
    def havoc_value(s, H, v, ty, nat, n, name):
        if nat and nat[0] == "same": return v
        if nat and nat[0] == "affine":
            d = nat[1]
            if isinstance(v, Ptr): return v.plus(0, [(d, n)])
            if ty is not None and ty.k == "int" or ty is None:
                x = add(v, mul(d, n))
                return s.wrap_affine(H, x, ty.n if ty else 64)
        if isinstance(v, Ptr):
            k = fint(name); i = s.part_of(v) if v.r.kind != "null" else None
            return v.plus(0, [(v.r.parts[i].es if i is not None else 1, k)])      # pointers move by whole elements (a sub-element step is rejected below)
        if ty is None:
            if v is UNDEF: return UNDEF
            if isinstance(v, bool) or (is_expr(v) and z3.is_bool(v)): return fbool(name)
            if isc(v) or z3.is_int(v): return fint(name)
            return z3.Const(fresh_name(name), v.sort())
        if ty.k == "ptr": raise Unsupported("pointer loop variable %s" % name)
        return s.fresh(H, ty, name)
    def wrap_affine(s, H, x, bits):
        if isc(x): return x % 2 ** bits
        return x          # justified by the range invariant checked below
    def key_name(s, key): return "%s%s" % (key[0], key[2])
    def get_key(s, st, key):
        r, kind, k = key
        if kind == "ghost": return st.ghost.get(k)
        c = st.content(r)
        if kind == "cell":
            e = c.cells.get(k)
            if e is None:
                e = r.lazy.get((c.gen, k))
                if e is None: return UNDEF
            return e[1]
        fn = c.parts.get(k)
        if fn is None: fn = s.lazy_part(r, c.gen, k, r.parts[k[0]].tags.get(k[1]))
        return fn
    def cell_size(s, st, key):
        c = st.content(key[0]); e = c.cells.get(key[2]) or key[0].lazy.get((c.gen, key[2]))
        return e[0] if e else None
    reshape_ok = False
    def diff_mem(s, a, b):
        out = []
        for r, cb in b.mem.items():
            ca = a.mem.get(r)
            if ca is None or ca is cb:
                if ca is None and (r.kind in ("stack", "heap", "global") or r in a.mem): pass
                if ca is not None or not s.preexisting(a, r): continue
                ca = Content()
            for k in set(ca.cells) | set(cb.cells):
                x, y = ca.cells.get(k), cb.cells.get(k)
                if x is y or (x and y and x[0] == y[0] and same(x[1], y[1])): continue
                if y is None:
                    if s.reshape_ok: out.append((r, "cell", k)); continue
                    raise Unsupported("loop reshapes %s" % r)
                if x is None:
                    lz = r.lazy.get((ca.gen, k))
                    if lz and lz[0] == y[0] and same(lz[1], y[1]): continue
                out.append((r, "cell", k))
            for k in set(ca.parts) | set(cb.parts):
                if ca.parts.get(k) is not cb.parts.get(k):
                    if cb.parts.get(k) is r.lazy.get((ca.gen,) + k) and ca.parts.get(k) is None: continue
                    out.append((r, "part", k))
        for k in set(a.ghost) | set(b.ghost):
            if isinstance(k, tuple): continue
            if not same(a.ghost.get(k), b.ghost.get(k)): out.append((GHOST, "ghost", k))
        if a.freed != b.freed: raise Unsupported("loop releases memory")
        return out
    def preexisting(s, a, r): return r.kind in ("obj", "global") or r in a.mem
    def havoc_key(s, st0, H, key, nat, n):
        r, kind, k = key; sh = nat.get(key)
        if kind == "ghost":
            v = st0.ghost.get(k)
            if callable(v) or isinstance(v, (tuple, list, dict)) or hasattr(v, "havoc"):
                if hasattr(v, "havoc"): H.ghost[k] = v.havoc(s, H); return
                return   # the loop specification must redefine it
            H.ghost[k] = s.havoc_value(H, v, None, sh, n, str(k)); return H.ghost[k]
        if kind == "cell":
            old = s.get_key(st0, key); sz = s.cell_size(st0, key)
            if old is UNDEF or sz is None:
                c = H.content(r); H.mem[r] = Content(c.gen, {o: e for o, e in c.cells.items() if o != k}, c.parts); 
                return UNDEF
            ty = None
            v = s.havoc_value(H, old, ty, sh, n, s.key_name(key))
            if is_expr(v) and z3.is_int(v): H.assume(z3.And(v >= 0, v < 2 ** (8 * sz)))
            H.mem[r] = H.content(r).cell(k, sz, v); return v
        if sh and sh[0] == "map":
            shp = sh[1]; H.mem[r] = H.content(r).part(k, lambda i: shp(n, i)); return
        tag = r.parts[k[0]].tags[k[1]]
        f = fun("%s.h" % r.name, tag[1] if tag[0] == "fp" else None)
        H.mem[r] = H.content(r).part(k, lambda i: f(I(i)))
    def update_nat(s, nat, key, v0, cur, nv, bst, n):
        """classify how a loop-carried value changes; returns True when the class changed"""
        old = s.natprev.get(key)
        if old and old[0] == "free": return False
        if v0 is UNDEF or cur is UNDEF:
            new = ("free",); ch = old != new; nat[key] = new; return ch
        d = None
        if isinstance(cur, Ptr):
            if isinstance(nv, Ptr) and nv.r is cur.r:
                pi = s.part_of(cur)
                if pi is not None and ((nv.c - cur.c) % cur.r.parts[pi].es or any(sc % cur.r.parts[pi].es for sc, _ in nv.t)): raise Unsupported("pointer loop variable moves by a part of an element")
                x = sub(nv.off(), cur.off()); x = z3.simplify(I(x)) if not isc(x) else x
                d = x if isc(x) else (x.as_long() if z3.is_int_value(x) else None)
            else:
                raise Unsupported("pointer loop variable changes object (%s)" % (key,))
        elif isc(cur) and isc(nv) and cur == nv: d = 0
        elif same(cur, nv): d = 0
        elif (is_expr(cur) and z3.is_int(cur) or isc(cur)) and (isc(nv) or is_expr(nv) and z3.is_int(nv)):
            x = z3.simplify(I(nv) - I(cur))
            if z3.is_int_value(x): d = x.as_long()
            elif old is None:       # candidate; confirmed exactly in the next round
                for g in (1, -1, 0):
                    if s.pr.quick_valid(bst.pc, z3.Or(*[I(nv) == I(cur) + g + w for w in (0, 2 ** 64, -2 ** 64, 2 ** 32, -2 ** 32)])): d = g; break
            else:
                g = old[1] if old[0] == "affine" else 0
                if s.pr.quick_valid(bst.pc, I(nv) == I(cur) + g): d = g
                elif g and s.meets(bst, I(nv) == I(cur) + g): d = g
        elif is_expr(cur) and (is_expr(nv) and nv.sort() == cur.sort() or isinstance(nv, bool) and z3.is_bool(cur)) and (old is None or old == ("same",)):
            # set only on the way out of the loop (a result and a break): unchanged on every way back
            if s.pr.quick_valid(bst.pc, z3.Not(z3.Distinct(cur, B(nv) if z3.is_bool(cur) else nv))): d = 0
        if d is None: new = ("free",)
        else: new = ("same",) if d == 0 else ("affine", d)
        if TRACE: print('loop class', key, old, new, cur, nv)
        if old is None:             # candidates of all back edges of this round must agree
            if key in nat and nat[key] != new: new = ("free",)
            nat[key] = new; return new != ("free",)   # re-run with the shape substituted
        if old == new and nat.get(key) == new: return False
        nat[key] = ("free",); return True
    def meets(s, bst, step):
        """the step does not wrap because the loop stops when two counts meet and neither has passed the other (proved along with it)"""
        backs, n, ctr0, st0, start = s.meet_ctx; base = set(x.f.get_id() for x in start.pc.chain())
        for f in bst.pc.formulas():
            if f.get_id() in base or z3.is_quantifier(f): continue
            cs = free_consts(f)
            if not any(c.name() == n.decl().name() for c in cs) or not entry_level(cs, n, ctr0): continue
            for x, y in disequalities(f):
                for g in (x <= y, y <= x):
                    if s.pr.quick_valid(st0.pc, z3.substitute(g, (n, I(0)))) and s.pr.quick_valid(bst.pc, z3.Implies(g, step)) \
                       and all(s.pr.quick_valid(b.st.pc, z3.Implies(g, z3.substitute(g, (n, n + 1)))) for b in backs): return True
        return False
    def guess_part(s, st0, start, key, backs, n, ctr0):
        """one store per iteration at an index affine in n: content_n(k) = value of the iteration that wrote k"""
        shp = None
        idxv = None
        for b in backs:
            ws = [w for w in b.st.stores[len(start.stores):] if w[0] is key[0] and w[1] == key[2]]
            if len(ws) != 1 or ws[0][2] is None: return None
            _, _, idx, v = ws[0]
            if idxv is not None and not (same(idxv[0], idx) and same(idxv[1], v)): return None
            idxv = (idx, v)
        if idxv is None: return None
        idx, v = idxv
        if isc(idx): return None
        step = z3.simplify(z3.substitute(I(idx), (n, n + 1)) - I(idx))
        if not z3.is_int_value(step) or step.as_long() not in (1, -1): return None
        d = step.as_long(); a = z3.simplify(z3.substitute(I(idx), (n, z3.IntVal(0))))
        init = s.get_key(st0, key); cur = s.get_key(start, key)
        # replace reads of the havocked content by the content on entry
        if is_expr(v):
            probe = cur(z3.Int("probe"))
            if z3.is_app(probe) and probe.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                f = probe.decl()
                x = z3.Var(0, z3.IntSort())
                try: v = z3.substitute_funs(v, (f, B_or(init, x)))
                except Exception: return None
            if not entry_level(free_consts(v), n, ctr0): return None
        if not entry_level(free_consts(a), n, ctr0): return None
        def shape(nn, k, a=a, d=d, v=v, init=init):
            m = sub(k, a) if d == 1 else sub(a, k)
            val = z3.substitute(v, (n, I(m))) if is_expr(v) else v
            return ite(conj(le(0, m), lt(m, nn)), val, init(k))
        return ("map", shape)
    def cond_candidates(s, start, backs, n, ctr0):
        if not backs: return []
        base = set(x.f.get_id() for x in start.pc.chain())
        out = []
        common = None
        for b in backs:
            fs = {f.get_id(): f for f in b.st.pc.formulas() if f.get_id() not in base}
            common = fs if common is None else {k: v for k, v in common.items() if k in fs}
        startc = set(str(c.name()) for f in start.pc.formulas() for c in free_consts(f))
        for f in (common or {}).values():
            if z3.is_quantifier(f): continue
            cs = free_consts(f)
            if not any(c.name() == n.decl().name() for c in cs): continue
            if not entry_level(cs, n, ctr0): continue
            out.append(Cand(lambda m, f=f: disj(eq(m, 0), z3.substitute(f, (n, I(sub(m, 1))))) if not (isc(m) and m == 0) else True))
            for x, y in disequalities(f):      # a loop that runs until two counts meet: neither has passed the other
                for g in (x <= y, y <= x): out.append(Cand(lambda m, g=g: z3.substitute(g, (n, I(m)))))
        return out
    def mono_candidates(s, init, curv, modified, st0, start, nat):
        return []
    def check_termination(s, start, backs, n, cands, init):
        """find a loop-entry expression bounding n from the branch conditions on the back edges"""
        ctr0 = int(n.decl().name().split("!")[1])
        for b in backs:
            # n is bounded iff  n >= N  is refuted for some entry-only N; search among upper bounds read off the conditions
            base = set(x.f.get_id() for x in start.pc.chain()); seen = set(); found = False
            fs = [f for f in b.st.pc.formulas() if f.get_id() not in base] + start.pc.formulas()
            fs.sort(key=lambda f: n.decl() not in free_consts(f))          # conditions on the iteration count first
            for f in fs:
                if len(seen) >= 60: break
                for e in bound_exprs(f, n):
                    if e.get_id() in seen or not entry_level(free_consts(e), n, ctr0): continue
                    seen.add(e.get_id())
                    if s.pr.quick_valid(b.st.pc, n <= e): found = True; break
                if found: break
            if not found: return False
        return True

class Cand:
    def __init__(s, f): s.f = f
    def at(s, n): return s.f(n)
    def at0(s, z): return s.f(0)
    def at_back(s, b, fn, eng, n): return s.f(add(n, 1))

GHOST = Region("ghost", kind="ghost")

def B_or(fn, x):
    r = fn(x)
    return I(r) if isc(r) else r
def disequalities(f):
    if z3.is_and(f): return [p for g in f.children() for p in disequalities(g)]
    if z3.is_distinct(f) and f.num_args() == 2 and z3.is_int(f.arg(0)): return [(f.arg(0), f.arg(1))]
    if z3.is_not(f):
        g = f.arg(0)
        if z3.is_eq(g) and z3.is_int(g.arg(0)): return [(g.arg(0), g.arg(1))]
        if z3.is_or(g): return [p for h in g.children() for p in disequalities(z3.Not(h))]
    return []
def bound_exprs(f, n):
    out = []
    def walk(e, depth=0):
        if depth > 6: return
        if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
            for c in e.children(): walk(c, depth + 1)
            return
        if z3.is_app(e) and e.num_args() == 2 and z3.is_int(e.arg(0)):
            a, b = e.arg(0), e.arg(1)
            d = z3.simplify(b - a)
            c0 = z3.simplify(z3.substitute(d, (n, z3.IntVal(0))))
            for cand in (c0, z3.simplify(-c0)):
                if n.decl() not in free_consts(cand): out.append(cand)
    walk(f)
    return out
def entry_level(cs, n, ctr0):
    """all symbols existed before the loop was entered (or are the iteration count)"""
    for c in cs:
        nm = c.name()
        if nm == n.decl().name(): continue
        m = re.search(r'!(\d+)$', nm)
        if m and int(m.group(1)) >= ctr0: return False
    return True
def same(a, b):
    if a is b: return True
    if isc(a) and isc(b): return a == b and isinstance(a, bool) == isinstance(b, bool)
    if is_expr(a) and is_expr(b): return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r is b.r and same(z3.simplify(I(a.off())), z3.simplify(I(b.off())))
    return False
def isint(e, v): return z3.is_int_value(e) and e.as_long() == v
def conj_pc(st, fs):
    pc = st.pc
    for f in fs: pc = PC(pc, B(f))
    return pc
def strip_wrap(t, M):
    """t = If(b<0, b+M, ...) -> b"""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        b = t.arg(2)
        while z3.is_app_of(b, z3.Z3_OP_ITE): b = b.arg(2)
        if z3.simplify(t.arg(1) - b - M).eq(z3.IntVal(0)): return b
    if z3.is_app_of(t, z3.Z3_OP_MOD) and isint(t.arg(1), M): return t.arg(0)
    return None
def divide_out(n, es):
    """n / es when n is syntactically a multiple of es"""
    if isc(n): return n // es if n % es == 0 else None
    q = z3.simplify(n, som=True)
    def go(e):
        if z3.is_int_value(e):
            v = e.as_long(); return z3.IntVal(v // es) if v % es == 0 else None
        if z3.is_add(e):
            r = [go(c) for c in e.children()]
            return None if any(x is None for x in r) else z3.Sum(r)
        if z3.is_mul(e) and z3.is_int_value(e.arg(0)):
            v = e.arg(0).as_long()
            if v % es == 0:
                rest = e.children()[1:]
                x = z3.IntVal(v // es)
                for c in rest: x = x * c
                return z3.simplify(x)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = go(e.arg(1)), go(e.arg(2))
            return None if a is None or b is None else z3.If(e.arg(0), a, b)
        return None
    r = go(q)
    return None if r is None else z3.simplify(r)
def has_ptr(t):
    if t.k == "ptr": return True
    if t.k == "struct": return any(has_ptr(f) for f in t.fields)
    if t.k in ("array", "vec"): return has_ptr(t.elem)
    return False
def flat(s, t, off, tags):
    if t.k == "struct":
        for o, f in zip(layout(t)[2], t.fields): flat(s, f, off + o, tags)
    elif t.k == "array":
        for j in range(t.n): flat(s, t.elem, off + j * layout(t.elem)[0], tags)
    elif t.k == "int": tags[off] = ("int", t.n if t.n > 1 else 8)
    elif t.k in ("float", "double"): tags[off] = ("fp", s.fpsort(t))
def short(d):
    d = re.sub(r'spn::structure::|spn::core::|spn::', '', d)
    return d if len(d) < 110 else d[:107] + "..."

def _assume_range(st, v, n):
    i = v.get_id() if is_expr(v) else None
    if i is None or (i, n) in st.known: return
    st.known.add((i, n)); st.assume(z3.And(v >= 0, v < 2 ** n))
State.assume_range = _assume_range

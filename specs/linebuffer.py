"""Contracts for spn::structure::LineBuffer (src/spine/structure/linebuffer.{hpp,cpp})."""
from dv.contracts import *
from . import ringbuffer as R
from .ringbuffer import RB, View, MAXCAP, popped, vite, rep_loop

C = "spn::structure::LineBuffer"
SV = "std::basic_string_view<char, std::char_traits<char> >"

def delim_region(c, name="delimiters"):
    """an arbitrary set of delimiter characters, with the membership predicate"""
    n = c.i(name + ".count", hi=2 ** 32)
    r = Region(name, n, [Part(0, 1, n, {0: ("int", 8)})], const=True)
    D = fun(name + ".char"); isd = z3.Function(fresh_name("is_" + name), z3.IntSort(), z3.BoolSort()); w = fun("where")
    r.lazy[(0, 0, 0)] = lambda i: D(I(i)); r.contains = (isd, n)
    k = z3.Int(fresh_name("q")); c.st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(D(k) >= 0, D(k) < 256, isd(D(k)))), patterns=[D(k)]))
    c.st.assume(z3.ForAll([k], z3.Implies(isd(k), z3.And(w(k) >= 0, w(k) < n, D(w(k)) == k)), patterns=[isd(k)]))
    return r, n

class LB(RB):
    def __init__(s, eng, p):
        L = eng.layouts
        RB.__init__(s, eng, p.plus(L.base(C, "RingBuffer")), "char", 8)
        o = L.off(C, "_delimiters", 5)
        s.dlen, s.dstr = p.plus(o + L.off(SV, "_M_len")), p.plus(o + L.off(SV, "_M_str"))
        s.region = p.r
    def init(s, c, name="lines"):
        RB.init(s, c, name)
        s.set_delims(c, *delim_region(c, name + ".delimiters")); return s
    def set_delims(s, c, r, n):
        s.eng.store(c.st, s.dlen, n, INT(64)); s.eng.store(c.st, s.dstr, Ptr(r), PTR)
    def delim(s, st):
        p = s.eng.load(st, s.dstr, PTR); n = s.eng.load(st, s.dlen, INT(64))
        isd, cnt = p.r.contains
        return lambda ch: isd(I(ch))
    def inv(s, st):
        p = s.eng.load(st, s.dstr, PTR)
        good = isinstance(p, Ptr) and "contains" in p.r.__dict__
        return conj(RB.inv(s, st), conj(eq(p.off(), 0), eq(s.eng.load(st, s.dlen, INT(64)), p.r.contains[1])) if good else False)

def line(lb, st, v):
    """(constraints, length): length of the first line including its delimiter, 0 if there is none"""
    d = lb.delim(st)
    store = lb.get(st, lb.store, PTR); key = (id(lb.eng.field_fn(st, store, INT(8))), str(v.n), str(lb.get(st, lb.tail)), str(lb.get(st, lb.cap)), str(d(0)))
    memo = lb.eng.__dict__.setdefault("line_memo", {})
    if key in memo: L = memo[key][0]
    else: L = fint("line_length"); memo[key] = (L, lb.eng.field_fn(st, store, INT(8)))
    k = z3.Int(fresh_name("q"))
    at = lambda i: I(v.at(i))
    return conj(le(0, L), le(L, v.n), imp(gt(L, 0), d(v.at(sub(L, 1)))), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < I(v.n), z3.Or(L == 0, k < L - 1)), z3.Not(d(v.at(k)))))), L

class Base(Contract):
    sig = None
    def __init__(s): s.attach = s.sig.replace("{C}", C)
    def lb(s, c): return LB(c.eng, c.args[s.this])
    this = 0
    def me(s, c):
        r = Region("this", c.eng.layouts.size(C)); c.st.mem[r] = Content()
        p = Ptr(r); LB(c.eng, p).init(c); return p
    def setup(s, c): return [s.me(c)] + s.params(c)
    def params(s, c): return []
    def pre(s, c): c.requires("line buffer is well-formed", s.lb(c).inv(c.st)); s.pre2(c)
    def pre2(s, c): pass
    def found(s, c, i):
        """length of the next line: the discovered length when given (a precondition says it is one), else found by search"""
        lb = s.lb(c); v = lb.view(c.old); has, val = optional_arg(c, i)
        f, L = line(lb, c.old, v); c.st.assume(f)
        return v, ite(has, val, L)
    def pre_discovered(s, c, i):
        has, val = optional_arg(c, i, False)
        c.requires("a given line length does not exceed the stored bytes", disj(no(has), le(val, s.lb(c).view(c.st).n)))
def optional_arg(c, i, old=True):
    st = c.old if old else c.st
    v = c.eng.load(st, c.args[i], INT(64))
    return eq(mod(c.eng.load(st, c.args[i].plus(8), INT(8)), 256), 1), 0 if v is UNDEF else v
def optional_param(c, name):
    r = Region(name, 16); c.st.mem[r] = Content(); p = Ptr(r)
    c.eng.store(c.st, p, c.i(name), INT(64)); c.eng.store(c.st, p.plus(8), c.i(name + ".given", hi=1), INT(8)); return p

class Length(Base):
    sig = r"{C}::length_of_next_line\(\) const"
    def post(s, c):
        lb = s.lb(c); v = lb.view(c.old); d = lb.delim(c.old)
        if c.mode == "verify":
            L = c.ret
            c.ensures("length does not exceed the stored bytes", conj(le(0, L), le(L, v.n)))
            c.ensures("a line ends in a delimiter", imp(gt(L, 0), d(v.at(sub(L, 1)))))
            c.ensures_all("no delimiter before the reported one", lambda k: no(d(v.at(k))), 0, ite(gt(L, 0), sub(L, 1), v.n))
        else:
            f, L = line(lb, c.old, v); c.st.assume(f); c.ret = L
    def loop(s, L):
        lb = LB(L.eng, L.args[0]); v = lb.view(L.entry); d = lb.delim(L.entry)
        L.inv("search stays inside the stored bytes", le(L.n, v.n))
        L.forall("no delimiter among the bytes searched", lambda k: no(d(v.at(k))), 0, L.n)
class HasLine(Base):
    sig = r"{C}::has_line\(\) const"
    optional = True
    def post(s, c):
        lb = s.lb(c); v = lb.view(c.old); f, L = line(lb, c.old, v); c.st.assume(f)
        c.returns(gt(L, 0), "has_line iff a delimiter is stored")

class View_(Base):
    sig = r"{C}::get_next_line_view\(std::optional<unsigned long> const&\)"
    this = 1
    variants = ("search", "given length")
    def setup(s, c):
        o = Region("result", 24, init="undef"); c.st.mem[o] = Content()
        a = [Ptr(o), s.me(c), optional_param(c, "length")]
        c.st.assume(eq(c.eng.load(c.st, a[2].plus(8), INT(8)), 0 if c.variant == "search" else 1))
        return a
    def post(s, c):
        lb = s.lb(c); v, L = s.found(c, 2); e = c.eng; out = c.args[0]
        ok = conj(gt(L, 0), le(L, v.n))
        c.becomes(lb, v); c.touch(out.r)
        if c.mode == "verify":
            have = ne(e.load(c.st, out.plus(16), INT(8)), 0)
            c.ensures("a line view is returned exactly when there is a line", eq(have, ok))
            st = c.st
            if e.pr.feasible(st.pc, B(ok)):
                n = e.load(st, out, INT(64)); p = e.load(st, out.plus(8), PTR); store = lb.get(st, lb.store, PTR)
                good = isinstance(p, Ptr) and p.r is store.r
                c.ensures("the view has the length of the line", imp(ok, eq(n, sub(L, 1)) if n is not UNDEF else False))
                c.ensures("the view lies inside the buffer", imp(ok, conj(le(0, p.off()), le(add(p.off(), n), v.cap)) if good else False))
                if good:
                    fn = e.field_fn(st, store, INT(8))
                    c.ensures_all("the view shows the bytes of the line", lambda k: imp(ok, eq(fn(add(p.off(), k)), v.at(k))), 0, sub(L, 1))
        else:
            st2 = c.st.fork(); st2.assume(no(ok)); e.store(st2, out.plus(16), 0, INT(8)); c.extra = [(st2, None)]
            c.st.assume(ok); st = c.st
            t = lb.get(st, lb.tail); st.assume(le(add(t, sub(L, 1)), v.cap))
            e.store(st, out, sub(L, 1), INT(64)); e.store(st, out.plus(8), lb.get(st, lb.store, PTR).plus(0, [(1, t)]), PTR); e.store(st, out.plus(16), 1, INT(8)); c.ret = None
    def pre2(s, c): pass

class GetLine(Base):
    sig = r"{C}::get_next_line\(char\*, unsigned long, std::optional<unsigned long> const&\)"
    variants = ("search", "given length")
    def setup(s, c):
        n = c.i("max_length", hi=MAXCAP); r = Region("out", n, [Part(0, 1, n, {0: ("int", 8)})])
        a = [s.me(c), Ptr(r), n, optional_param(c, "length")]
        c.st.assume(eq(c.eng.load(c.st, a[3].plus(8), INT(8)), 0 if c.variant == "search" else 1))
        return a
    def pre2(s, c): s.pre_discovered(c, 3); c.requires("max_length is a possible array length", le(c.args[2], MAXCAP))
    def post(s, c):
        lb = s.lb(c); v, L = s.found(c, 3); ok = conj(gt(L, 0), le(L, c.args[2]))
        c.returns(ite(ok, sub(L, 1), 0), "the length of the line without delimiter is returned")
        i0 = c.eng.index_of(c.args[1])[1]
        c.writes_array("the line is delivered unchanged and null-terminated", c.args[1], lambda k: ite(eq(sub(k, i0), sub(L, 1)), 0, v.at(sub(k, i0))), i0, ite(ok, add(i0, L), i0), INT(8))
        p = popped(v, L); c.becomes(lb, vite(ok, p, v))
    def loop(s, L):
        lb = LB(L.eng, L.args[0]); v = lb.view(L.entry); old = L.eng.field_fn(L.entry, L.args[1], INT(8))
        nv = popped(v, L.n); nv.ow = ite(eq(L.n, 0), v.ow, 0)
        L.inv("stored bytes suffice", le(L.n, v.n))
        rep_loop(L, lb, nv)
        L.array("the first n bytes of the line are delivered", L.args[1], lambda k: ite(conj(le(0, k), lt(k, L.n)), v.at(k), old(k)))
class DropLine(Base):
    sig = r"{C}::drop_next_line\(std::optional<unsigned long> const&\)"
    variants = ("search", "given length")
    def setup(s, c):
        a = [s.me(c), optional_param(c, "length")]
        c.st.assume(eq(c.eng.load(c.st, a[1].plus(8), INT(8)), 0 if c.variant == "search" else 1)); return a
    def pre2(s, c): s.pre_discovered(c, 1)
    def post(s, c):
        lb = s.lb(c); v, L = s.found(c, 1); ok = gt(L, 0)
        c.returns(ok, "drop reports whether a line was removed")
        c.becomes(lb, vite(ok, popped(v, L), v))
    def loop(s, L):
        lb = LB(L.eng, L.args[0]); v = lb.view(L.entry)
        nv = popped(v, L.n); nv.ow = ite(eq(L.n, 0), v.ow, 0)
        L.inv("stored bytes suffice", le(L.n, v.n)); rep_loop(L, lb, nv)
class PushView(Base):
    sig = r"{C}::push\(std::basic_string_view<char, std::char_traits<char> > const&\)"
    def params(s, c):
        n = c.i("length", hi=MAXCAP); src = Region("source", n, [Part(0, 1, n, {0: ("int", 8)})]); r = Region("view", 16); c.st.mem[r] = Content()
        c.eng.store(c.st, Ptr(r), n, INT(64)); c.eng.store(c.st, Ptr(r, 8), Ptr(src), PTR); return [Ptr(r)]
    def post(s, c):
        lb = s.lb(c); v = lb.view(c.old); n = c.eng.load(c.old, c.args[1], INT(64)); p = c.eng.load(c.old, c.args[1].plus(8), PTR)
        xs = c.eng.field_fn(c.old, p, INT(8)); i0 = c.eng.index_of(p)[1]
        wr, lost, nv = R.pushed_many(v, lambda k: xs(add(i0, k)), n, False); nv.ow = v.ow
        c.returns(wr, "push reports the number of bytes written"); c.becomes(lb, nv)
def text(c, name="delimiters"):
    """a text passed by value: its length and its first character"""
    r, n = delim_region(c, name); return [n, Ptr(r)]
class Ctor(Base):
    sig = r"{C}::LineBuffer\(unsigned long, std::basic_string_view<char, std::char_traits<char> >\)"
    def setup(s, c):
        r = Region("this", c.eng.layouts.size(C), init="undef"); c.st.mem[r] = Content(); c.eng.heap_hint = (1, {0: ("int", 8)}); return [Ptr(r), c.i("capacity", lo=1, hi=MAXCAP)] + text(c)
    def pre(s, c): c.requires("capacity is positive and allocatable", conj(le(1, c.args[1]), le(c.args[1], MAXCAP)))
    def post(s, c):
        lb = s.lb(c); e = c.eng
        if c.mode == "use": R.fresh_buffer(c, lb, c.args[1], lambda k: 0); e.store(c.st, lb.dlen, c.args[2], INT(64)); e.store(c.st, lb.dstr, c.args[3], PTR); return
        c.touch(c.args[0].r); v = lb.view(c.st); c.ensures("new buffer is well-formed", lb.inv(c.st)); c.ensures("new buffer is empty with the requested capacity", conj(eq(v.n, 0), eq(v.cap, c.args[1]), eq(v.ow, 0)))
        c.ensures("its delimiters are the ones given", conj(eq(e.load(c.st, lb.dlen, INT(64)), c.args[2]), e.ptr_eq(c.st, e.load(c.st, lb.dstr, PTR), c.args[3])))
class SetDelims(Base):
    sig = r"{C}::set_delimiters\(std::basic_string_view<char, std::char_traits<char> >\)"
    def params(s, c): return text(c, "new delimiters")
    def post(s, c): lb = s.lb(c); c.sets("takes the number of delimiters given", lb.dlen, INT(64), c.args[1]); c.sets("takes the delimiters given", lb.dstr, PTR, c.args[2])
class Delims(Base):
    sig = r"{C}::delimiters\(\) const"; optional = True
    def post(s, c): c.returns(s.lb(c).dlen, "the delimiters in use")
def nothing(c):
    """an empty optional"""
    r = Region("nothing", 16); c.st.mem[r] = Content(); c.eng.store(c.st, Ptr(r), 0, INT(64)); c.eng.store(c.st, Ptr(r, 8), 0, INT(8)); return [Ptr(r)]
def is_text(e, st, n, p, text):
    """(n, p) is this text"""
    return conj(eq(n, len(text)), *[eq(e.load(st, p.plus(i), INT(8)), ord(x)) for i, x in enumerate(text)]) if isinstance(p, Ptr) else False
DView = defaulted(View_, r"defaults::next_line_view\({C}&\)", nothing); DView.variants = ("search",)
DDrop = defaulted(DropLine, r"defaults::drop_line\({C}&\)", nothing); DDrop.variants = ("search",)
class DDelims(Base):
    sig = r"defaults::set_delimiters\({C}&\)"
    def post(s, c):
        lb = s.lb(c); e = c.eng; a, b = lb.dlen, lb.dstr; c.touch(a.r, a.c, a.c + 8); c.touch(b.r, b.c, b.c + 8)
        c.ensures("the delimiters are carriage return and newline", is_text(e, c.st, e.load(c.st, a, INT(64)), e.load(c.st, b, PTR), "\r\n"))
class DCtor(Ctor):
    sig = r"defaults::construct\({C}\*, unsigned long\)"
    def setup(s, c): return Ctor.setup(s, c)[:2]
    def post(s, c):
        lb = s.lb(c); e = c.eng; c.touch(c.args[0].r); v = lb.view(c.st); c.ensures("new buffer is well-formed", RB.inv(lb, c.st)); c.ensures("new buffer is empty with the requested capacity", conj(eq(v.n, 0), eq(v.cap, c.args[1]), eq(v.ow, 0)))
        c.ensures("the delimiters are carriage return and newline", is_text(e, c.st, e.load(c.st, lb.dlen, INT(64)), e.load(c.st, lb.dstr, PTR), "\r\n"))
def defaults():
    from . import timetext      # model of strlen of a literal
    return [k() for k in (DView, DDrop, DDelims, DCtor)]
ALL = [Length, HasLine, View_, GetLine, DropLine, PushView, Ctor, SetDelims, Delims]
def contracts(): return [k() for k in ALL]

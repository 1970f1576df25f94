"""Contracts for DateTime (structure/time/datetime).  What instant a calendar date denotes in a time zone is the C library's business
(mktime, gmtime_r are functions of the values they are given); that the right values are handed over and given back is proved, for
every time zone."""
from dv.contracts import *
from dv.models import model
from .strings import bytes_at, valid
from .timetext import cstr
from .units import sg, un
from . import timetext, logging                                 # models of strlen, globals
D = "DateTime"
I32, I64 = INT(32), INT(64)
OFF = {"tm_sec": 0, "tm_min": 4, "tm_hour": 8, "tm_mday": 12, "tm_mon": 16, "tm_year": 20, "tm_wday": 24, "tm_yday": 28, "tm_isdst": 32}
FIELDS = list(OFF)
GIVEN = ["tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_isdst"]
Z = z3.IntSort()
LOCAL = z3.Function("instant of a local date and time", *([Z] * len(GIVEN)), Z)
FIELD = {(k, f): z3.Function("%s %s of an instant" % (k, f[3:]), Z, Z) for k in ("local", "utc") for f in FIELDS}
def field(k, f, t): return FIELD[k, f](I(t))
def shape(e, st, k, p, t):
    """the broken-down time at p is that of the instant t"""
    for f in FIELDS:
        v = field(k, f, t); st.assume(z3.And(v >= -2 ** 31, v < 2 ** 31)); e.store(st, p.plus(OFF[f]), un(v, 32), I32)
    r = Region("zone", 8); e.store(st, p.plus(40), fint("offset"), I64); e.store(st, p.plus(48), Ptr(r), PTR)
@model(r"mktime", "mktime(tm): the instant is a function of year, month, day, hour, minute, second and daylight saving flag given (and the time zone); the broken-down time is replaced by that of the instant")
def _mktime(e, st, name, a, rty):
    v = [e.load(st, a[0].plus(OFF[f]), I32) for f in GIVEN]; v = [fint("undefined") if x is UNDEF else x for x in v]; t = LOCAL(*[I(sg(x, 32)) for x in v]); st.assume(z3.And(t >= -2 ** 62, t < 2 ** 62)); shape(e, st, "local", a[0], t); return un(t)
@model(r"gmtime_r", "gmtime_r(&instant, tm): the broken-down time of the instant in UTC")
def _gmtime(e, st, name, a, rty):
    shape(e, st, "utc", a[1], I(sg(e.load(st, a[0], I64)))); return a[1]
@model(r"strstr", "strstr of two literals")
def _strstr(e, st, name, a, rty):
    i = cstr(e, st, a[0]).find(cstr(e, st, a[1])); return a[0].plus(i) if i >= 0 else NULL
@model(r"strn?cmp|strn?casecmp", "strcmp, strncmp: comparison of texts whose characters are known")
def _strncmp(e, st, name, a, rty):
    x, y = bytes_at(e, st, a[0]), bytes_at(e, st, a[1]); n = a[2] if len(a) > 2 else 1 << 20
    if not isc(n): raise Unsupported("strncmp of variable length")
    low = (lambda v: v + 32 if 65 <= v <= 90 else v) if "case" in name else (lambda v: v)
    for k in range(n):
        p, q = x(k), y(k)
        if not (isc(p) and isc(q)): raise Unsupported("comparing unknown texts")
        if low(p) != low(q): return (low(p) - low(q)) % 2 ** 32
        if p == 0: return 0
    return 0
@model(r"(?:__isoc23_|__isoc99_)?sscanf", "sscanf(text, format, ...) for %d, %Nd, %Ns and literal characters, as documented")
def _sscanf(e, st, name, a, rty):
    at = bytes_at(e, st, a[0]); f = cstr(e, st, a[1]); out = list(a[2:]); pos = done = 0
    def kind(ch):
        if isc(ch): return "d" if 48 <= ch <= 57 else "s" if ch in (32, 9, 10, 13) else "0" if ch == 0 else "c"
        if e.pr.quick_valid(st.pc, B(conj(le(48, ch), le(ch, 57)))): return "d"
        raise Unsupported("scanning a character of unknown kind")
    blank = lambda p: blank(p + 1) if kind(at(p)) == "s" else p
    for tok in re.findall(r"%\d*[a-z]|.", f, re.S):
        if tok == " ": pos = blank(pos); continue
        if not tok.startswith("%"):
            if not isc(at(pos)) or at(pos) != ord(tok): return done
            pos += 1; continue
        w = int(re.sub(r"\D", "", tok) or 4096); pos = blank(pos); end = pos
        if tok[-1] in "di":
            sign = 1
            if isc(at(end)) and at(end) in (43, 45): sign = -1 if at(end) == 45 else 1; end += 1
            b = end
            while end - pos < w and kind(at(end)) == "d": end += 1
            if end == b: return done
            if tok[-1] == "i": e.oblige(st, "sscanf %i: a number with a leading zero is not decimal", conj(disj(ne(at(b), 48), end == b + 1)))
            v = 0
            for k in range(b, end): v = add(mul(v, 10), sub(at(k), 48))
            e.store(st, out[done], un(v if sign > 0 else sub(0, v), 32), I32)
        elif tok[-1] == "s":
            while end - pos < w and kind(at(end)) in "dc": end += 1
            if end == pos: return done
            e.oblige(st, "sscanf %s: the word fits its buffer", valid(e, out[done], end - pos + 1))
            for k in range(pos, end): e.store(st, out[done].plus(k - pos), at(k), INT(8))
            e.store(st, out[done].plus(end - pos), 0, INT(8))
        else: raise Unsupported("format " + f)
        pos = end; done += 1
    return done
@model(r"strftime", "strftime(buffer, size, format, tm): writes at most size bytes and returns the number of characters written")
def _strftime(e, st, name, a, rty):
    n = fint("formatted"); st.assume(z3.And(n >= 0, B(le(n, a[1])))); st.ghost["strftime"] = st.ghost.get("strftime", ()) + ((tuple(a), n),); return n

class DBase(Contract):
    def __init__(s): s.attach = D + "::" + s.sig
    def off(s, c, f): return c.eng.layouts.off(D, f, {"_unix_timestamp": 0, "_y2k_timestamp": 8, "_tm": 16}[f])
    def tm(s, c, f): return c.args[0].plus(s.off(c, "_tm") + OFF[f])
    def now(s, c, f, old=False): return c.eng.load(c.old if old else c.st, s.tm(c, f), I32)
    def made(s, c, t, kind):
        """the object is the instant t, broken down as kind"""
        e = c.eng; L = lambda f: e.load(c.st, c.args[0].plus(s.off(c, f)), I64); c.touch(c.args[0].r); s.statics(c); u, y = L("_unix_timestamp"), L("_y2k_timestamp")
        if c.mode == "use": raise Unsupported("a date made by a date")
        c.ensures("the Unix time is that of the instant", eq(u, un(t)) if u is not UNDEF else False)
        c.ensures("the time since 2000 is 946684800 s less", eq(y, un(sub(t, 946684800))) if y is not UNDEF else False)
        for f in FIELDS:
            v = s.now(c, f); c.ensures("%s is that of the instant in %s" % (f[3:], {"local": "the time zone", "utc": "UTC"}[kind]), eq(v, un(field(kind, f, t), 32)) if v is not UNDEF else False)
    def statics(s, c):
        """static variables of the constructors themselves"""
        for n in c.eng.mod.dem_globals:
            if c.eng.mod.dem_globals[n].startswith("DateTime::DateTime(") and c.eng.mod.glob(n) is not None: c.touch(c.eng.glob(c.st, n).r)
    def this(s, c, undef=False):
        r = Region("this", 72, init="undef" if undef else "lazy"); c.st.mem[r] = Content(); return Ptr(r)
class FromUnix(DBase):
    sig = r"DateTime\(long\)"
    def setup(s, c): t = fint("unix"); c.inputs.append(("unix", t)); c.st.assume(z3.And(t >= -2 ** 62, t < 2 ** 62)); c.t = t; return [s.this(c, True), un(t)]
    def post(s, c): s.made(c, I(sg(c.args[1])), "utc")
class FromFields(DBase):
    sig = r"DateTime\(int, int, int, int, int, int, int, int, int\)"
    def setup(s, c): return [s.this(c, True)] + [un(s.inp(c, n), 32) for n in ("year", "month", "day", "hour", "minute", "second", "weekday", "yearday", "dst")]
    def inp(s, c, n):
        v = fint(n); c.inputs.append((n, v)); c.st.assume(z3.And(v >= -10 ** 6, v <= 10 ** 6)); return v
    def post(s, c):
        y, mo, d, h, mi, sec, _, _, dst = [I(sg(x, 32)) for x in c.args[1:]]; s.made(c, LOCAL(sec, mi, h, d, mo - 1, y - 1900, dst), "local")
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
class FromText(DBase):
    """__DATE__ and __TIME__: every month, every day of one or two digits, every year of four, every time"""
    sig = r"DateTime\(char const\*, char const\*\)"; variants = tuple(m + d for m in MONTHS for d in (" d", " dd"))
    def text(s, c, name, pat):
        chs = [ord(ch) for ch in pat + "\0"]; ds = []
        for i, ch in enumerate(pat):
            if ch == "#": v = fint("%s[%d]" % (name, i)); c.inputs.append(("%s[%d]" % (name, i), v)); c.st.assume(z3.And(v >= 48, v <= 57)); ds.append(v - 48); chs[i] = v
        r = Region(name, len(chs), [Part(0, 1, len(chs), {0: ("int", 8)})]); r.scratch = True; c.st.mem[r] = Content()
        def at(k):
            if isc(k): return chs[k] if 0 <= k < len(chs) else 0
            out = z3.IntVal(0)
            for i, ch in enumerate(chs): out = z3.If(I(k) == i, I(ch), out)
            return out
        r.lazy[(0, 0, 0)] = at
        return Ptr(r), ds
    def setup(s, c):
        m, d = c.variant.split(" "); date, ds = s.text(c, "date", m + " " + (" #" if d == "d" else "##") + " ####"); time, ts = s.text(c, "time", "##:##:##")
        v = lambda l: sum(x * 10 ** (len(l) - 1 - i) for i, x in enumerate(l)); k = len(d)
        c.g.update(date=(v(ts[4:]), v(ts[2:4]), v(ts[:2]), v(ds[:k]), MONTHS.index(m), v(ds[k:]) - 1900)); return [s.this(c, True), date, time]
    def post(s, c): s.made(c, LOCAL(*[I(x) for x in c.g["date"]], z3.IntVal(-1)), "local")
class Get(DBase):
    def __init__(s, name, f, plus=0): s.f, s.plus = f, plus; s.sig = name + r"\(\) const"; DBase.__init__(s)
    def setup(s, c): return [s.this(c)]
    def pre(s, c):
        if s.f in OFF: c.requires("in range", lt(add(sg(s.now(c, s.f), 32), s.plus), 2 ** 31))
    def post(s, c):
        if s.f in OFF: c.returns(un(add(sg(s.now(c, s.f, True), 32), s.plus), 32), "the " + s.f[3:])
        else: c.returns(c.eng.load(c.old, c.args[0].plus(s.off(c, s.f)), I64), "the time made")
class Strf(DBase):
    sig = r"strf_DateTime\(char\*, unsigned long, char const\*\)"
    def setup(s, c):
        n = c.i("size"); b = Region("buffer", n); c.st.mem[b] = Content(); f = Region("format", 8); c.st.mem[f] = Content(); return [s.this(c), Ptr(b), n, Ptr(f)]
    def post(s, c):
        log = c.st.ghost.get("strftime", ()); c.ensures("the date is formatted once", len(log) == 1)
        if len(log) != 1: return
        (b, n, f, t), r = log[0]; e = c.eng; P = lambda p, q: e.ptr_eq(c.st, p, q)
        c.ensures("into the buffer given", conj(P(b, c.args[1]), eq(n, c.args[2]))); c.ensures("in the format given", P(f, c.args[3])); c.ensures("of this date", P(t, s.tm(c, "tm_sec"))); c.ensures("the length is returned", eq(c.ret, r))
GET = [Get("getYear", "tm_year", 1900), Get("getMonth", "tm_mon", 1), Get("getDay", "tm_mday"), Get("getHour", "tm_hour"), Get("getMinute", "tm_min"), Get("getSecond", "tm_sec"), Get("getWeekDay", "tm_wday"), Get("getYearDay", "tm_yday"), Get("getDST", "tm_isdst"), Get("getUnixTime", "_unix_timestamp"), Get("getY2kTime", "_y2k_timestamp")]
def datetime(): return [FromUnix(), FromFields(), FromText(), Strf()] + GET

# calls that leave out the last arguments (a unit of its own: the constructors are verified again, as part of the call)
DEpoch = defaulted(FromUnix, r"defaults::epoch\(DateTime\*\)", [0]); DDate = defaulted(FromFields, r"defaults::date\(DateTime\*, int, int, int\)", [0, 0, 0, 0, 0, 2 ** 32 - 1])
for K in (DEpoch, DDate): K.__init__ = lambda s: setattr(s, "attach", s.sig)
def default_arguments(): return [DEpoch(), DDate()]

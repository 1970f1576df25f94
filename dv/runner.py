"""Runs one property's check: extract IR from /repo, generate and discharge the obligations, run the conformance driver,
write evidence, report."""
import os, sys, re, json, time, subprocess, hashlib, multiprocessing as mp, traceback, glob, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)      # development only: run beside another run
BUILD = os.path.join(OUT, "build")
CLANG, OPT = "clang++-18", "opt-18"
CFLAGS = ["-std=gnu++17", "-DNATIVE", "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names",
          "-fstandalone-debug", "-g", "-fno-access-control", "-w", "-emit-llvm", "-S"]
PASSES = "sroa,simplifycfg,loop-simplify"
# second attempt at a function whose obligations fail while the real code shows no failing input: flags that steer a loop become control flow
THREAD = "sroa,early-cse,aggressive-instcombine,jump-threading,jump-threading,simplifycfg,loop-simplify"
THREAD_FLAGS = ["-jump-threading-across-loop-headers", "-jump-threading-threshold=60"]

class Unit:
    """one extraction (a harness file instantiating/including real repository code) and the contracts verified on it"""
    def __init__(s, harness, contracts, fp="ieee", setup=None, passes=PASSES, ob_timeout=20000, cflags=()):
        s.harness, s.contracts, s.fp, s.setup, s.passes, s.ob_timeout, s.cflags = harness, contracts, fp, setup, passes, ob_timeout, list(cflags)

class Prop:
    def __init__(s, pid, units, driver=None, assumptions=(), bounded=(), budget=(10, 60), driver_src=(), known=None, max_s=560):
        s.pid, s.units, s.driver, s.assumptions, s.bounded, s.budget, s.driver_src, s.max_s = pid, units, driver, list(assumptions), list(bounded), budget, list(driver_src), max_s

class BuildError(Exception): pass

def extract(unit, outdir, again=False):
    src = os.path.join(VERIF, "harness", unit.harness)
    ll = os.path.join(outdir, unit.harness.replace(".cpp", "") + ".ll"); ll2 = ll[:-3] + ".opt.ll"
    if again: ll2 = ll[:-3] + ".threaded.ll"
    else:
        p = subprocess.run([CLANG] + CFLAGS + unit.cflags + [src, "-o", ll], capture_output=True, text=True)
        if p.returncode: raise BuildError("extraction of %s failed:\n%s" % (unit.harness, p.stderr[-4000:]))
    p = subprocess.run([OPT, "-S"] + (THREAD_FLAGS + ["-passes=" + THREAD] if again else ["-passes=" + unit.passes]) + [ll, "-o", ll2], capture_output=True, text=True)
    if p.returncode: raise BuildError("opt failed on %s:\n%s" % (unit.harness, p.stderr[-2000:]))
    return ll2

_job = {}
def _model_text(o, ctx):
    try:
        if o.model is None or ctx is None: return None
        out = {}
        for nm, v in ctx.inputs or []:
            x = o.model.eval(v, model_completion=True); out[nm] = str(x)
        return out
    except Exception as ex: return {"error": str(ex)}

def known_loops():
    """functions with loops when the specifications were written (tools/known_loops.py)"""
    global _known
    if _known is None:
        try: _known = frozenset(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "specs", "known_loops.txt")).read().split("\n"))
        except OSError: _known = frozenset()
    return _known
_known = None
def _verify_one(args):
    ui, sym, ci, deadline = args
    import z3
    from . import models
    from .exec import Engine, Unsupported, Obligation
    unit, mod, lay, bound, contracts = _job[ui]
    c = contracts[ci]; t0 = time.time()
    e = Engine(mod, contracts=dict(bound), models=models.lookup, fp=getattr(c, "fp", None) or unit.fp, ob_timeout=unit.ob_timeout)
    e.layouts = lay; e.covers = []; e.deadline = deadline; e.cur_ctx = None; e.unit = unit
    for s2, c2 in bound.items():
        if hasattr(c2, "loop"): e.loop_specs[s2] = c2.loop
        if hasattr(c2, "loops"): e.loop_specs[s2] = c2.loops
    for c2 in contracts:
        for pat, f in getattr(c2, "inner_loops", {}).items():
            for n, d in mod.dem.items():
                if re.fullmatch(pat, d): e.loop_specs[n] = f
    e.known_loops = known_loops()
    fails = []
    def on_fail(o, st): fails.append(dict(name=o.name, fn=o.fn, where=o.where, status=o.status, backend=o.backend, model=_model_text(o, e.cur_ctx),
                                          goal=str(o.goal)[:600]))
    e.on_fail = on_fail
    if unit.setup: unit.setup(e)
    err = None; paths = 0
    try: paths = c.verify(e, sym)
    except Unsupported as x:
        err = "outside the verifier's reach: %s (at %s)" % (x, e.where)
    except RecursionError: err = "outside the verifier's reach: recursion depth (at %s)" % e.where
    except Exception as x:
        err = "verifier error: %r at %s\n%s" % (x, e.where, traceback.format_exc()[-6000 if os.environ.get("DV_TRACE") else -1500:])
    d = mod.dem.get(sym, sym)
    if err: fails.append(dict(name="function can be verified", fn=d, where=e.where, status="undecided", backend="-", model=None, goal=err))
    seen = {(f["name"], f["fn"]) for f in fails}
    for o in e.obligations:
        if o.status != "proved" and (o.name, o.fn) not in seen: fails.append(dict(name=o.name, fn=o.fn, where=o.where, status=o.status, backend=o.backend, model=None, goal=str(o.goal)[:600]))
    return dict(fn=d, sym=sym, paths=paths, obligations=len([o for o in e.obligations]), discharged=len([o for o in e.obligations if o.status == "proved"]),
                covers=len(e.covers), by={k: v[0] for k, v in e.pr.stats.items()}, solver_s=sum(v[1] for v in e.pr.stats.values()), wall=time.time() - t0,
                fails=fails, real=e.real_used, inlined=sorted(e.inlined), used=sorted(mod.dem.get(n, n) for n in e.used_contracts), models=sorted(e.used_models),
                termination=e.termination, slowest=sorted([(round(o.time, 2), o.name) for o in e.obligations], reverse=True)[:2])

def retry(prop, outdir, res, deadline):
    """the failing functions once more, with flags threaded into control flow (same contracts, same back ends); a function counts as proved if all its obligations are discharged"""
    only = {r["sym"] for r in res if r["fails"] and r["sym"]}
    if not only or any(r["fails"] and not r["sym"] for r in res): return res, []
    try: new, _ = run_proofs(prop, outdir, [], only, deadline)
    except BuildError: return res, []
    by = {}
    for r in new: by.setdefault((r["ui"], r["ci"], r["sym"]), []).append(r)
    out = []; done = []
    for r in res:
        q = by.get((r.get("ui"), r.get("ci"), r["sym"]))
        if r["fails"] and q and not any(x["fails"] for x in q): out += q; done.append(r["fn"])
        else: out.append(r)
    return out, done

def run_proofs(prop, outdir, log, only=None, until=None):
    from . import models
    from .ir import Module
    from .dwarf import Layouts
    from .contracts import attach
    jobs = []; res = []; missing = []; trusted = []
    _job.clear()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: lls = list(ex.map(lambda u: extract(u, outdir, only is not None), prop.units))
    deadline = until or time.time() + prop.max_s
    for ui, (unit, ll) in enumerate(zip(prop.units, lls)):
        mod = Module(ll)
        class _E: pass
        cs = unit.contracts() if callable(unit.contracts) else list(unit.contracts)
        fe = _E(); fe.mod = mod
        bound = attach(fe, cs)
        _job[ui] = (unit, mod, Layouts(mod), bound, cs)
        for ci, c in enumerate(cs):
            if c.trusted:
                trusted += [mod.dem.get(s, s) for s in c.symbols if s in mod.funcs]; continue
            syms = [s for s in c.symbols if mod.func(s) is not None and not mod.func(s).is_decl]
            # constructors/destructors exist as C1/C2 (complete/base) variants with one body each
            if not syms:
                if not getattr(c, "optional", False): missing.append((unit.harness, c.attach))
                continue
            for s in syms:
                if only is None or s in only: jobs.append((ui, s, ci, deadline))
    if jobs:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(8, len(jobs)), maxtasksperchild=4) as pool:
            asyncs = [(j, pool.apply_async(_verify_one, (j,))) for j in jobs]
            for j, a in asyncs:
                try: res.append(dict(a.get(timeout=max(5, deadline + 60 - time.time())), ui=j[0], ci=j[2]))
                except mp.TimeoutError:
                    d = _job[j[0]][1].dem.get(j[1], j[1])
                    res.append(dict(fn=d, sym=j[1], paths=0, obligations=1, discharged=0, covers=0, by={}, solver_s=0, wall=prop.max_s, inlined=[], used=[], models=[], termination=[], slowest=[],
                                    fails=[dict(name="function can be verified", fn=d, where=None, status="undecided", backend="-", model=None, goal="time budget")], ui=j[0], ci=j[2]))
            pool.terminate()
    for h, pat in missing if only is None else []:
        res.append(dict(fn=pat, sym=None, paths=0, obligations=1, discharged=0, covers=0, by={}, solver_s=0, wall=0, inlined=[], used=[], models=[], termination=[], slowest=[],
                        fails=[dict(name="function under contract exists in the extracted code", fn=pat, where=h, status="undecided", backend="-", model=None, goal="no definition matches " + pat)]))
    return res, trusted

DRIVER_BUILDS = (("gcc", ["g++"], 0), ("gcc", ["g++"], 100), ("clang-pattern", ["clang++-18", "-ftrivial-auto-var-init=pattern", "-fno-sanitize=function"], 200))
# (name, compiler, seed offset): the second compiler fills every automatic variable with a pattern, so that reading a member that was never written shows

def build_driver(prop, outdir, name="gcc", cc=("g++",)):
    exe = os.path.join(outdir, "driver-" + name)
    srcs = [os.path.join(VERIF, "drivers", prop.driver)] + [os.path.join(REPO, "src", x) for x in prop.driver_src]
    flags = list(cc[:1]) + ["-std=gnu++17", "-DNATIVE", "-I" + REPO + "/src", "-I" + VERIF + "/drivers", "-O1", "-g1", "-w", "-fno-access-control", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"] + list(cc[1:])
    objs = []
    def one(s):
        o = os.path.join(outdir, hashlib.md5((name + s).encode()).hexdigest()[:10] + ".o")
        p = subprocess.run(flags + ["-c", s, "-o", o], capture_output=True, text=True)
        if p.returncode: raise BuildError("driver build failed on %s:\n%s" % (s, p.stderr[-3000:]))
        return o
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, srcs))
    p = subprocess.run(flags + objs + ["-o", exe], capture_output=True, text=True)
    if p.returncode: raise BuildError("driver link failed:\n" + p.stderr[-3000:])
    return exe

def run_driver(exe, seed, tier, budget, hints=None, extra=()):
    env = dict(os.environ); env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, DRIVER_BUDGET=str(budget), ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:exitcode=77",
                                       UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78")
    if hints: env["DRIVER_HINTS"] = ";".join("%s=%s" % kv for h in hints for kv in h.items())
    try:
        p = subprocess.run([exe] + list(extra), capture_output=True, text=True, errors="replace", env=env, timeout=budget * 6 + 60, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        out = t.stdout or b""
        return -999, out.decode(errors="replace") if isinstance(out, bytes) else out, "timeout (does not terminate)"

def build_drivers(prop, outdir):
    """the gcc build is the driver; the other build is added where it compiles"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        names = {n: ex.submit(build_driver, prop, outdir, n, cc) for n, cc in {n: cc for n, cc, _ in DRIVER_BUILDS}.items()}
        names["gcc"].result()
    out = []
    for n, cc, off in DRIVER_BUILDS:
        try: out.append((n, names[n].result(), off))
        except BuildError: pass
    return out

def run_drivers(drivers, seed, tier, budget, hints=None):
    """all builds at once, each with its own seed; the first one that reports a failing case decides"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(drivers)) as ex:
        rs = list(ex.map(lambda d: run_driver(d[1], seed + d[2], tier, budget, hints), drivers))
    bad = [(r, d) for r, d in zip(rs, drivers) if r[0] != 0]
    bad.sort(key=lambda b: not re.search(r'^FAIL ', b[0][1], re.M))
    return bad[0] if bad else (rs[0], drivers[0])

def main(prop, tier, seed, known):
    t0 = time.time()
    outdir = os.path.join(BUILD, prop.pid); os.makedirs(outdir, exist_ok=True)
    rdir = os.path.join(OUT, "replays"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop.pid + ".txt")
    log = []
    budget = prop.budget[1 if tier == "thorough" else 0]
    drv = None; derr = None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(build_drivers, prop, outdir) if prop.driver else None
        try: res, trusted = run_proofs(prop, outdir, log)
        except BuildError as e:
            # the current source cannot be brought to the verifier: nothing is proved, only the driver can still speak
            print(e, file=sys.stderr)
            res = [dict(fn=prop.pid, sym=None, paths=0, obligations=1, discharged=0, covers=0, by={}, solver_s=0, wall=0, inlined=[], used=[], models=[], termination=[], slowest=[],
                        fails=[dict(name="the code under contract can be extracted", fn=prop.pid, where=None, status="undecided", backend="-", model=None, goal=str(e)[:4000])])]
            trusted = []
        if fut:
            try: drv = fut.result()
            except BuildError as e: derr = str(e)
    if derr: print(derr, file=sys.stderr)      # the proof decides; without the driver there is only no replay
    fails = [f for r in res for f in r["fails"]]
    nob = sum(r["obligations"] for r in res); ndis = sum(r["discharged"] for r in res)
    drc, dout, dser = (0, "", "")
    hints = [f["model"] for f in fails if f.get("model")]
    which = ""
    if drv:
        (drc, dout, dser), d = run_drivers(drv, seed, tier, budget, hints)
        which = "%s build, seed %d" % (d[0], seed + d[2])
    m = re.search(r'^COVERED (.*)$', dout, re.M)
    dcov = m.group(1) if m else None
    failing = None
    if drv and drc != 0:
        fl = re.findall(r'^FAIL (.*)$', dout, re.M)
        failing = fl[0] if fl else "abnormal end of the driver (exit %s)\n%s" % (drc, (dser or dout)[-3000:])
    threaded = []
    if fails and drv and not failing and time.time() - t0 < 700:
        res, threaded = retry(prop, outdir, res, t0 + 780)
        if threaded:
            fails = [f for r in res for f in r["fails"]]; nob = sum(r["obligations"] for r in res); ndis = sum(r["discharged"] for r in res)
    # known findings: entries match the named obligation or the driver's failing case
    kn = []
    for k in known:
        if k["property"] != prop.pid: continue
        kn.append(k)
    unknown = []
    for f in fails:
        txt = "%s :: %s" % (f["fn"], f["name"])
        if not any(re.search(k["obligation"], txt) for k in kn if k.get("obligation")): unknown.append(f)
    viol = bool(unknown) or bool(failing)
    by = {}
    for r in res:
        for k, v in r["by"].items(): by[k] = by.get(k, 0) + v
    term_bad = sorted({t[0] for r in res for t in r["termination"] if not t[1]})
    ev = dict(property=prop.pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=int(viol),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd="python3-vt check.py %s  (clang++-18 extraction of /repo, obligations discharged by z3 %s, cvc5 as fallback)" % (prop.pid, _z3v()),
                            trusted_base=sorted({"clang 18 front end and opt passes %s (the IR verified here is extracted from /repo on this run; the shipped build uses gcc)" % PASSES,
                                                 "the obligation generator in /verif/dv", "z3"} | ({"cvc5"} if by.get("cvc5") else set()) | {"assumed: " + t for r in res for t in r["models"]} | {"assumed contract: " + t for t in trusted if any(t in r["used"] for r in res)}),
                            functions_under_contract=sorted({r["fn"] for r in res if r["sym"]}),
                            functions_inlined_into_their_callers=sorted({x for r in res for x in r["inlined"]}),
                            functions_proved_with_flags_threaded_into_control_flow=threaded,
                            paths=sum(r["paths"] for r in res), obligations_by_backend=by, solver_seconds=round(sum(r["solver_s"] for r in res), 2),
                            precondition_covers=sum(r["covers"] for r in res),
                            loops_with_termination_bound=len({t[0] for r in res for t in r["termination"] if t[1]}), loops_without_termination_proof=term_bad,
                            per_function=[dict(function=r["fn"], obligations=r["obligations"], discharged=r["discharged"], paths=r["paths"], seconds=round(r["wall"], 2)) for r in res],
                            bounded_stand_ins=prop.bounded,
                            conformance_driver=dict(program=prop.driver, covered=dcov, role="replays contract-level oracles on the gcc+ASan/UBSan build of /repo; finds a failing input when an obligation fails; never counted as proof") if prop.driver else None),
              assumptions=prop.assumptions + _note(prop.pid) + (["machine floating point is treated as exact real arithmetic (no rounding, NaN or infinities) in: " + "; ".join(sorted({r["fn"] for r in res if r.get("real")}))] if any(r.get("real") for r in res) else []) + ["memory allocation succeeds; capacities/lengths stay below 2^60 elements", "exceptional (throwing) control flow is excluded by obligation, cleanup code behind it is dropped",
                                              "objects passed by distinct parameters do not overlap unless a contract variant says so"])
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", prop.pid + ".json"), "w"), indent=1)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, k["what"]))
    if nob == 0 and prop.units:
        unknown.append(dict(name="obligations were generated", fn=prop.pid, where=None, status="undecided", backend="-", model=None, goal="zero obligations")); viol = True
    if not viol:
        if os.path.exists(rpath): os.remove(rpath)
        print("%s: %d obligations on %d functions discharged (%s), %.1fs%s" % (prop.pid, ndis, len({r['fn'] for r in res}), ", ".join("%s %d" % kv for kv in by.items() if kv[1]), time.time() - t0, "; conformance driver: " + dcov if dcov else ""))
        return 0
    with open(rpath, "w") as f:
        f.write("property %s, tier %s, seed %s\n\n" % (prop.pid, tier, seed))
        if failing:
            f.write("FAILING INPUT on the real code (driver drivers/%s, %s):\n%s\n\nrerun: cd /verif && VERIF_SEED=%s VERIF_TIER=%s python3-vt check.py %s\n\n" % (prop.driver, which, failing, seed, tier, prop.pid))
            f.write("driver stdout (tail):\n%s\n\ndriver stderr (tail):\n%s\n\n" % (dout[-3000:], dser[-4000:]))
        f.write("FAILED OBLIGATIONS (%d of %d):\n" % (len(unknown), nob))
        for x in unknown: f.write("- %s\n    obligation: %s\n    at: %s\n    solver: %s (%s)\n    counterexample inputs: %s\n    goal: %s\n" % (x["fn"], x["name"], x["where"], x["status"], x["backend"], x["model"], x["goal"]))
    for x in unknown[:6]: print("obligation failed: %s :: %s [%s]" % (x["fn"], x["name"], x["status"]))
    if failing: print("failing input: " + failing.split("\n")[0][:400])
    print("VIOLATION property=%s replay=%s%s" % (prop.pid, rpath, "" if failing else " no-failing-input-found"))
    return 1

def _note(pid):
    from specs.meta import META
    return [m["note"] for m in META if m["id"] == pid and m["note"]]
def _z3v():
    import z3
    return z3.get_version_string()

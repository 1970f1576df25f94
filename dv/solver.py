"""Path conditions and the solver back ends (z3 incremental, z3 one-shot, cvc5)."""
import time, z3, subprocess, os, tempfile
from .term import *

_noq = {}          # terms known to contain no quantifier (kept alive, so that their ids are not reused)
def has_quantifier(f):
    stack = [f]; seen = []
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            for i in seen: del _noq[i]
            return True
        i = x.get_id()
        if i in _noq: continue
        _noq[i] = x; seen.append(i); stack.extend(x.children())
    return False
class PC:
    """persistent list of assumed formulas"""
    __slots__ = ("parent", "f", "depth", "q", "anyq")
    def __init__(s, parent, f):
        s.parent, s.f = parent, f; s.depth = parent.depth + 1 if parent else 0
        s.q = f is not None and has_quantifier(f); s.anyq = s.q or (parent is not None and parent.anyq)
    def chain(s):
        out = []; x = s
        while x.parent is not None: out.append(x); x = x.parent
        return out[::-1]
    def formulas(s): return [x.f for x in s.chain()]

class Prover:
    def __init__(s, ob_timeout=20000, feas_timeout=1500):
        s.solver = z3.Solver(); s.solver.set("timeout", feas_timeout)
        s.stack = []
        s.qf = z3.Solver(); s.qfstack = []        # the same path condition without its quantified formulas (sound for unsat)
        s.ob_timeout, s.feas_timeout = ob_timeout, feas_timeout
        s.stats = {"z3": [0, 0.0], "z3-oneshot": [0, 0.0], "cvc5": [0, 0.0], "simplifier": [0, 0.0]}
        s.queries = 0; s.retries = 2
        s.axioms = []
    def add_axiom(s, f):
        """global, always-true background axiom (recorded)"""
        s.axioms.append(f)
        s.solver.reset(); s.stack = []
        s.solver.set("timeout", s.feas_timeout)
        for a in s.axioms: s.solver.add(a)
    def syncqf(s, pc):
        ch = [x for x in pc.chain() if not x.q]; k = 0
        while k < len(ch) and k < len(s.qfstack) and s.qfstack[k] is ch[k]: k += 1
        if len(s.qfstack) > k: s.qf.pop(len(s.qfstack) - k); del s.qfstack[k:]
        for x in ch[k:]: s.qf.push(); s.qf.add(x.f); s.qfstack.append(x)
    def check2(s, pc, f, short):
        """unsat when the path condition and f are contradictory: quantifier-free part first"""
        t = time.time(); s.queries += 1
        fq = f is not None and has_quantifier(f)
        try:
            if pc.anyq or fq:
                s.syncqf(pc); s.qf.set("timeout", s.feas_timeout)
                r = s.qf.check(f) if f is not None and not fq else s.qf.check()
                if r == z3.unsat: return r
                s.sync(pc); s.solver.set("timeout", short)
                return s.solver.check(f) if f is not None else s.solver.check()
            s.sync(pc); s.solver.set("timeout", s.feas_timeout)
            return s.solver.check(f) if f is not None else s.solver.check()
        finally: s.stats["z3"][1] += time.time() - t
    def sync(s, pc):
        ch = pc.chain()
        k = 0
        while k < len(ch) and k < len(s.stack) and s.stack[k] is ch[k]: k += 1
        if len(s.stack) > k:
            s.solver.pop(len(s.stack) - k); del s.stack[k:]
        for x in ch[k:]:
            s.solver.push(); s.solver.add(x.f); s.stack.append(x)
    def feasible(s, pc, f=None):
        """False only when definitely infeasible"""
        if f is not None and isinstance(f, bool):
            if not f: return False
            f = None
        return s.check2(pc, f, 250) != z3.unsat
    def quick_valid(s, pc, f):
        """True only when f is definitely implied (used to drop wrap-around terms)"""
        if isinstance(f, bool): return f
        return s.check2(pc, z3.Not(f), 250) == z3.unsat
    def prove(s, pc, goal, timeout=None):
        """-> (status, backend, model) with status in proved/refuted/unknown"""
        if goal is True: s.stats["simplifier"][0] += 1; return "proved", "simplifier", None
        if goal is False: goal = z3.BoolVal(False)
        timeout = timeout or s.ob_timeout
        s.sync(pc); t = time.time()
        s.solver.set("timeout", min(timeout, 4000))
        r = s.solver.check(z3.Not(goal)); dt = time.time() - t; s.stats["z3"][1] += dt; s.queries += 1
        if r == z3.unsat: s.stats["z3"][0] += 1; return "proved", "z3", None
        if r == z3.sat: return "refuted", "z3", s.solver.model()
        return s.prove_hard(pc, goal, timeout)
    def prove_hard(s, pc, goal, timeout):
        fs = s.axioms + pc.formulas()
        t = time.time()
        one = z3.Solver(); one.set("timeout", timeout)
        for f in fs: one.add(f)
        one.add(z3.Not(goal))
        r = one.check(); s.stats["z3-oneshot"][1] += time.time() - t
        if r == z3.unsat: s.stats["z3-oneshot"][0] += 1; return "proved", "z3-oneshot", None
        if r == z3.sat: return "refuted", "z3-oneshot", one.model()
        t = time.time()
        try:
            txt = "(set-logic ALL)\n" + one.to_smt2()
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
            out = p.stdout.strip().split("\n")[0] if p.stdout else ""
        except Exception as e:
            out = ""
        s.stats["cvc5"][1] += time.time() - t
        if out == "unsat": s.stats["cvc5"][0] += 1; return "proved", "cvc5", None
        if out == "sat": return "refuted", "cvc5", None
        if s.retries > 0:
            s.retries -= 1
            return s.prove_race(one.to_smt2(), 3 * timeout)
        return "unknown", "z3+cvc5", None
    def prove_race(s, smt, timeout):
        """last resort before an obligation counts as undischarged: several solver configurations at once, with more time"""
        t = time.time(); fd, path = tempfile.mkstemp(suffix=".smt2")
        with os.fdopen(fd, "w") as f: f.write("(set-logic ALL)\n" + smt)
        k = "-T:%d" % (timeout // 1000)
        cmds = [["z3-new", k, "smt.random_seed=%d" % i, "sat.random_seed=%d" % i, path] + x for i, x in ((7, []), (23, ["smt.arith.solver=2"]), (99, ["smt.mbqi=false"]))] + [["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "--full-saturate-quant", path]]
        ps = []
        for c in cmds:
            try: ps.append((c[0], subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, text=True)))
            except OSError: pass
        res = "unknown", "z3+cvc5", None; live = list(ps); end = t + timeout / 1000 + 5
        while live and time.time() < end:
            for x in list(live):
                if x[1].poll() is None: continue
                live.remove(x); out = x[1].stdout.read().split("\n")[0].strip(); be = "cvc5" if x[0] == "cvc5" else "z3-oneshot"
                if out == "unsat": s.stats[be][0] += 1; res = "proved", be, None; live = []; break
                if out == "sat" and "smt.mbqi=false" not in x[1].args: res = "refuted", be, None; live = []; break
            time.sleep(0.05)
        for x in ps:
            if x[1].poll() is None: x[1].kill()
            x[1].wait(); x[1].stdout.close()
        os.unlink(path); s.stats["z3-oneshot"][1] += time.time() - t
        return res

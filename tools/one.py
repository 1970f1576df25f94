"""verify only the functions of a property whose name matches a regex: tools/one.py P03 pull_in_data"""
import sys, re, os, time
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from specs import registry; from dv import runner, models; from dv.ir import Module; from dv.dwarf import Layouts; from dv.contracts import attach
p = registry.get(sys.argv[1]); pat = sys.argv[2]; out = "/tmp/w/one"; os.makedirs(out, exist_ok=True)
for ui, u in enumerate(p.units):
    mod = Module(runner.extract(u, out)); cs = u.contracts() if callable(u.contracts) else list(u.contracts)
    class _E: pass
    fe = _E(); fe.mod = mod; bound = attach(fe, cs); runner._job[ui] = (u, mod, Layouts(mod), bound, cs)
    for ci, c in enumerate(cs):
        for s in c.symbols:
            d = mod.dem.get(s, s)
            if mod.func(s) is None or mod.func(s).is_decl or not re.search(pat, d) or c.trusted: continue
            t = time.time(); r = runner._verify_one((ui, s, ci, time.time() + 600))
            print("%s: %d/%d paths %d %.1fs %s" % (re.sub(r"spn::(\w+::)*|structure::|units::", "", d)[:100], r["discharged"], r["obligations"], r["paths"], time.time() - t, [(round(x, 1), n[:60]) for x, n in r["slowest"] if x > 1]))
            for f in r["fails"]: print("   FAIL", f["name"], "|", f["where"], "|", f["status"], "|", f["model"], "|", f["goal"][:int(os.environ.get("G", "300"))].replace("\n", " "))

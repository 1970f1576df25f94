"""functions of a property's extraction (matching a regex) that no contract is attached to: tools/unbound.py P07 'units::Unit<'"""
import sys, re, os
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from specs import registry; from dv import runner; from dv.ir import Module; from dv.contracts import attach
p = registry.get(sys.argv[1]); out = "/tmp/w/one"; os.makedirs(out, exist_ok=True)
for u in p.units:
    mod = Module(runner.extract(u, out)); cs = u.contracts() if callable(u.contracts) else list(u.contracts)
    class _E: pass
    fe = _E(); fe.mod = mod; b = attach(fe, cs)
    for n in sorted(mod.funcs):
        f = mod.func(n); d = mod.dem.get(n, n)
        if f is None or f.is_decl or n in b or not re.search(sys.argv[2] if len(sys.argv) > 2 else "", d): continue
        print(d[:300])

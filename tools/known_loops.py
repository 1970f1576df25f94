"""write specs/known_loops.txt: the functions of the units under contract that contain loops (run on the tree the specifications were written for)"""
import sys, os, tempfile
sys.path.insert(0, "/verif")
from specs import registry; from dv import runner; from dv.ir import Module
names = set()
with tempfile.TemporaryDirectory() as out:
    for p in registry.PROPS:
        for u in registry.get(p).units:
            mod = Module(runner.extract(u, out))
            for n, d in mod.dem.items():
                f = mod.func(n)
                if f is not None and not f.is_decl and f.loops: names.add(d)
open("/verif/specs/known_loops.txt", "w").write("\n".join(sorted(names)) + "\n"); print(len(names))

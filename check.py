#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on /repo's current tree (see DESIGN.md)."""
import os, sys, json
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from dv import runner
from specs import registry
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(sys.argv) > 2: tier = sys.argv[2]
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    sys.exit(runner.main(registry.get(pid), tier, seed, known))

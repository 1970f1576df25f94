"""writes properties.jsonl and MANIFEST.json from specs/meta.py and specs/registry.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from specs.meta import META
from specs import registry
TECH = "contract-based deductive verification of the real code (VC generation over LLVM IR extracted from /repo, z3/cvc5), with a conformance driver for replay"
NOTE = "Every obligation of every function under contract is regenerated from /repo's current source and discharged for all inputs. Trusted: clang's translation to IR (exceptional paths dropped), the VC generator dv/, z3/cvc5, the assumed library contracts listed in the evidence. The driver is a bounded check that supplies failing inputs and is not counted as proof."
with open(V + "/properties.jsonl", "w") as f:
    for m in META:
        f.write(json.dumps(dict(id=m["id"], title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
            anchors=dict(files=m["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in m["state"]], mechanism=[dict(name=a, where=b) for a, b in m["mech"]], observe_at=list(m["observe"]), hook_needed=None))) + "\n")
checks = []; na = []
for m in META:
    if m["na"] or m["id"] not in registry.PROPS:
        na.append(dict(property=m["id"], reason=m["na"] or "no check built yet")); continue
    checks.append(dict(property=m["id"], quick_cmd="python3-vt check.py %s" % m["id"], thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % m["id"],
        evidence_file="evidence/%s.json" % m["id"], technique=TECH, level="proof", level_note=(m["note"] + " " if m["note"] else "") + NOTE))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; sys.path.insert(0, \".\"); from specs import registry'", checks=checks, not_applicable=na,
    notes="No hooks were added to /repo; harnesses only include and instantiate the real sources. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

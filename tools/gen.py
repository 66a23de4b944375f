#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The existing tests run eight fixed shear set-ups and look only at the number of Newton iterations; "
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=TESTS + p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="All checks: check.py <property> compiles /repo's current sources to LLVM IR, executes harness + real functions symbolically and decides every assertion with z3; see DESIGN.md.")
for p in PROPS:
    if p["id"] in [a for a, b in NA]: continue
    m["checks"].append(dict(property=p["id"], quick_cmd=f"python3-vt check.py {p['id']} quick", thorough_cmd=f"python3-vt check.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
        technique="bounded symbolic execution of the compiled code, SMT-decided", level="other",
        level_note=p.get("level_note", "Solver verdict for all values within the stated bounds (grid sizes, paths); arithmetic is exact real arithmetic, not IEEE rounding; trusts the LLVM front end, the engine's libc models (validated against native runs on every check) and z3. Counterexamples are replayed natively before they are reported.")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

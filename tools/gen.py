#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (the single source of both)."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/tools")
from props import PROPS, NA
TECH = ("solver-based symbolic execution of the real code: /repo's C++ is lowered to LLVM bitcode on every run and executed by a "
        "symbolic executor whose path conditions and assertions are decided by Z3; counterexamples are replayed on an ASan build of the same sources")
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["obs"]}}) + "\n")
na = {i for i, _ in NA}
checks = [{
    "property": p["id"],
    "quick_cmd": f"python3 run.py {p['id']} --tier quick",
    "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
    "technique": TECH, "level": "model_checking",
    "level_note": p["note"]} for p in PROPS if p["id"] not in na]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)

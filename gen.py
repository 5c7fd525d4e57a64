#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NA
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + [x["prop"] for x in NA]:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("obs", []), "hook_needed": None}}) + "\n")
T = "solver-based symbolic execution of LLVM IR compiled from /repo on each run (own interpreter, z3); counterexamples replayed natively"
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine OUT=/verif/.build/engine",
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": T, "level": "model_checking", "level_note": p["note"]} for p in PROPS],
           "not_applicable": [{"property": x["prop"]["id"], "reason": x["reason"]} for x in NA],
           "notes": "Harnesses and bounds are listed in specs.py; genuine defects in known_findings.txt; no hooks were added to /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

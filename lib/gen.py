#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import os
import checks
from props import PROPS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(checks, "NOT_APPLICABLE", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i, p in sorted(PROPS.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), (i, x)
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "./check --tools",
     "checks": [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]}
                for i, p in sorted(PROPS.items()) if i in checks.CHECKS],
     "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA.items())],
     "notes": "Each check compiles what it needs from /repo against the stand-in for score_baselibs in /verif/shim."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", [i for i in PROPS if i not in checks.CHECKS and i not in NA], "without")

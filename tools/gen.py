#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and tools/bounds.json from one table, so that they stay in step."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS
from claims import CLAIMS, NOT_APPLICABLE, ASSUMPTIONS

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for c in CLAIMS + NOT_APPLICABLE:
        files = c["files"]
        f.write(json.dumps({
            "id": c["id"], "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c.get("over", ["inputs"]), "text": c["quantifier"]},
            "why_tests_cant": c["tests"],
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in c["mechanism"]],
                        "observe_at": c.get("observe", ["public API"]), "hook_needed": None},
        }) + "\n")
checks = []
for c in CLAIMS:
    assert c["id"] in PROPS, c["id"]
    checks.append({
        "property": c["id"],
        "quick_cmd": "python3 check.py " + c["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + c["id"],
        "evidence_file": "evidence/%s.json" % c["id"],
        "technique": c.get("technique", "bounded symbolic execution of the compiled code (Kani/CBMC, SAT)"),
        "level": "other",
        "level_note": "Solver verdict over every value within the bounds; nothing is claimed outside them. Bounds: " + c["bounds"],
    })
assert {c["id"] for c in CLAIMS} == set(PROPS), {c["id"] for c in CLAIMS} ^ set(PROPS)
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
           "not_applicable": [{"property": c["id"], "reason": c["reason"]} for c in NOT_APPLICABLE],
           "notes": "No hooks: every property is observed through the public API. DESIGN.md explains the method."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
json.dump(dict({c["id"]: c["bounds"] for c in CLAIMS}, _assumptions=ASSUMPTIONS), open(os.path.join(VERIF, "tools", "bounds.json"), "w"), indent=1)

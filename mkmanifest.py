#!/usr/bin/env python3
"""Regenerates MANIFEST.json from table.py and properties.jsonl."""
import json
from table import CHECKS, NA
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "All checks: python3 check.py <property> <tier>; they analyse /repo/src from its current working tree with the analyser in engine/. No hooks in /repo are needed."}
for p in props:
    if p["id"] in CHECKS:
        c = CHECKS[p["id"]]
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                            "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        assert p["id"] in NA, p["id"]
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

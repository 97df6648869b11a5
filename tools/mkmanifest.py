#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
table = json.load(open(root + "/tools/checks.json"))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are property-based tests driven by proptest generators; see DESIGN.md. No hooks in /repo are needed."}
for i in ids:
    if i in table:
        t = table[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")

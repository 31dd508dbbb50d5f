#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json
checks = json.load(open("checks.json"))
props = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
na = json.load(open("not_applicable.json"))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": p, "reason": na.get(p, "the check for it is not finished yet")} for p in props if p not in checks],
     "notes": "see DESIGN.md; known findings are in known-findings.txt"}
for p in props:
    if p in checks:
        c = checks[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "technique": c["technique"], "level": c["level"], "level_note": c["level_note"]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py and properties.jsonl."""
import json, os
from table import CHECKS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": c.get("technique", "property-based testing: coverage-guided generated histories against a reference model, with shrinking"),
            "level": "exploration",
            "level_note": c.get("note", "Generated cases only, with sanitizers and assertions on; absence of violations outside the explored cases is not shown."),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed: no check built")})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

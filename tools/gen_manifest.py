#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/plans.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plans

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        pl = plans.PLANS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py " + i,
            "thorough_cmd": "python3 bin/check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": pl.technique,
            "level": pl.level,
            "level_note": pl.note,
        })
    else:
        na.append({"property": i, "reason": plans.NOT_APPLICABLE[i]})
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified program from outside", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. The tier and the seed are read from VERIF_TIER and VERIF_SEED.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

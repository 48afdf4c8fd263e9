#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED: property -> (level, technique, note)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "claims.py")).read())
checks = []
for p in sorted(CLAIMED):
    level, tech, note = CLAIMED[p]
    checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                   "technique": tech, "level": level, "level_note": note})
na = []
for i in range(1, 21):
    p = f"C{i:02d}"
    if p not in CLAIMED:
        na.append({"property": p, "reason": NOT.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")

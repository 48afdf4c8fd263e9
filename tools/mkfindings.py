#!/usr/bin/env python3
"""Writes known-findings.json: one entry per "fix:" commit of /repo plus the open findings listed in findings.py."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
KNOWN, FIXES = [], []
exec(open(os.path.join(here, "findings.py")).read())
out = list(KNOWN)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
left = list(FIXES)
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [f for f in left if f[1] in s]
    if not m:
        print("no property for", s); continue
    f = m[0]; left.remove(f)
    what = s[5:]
    out.append({"Property": f[0], "Key": "", "Status": "fixed", "Commit": h, "What": f"fixed: property={f[0]} {h} {what}"})
for f in left: print("no commit for", f)
json.dump(out, open(os.path.join(here, "..", "known-findings.json"), "w"), indent=1)
open(os.path.join(here, "..", "known-findings.json"), "a").write("\n")

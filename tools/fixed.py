#!/usr/bin/env python3
"""fixed.py PROP COMMIT...: records repairs in known-findings.json."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
d = json.load(open(p))
for c in sys.argv[2:]:
    h, m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().split(" ", 1)
    assert m.startswith("fix: ")
    e = f"fixed: property={sys.argv[1]} {h} {m[5:]}"
    if not any(h in f for f in d["fixed"]):
        d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)

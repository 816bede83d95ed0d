#!/usr/bin/env python3
"""kf.py <prop> <commit> <what>: appends a 'fixed' entry to known_findings.json (development tool, never run by a check)"""
import json, subprocess, sys
p, c, w = sys.argv[1:4]
f = '/verif/known_findings.json'
d = json.load(open(f))
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', c], text=True).strip()
d["findings"].append({"property": p, "status": "fixed", "commit": h, "what": w, "line": f"fixed: property={p} {h[:7]} {w}"})
json.dump(d, open(f, 'w'), indent=1)

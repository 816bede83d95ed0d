#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below. Run after editing."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": "abstract state", "meaning": state, "where": files[0]}]
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(V, "tools", "props.py")).read())

json.dump({}, open(os.devnull, "w"))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    pid = p["id"]
    if pid in registry.PROPS:
        checks.append({"property": pid, "quick_cmd": f"bin/check {pid} quick", "thorough_cmd": f"bin/check {pid} thorough",
                       "technique": TECH.get(pid, "TLA+ specification model-checked with TLC; behaviours generated by TLC from the specification are replayed into the real code and every observation is compared"),
                       "level": "model_checking", "level_note": NOTE.get(pid, "exhaustive on the bounded model; sampled behaviours (TLC, seeded) replayed into the code"),
                       "evidence_file": f"evidence/{pid}.json"})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "specification and binding not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    jsonschema = None
if jsonschema:
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in P:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(P), "properties,", len(checks), "claimed")

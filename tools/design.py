#!/usr/bin/env python3
"""Fills the property and seed sections of DESIGN.md (between markers) from tools/design_props.py and seeded/."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "design_props.py")).read(), ns)
D = ns["D"]
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in P:
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(D.get(p["id"], "(being built)").strip() + "\n")
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(os.path.join(V, "tools", "seed_results.json"))) if os.path.exists(os.path.join(V, "tools", "seed_results.json")) else {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    rows.append(f"| {i} | {j['property']} | {j['needs']} | {res.get(i, 'not run yet')} |")
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
def put(s, tag, body):
    b = f"<!-- {tag} -->\n{body}\n<!-- /{tag} -->"
    if f"@{tag}@" in s:
        return s.replace(f"@{tag}@", b)
    return re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda m: b, s, flags=re.S)
s = put(s, "PROPS", "\n".join(out))
s = put(s, "SEEDS", "\n".join(rows))
open(f, "w").write(s)

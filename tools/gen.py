#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        o = {k: p[k] for k in ("id", "title", "statement")}
        o["quantifier"] = {"over": p["over"], "text": p["for_all"]}
        o["why_tests_cant"] = p["why"]
        o["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": r} for n, r in p["mech"]]}
        f.write(json.dumps(o) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']}",
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")

import re
def meta(i):
    return json.load(open(os.path.join(root, "seeded", i, "meta.json")))
text = open(os.path.join(here, "design.md")).read()
props = []
for p in PROPS:
    props.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n")
    if p.get("na"):
        props.append(f"Not applicable: {p['na']}\n")
    else:
        props.append(f"*Decided by:* {p['technique']}. *Scope and bounds:* {p['note']} *Why tests cannot:* {p['why']}\n")
nas = [f"* {p['id']}: {p['title']}: {p['na']}" for p in PROPS if p.get("na")] or ["(none)"]
ids = sorted(os.listdir(os.path.join(root, "seeded")))
caught = {}
cf = os.path.join(here, "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
rows = ["| planted bug | property | needs | caught by |", "| --- | --- | --- | --- |"]
for i in ids:
    m = meta(i)
    rows.append("| `%s` | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(i, [m["property"]]))))
for k, v in {"@NA@": "\n".join(nas), "@PROPS@": "\n".join(props), "@SEEDS@": "\n".join(rows), "@NSEED@": str(len(ids))}.items():
    text = text.replace(k, v)
open(os.path.join(root, "DESIGN.md"), "w").write(text)

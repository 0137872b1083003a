#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/props*.py."""
import json, os, sys, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(os.path.join(here, "checks", f)).read() for f in sorted(os.listdir(os.path.join(here, "checks"))) if f.startswith("props"))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = set(re.findall(r"^def (C\d\d)\(", src, re.M))
notes = json.load(open(os.path.join(here, "tools", "notes.json")))
m = dict(version=1, setup_cmd="mkdir -p build evidence/replay", checks=[], not_applicable=[])
for i in ids:
    if i in have:
        n = notes.get(i, {})
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            technique="TLA+ specification (%s) model-checked with TLC; executions of the real code recorded and validated as behaviours of the specification" % n.get("spec", "see DESIGN.md"),
            level="model_checking", level_note=n.get("note", "see DESIGN.md")))
    else:
        m["not_applicable"].append(dict(property=i, reason=notes.get(i, {}).get("na", "check not built yet")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "@@SEEDS@@" in s:
    s = s.replace("@@SEEDS@@", t)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)

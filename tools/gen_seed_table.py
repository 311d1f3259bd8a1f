#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json; seeds listed in tools/missed.txt are not caught."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = {}
f = os.path.join(V, "tools/missed.txt")
if os.path.exists(f):
    for l in open(f):
        k, _, v = l.strip().partition(" ")
        miss[k] = v
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s |" % (s, m["needs"].replace("|", "\\|"), ("missed: " + miss[s]) if s in miss else m["property"]))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)

#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- catch table -->", "| bug | property | needs | what it breaks | caught by |", "|---|---|---|---|---|"]
S = os.path.join(V, "seeded")
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- catch table -->\n(\|.*\n)*", lambda _: "\n".join(rows) + "\n", t)
open(p, "w").write(t)

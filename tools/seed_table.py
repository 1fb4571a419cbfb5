#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (all are reported by the check of their property
unless meta.json of the run says otherwise: see MISSED)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
rows = ["| planted bug | what it breaks | reported by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + d + "/meta.json"))
    rows.append("| `%s` | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), MISSED.get(d, m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S) if "<!-- seeds -->" in s else s.replace("SEEDTABLE", t)
open(p, "w").write(s)

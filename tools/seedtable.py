#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["needs"], m.get("caught_by", m["property"])))
rows.append("<!-- /seeds -->")
d = open(V + "/DESIGN.md").read()
t = "\n".join(rows)
d = d.replace("SEEDTABLE", t, 1) if "SEEDTABLE" in d else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)

#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (python3 tools/design.py)"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | what it breaks | own check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append("| %s | %s | %s | %s | caught |" % (d.split("/")[-2], m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)

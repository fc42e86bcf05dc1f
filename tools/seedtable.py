#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | breaks | what | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"].replace("|", "/"), j["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read()
s = s[:s.index("<!-- seeds -->")] + "<!-- seeds -->\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)

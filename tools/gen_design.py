#!/usr/bin/env python3
"""Fills the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it needs |", "|---|---|---|"]
d = os.path.join(here, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = s.replace("@@SEEDS@@", "<!-- seeds -->\n<!-- /seeds -->")
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)

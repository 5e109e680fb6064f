#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | what it needs |", "|----|----|----|----|"]
for m in sorted(glob.glob(top + "/seeded/*/meta.json")):
    d = json.load(open(m))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], c(d["what_it_breaks"]), c(d["needs"])))
f = top + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(f, "w").write(s)

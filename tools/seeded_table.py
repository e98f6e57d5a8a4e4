#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
os.chdir(os.path.join(os.path.dirname(__file__), ".."))
MISSED = {}
rows = ["## Planted bugs", "", "All were confirmed to build, pass the tests and be shown by their demonstration. C15-dup-rule-dropped was missed at first: the",
 "files of every case defined different rules; cases with a rule that two files define were added. All others were caught by the check of their property when first run.", "",
 "| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "/"), MISSED.get(d, m["property"])))
s = open("DESIGN.md").read()
i = s.find("SEEDED\n")
if i < 0: i = s.index("## Planted bugs")
open("DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n")

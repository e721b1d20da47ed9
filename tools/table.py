#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md."""
import glob, json, re
rows = ["| bug | needs | caught by |", "|----|----|----|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[3]} | {m['needs'].replace('|', '/')} | {m['property']} |")
p = "/verif/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)

#!/usr/bin/env python3
"""tools/gen_bugtable.py: rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
p = "/verif/DESIGN.md"
s = open(p).read()
head = "| bug | caught by | needs |\n|---|---|---|\n"
i = s.index("| bug |")
rows = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"]))
open(p, "w").write(s[:i] + head + "".join(rows))

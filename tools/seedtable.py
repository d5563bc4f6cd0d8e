#!/usr/bin/env python3
"""seedtable.py: rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
head = s.split("<!-- seeds -->")[0]
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
open(p, "w").write(head + "<!-- seeds -->\n" + "\n".join(rows) + "\n")

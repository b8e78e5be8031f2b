#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md"); t = open(p).read()
rows = ["<!-- table -->", "| planted bug | caught by | what it needs |", "|---|---|---|"]
missed = set(open(os.path.join(root, "tools/missed.txt")).read().split()) if os.path.exists(os.path.join(root, "tools/missed.txt")) else set()
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s |" % (i, "(not caught) " + d["property"] if i in missed else d["property"], d["needs"].replace("|", "\\|")))
rows.append("<!-- end -->")
if "SEEDED_TABLE" in t: t = t.replace("SEEDED_TABLE", "\n".join(rows))
else: t = re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: "\n".join(rows), t, flags=re.S)
open(p, "w").write(t)

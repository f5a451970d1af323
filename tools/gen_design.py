#!/usr/bin/env python3
"""DESIGN.md from design.in.md, the table of properties not claimed and the planted bugs"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "manifest_table.py")).read())
exec(open(os.path.join(V, "tools", "missed.py")).read())
ids = {os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(V, "sa/checks/c[0-9][0-9].py"))}
na = "".join(f"* **{k}** \u2013 {v}\n" for k, v in NA.items()) + "".join(f"* **{k}** \u2013 check not built.\n" for k in TECH if k not in ids)
rows = ["| planted bug | breaks | caught by | first missed, then |", "|---|---|---|---|"]
for p in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(p)); m = json.load(open(p))
    rows.append(f"| {i} | {m['what_it_breaks']} | {CAUGHT.get(i, m['property'])} | {MISSED.get(i, '')} |")
s = open(os.path.join(V, "tools", "design.in.md")).read()
s = s.replace("@@NA@@", na).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s.replace("@@MORE@@\n", ""))
print(len(rows) - 2, "planted bugs")

#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and the checks that exist"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "manifest_table.py")).read())
ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(V, "sa/checks/c[0-9][0-9].py")))
checks = [{"property": i, "quick_cmd": f"python3 -m sa.run {i} --tier quick", "thorough_cmd": f"python3 -m sa.run {i} --tier thorough",
           "evidence_file": f"evidence/{i}.json", "technique": TECH[i][0], "level": "other", "level_note": TECH[i][1] + " " + TRUST} for i in ids]
na = [{"property": k, "reason": v} for k, v in NA.items()]
for k in TECH:
    if k not in ids: na.append({"property": k, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast\" && mkdir -p evidence", "checks": checks, "not_applicable": na, "notes": NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table of claimed properties"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification (PyVC: contracts on the /repo functions, obligations regenerated from current source, discharged by z3/cvc5)"
CL = json.load(open(os.path.join(H, "tools", "claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = CL.get(i)
    if c is None or c.get("na"):
        na.append({"property": i, "reason": (c or {}).get("na", "check not built yet")}); continue
    checks.append({"property": i, "quick_cmd": f"python3-vt /verif/check.py --property {i} --tier quick", "thorough_cmd": f"python3-vt /verif/check.py --property {i} --tier thorough",
        "technique": c.get("technique", TECH + c.get("plus", "")), "level": c.get("level", "proof"), "level_note": c["note"], "evidence_file": f"/verif/evidence/{i}.json"})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import simpy'", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: contracts are side-car files, source is parsed from /repo on every run."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)

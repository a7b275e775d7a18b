#!/opt/venv/bin/python
"""developer entry: concrete contract testing by substring"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)
from conc.world import world
from conc.fuzz import *
w = world()
pat = sys.argv[1] if len(sys.argv) > 1 else ""
T = float(sys.argv[2]) if len(sys.argv) > 2 else 2
for k, c in w.base.funcs_for(None):
    if pat not in k and pat not in c.props or c.nofuzz: continue
    r = fuzz_function(w, k, c, T, 1, 400)
    print(("VIOL " if r["violation"] else "ok   " if r["accepted"] else "NONE "), k, r["accepted"], "/", r["tried"], r["detail"], r.get("rejected") if r["accepted"] < 100 else "", r["skipped"])
    if r["violation"]:
        print("      ", r["violation"]); print("      ", json.dumps(input_of(w, k, c, r["violation"]["seed"])[0], default=str)[:1500])

#!/usr/bin/env python3-vt
"""developer entry: verify contracts by substring"""
import sys, time
sys.setrecursionlimit(20000)
from pyvc import verify as V
w = V.World()
pat = sys.argv[1] if len(sys.argv) > 1 else ""
for k, c in w.funcs_for(None):
    if pat not in k and pat not in c.props: continue
    r = V.verify_function(w, k, c, escalate="-e" in sys.argv)
    print(f"{r['status']:12s} {k}  obl={len(r['obligations'])} gen={r.get('gen_secs',0):.1f}s total={r.get('secs',0):.1f}s {r['detail']}")
    for o in r["obligations"]:
        if not o["proved"] or "-v" in sys.argv: print("     ", "ok " if o["proved"] else "FAIL", o["kind"], o["name"], o["backend"], o.get("result"), f"{o['secs']:.1f}s")
        if not o["proved"] and "-m" in sys.argv and o["model"] is not None: print(o["model"])
        if not o["proved"] and "-s" in sys.argv:
            for c_ in o["smt"][0]: print("   C", str(c_).replace("\n", " ")[:600])
            print("   G", o["smt"][1])

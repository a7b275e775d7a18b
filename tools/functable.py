#!/usr/bin/env python3-vt
"""dev: list the functions under contract per property (proved / bounded / trusted)"""
import sys, collections
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from pyvc import verify as V
w = V.World()
by = collections.defaultdict(list)
for k, c in w.funcs_for(None):
    for p in c.props: by[p].append((k, c))
for p in sorted(by):
    g = collections.defaultdict(list)
    for k, c in sorted(by[p], key=lambda x: x[0]):
        f, n = k.split("::"); g[f.replace("prodsys/", "")].append(n + (" [bounded]" if getattr(c, "bounded", None) else ""))
    print(p, len(by[p])); 
    for f in g: print("   ", f + ":", ", ".join(g[f]))

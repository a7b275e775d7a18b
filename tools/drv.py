#!/opt/venv/bin/python
"""dev: run one driver for one property: drv.py DRIVER Pxx [secs] [seed]"""
import sys, os, time, importlib, contextlib, io
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
from conc.run import Ctx
m = importlib.import_module("drivers." + sys.argv[1])
for p in sys.argv[2].split(","):
    c = Ctx(p, "quick", int(sys.argv[4]) if len(sys.argv) > 4 else 1, float(sys.argv[3]) if len(sys.argv) > 3 else 20)
    t = time.time()
    with contextlib.redirect_stderr(io.StringIO()): m.run(c)
    print(p, "cases", c.evaluations, "distinct", len(c.kinds), "secs", round(time.time() - t, 1), c.notes)
    for v in c.violations: print("  ", v["key"], "|", v["what"][:400], "| seed/spec", str(v["input"])[:int(os.environ.get("W", "0"))])

"""random small production systems (1-3 machines, 1-2 vehicles, 1-2 product types with list/edge/adjacency plans, breakdowns, process breakdowns, setups, charging,
finite queues, storages, carriers, rework, link transport, three sequencing policies), each executed by the real simulator to its horizon and judged by an independent
oracle for this property over the event log and the live objects; a case is distinct by log length, state kinds, number of resources and process kinds"""
PROPS = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P11", "P12", "P13"]
SHARDED = True
import random
from drivers import _simlib as L, _oracles as O
EXTRA = {"P02": ["setup"], "P04": ["breakdown", "procbreak", "setup", "tbreak", "charging"], "P05": ["breakdown", "procbreak", "setup", "tbreak", "charging"], "P11": ["link", "loading", "storage"], "P12": ["aux"],
         "P01": ["finite", "storage"], "P03": ["consttimes"], "P08": ["rework", "capability"], "P09": ["capability", "rework", "link", "finite"], "P06": ["setup", "breakdown", "procbreak", "loading", "rework"]}
def run(ctx):
    n = 0
    while ctx.more(100000):
        seed = ctx.rnd.randrange(10 ** 9) if n else ctx.seed
        n += 1
        rnd = random.Random(seed)
        want = list(O.ORACLES[ctx.prop].want)
        ex = EXTRA.get(ctx.prop, [])
        if ex and rnd.random() < .7: want.append(rnd.choice(ex))
        s = L.gen_spec(rnd, want)
        try: o, r = O.run_one(ctx.prop, s)
        except Exception as e:      # the oracle itself cannot follow this run
            ctx.notes.append(f"seed {seed}: {type(e).__name__}: {e}"[:200])
            if len(ctx.notes) > 200: return
            continue
        ctx.case(o.kind(r) if r.error is None else None, {"seed": seed, "log entries": len(getattr(r, "log", [])), "resources": sorted(s["res"])})
        for k, w in o.bad: ctx.violation("simulation#" + k, w, {"spec": s})
def replay(ctx, inp):
    o, r = O.run_one(ctx.prop, inp["spec"])
    for k, w in o.bad: ctx.violation("simulation#" + k, w, inp)

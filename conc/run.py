#!/opt/venv/bin/python
"""Concrete side of a check: executes the real code on generated inputs and evaluates the same contracts; runs the drivers of a property.
usage: run.py --prop Pxx --tier quick|thorough --seed N --out FILE [--only key,key] [--budget secs] [--jobs N] [--replay FILE]"""
import sys, os, json, time, argparse, importlib, random, multiprocessing as mp, resource, signal, traceback, contextlib, io
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(4000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Hang(BaseException): pass
def _alarm(*a): raise Hang()

def known_keys(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    if not os.path.exists(p): return set()
    return {d["key"] for d in map(json.loads, filter(str.strip, open(p))) if d.get("property") == prop and d.get("status") != "fixed"}

class Ctx:
    """passed to drivers: counts cases, records violations"""
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed, self.budget = prop, tier, seed, budget
        self.rnd = random.Random(seed)
        self.t0 = time.time()
        self.evaluations, self.kinds, self.samples, self.violations, self.notes = 0, set(), [], [], []
        self.known = known_keys(prop)
    def more(self, n=10 ** 9):
        # listed findings do not end the search
        return time.time() - self.t0 < self.budget and self.evaluations < n and sum(v["key"] not in self.known for v in self.violations) < 5
    def case(self, kind, sample=None):
        self.evaluations += 1
        if kind is not None:
            k = repr(kind)
            if k not in self.kinds and len(self.samples) < 4 and sample is not None: self.samples.append(sample)
            self.kinds.add(k)
    def violation(self, key, what, inp):
        if any(v["key"] == key for v in self.violations): return
        self.violations.append({"key": key, "what": what, "input": inp})

def drivers_of(prop):
    """driver modules drivers/<name>.py declare PROPS"""
    out = []
    d = os.path.join(HERE, "drivers")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            src = open(os.path.join(d, f)).read(600)
            if "PROPS" in src and f'"{prop}"' in src.split("PROPS", 1)[1].split("\n", 1)[0]: out.append(f[:-3])
    return out

def shards(d):
    """drivers that sample independently run several times with different seeds"""
    src = open(os.path.join(HERE, "drivers", d + ".py")).read()
    return 4 if "SHARDED = True" in src else 1

def child(task, pipe, a):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        sys.stdout = open(os.devnull, "w"); sys.stderr = open(os.devnull, "w")
        if task[0] == "fn":
            from conc.world import world
            from conc import fuzz
            w = world()
            c = dict(w.base.funcs_for(None))[task[1]]
            r = fuzz.fuzz_function(w, task[1], c, task[2], a.seed, task[3])
            if r["violation"]:
                inp, again = fuzz.input_of(w, task[1], c, r["violation"]["seed"])
                r["violation"]["input"] = inp
                r["violation"]["again"] = again
        else:
            nm, _, k = task[1].partition("~")
            m = importlib.import_module("drivers." + nm)
            ctx = Ctx(a.prop, a.tier, a.seed + 1000003 * int(k or 0), task[2])
            t0 = time.time()
            m.run(ctx)
            r = {"driver": nm, "evaluations": ctx.evaluations, "distinct": len(ctx.kinds), "samples": ctx.samples, "violations": ctx.violations,
                 "notes": ctx.notes, "rule": (m.__doc__ or "").strip(), "secs": time.time() - t0}
        pipe.send(json.dumps(r, default=str))
    except BaseException as e:
        pipe.send(json.dumps({"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-1500:]}))
    pipe.close()
    os._exit(0)

def main():
    p = argparse.ArgumentParser()
    for x in ("prop", "tier", "out", "only", "replay"): p.add_argument("--" + x, default=None)
    p.add_argument("--seed", type=int, default=1); p.add_argument("--budget", type=float, default=0); p.add_argument("--jobs", type=int, default=5)
    p.add_argument("--nodrivers", action="store_true"); p.add_argument("--nmax", type=int, default=0)
    a = p.parse_args()
    if a.replay: return replay(a.replay)
    from conc.world import world
    w = world()
    cs = [(k, c) for k, c in w.base.funcs_for(a.prop) if not c.nofuzz]
    if a.only is not None:
        o = set(a.only.split(";")); cs = [(k, c) for k, c in cs if k in o]
    q = a.tier != "thorough"
    fb = a.budget or (6 if q else 60)
    nmax = a.nmax or (500 if q else 20000)
    tasks = [] if a.nodrivers else [("drv", d if k == 0 else f"{d}~{k}", (24 if q else 400), 0) for d in drivers_of(a.prop) for k in range(shards(d))]
    for k, c in cs:
        f = w.repo.func(k)
        if f is None or f.is_gen: continue
        try: w.module(f.mod)
        except Exception: pass
        tasks.append(("fn", k, c.fuzz.get("budget", fb) if q else fb, c.fuzz.get("nmax", nmax) if q else nmax))
    for t in tasks:
        if t[0] == "drv":
            try: importlib.import_module("drivers." + t[1].partition("~")[0])
            except Exception: pass
    res = {"functions": {}, "drivers": {}}
    running = []
    todo = list(tasks)
    while todo or running:
        while todo and len(running) < a.jobs:
            t = todo.pop(0)
            r, s = mp.Pipe(False)
            pr = mp.get_context("fork").Process(target=child, args=(t, s, a)); pr.start(); s.close()
            running.append((t, pr, r, time.time() + t[2] * 2 + 60))
        nxt = []
        for t, pr, r, dl in running:
            out = None
            if r.poll(0):
                try: out = json.loads(r.recv())
                except EOFError: out = {"error": "worker died"}
            elif not pr.is_alive() and not r.poll(0.05): out = {"error": "worker died"}
            elif time.time() > dl:
                pr.kill(); out = {"error": "time limit", "hang": True}
            if out is None: nxt.append((t, pr, r, dl)); continue
            pr.join(2)
            if pr.is_alive(): pr.kill()
            res["functions" if t[0] == "fn" else "drivers"][t[1]] = out
        running = nxt
        time.sleep(0.02)
    tmp = a.out + ".tmp"
    json.dump(res, open(tmp, "w"), indent=1, default=str); os.replace(tmp, a.out)

def replay(path):
    d = json.load(open(path))
    if d["kind"] == "contract":
        from conc.world import world
        from conc import fuzz
        w = world(); c = dict(w.base.funcs_for(None))[d["function"]]
        inp, r = fuzz.input_of(w, d["function"], c, d["seed"])
        print(json.dumps({"input": inp, "outcome": r}, indent=1, default=str))
        return 1 if isinstance(r, dict) else 0
    m = importlib.import_module("drivers." + d["driver"])
    ctx = Ctx(d["property"], "quick", d.get("seed", 1), 60)
    if hasattr(m, "replay"): m.replay(ctx, d["input"])
    else: m.run(ctx)
    for v in ctx.violations: print(json.dumps(v, indent=1, default=str))
    return 1 if ctx.violations else 0

if __name__ == "__main__": sys.exit(main() or 0)

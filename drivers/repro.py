"""random small production systems run by the real Runner from arbitrary states of the global generators: two runs separated by foreign draws give the same event log, every
initialisation and run (also a failing one, a negative seed, an exception at a random moment or in a random factory) leaves random and numpy.random exactly as they were, the
seed decides the stream, and a run in another process with another string hash seed gives the same log; distinct by scenario, log length and resources"""
PROPS = ["P15"]
import random, sys, os, json, subprocess, hashlib, contextlib
import numpy as np
from drivers import _simlib as L
import prodsys
from prodsys.simulation import sim
from prodsys.util import runner as R, util as U
class Boom(BaseException): pass
class Oops(Exception): pass

def state(): return random.getstate(), tuple(x.tobytes() if hasattr(x, "tobytes") else x for x in np.random.get_state())
def disturb(k):
    random.seed(k); np.random.seed(k % 2 ** 31)
    for _ in range(k % 7): random.random(); np.random.normal()
    if k % 2: random.gauss(0, 1)
def log(r): return [tuple(str(x) for x in row) for row in r.event_logger.get_data_as_dataframe().fillna("").values.tolist()]

def one(i, bad):
    """execute scenario i; returns the kind"""
    sim.VERBOSE = 0
    spec = i["spec"]; rnd = random.Random(i["k"])
    ad = L.build(spec)
    kind = i["kind"]
    def guarded(name, f):
        disturb(rnd.randrange(10 ** 6)); s = state()
        try: f(); err = None
        except (Exception, Boom) as e: err = e
        if state() != s: bad.append(("state-leak", f"{name} changed the global random state" + (f" (it raised {type(e_(err)).__name__})" if err is not None else "")))
        return err
    e_ = lambda x: x
    def full(horizon):
        r = R.Runner(adapter=ad)
        e = guarded("initialize_simulation", r.initialize_simulation)
        if e is None: e = guarded("run", lambda: r.run(horizon))
        return (log(r) if r.event_logger is not None else None), e, r
    h = i["h"]
    if kind == "twice":
        a, ea, _ = full(h); b, eb, _ = full(h)
        if str(ea) != str(eb): bad.append(("not-reproducible", f"one run ended with {ea!r}, the repetition with {eb!r}"))
        elif a != b:
            j = next((j for j, (x, y) in enumerate(zip(a or [], b or [])) if x != y), min(len(a or []), len(b or [])))
            bad.append(("not-reproducible", f"two runs with seed {ad.seed} differ from entry {j} on: {(a or [])[j:j + 1]} / {(b or [])[j:j + 1]}"))
        return ("twice", len(a or []), ea is None)
    if kind == "crash-run":
        r = R.Runner(adapter=ad)
        if guarded("initialize_simulation", r.initialize_simulation) is not None: return None
        def bomb():
            yield r.env.timeout(i["at"])
            raise (Boom() if i["k"] % 2 else Oops())
        r.env.process(bomb())
        e = guarded("a failing run", lambda: r.run(h))
        if e is None and i["at"] < h: bad.append(("swallowed", "the run hides a failure of a simulated process"))
        return ("crash-run", int(i["at"]) // 10, i["k"] % 2)
    if kind == "crash-init":
        names = ["time_model_factory.TimeModelFactory.create_time_models", "state_factory.StateFactory.create_states", "resource_factory.ResourceFactory.start_resources",
                 "source_factory.SourceFactory.create_sources", "queue_factory.QueueFactory.create_queues", "auxiliary_factory.AuxiliaryFactory.create_auxiliary"]
        nm = names[i["k"] % len(names)]; m, c, f = nm.split(".")
        C = getattr(getattr(R, m), c); orig = getattr(C, f)
        def broken(self, *a, **k):
            random.random(); np.random.random(); raise (Boom() if i["k"] % 3 else Oops())
        setattr(C, f, broken)
        try:
            r = R.Runner(adapter=ad)
            if guarded("a failing initialisation", r.initialize_simulation) is None: bad.append(("swallowed", f"a failure in {nm} is hidden"))
        finally: setattr(C, f, orig)
        return ("crash-init", nm, i["k"] % 3 == 0)
    if kind == "bad-seed":
        e = sim.Environment(seed=i["seed"])
        guarded(f"a run with seed {i['seed']}", lambda: e.run(5))
        def use():
            with R.temp_seed(i["seed"]): random.random(); np.random.random()
        guarded(f"temp_seed({i['seed']})", use)
        return ("bad-seed", i["seed"] < 0)
    if kind == "stream":
        # the numbers a simulated process draws are those of generators seeded with the seed
        e = sim.Environment(seed=i["seed"]); got = []
        def p():
            for _ in range(3):
                got.append((random.random(), float(np.random.random()))); yield e.timeout(1)
        e.process(p()); guarded("run", lambda: e.run(10))
        q = random.Random(i["seed"]); w = np.random.RandomState(i["seed"])
        want = [(q.random(), float(w.random_sample())) for _ in range(3)]
        if got != want: bad.append(("foreign-draws", f"a process in a run with seed {i['seed']} draws {got[:1]} instead of {want[:1]}"))
        disturb(i["k"]); U.set_seed(i["seed"])
        x = (random.random(), float(np.random.random()))
        if x != want[0]: bad.append(("set-seed", f"after set_seed({i['seed']}) the first draws are {x} instead of {want[0]}"))
        return ("stream", i["seed"] % 97)
    if kind == "process":
        out = []
        for hs in ("1", "4242"):
            env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.dirname(os.path.abspath(__file__)))] + sys.path[:1]))
            p = subprocess.run([sys.executable, os.path.abspath(__file__), "child"], input=json.dumps(i), capture_output=True, text=True, env=env, timeout=240)
            out.append(p.stdout.strip().splitlines()[-1] if p.stdout.strip() else "no answer: " + p.stderr[-300:])
        if out[0] != out[1]: bad.append(("hash-seed", f"runs of one configuration in two processes differ: {out}"))
        return ("process", out[0][:12])

def run(ctx):
    n = 0
    kinds = ["twice", "crash-run", "twice", "crash-init", "stream", "twice", "bad-seed", "process"]
    while ctx.more(100000):
        rnd = random.Random(ctx.seed * 1000003 + n)
        kind = kinds[n % len(kinds)] if n < 64 else rnd.choice(kinds[:-1])
        n += 1
        i = {"kind": kind, "k": rnd.randrange(10 ** 6), "h": rnd.choice([60, 150, 300]), "at": rnd.uniform(0, 50), "seed": rnd.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1, rnd.randrange(10 ** 6)])}
        if kind == "bad-seed": i["seed"] = rnd.choice([-1, 2 ** 32, -17, 5])
        i["spec"] = L.gen_spec(rnd, rnd.choice([[], ["noconsttimes"], ["breakdown", "noconsttimes"], ["rework"], ["aux"]]))
        i["spec"]["seed"] = rnd.randrange(1000)
        bad = []
        k = one(i, bad)
        ctx.case(k, {"scenario": kind, "k": i["k"]})
        for key, what in bad: ctx.violation("repro#" + key, what, i)
def replay(ctx, i):
    bad = []; one(i, bad)
    for key, what in bad: ctx.violation("repro#" + key, what, i)
if __name__ == "__main__":
    i = json.load(sys.stdin); sim.VERBOSE = 0
    r = R.Runner(adapter=L.build(i["spec"]))
    try:
        r.initialize_simulation(); r.run(i["h"]); e = ""
    except Exception as x: e = type(x).__name__
    print(hashlib.sha256(json.dumps([log(r) if r.event_logger is not None else None, e]).encode()).hexdigest(), e)

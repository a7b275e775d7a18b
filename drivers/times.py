"""random schedules, samples, sequences, distances and distributions of every kind read far beyond their own length through the real time models and the time model
factory, compared with the configured sequence / support / geometry; distinct by kind, length and flags"""
PROPS = ["P07"]
import math, random
import numpy as np
from prodsys.models import time_model_data as D
from prodsys.simulation import time_model as T
from prodsys.factories.time_model_factory import TimeModelFactory

def close(a, b): return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

def build(i):
    k = i["kind"]
    if k == "sched": return T.ScheduledTimeModel(time_model_data=D.ScheduledTimeModelData(ID="t", description="", schedule=i["s"], absolute=i["abs"], cyclic=i["cyc"]))
    if k == "sample": return T.SampleTimeModel(time_model_data=D.SampleTimeModelData(ID="t", description="", samples=i["s"]))
    if k == "seq": return T.SequentialTimeModel(time_model_data=D.SequentialTimeModelData(ID="t", description="", sequence=i["s"]))
    if k == "dist": return T.DistanceTimeModel(time_model_data=D.DistanceTimeModelData(ID="t", description="", speed=i["v"], reaction_time=i["r"], metric=i["m"]))
    if k == "man": return T.ManhattanDistanceTimeModel(time_model_data=D.ManhattanDistanceTimeModelData(ID="t", description="", speed=i["v"], reaction_time=i["r"]))
    if k == "fn": return T.FunctionTimeModel(time_model_data=D.FunctionTimeModelData(ID="t", description="", distribution_function=i["f"], location=i["l"], scale=i["sc"]))

def check(i):
    """list of (key, what)"""
    out = []; t = build(i); k = i["kind"]
    if k == "sched":
        s = i["s"]; rel = [s[0]] + [s[j] - s[j - 1] for j in range(1, len(s))] if i["abs"] else list(s)
        n = 3 * len(s) + 2; got = [t.get_next_time() for _ in range(n)]
        want = [rel[j % len(rel)] if i["cyc"] or j < len(rel) else -1 for j in range(n)]
        if any(not close(a, b) for a, b in zip(got, want)): out.append(("schedule", f"the schedule {s} (absolute={i['abs']}, cyclic={i['cyc']}) delivers {got} instead of {want}"))
        if not close(t.get_expected_time(), sum(rel) / len(rel)): out.append(("schedule-mean", f"schedule {s}: expected time {t.get_expected_time()} instead of {sum(rel) / len(rel)}"))
        t2 = build(i)
        if not close(t2.get_next_time(), rel[0]): out.append(("schedule-shared", "two models of one schedule share their position"))
    elif k in ("sample", "seq"):
        got = [t.get_next_time() for _ in range(40)]
        if not set(got) <= set(i["s"]): out.append(("sample", f"samples {i['s']} deliver {set(got) - set(i['s'])}"))
        many = set(t.get_next_time() for _ in range(60 * len(i["s"])))
        if many != set(i["s"]): out.append(("sample-missing", f"samples {i['s']} never deliver {set(i['s']) - many} in {60 * len(i['s'])} draws"))
        if not close(t.get_expected_time(), sum(i["s"]) / len(i["s"])): out.append(("sample-mean", f"samples {i['s']}: expected time {t.get_expected_time()}"))
    elif k in ("dist", "man"):
        a, b = i["a"], i["b"]; d = math.hypot(a[0] - b[0], a[1] - b[1]) if i.get("m") in ("euclidian", "euclidean") else abs(a[0] - b[0]) + abs(a[1] - b[1])
        w = d / i["v"] + i["r"]
        for n, g in (("next", t.get_next_time(a, b)), ("expected", t.get_expected_time(a, b)), ("next", t.get_next_time(origin=b, target=a))):
            if not close(g, w): out.append(("distance", f"{n} time {g} instead of {w} for {i}"))
        for args in ((None, b), (a, None)):
            try: t.get_next_time(*args); out.append(("distance-missing", f"a missing location is accepted: {args}"))
            except Exception: pass
    elif k == "fn":
        got = [t.get_next_time() for _ in range(i["n"])]
        if any(g < 0 for g in got): out.append(("negative", f"negative duration {min(got)} for {i}"))
        if i["f"] == "constant" and any(not close(g, i["l"] if i["l"] >= 0 else 0.1) for g in got): out.append(("constant", f"constant {i['l']} delivers {set(got)}"))
        if not close(t.get_expected_time(), i["l"]): out.append(("expected", f"expected time {t.get_expected_time()} for {i}"))
        m = sum(got) / len(got); sd = {"constant": 0.0, "normal": i["sc"], "exponential": i["l"]}.get(i["f"])
        if sd is not None and i["l"] >= 5 * (i["sc"] if i["f"] == "normal" else 0) and len(got) >= 2000 and abs(m - i["l"]) > 8 * sd / math.sqrt(len(got)) + 1e-9:
            out.append(("mean", f"mean {m} of {len(got)} draws for {i}"))
        if i["f"] == "constant" and len(set(got)) > 1: out.append(("constant", f"constant model varies: {set(got)}"))
        if i["f"] != "constant" and len(set(g for g in got if g != 0.1)) < len([g for g in got if g != 0.1]) * 0.9: out.append(("buffer", f"{len(got)} draws of {i} repeat: only {len(set(got))} different values"))
    return out

def gen(rnd):
    k = rnd.choice(["sched", "sched", "sample", "seq", "dist", "man", "fn"])
    g = lambda: rnd.choice([0.25, 0.5, 1.0, 2.0, 3.5, 7.25, round(rnd.uniform(0.1, 20), 3)])
    i = {"kind": k}
    if k == "sched":
        s = [g() for _ in range(rnd.randint(1, 6))]; i["abs"], i["cyc"] = rnd.random() < .5, rnd.random() < .5
        i["s"] = list(np.cumsum(s)) if i["abs"] else s; i["s"] = [float(x) for x in i["s"]]
    elif k in ("sample", "seq"): i["s"] = [g() for _ in range(rnd.randint(1, 5))]
    elif k in ("dist", "man"):
        c = lambda: [rnd.choice([0.0, 1.0, -3.5, 10.0, round(rnd.uniform(-50, 50), 2)]) for _ in "xy"]
        i.update(v=g(), r=rnd.choice([0.0, 0.1, 2.0]), a=c(), b=c())
        if k == "dist": i["m"] = rnd.choice(["manhattan", "euclidian"])
    else: i.update(f=rnd.choice(["constant", "normal", "exponential", "lognormal"]), l=rnd.choice([0.5, 2.0, 10.0]), sc=rnd.choice([0.1, 0.4, 1.0, 4.0]), n=rnd.choice([5, 150, 2600]))
    return i

def one(ctx, i):
    np.random.seed(sum(map(ord, str(sorted(i.items())))) % 2**31)
    try: r = check(i)
    except Exception as e: r = [("crash", f"{type(e).__name__}: {e} for {i}")]
    for k, w in r: ctx.violation(k, w, i)
    return r

def run(ctx):
    while ctx.more(4000):
        i = gen(ctx.rnd); ctx.case((i["kind"], i.get("f"), i.get("abs"), i.get("cyc"), i.get("m"), len(i.get("s", [])), i.get("n")), i)
        one(ctx, i)

def replay(ctx, i): one(ctx, i)

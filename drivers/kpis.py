"""random production systems are simulated and every analysis of the resulting event log (throughput, output, work in progress, state shares, KPI lists, warm-up cut-offs)
is compared with values computed independently from the same log; the cut-off rules are additionally run on random series; a case is distinct by log length, number of
finished products and resources"""
PROPS = ["P18"]
SHARDED = True
import random, math, collections, warnings, os
from drivers import _simlib as L
import numpy as np, pandas as pd
def close(a, b): return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
def val(x): return getattr(x, "value", x)

class Facts:
    """what the log says, computed row by row from the log itself"""
    def __init__(self, rows, s):
        self.rows, self.s = rows, s
        ptypes = set(s["products"])
        self.ptype = {}
        self.created, self.finished = {}, {}
        self.wip = []
        for e in rows:
            p = e["Product"]
            if e["Activity"] == "created product": self.created[p] = e["Time"]; self.ptype[p] = p.rsplit("_", 1)[0]; self.wip.append((e["Time"], p, 1))
            if e["Activity"] == "finished product": self.finished[p] = e["Time"]; self.wip.append((e["Time"], p, -1))
        self.end = max(e["Time"] for e in rows)
        inter = ("Source", "Sink", "Breakdown", "Setup", "Charging")
        known = lambda e: e["State Type"] in inter and e["Activity"] in ("finished product", "created product", "start state", "end state") or e["State Type"] in ("Production", "Transport") and e["Activity"] in ("start state", "end state", "start interrupt", "end interrupt")
        self.seen = [e for e in rows if known(e)]
        self.last = max(e["Time"] for e in self.seen)
        self.types = sorted({self.ptype[p] for p in self.finished})
    def tpt(self): return {p: self.finished[p] - self.created[p] for p in self.finished}

def check(rows, s, cut=None):
    from prodsys.util.post_processing import PostProcessor
    from prodsys.simulation import state
    bad = []
    def fail(k, w): bad.append((k, w))
    F = Facts(rows, s)
    if len(F.finished) < 2: return bad, None
    pp = PostProcessor(df_raw=pd.DataFrame(rows))
    tpt = F.tpt()
    # throughput time
    d = pp.df_throughput
    got = {r["Product"]: r for _, r in d.iterrows()}
    if set(got) != set(tpt) or len(d) != len(tpt): fail("finished", f"throughput lists {len(d)} products, {len(tpt)} were finished")
    for p, t in tpt.items():
        if p in got and not (close(got[p]["Throughput_time"], t) and close(got[p]["Start_time"], F.created[p]) and close(got[p]["End_time"], F.finished[p]) and got[p]["Product_type"] == F.ptype[p]):
            fail("throughput-time", f"{p} is created at {F.created[p]} and finished at {F.finished[p]} but reported with {got[p]['Start_time']}..{got[p]['End_time']} ({got[p]['Throughput_time']})")
    by = collections.defaultdict(list)
    for p, t in tpt.items(): by[F.ptype[p]].append(t)
    agg = pp.df_aggregated_throughput_time.to_dict()
    if set(agg) != set(by) or any(not close(agg[k], sum(v) / len(v)) for k, v in by.items()): fail("mean-throughput-time", f"{agg} instead of {({k: sum(v) / len(v) for k, v in by.items()})}")
    k = {x.product_type: x.value for x in pp.aggregated_throughput_time_KPIs}
    if set(k) != set(by) or any(not close(k[t], agg[t]) for t in by): fail("throughput-time-KPI", f"{k} instead of {agg}")
    dyn = pp.dynamic_thoughput_time_KPIs
    if sorted((x.product_type, round(x.start_time, 6), round(x.end_time, 6), round(x.value, 6)) for x in dyn) != sorted((F.ptype[p], round(F.created[p], 6), round(F.finished[p], 6), round(t, 6)) for p, t in tpt.items()): fail("dynamic-throughput-KPI", "the listed throughput times are not those of the finished products")
    # output and throughput
    out = {t: len(v) for t, v in by.items()}
    span = max(F.finished.values()) - min(F.created[p] for p in F.finished)
    o = pp.df_aggregated_output_and_throughput
    if o["Output"].to_dict() != out or pp.df_aggregated_output.to_dict() != out: fail("output", f"output {o['Output'].to_dict()} / {pp.df_aggregated_output.to_dict()}, finished were {out}")
    if span > 0 and any(not close(o["Throughput"][t], n / span) for t, n in out.items()): fail("throughput", f"{o['Throughput'].to_dict()} for {out} products in {span}")
    ks = {(type(x).__name__, x.product_type): x.value for x in pp.throughput_and_output_KPIs}
    if ks != {**{("Output", t): n for t, n in out.items()}, **{("Throughput", t): o["Throughput"][t] for t in out}}: fail("output-KPI", f"{ks}")
    if pp.get_aggregated_throughput_data() != [out[t] for t in sorted(out)]: fail("output-data", f"{pp.get_aggregated_throughput_data()} instead of {out}")
    if any(not close(a, b) for a, b in zip(pp.get_aggregated_throughput_time_data(), [agg[t] for t in sorted(agg)])): fail("throughput-time-data", "not the mean throughput times")
    if not close(pp.get_total_simulation_time(), F.end - min(e["Time"] for e in rows)): fail("total-time", f"{pp.get_total_simulation_time()}")
    # work in progress
    def at(t, typ=None): return sum(n for u, p, n in F.wip if u <= t and (typ is None or F.ptype[p] == typ))
    def levels(df, typ, what):
        df = df.loc[df["Activity"].isin(["created product", "finished product"])]
        if typ is not None: df = df.loc[df["Product_type"] == typ]
        last = {}
        for _, r in df.iterrows(): last[r["Time"]] = r["WIP"]
        for t, w in last.items():
            if not close(w, at(t, typ)): fail("wip", f"{what} is {w} after the events at {t}; created minus finished is {at(t, typ)}"); return
    levels(pp.df_WIP, None, "work in progress")
    pw = pp.df_WIP_per_product
    for typ in sorted(set(F.ptype.values())): levels(pw, typ, f"work in progress of {typ}")
    m = pp.df_aggregated_WIP.to_dict()
    if set(m) != set(F.ptype.values()) | {"Total"}: fail("wip-types", f"mean work in progress for {sorted(m)}")
    for typ, v in m.items():
        if not 0 <= v <= len(F.created) + 1e-9: fail("wip-mean", f"mean work in progress of {typ} is {v}")
    w = {getattr(x.product_type, "value", x.product_type): x.value for x in pp.WIP_KPIs}
    if len(w) != len(m) or any(not close(w.get(t, w.get("all_products", math.nan)), v) for t, v in m.items() if t != "Total"): fail("wip-KPI", f"{w} instead of {m}")
    dw = collections.defaultdict(list)
    for x in pp.dynamic_WIP_KPIs: dw[val(x.product_type)].append(x)
    if set(dw) != set(m): fail("dynamic-wip", f"a course of the work in progress for {sorted(dw)} instead of {sorted(m)}")
    for typ, xs in dw.items():
        tt = None if typ == "Total" else typ
        ts = sorted(t for t, p, n in F.wip if tt is None or F.ptype[p] == tt)
        if sorted(round(x.start_time, 6) for x in xs) != [round(t, 6) for t in ts]: fail("dynamic-wip", f"the work in progress of {typ} changes {len(ts)} times, {len(xs)} values are given"); continue
        for x in xs:
            if x.end_time > x.start_time and not close(x.value, at(x.start_time, tt)): fail("dynamic-wip", f"work in progress of {typ} from {x.start_time} to {x.end_time} is given as {x.value}, it is {at(x.start_time, tt)}"); break
        iv = sorted((x.start_time, x.end_time) for x in xs)
        if any(not close(a[1], b[0]) for a, b in zip(iv, iv[1:]) if a[1] > a[0]): fail("dynamic-wip", f"the values of the work in progress of {typ} do not follow each other: {iv[:6]}")
    # states of the resources
    ag = pp.df_aggregated_resource_states
    first = {}
    for e in rows: first.setdefault(e["Resource"], e["Time"])
    pbd = {e["Resource"] for e in rows if e["State Type"] == "ProcessBreakdown"}
    srcsink = {e["Resource"] for e in rows if e["State Type"] in ("Source", "Sink")}
    share = collections.defaultdict(dict); tim = collections.defaultdict(dict)
    for _, r in ag.iterrows():
        share[r["Resource"]][r["Time_type"]] = r["percentage"]; tim[r["Resource"]][r["Time_type"]] = r["time_increment"]
    for R, x in share.items():
        if R in srcsink: continue
        if any(math.isnan(v) for v in x.values()):
            if sum(tim[R].values()) > 0: fail("share", f"{R} has shares {x}")
            continue
        if any(v < -1e-9 for v in x.values()) or not close(sum(x.values()), 100): fail("share", f"the state shares of {R} are {x}")
    kp = collections.defaultdict(dict)
    names = {"StandbyTime": "SB", "ProductiveTime": "PR", "UnscheduledDowntime": "UD", "SetupTime": "ST", "ChargingTime": "CR"}
    for q in pp.machine_state_KPIS: kp[q.resource][names[type(q).__name__]] = q.value
    if {R: {a: round(b, 6) for a, b in x.items() if b == b} for R, x in kp.items()} != {R: {a: round(b, 6) for a, b in x.items() if b == b} for R, x in share.items()}: fail("state-KPI", f"{dict(kp)} instead of {dict(share)}")
    mine = collections.defaultdict(list)
    for e in rows: mine[e["Resource"]].append(e)
    for R, es in mine.items():
        if R in srcsink or R not in tim: continue
        es = [e for e in F.seen if e["Resource"] == R]
        if not es: continue
        tot = sum(tim[R].values())
        idx = lambda e: {"finished product": 1, "created product": 2, "end state": 3, "start state": 8}[e["Activity"]] if e["State Type"] not in ("Production", "Transport") else {"end interrupt": 4, "end state": 5, "start state": 6, "start interrupt": 7}[e["Activity"]]
        es = sorted(es, key=lambda e: (e["Time"], idx(e)))
        run, even = 0, 0.0
        for e, nx in zip(es, es[1:] + [None]):
            i = idx(e); run += (i == 6) - (i in (5, 7))
            if i == 5 and run > 0 and run % 2 == 0: even += (nx["Time"] if nx else F.last) - e["Time"]
        if not (F.last - es[0]["Time"] - 1e-6 <= tot <= F.last + 1e-6):
            listed = even > 0 and F.last - es[0]["Time"] - 1e-6 <= tot + even <= F.last + 1e-6
            fail("observed-even" if listed else "observed", f"the state times of {R} add up to {tot}; it was observed from {es[0]['Time']} to {F.last}" + (f" ({even} time units with an even number of running slots after an end are left out)" if listed else ""))
        kinds = {e["State Type"] for e in es}
        spec = s["res"].get(R)
        if spec and spec["cap"] == 1 and kinds <= {"Production", "Transport", "Breakdown"} and R not in pbd:
            pr, on = 0.0, None
            for e in es:
                if e["State Type"] == "Breakdown": continue
                if e["Activity"] == "start state": on = e["Time"]
                elif e["Activity"] in ("end state", "start interrupt") and on is not None: pr += e["Time"] - on; on = None
            if on is not None: pr += F.last - on
            if not close(tim[R].get("PR", 0), pr): fail("productive", f"{R} works {pr} in total, reported are {tim[R].get('PR', 0)}")
            if "Breakdown" not in kinds and not close(tot - tim[R].get("PR", 0), tim[R].get("SB", 0)): fail("standby", f"{R} is reported with {tim[R]}")
    # shares per bucket of the log: of every resource that never runs two processes at once they sum to one hundred percent
    bk = pp.df_aggregated_resource_bucket_states
    sums = collections.defaultdict(list)
    for _, r in bk.iterrows(): sums[(r["Resource"], r["Bucket"])].append(r["percentage"])
    for (R, b), x in sums.items():
        spec = s["res"].get(R)
        if spec and spec["cap"] == 1 and not any(v != v for v in x) and not close(sum(x), 100): fail("bucket-share", f"the state shares of {R} in part {b} of its log are {x}")
    # warm-up
    return bad, (len(rows), len(F.finished), len(mine))

def series(rnd):
    n = rnd.choice([0, 1, 2, 4, 5, 6, 9, 10, 11, 14, 15, 23, 40, 77, 200])
    k = rnd.choice(["const", "rand", "ramp", "decay"])
    return [5.0 if k == "const" else rnd.random() * 10 if k == "rand" else float(i) if k == "ramp" else 10 * math.exp(-i / 5) + rnd.random() for i in range(n)]

def cutoffs(xs):
    from prodsys.util import warm_up_post_processing as W
    bad = []; n = len(xs)
    df = pd.DataFrame({"x": np.array(xs, dtype=float)})
    for m in ("mser5", "threshold_stabilization", "static_ratio"):
        if n == 0 and m != "static_ratio" or n < 2 and m == "threshold_stabilization": continue
        try: c = W.get_warm_up_cutoff_index(df, "x", m)
        except Exception as e: bad.append(("cutoff", f"{m} fails on a series of {n} values: {type(e).__name__}: {e}")); continue
        if not (0 <= c <= n): bad.append(("cutoff", f"{m} cuts a series of {n} values at {c}"))
        if m == "static_ratio" and c != int(n * W.WARM_UP_CUT_OFF): bad.append(("cutoff-ratio", f"static_ratio cuts a series of {n} values at {c}"))
        if m == "mser5" and n:
            b = [sum(xs[i:i + 5]) / 5 for i in range(0, n - 4, 5)]
            best, at = math.inf, None
            if n >= 5:
                for i in range(len(b)):
                    t = b[i:]; mu = sum(t) / len(t); se = math.sqrt(sum((v - mu) ** 2 for v in t) / len(t)) / math.sqrt(len(t))
                    if se < best - 1e-12: best, at = se, i * 5
            if c != n and c % 5: bad.append(("cutoff-mser5", f"mser5 cuts {n} values at {c}, inside a batch"))
            if at is not None and c != n:
                t = b[c // 5:]; mu = sum(t) / len(t); se = math.sqrt(sum((v - mu) ** 2 for v in t) / len(t)) / math.sqrt(len(t))
                if se > best + 1e-9: bad.append(("cutoff-mser5", f"mser5 cuts {n} values at {c} with standard error {se}, at {at} it is {best}"))
        if m == "threshold_stabilization" and n >= 2:
            ca = np.cumsum(xs) / np.arange(1, n + 1); mr = np.abs(np.diff(ca)); th = mr.mean() / 10
            if c != n and (c < 1 or not all(mr[c:] < th + 1e-12)): bad.append(("cutoff-threshold", f"threshold_stabilization cuts {n} values at {c} although the averages still move"))
            if c == n and any(all(mr[i:] < th * (1 - 1e-9)) for i in range(1, len(mr))): bad.append(("cutoff-threshold", f"threshold_stabilization finds no cut-off in {n} values although the averages stabilise"))
    try: W.get_warm_up_cutoff_index(df, "x", "no such method"); bad.append(("cutoff-method", "an unknown cut-off method is accepted"))
    except ValueError: pass
    return bad

def warm(rows, s):
    from prodsys.util.post_processing import PostProcessor
    bad = []; F = Facts(rows, s)
    if len(F.finished) < 3: return bad
    for m in ("mser5", "threshold_stabilization", "static_ratio"):
        pp = PostProcessor(df_raw=pd.DataFrame(rows), warm_up_cutoff=True, cut_off_method=m)
        if m == "threshold_stabilization" and min(collections.Counter(F.ptype[p] for p in F.finished).values()) < 2: continue
        d = pp.df_throughput_with_warum_up_cutoff
        if not len(d): bad.append(("warm-empty", f"{m}: no finished product remains")); continue
        t = d["Start_time"].min()
        keep = {p for p in F.finished if F.created[p] >= t - 1e-9}
        if set(d["Product"]) != keep: bad.append(("warm-products", f"{m}: {len(d)} products remain after the cut-off at {t}, {len(keep)} were created from then on"))
        c = pp.warm_up_cutoff_time
        lo, hi = min(e["Time"] for e in rows), F.end
        if not (0 <= c <= hi): bad.append(("warm-time", f"{m}: the cut-off time {c} lies outside the observed time {lo}..{hi}"))
        out = collections.Counter(F.ptype[p] for p in keep)
        if pp.df_aggregated_output.to_dict() != dict(out): bad.append(("warm-output", f"{m}: output {pp.df_aggregated_output.to_dict()} instead of {dict(out)}"))
    return bad

def fixed():
    """three products on one resource with three slots: two slots keep running after the first ended"""
    rows = []
    def row(t, R, st, ty, act, p=None, o=None, g=None, empty=None):
        rows.append({"Time": t, "Resource": R, "State": st, "State Type": ty, "Activity": act, "Product": p, "Expected End Time": None, "Origin location": o, "Target location": g, "Empty Transport": empty})
    for i in range(3): row(0.5 + i / 4, "S0", "S0", "Source", "created product", f"Prod0_{i}")
    for i in range(3): row(1.0 + i / 4, "R0", "P0", "Production", "start state", f"Prod0_{i}")
    for i in range(3): row(3.0 + 2 * i, "R0", "P0", "Production", "end state", f"Prod0_{i}")
    row(8.0, "R0", "P0", "Production", "start state", "Prod0_3"); row(8.5, "R0", "P0", "Production", "end state", "Prod0_3")
    for i in range(3): row(9.0 + i, "K0", "K0", "Sink", "finished product", f"Prod0_{i}")
    return rows

def once(inp):
    if "fixed" in inp:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore"); pd.options.mode.chained_assignment = None
            s = {"products": {"Prod0": {}}, "res": {"R0": {"cap": 3}}}
            bad, kind = check(fixed(), s)
            return bad + warm(fixed(), s), kind
    if "series" in inp: return cutoffs(inp["series"]), ("series", len(inp["series"]))
    s = inp["spec"]
    import contextlib, io
    r = L.Run(s)
    if r.error is not None: return [], None
    rows = r.rows()
    if not rows: return [], None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore"); pd.options.mode.chained_assignment = None
        bad, kind = check(rows, s)
        if kind: bad += warm(rows, s)
    return bad, kind

def run(ctx):
    import time
    n = 0
    while ctx.more(100000):
        seed = ctx.seed * 100003 + n; n += 1
        rnd = random.Random(seed)
        if n == 1: inp = {"fixed": 1}
        elif n % 4 == 0: inp = {"series": series(rnd)}
        else: inp = {"spec": L.gen_spec(rnd, ["nobatch"])}
        try: bad, kind = once(inp)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            mine = tb[-1].filename.startswith(os.path.dirname(os.path.abspath(__file__)))
            if any("/util/" in f.filename and "prodsys" in f.filename for f in tb) and not mine: bad, kind = [("crash", f"the analysis of a well-formed event log fails: {type(e).__name__}: {str(e)[:150]} in {next(f.name for f in reversed(tb) if '/util/' in f.filename)}")], None
            else: ctx.notes.append(f"seed {seed}: {type(e).__name__}: {e}"[:200]); continue
        ctx.case(kind, {"seed": seed, "case": str(kind)})
        for k, w in bad: ctx.violation("kpis#" + k, w, inp)

def replay(ctx, inp):
    try: bad, _ = once(inp)
    except Exception as e: bad = [("crash", f"{type(e).__name__}: {e}")]
    for k, w in bad: ctx.violation("kpis#" + k, w, inp)

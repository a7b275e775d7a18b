"""shared by the simulation drivers: random small production systems, real runs of the real simulator, and oracles over
the event log and the live objects.  Every oracle is stated independently of the code it watches."""
import re, os, sys, random, math, copy, warnings, logging, contextlib, io, itertools
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
import numpy as np
EPS = 1e-6
def close(a, b): return abs(a - b) <= EPS * max(1.0, abs(a), abs(b))

class Sys:
    """a generated system: plain dictionaries of pydantic models + facts needed by the oracles"""
    def __init__(self): self.f = {}

def gen_spec(rnd, want=()):
    """random system description (json-able)"""
    w = set(want)
    def flag(name, p): return name in w or ("no" + name) not in w and rnd.random() < p
    s = {"seed": rnd.randrange(1000), "tm": {}, "procs": {}, "res": {}, "queues": {}, "products": {}, "sources": [], "sinks": [], "states": {}, "nodes": {}, "aux": {}}
    def tm_const(v): 
        i = f"tm{len(s['tm'])}"; s["tm"][i] = ["const", v]; return i
    def tm_rand(v):
        i = f"tm{len(s['tm'])}"
        k = rnd.choice(["const", "const", "sample", "exp", "norm"])
        s["tm"][i] = {"const": ["const", v], "sample": ["sample", [v, v + 1, round(v / 2, 3)]], "exp": ["exp", v], "norm": ["norm", v, round(v / 10, 3)]}[k]
        return i
    tm = tm_const if flag("consttimes", .6) else tm_rand
    np_ = rnd.choice([1, 2, 2, 3])
    cap = flag("capability", .2)
    rework = flag("rework", .2)
    for i in range(np_):
        s["procs"][f"P{i}"] = {"kind": "cap" if cap else "prod", "tm": tm(rnd.choice([1.0, 2.0, 3.0, 0.7, 4.0])), "cap": f"C{i}" if cap else None,
                              "fail": rnd.choice([0.0, 0.3, 0.5]) if rework and not cap else 0.0}
        if cap: s["procs"][f"RC{i}"] = {"kind": "req", "cap": f"C{i}"}
    if rework and not cap:
        fails = [p for p in s["procs"] if s["procs"][p]["fail"] > 0]
        for p in fails:
            s["procs"]["RW" + p] = {"kind": "rework", "tm": tm(rnd.choice([1.0, 2.0])), "of": [p], "blocking": rnd.random() < .5}
    # places on a grid with unique coordinates
    cells = [[float(x), float(y)] for x in range(0, 12, 2) for y in range(0, 12, 2)]; rnd.shuffle(cells)
    place = lambda: cells.pop()
    speed = rnd.choice([1.0, 2.0, 4.0, 8.0]); reac = rnd.choice([0.1, 0.1, 0.5])
    i = "tmd"; s["tm"][i] = ["dist", speed, reac, rnd.choice(["manhattan", "manhattan", "euclidian"])]
    link = flag("link", .25)
    load = tm_const(rnd.choice([0.5, 1.0])) if flag("loading", .3) else None
    unload = tm_const(rnd.choice([0.25, 1.5])) if flag("loading", .3) else None
    s["procs"]["TP"] = {"kind": "link" if link else "tp", "tm": "tmd", "load": load, "unload": unload, "links": None}
    # production resources
    prods = [p for p in s["procs"] if s["procs"][p]["kind"] in ("prod", "cap", "rework")]
    nr = rnd.choice([1, 2, 2, 3])
    fin = flag("finite", .4); batch = flag("batch", .15) and not rework
    offered = set()
    for i in range(nr):
        ps = [p for p in prods if rnd.random() < .6] or [rnd.choice(prods)]
        if i == nr - 1: ps += [p for p in prods if p not in offered and p not in ps]
        if batch: ps = ps[:1] if i < nr - 1 else ps
        offered |= set(ps)
        c = rnd.choice([1, 1, 2, 3])
        pc = [rnd.randint(1, c) for _ in ps]
        if max(pc) < c and rnd.random() < .6: pc[0] = c
        R = {"cap": c, "pcs": pc, "procs": ps, "ctrl": "Pipeline", "pol": rnd.choice(["FIFO", "FIFO", "LIFO", "SPT"]), "loc": place(), "states": [], "iq": [f"IQ{i}"], "oq": [f"OQ{i}"], "batch": None}
        if rnd.random() < .3: R["iloc"] = place(); R["oloc"] = place()
        s["queues"][f"IQ{i}"] = rnd.choice([1, 2, 3]) if fin else 0
        s["queues"][f"OQ{i}"] = rnd.choice([c + 1, c + 2, 4]) if fin and rnd.random() < .3 else 0
        s["res"][f"R{i}"] = R
    if batch:
        R = s["res"]["R0"]; R["ctrl"] = "Batch"; R["cap"] = rnd.choice([2, 3]); R["pcs"] = [R["cap"]] * len(R["procs"]); R["batch"] = 2
        s["queues"]["IQ0"] = rnd.choice([0, 2, 3, 4]) if fin else 0; s["queues"]["OQ0"] = rnd.choice([0, 4, 5]) if fin else 0
    if flag("setup", .35):
        for r in list(s["res"].values()):
            if len(r["procs"]) < 2 or r["ctrl"] == "Batch": continue
            for a, b in itertools.permutations(r["procs"], 2):
                i = f"SU{len(s['states'])}"; s["states"][i] = {"kind": "setup", "tm": tm(rnd.choice([0.5, 1.0, 2.0])), "a": a, "b": b}; r["states"].append(i)
    if flag("breakdown", .5):
        for n, r in s["res"].items():
            for _ in range(rnd.choice([0, 1, 1, 2])):
                i = f"BD{len(s['states'])}"; s["states"][i] = {"kind": "bd", "tm": tm(rnd.choice([2.3, 5.0, 7.7, 11.0])), "rep": tm(rnd.choice([0.4, 1.3, 3.0]))}; r["states"].append(i)
    if flag("procbreak", .3):
        n = rnd.choice(list(s["res"])); r = s["res"][n]
        i = f"PB{len(s['states'])}"; s["states"][i] = {"kind": "pbd", "tm": tm(rnd.choice([4.1, 9.0])), "rep": tm(rnd.choice([0.6, 1.7])), "p": rnd.choice(r["procs"])}; r["states"].append(i)
    # vehicles
    for i in range(rnd.choice([1, 1, 2])):
        T = {"cap": 1, "pcs": [1], "procs": ["TP"], "ctrl": "Transport", "pol": rnd.choice(["FIFO", "FIFO", "SPT_transport"]), "loc": place(), "states": []}
        if flag("charging", .2):
            k = f"CH{len(s['states'])}"; s["states"][k] = {"kind": "charge", "tm": tm(rnd.choice([1.0, 2.5])), "bat": tm_const(rnd.choice([6.0, 10.0]))}; T["states"].append(k)
        if flag("tbreak", .2):
            k = f"BD{len(s['states'])}"; s["states"][k] = {"kind": "bd", "tm": tm(rnd.choice([6.3, 9.9])), "rep": tm(rnd.choice([0.7, 1.1]))}; T["states"].append(k)
        s["res"][f"T{i}"] = T
    if flag("storage", .15) and not batch:
        s["stores"] = {}
        k = "ST0"; s["stores"][k] = {"cap": rnd.choice([0, 5]), "loc": place()}
        r = s["res"][rnd.choice([n for n in s["res"] if n.startswith("R")])]; r["oq"].append(k)
    else: s["stores"] = {}
    aux = flag("aux", .2)
    if aux:
        s["procs"]["TPA"] = {"kind": "tp", "tm": "tmd", "load": None, "unload": None}
        s["res"]["TA"] = {"cap": 1, "pcs": [1], "procs": ["TPA"], "ctrl": "Transport", "pol": "FIFO", "loc": place(), "states": []}
        for j in range(rnd.choice([1, 2])):
            k = f"AST{j}"; s["stores"][k] = {"cap": 10, "loc": place()}
        s["aux"]["AUX"] = {"tp": "TPA", "stores": [k for k in s["stores"] if k.startswith("AST")], "qty": [rnd.choice([1, 2]) for k in s["stores"] if k.startswith("AST")], "rel_tp": ["TP"]}
    npd = rnd.choice([1, 1, 2])
    base = [f"RC{i}" if cap else f"P{i}" for i in range(np_)]
    for i in range(npd):
        kind = rnd.choice(["list", "list", "graph", "adj"])
        seq = [rnd.choice(base) for _ in range(rnd.choice([1, 2, 3]))]
        if kind == "list": plan = seq
        else:
            nodes = list(dict.fromkeys(base)); rnd.shuffle(nodes)
            edges = [[a, b] for x, a in enumerate(nodes) for b in nodes[x + 1:] if rnd.random() < .5]
            if kind == "graph":
                plan = edges or nodes[:1]
            else: plan = {a: [b for x, b in edges if x == a] for a in nodes}
        s["products"][f"Prod{i}"] = {"plan": plan, "aux": ["AUX"] if aux else []}
        s["sinks"].append({"ID": f"K{i}", "product": f"Prod{i}", "loc": place(), "q": f"KQ{i}"}); s["queues"][f"KQ{i}"] = 0
        n = rnd.choice([1, 3, 5, 7])
        gaps = [round(rnd.choice([0.5, 1.0, 2.0, 3.3, 6.0]), 3) for _ in range(n)]
        i2 = f"sch{i}"; ab = rnd.random() < .5
        s["tm"][i2] = ["sched", list(np.cumsum(gaps)) if ab else gaps, ab, False]
        s["sources"].append({"ID": f"S{i}", "product": f"Prod{i}", "loc": place(), "q": f"SQ{i}", "tm": i2, "heur": rnd.choice(["FIFO", "random", "shortest_queue"]), "gaps": gaps}); s["queues"][f"SQ{i}"] = 0
    if link:
        ids = [r for r in s["res"] if r.startswith("R")] + [x["ID"] for x in s["sources"]] + [x["ID"] for x in s["sinks"]] + [k for k in s["stores"] if not k.startswith("AST")]
        if s["stores"]:
            pass
        for j in range(rnd.choice([0, 1, 2])): s["nodes"][f"N{j}"] = place()
        alln = ids + list(s["nodes"])
        links = []
        # connected both ways: a random tree + extra edges; node N* are pure waypoints; stores are not linkable
        alln = [a for a in alln if a not in s["stores"]]
        perm_ = alln[:]; rnd.shuffle(perm_)
        for x in range(1, len(perm_)):
            o = rnd.choice(perm_[:x]); links += [[o, perm_[x]], [perm_[x], o]]
        for _ in range(rnd.choice([0, 2, 4])):
            a, b = rnd.sample(alln, 2)
            if [a, b] not in links: links.append([a, b])
        s["procs"]["TP"]["links"] = links
        if rnd.random() < .4 : s["procs"]["TP"]["cap"] = "drive"
        if "ST0" in s["stores"]:      # storage with link transport is not linkable by configuration
            for r in s["res"].values():
                if "oq" in r: r["oq"] = [q for q in r["oq"] if q != "ST0"]
            s["stores"].pop("ST0")
    s["horizon"] = 400
    if rnd.random() < .5: s = rename(s)
    return s

def rename(x):
    """identifiers that are prefixes of each other (P1, P10, P101, ...), so that inexact lookups by name show"""
    if isinstance(x, str): return re.sub(r"(?<=[A-Za-z])(\d+)$", lambda m: {0: "10", 1: "1", 2: "100", 3: "101"}.get(int(m[1]), str(int(m[1]) + 10)), x)
    if isinstance(x, dict): return {rename(k): rename(v) for k, v in x.items()}
    if isinstance(x, list): return [rename(v) for v in x]
    return x

def build(s):
    from prodsys.adapters import JsonProductionSystemAdapter
    from prodsys.models import time_model_data as t, state_data as st, processes_data as pr, resource_data as rd, queue_data as qd, product_data as pd_, source_data as sd, sink_data as kd, node_data as nd, auxiliary_data as ad
    T = []
    for i, v in s["tm"].items():
        k = v[0]
        if k == "const": T.append(t.FunctionTimeModelData(ID=i, description="", distribution_function="constant", location=v[1], scale=0))
        elif k == "exp": T.append(t.FunctionTimeModelData(ID=i, description="", distribution_function="exponential", location=v[1], scale=0))
        elif k == "norm": T.append(t.FunctionTimeModelData(ID=i, description="", distribution_function="normal", location=v[1], scale=v[2]))
        elif k == "sample": T.append(t.SampleTimeModelData(ID=i, description="", samples=v[1]))
        elif k == "sched": T.append(t.ScheduledTimeModelData(ID=i, description="", schedule=v[1], absolute=v[2], cyclic=v[3]))
        elif k == "dist": T.append(t.DistanceTimeModelData(ID=i, description="", speed=v[1], reaction_time=v[2], metric=v[3]))
    P = []
    for i, v in s["procs"].items():
        k = v["kind"]
        if k == "prod": P.append(pr.ProductionProcessData(ID=i, description="", time_model_id=v["tm"], type="ProductionProcesses", failure_rate=v["fail"]))
        elif k == "cap": P.append(pr.CapabilityProcessData(ID=i, description="", time_model_id=v["tm"], type="CapabilityProcesses", capability=v["cap"]))
        elif k == "req": P.append(pr.RequiredCapabilityProcessData(ID=i, description="", type="RequiredCapabilityProcesses", capability=v["cap"]))
        elif k == "rework": P.append(pr.ReworkProcessData(ID=i, description="", time_model_id=v["tm"], type="ReworkProcesses", reworked_process_ids=v["of"], blocking=v["blocking"]))
        elif k == "tp": P.append(pr.TransportProcessData(ID=i, description="", time_model_id=v["tm"], type="TransportProcesses", loading_time_model_id=v["load"], unloading_time_model_id=v["unload"]))
        elif k == "link": P.append(pr.LinkTransportProcessData(ID=i, description="", time_model_id=v["tm"], type="LinkTransportProcesses", loading_time_model_id=v["load"], unloading_time_model_id=v["unload"], links=v["links"], capability=v.get("cap") or ""))
    S = []
    for i, v in s["states"].items():
        k = v["kind"]
        if k == "setup": S.append(st.SetupStateData(ID=i, description="", time_model_id=v["tm"], type="SetupState", origin_setup=v["a"], target_setup=v["b"]))
        elif k == "bd": S.append(st.BreakDownStateData(ID=i, description="", time_model_id=v["tm"], type="BreakDownState", repair_time_model_id=v["rep"]))
        elif k == "pbd": S.append(st.ProcessBreakDownStateData(ID=i, description="", time_model_id=v["tm"], type="ProcessBreakDownState", repair_time_model_id=v["rep"], process_id=v["p"]))
        elif k == "charge": S.append(st.ChargingStateData(ID=i, description="", time_model_id=v["tm"], type="ChargingState", battery_time_model_id=v["bat"]))
    R = []
    for i, v in s["res"].items():
        if v["ctrl"] == "Transport":
            R.append(rd.TransportResourceData(ID=i, description="", capacity=v["cap"], location=v["loc"], controller="TransportController", control_policy=v["pol"], process_ids=v["procs"], process_capacities=v["pcs"], state_ids=v["states"]))
        else:
            kw = {}
            if v.get("iloc"): kw = dict(input_location=v["iloc"], output_location=v["oloc"])
            if v["batch"]: kw["batch_size"] = v["batch"]
            R.append(rd.ProductionResourceData(ID=i, description="", capacity=v["cap"], location=v["loc"], controller=v["ctrl"] + "Controller", control_policy=v["pol"], process_ids=v["procs"], process_capacities=v["pcs"], state_ids=v["states"],
                                               input_queues=v["iq"], output_queues=v["oq"], **kw))
    Q = [qd.QueueData(ID=i, description="", capacity=c) for i, c in s["queues"].items()] + [qd.StoreData(ID=i, description="", capacity=v["cap"], location=v["loc"]) for i, v in s["stores"].items()]
    return JsonProductionSystemAdapter(ID="gen", seed=s["seed"], time_model_data=T, process_data=P, state_data=S, queue_data=Q, resource_data=R,
        node_data=[nd.NodeData(ID=i, description="", location=l) for i, l in s["nodes"].items()],
        product_data=[pd_.ProductData(ID=i, description="", product_type=i, processes=v["plan"], transport_process="TP", auxiliaries=v["aux"]) for i, v in s["products"].items()],
        source_data=[sd.SourceData(ID=v["ID"], description="", location=v["loc"], product_type=v["product"], time_model_id=v["tm"], routing_heuristic=v["heur"], output_queues=[v["q"]]) for v in s["sources"]],
        sink_data=[kd.SinkData(ID=v["ID"], description="", location=v["loc"], product_type=v["product"], input_queues=[v["q"]]) for v in s["sinks"]],
        auxiliary_data=[ad.AuxiliaryData(ID=i, description="", auxiliary_type=i, transport_process=v["tp"], storages=v["stores"], quantity_in_storages=v["qty"], relevant_processes=[], relevant_transport_processes=v["rel_tp"]) for i, v in s["aux"].items()])

class Run:
    """executes a system step by step; on_step(run) after every simulation event"""
    def __init__(self, s, on_step=None, prepare=None, horizon=None, maxsteps=60000, adapter=None):
        from prodsys.util import runner
        self.s = s
        self.adapter = adapter or build(s)
        self.runner = runner.Runner(adapter=self.adapter)
        self.error = None
        self.steps = 0
        self.stuck = False
        class Stop(Exception): pass
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                self.runner.initialize_simulation()
                env = self.env = self.runner.env
                self.log = self.runner.event_logger.event_data
                if prepare: prepare(self)
                orig = env.step
                def step():
                    orig(); self.steps += 1
                    if self.steps > maxsteps: self.stuck = True; raise Stop()
                    if on_step: on_step(self)
                env.step = step
                self.runner.run(horizon or s["horizon"])
            except Stop: pass
            except Exception as e:
                import traceback
                self.error = e; self.tb = traceback.format_exc()
    def rows(self):
        out = []
        for e in self.log:
            d = dict(e)
            for k in ("Activity", "State Type"):
                v = d.get(k); d[k] = getattr(v, "value", v)
            out.append(d)
        return out

def sessions(rows):
    """work sessions of the states: list of dicts(resource,state,type,product,events=[(activity,time,expected)]); only unambiguous when at most one
    slot of a state is active at a time (others are dropped and counted)"""
    open_, out, bad = {}, [], 0
    return out

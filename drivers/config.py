"""random complete configurations with every kind of part.  P16: one reference made dangling, queues left out, objects moved together, processes withdrawn, links to unknown places -- acceptance and
the completed configuration are compared with an independent rule.  P17: the same configuration renamed and reordered, one functional attribute changed, one reference made dangling -- identity hashes compared.
Distinct by kind of change and outcome"""
PROPS = ["P16", "P17"]
import json, random, copy, logging, warnings
warnings.simplefilter("ignore")

def M():
    import prodsys
    from prodsys import adapters
    from prodsys.models import queue_data
    logging.disable(logging.CRITICAL)
    return adapters, queue_data

def gen(rnd):
    """json-able description; stores are queues with a location"""
    tms = [{"ID": "f0", "distribution_function": "normal", "location": 12.5, "scale": 1.5}, {"ID": "f1", "distribution_function": "exponential", "location": 30.0, "scale": 0.0}, {"ID": "c0", "distribution_function": "constant", "location": 2.0, "scale": 0.0},
           {"ID": "s0", "samples": [1.0, 11.0, 2.5]}, {"ID": "sq", "sequence": [25.0, 13.0]}, {"ID": "sc", "schedule": [3.0, 4.0, 9.0], "absolute": True, "cyclic": False}, {"ID": "d0", "speed": 30.0, "reaction_time": 0.15, "metric": "manhattan"}, {"ID": "m0", "speed": 20.0, "reaction_time": 0.5}]
    for i in range(rnd.randint(0, 3)): tms.append({"ID": f"x{i}", "distribution_function": rnd.choice(["normal", "lognormal", "exponential", "constant"]), "location": round(rnd.uniform(1, 50), rnd.randint(0, 3)), "scale": round(rnd.uniform(0, 5), 2)})
    tm = lambda: rnd.choice([t["ID"] for t in tms if "speed" not in t and "schedule" not in t])
    procs = [{"ID": f"P{i}", "type": "ProductionProcesses", "time_model_id": tm(), "failure_rate": rnd.choice([0.0, 0.25])} for i in range(rnd.randint(2, 4))]
    plain = [p["ID"] for p in procs]
    procs += [{"ID": "C0", "type": "CapabilityProcesses", "time_model_id": tm(), "capability": "cap", "failure_rate": 0.0}, {"ID": "RC", "type": "RequiredCapabilityProcesses", "capability": "cap"}]
    procs += [{"ID": "RW", "type": "ReworkProcesses", "time_model_id": tm(), "reworked_process_ids": rnd.sample(plain, rnd.randint(1, 2)), "blocking": rnd.random() < .5}]
    procs += [{"ID": "CP", "type": "CompoundProcesses", "process_ids": rnd.sample(plain, 2)}]
    procs += [{"ID": "T0", "type": "TransportProcesses", "time_model_id": "d0", "loading_time_model_id": rnd.choice([None, "c0"]), "unloading_time_model_id": rnd.choice([None, "f0"])}, {"ID": "T1", "type": "TransportProcesses", "time_model_id": "m0"}]
    places = [[float(x), float(y)] for x in range(0, 100, 10) for y in range(0, 40, 10)]; rnd.shuffle(places); place = places.pop
    states = [{"ID": "b0", "type": "BreakDownState", "time_model_id": tm(), "repair_time_model_id": "c0"}, {"ID": "pb", "type": "ProcessBreakDownState", "time_model_id": tm(), "repair_time_model_id": "c0", "process_id": rnd.choice(plain)},
              {"ID": "su", "type": "SetupState", "time_model_id": "c0", "origin_setup": plain[0], "target_setup": plain[1]}, {"ID": "ch", "type": "ChargingState", "time_model_id": "c0", "battery_time_model_id": "f1"}]
    queues = []; res = []
    def q(i, cap): queues.append({"ID": i, "capacity": cap}); return i
    for i in range(rnd.randint(2, 3)):
        ps = rnd.sample(plain, rnd.randint(1, len(plain))) + (["C0", "RW"] if i == 0 else [])
        if i == 0: ps = plain + ["C0", "RW"]
        if i == 1 and rnd.random() < .4: ps = ["CP"]
        cap = rnd.randint(2, 4)
        r = {"ID": f"R{i}", "capacity": cap, "location": place(), "controller": "PipelineController", "control_policy": rnd.choice(["FIFO", "LIFO", "SPT"]), "process_ids": ps, "process_capacities": [rnd.choice([cap, cap, cap - 1]) for _ in ps], "state_ids": rnd.sample(["b0", "pb", "su"], rnd.randint(0, 3)),
             "input_queues": [q(f"I{i}", rnd.randint(0, 5))], "output_queues": [q(f"O{i}", rnd.randint(6, 9))]}
        if rnd.random() < .4: r["input_queues"].append(q(f"J{i}", rnd.randint(10, 12)))
        k = rnd.random()
        if k < .3: r["input_location"] = place(); r["output_location"] = place()
        elif k < .45: r["input_location"] = place(); r["output_location"] = list(r["input_location"])
        elif k < .6: r["output_location"] = place()
        if i == 1 and rnd.random() < .4: r["controller"] = "BatchController"; r["batch_size"] = 2
        res.append(r)
    for i in range(rnd.randint(1, 2)):
        res.append({"ID": f"V{i}", "capacity": 1, "location": place(), "controller": "TransportController", "control_policy": rnd.choice(["FIFO", "SPT_transport"]), "process_ids": ["T0", "T1"] if i == 0 else ["T0"], "process_capacities": [1, 1] if i == 0 else [1], "state_ids": rnd.sample(["b0", "ch"], rnd.randint(0, 2))})
    aux = []; queues.append({"ID": "ST0", "capacity": 7, "location": place()}); queues.append({"ID": "ST1", "capacity": 8, "location": place(), "input_location": place()})
    if rnd.random() < .5:
        aux.append({"ID": "A0", "auxiliary_type": "A0", "transport_process": "T0", "storages": ["ST0", "ST1"], "quantity_in_storages": [3, 4], "relevant_processes": [plain[0]], "relevant_transport_processes": ["T1"]})
    prods = []
    for i in range(rnd.randint(1, 3)):
        prods.append({"ID": f"A{i}p", "product_type": f"A{i}p", "processes": [rnd.choice(plain + ["RC", "CP"]) for _ in range(rnd.randint(1, 4))], "transport_process": rnd.choice(["T0", "T1"]), "auxiliaries": [a["ID"] for a in aux if rnd.random() < .6]})
    nodes = [{"ID": f"N{i}", "location": place()} for i in range(2)]
    src = [{"ID": f"S{i}", "location": place(), "product_type": p["ID"], "time_model_id": tm(), "routing_heuristic": rnd.choice(["shortest_queue", "random", "FIFO"]), "output_queues": [q(f"SQ{i}", 0)]} for i, p in enumerate(prods)]
    snk = [{"ID": f"K{i}", "location": place(), "product_type": p["ID"], "input_queues": [q(f"KQ{i}", 0)]} for i, p in enumerate(prods)]
    ends = ["N0", "N1", "R0", "R1", "S0", "K0"]
    procs.append({"ID": "TL", "type": "LinkTransportProcesses", "time_model_id": "d0", "loading_time_model_id": None, "unloading_time_model_id": None, "links": [rnd.sample(ends, 2) for _ in range(rnd.randint(1, 4))], "capability": rnd.choice(["", "forklift"])})
    d = {"ID": "cfg", "seed": 3, "time_model_data": tms, "state_data": states, "process_data": procs, "queue_data": queues, "node_data": nodes, "resource_data": res, "product_data": prods, "sink_data": snk, "source_data": src, "auxiliary_data": aux}
    for k, v in d.items():
        if isinstance(v, list):
            for o in v: o["description"] = ""
    return d
LISTS = ["time_model_data", "state_data", "process_data", "queue_data", "node_data", "resource_data", "product_data", "sink_data", "source_data", "auxiliary_data"]
def build(d):
    ad, qd = M()
    d = copy.deepcopy(d)
    from prodsys.models import time_model_data as tmd
    d["time_model_data"] = [tmd.ManhattanDistanceTimeModelData(**t) if "speed" in t and "metric" not in t else t for t in d["time_model_data"]]
    d["queue_data"] = [qd.StoreData(**q) if "location" in q else qd.QueueData(**q) for q in d["queue_data"]]
    return ad.JsonProductionSystemAdapter(**d)
def dump(a):
    o = {k: [json.loads(x.model_dump_json()) for x in (getattr(a, k) or [])] for k in LISTS}
    o["ID"], o["seed"] = a.ID, a.seed
    return o
def find(d, i, kinds=LISTS):
    for k in kinds:
        for o in d[k]:
            if o["ID"] == i: return o

# ------------------------------------------------------------------ P16
# (name, list, attribute): every reference of the configuration
REFS = [("state_data", "time_model_id"), ("state_data", "repair_time_model_id"), ("state_data", "battery_time_model_id"), ("state_data", "process_id"), ("state_data", "origin_setup"), ("state_data", "target_setup"),
        ("process_data", "time_model_id"), ("process_data", "loading_time_model_id"), ("process_data", "unloading_time_model_id"), ("process_data", "reworked_process_ids"), ("process_data", "process_ids"),
        ("resource_data", "process_ids"), ("resource_data", "state_ids"), ("resource_data", "input_queues"), ("resource_data", "output_queues"), ("product_data", "processes"), ("product_data", "transport_process"), ("product_data", "auxiliaries"),
        ("sink_data", "product_type"), ("sink_data", "input_queues"), ("source_data", "product_type"), ("source_data", "time_model_id"), ("source_data", "output_queues"),
        ("auxiliary_data", "transport_process"), ("auxiliary_data", "storages"), ("auxiliary_data", "relevant_processes"), ("auxiliary_data", "relevant_transport_processes")]
def dangle(d, ref, rnd, bad):
    """makes one such reference dangle; returns its description or None"""
    k, at = ref
    os_ = [o for o in d[k] if o.get(at)]
    if not os_: return None
    o = rnd.choice(os_); v = o[at]
    if isinstance(v, list): v[rnd.randrange(len(v))] = bad
    elif isinstance(v, dict):
        ks = list(v); g = rnd.choice(ks)
        if rnd.random() < .5: v[g] = v[g] + [bad]
        else: v[bad] = v.pop(g)
    else: o[at] = bad
    return f"{o['ID']}.{at}"
def locs(o): return [tuple(x) for x in dict.fromkeys(tuple(o[k]) for k in ("location", "input_location", "output_location") if o.get(k))]
def physical(d):
    """reasons against the system"""
    out = []
    P = {p["ID"]: p for p in d["process_data"]}
    L = [p for r in d["resource_data"] if r["controller"] != "TransportController" for p in locs(r)] + list({p for s in d["source_data"] for p in locs(s)}) + list({p for s in d["sink_data"] for p in locs(s)}) + [p for q in d["queue_data"] if "location" in q for p in locs(q)]
    if len(L) != len(set(L)): out.append("place")
    off = [x for r in d["resource_data"] for x in r["process_ids"]]
    if any(P[x]["type"] == "RequiredCapabilityProcesses" for x in off): out.append("abstract process offered")
    ex = lambda ids: {y for x in ids for y in (P[x]["process_ids"] if P[x]["type"] == "CompoundProcesses" else [x])}
    have = ex(off); caps = {P[x]["capability"] for x in have if P[x].get("capability") and P[x]["type"] != "RequiredCapabilityProcesses"}
    flat = lambda ps: [x for p in ps for x in ([p] if isinstance(p, str) else p)]
    for x in ex([x for p in d["product_data"] for x in (flat(p["processes"]) + [p["transport_process"]])]):
        if P[x]["type"] in ("RequiredCapabilityProcesses", "CapabilityProcesses") or P[x].get("capability"):
            if P[x]["capability"] not in caps: out.append("capability")
        elif x not in have: out.append("process")
    ids = {o["ID"] for k in ("node_data", "resource_data", "source_data", "sink_data") for o in d[k]}
    if any(e not in ids for p in d["process_data"] for l in (p.get("links") or []) for e in l): out.append("link")
    return sorted(set(out))
def norm(d):
    """what a complete description looks like as an accepted configuration"""
    return json.loads(json.dumps(d))
def case16(inp, K):
    bad = []; err = lambda k, t: bad.append((k, t))
    d = copy.deepcopy(inp["system"]); kind = inp["kind"]; rnd = random.Random(inp["seed"])
    try: full = dump(build(d))
    except Exception as e: err("rejects-consistent", f"{type(e).__name__}: {str(e)[:200]}"); return bad
    for k in LISTS:
        if [o["ID"] for o in full[k]] != [o["ID"] for o in d[k]]: err("complete-changed", f"{k}: {[o['ID'] for o in full[k]]}"); return bad
        for o, p in zip(full[k], d[k]):
            x = [f for f in p if p[f] is not None and o.get(f) != p[f] and f not in ("input_location", "output_location")]
            if x: err("complete-changed", f"{p['ID']}: {[(f, p[f], o.get(f)) for f in x]}"); return bad
    if kind == "again":
        a = build(d)
        for k in rnd.sample(LISTS, len(LISTS)):
            if k == "auxiliary_data" and getattr(a, k) is None: continue
            setattr(a, k, list(getattr(a, k)))
        b = dump(a)
        x = [k for k in LISTS if b[k] != full[k]]
        K.add((kind, tuple(x)))
        if x: err("revalidation-changes", f"validating the same parts again changed {x}")
    elif kind == "dangling":
        ref = tuple(inp["ref"]); w = dangle(d, ref, rnd, rnd.choice(["nowhere", "P", "R0 "] + [""] * (not ref[1].endswith("loading_time_model_id"))))   # no loading time may also be written as ""
        if w is None: return bad
        try: build(d); K.add((kind, ref, "accepted")); err("accepts-dangling:" + ".".join(ref), f"{w} refers to nothing and is accepted")
        except ValueError: K.add((kind, ref, "rejected"))
        except Exception as e: err("raises", f"{w} refers to nothing: {type(e).__name__} {str(e)[:200]} instead of a validation error")
    elif kind == "queues":
        gone = {}; cnt = 0
        for k, at in (("resource_data", "input_queues"), ("resource_data", "output_queues"), ("source_data", "output_queues"), ("sink_data", "input_queues")):
            for o in d[k]:
                if at in o and rnd.random() < .4:
                    gone[(o["ID"], at)] = o[at]
                    for x in o[at]: d["queue_data"] = [q for q in d["queue_data"] if q["ID"] != x]
                    if rnd.random() < .5: o[at] = []
                    else: del o[at]
        try: a = dump(build(d))
        except Exception as e: err("queues-rejected", f"without {list(gone)}: {type(e).__name__} {str(e)[:200]}"); return bad
        K.add((kind, len(gone)))
        new = [q for q in a["queue_data"] if q["ID"] not in [x["ID"] for x in d["queue_data"]]]
        if a["queue_data"][:len(d["queue_data"])] != [o for o in full["queue_data"] if o["ID"] in [x["ID"] for x in d["queue_data"]]]: err("queues-changed", "existing queues changed")
        if len(a["queue_data"]) != len(d["queue_data"]) + len(gone): err("queues-number", f"{len(gone)} missing queues ({list(gone)}), completed by {[q['ID'] for q in new]} (queues {len(d['queue_data'])} -> {len(a['queue_data'])})")
        used = []
        for k in ("resource_data", "source_data", "sink_data"):
            for o, f in zip(a[k], full[k]):
                for at in [x for x in ("input_queues", "output_queues") if x in o]:
                    used += o[at]
                    if (o["ID"], at) in gone:
                        if len(o[at]) != 1 or o[at][0] not in [q["ID"] for q in new]: err("queues-missing", f"{o['ID']}.{at} = {o[at]}")
                    elif o[at] != f[at]: err("queues-replaced", f"{o['ID']}.{at} was {f[at]}, is {o[at]} (left out: {list(gone)})")
                x = [g for g in o if g not in ("input_queues", "output_queues") and o[g] != f[g]]
                if x: err("queues-frame", f"{o['ID']}: {x} changed")
        for q in new:
            if q["capacity"] != 0: err("queues-limited", f"new queue {q}")
            if used.count(q["ID"]) != 1: err("queues-shared", f"new queue {q['ID']} is used {used.count(q['ID'])} times")
    elif kind == "sinkcap":
        s = rnd.choice(d["sink_data"]); find(d, s["input_queues"][0], ["queue_data"])["capacity"] = 5
        a = dump(build(d)); K.add((kind,))
        if find(a, s["input_queues"][0], ["queue_data"])["capacity"] != 0: err("sink-limited", "queue of a sink stays limited")
        find(a, s["input_queues"][0], ["queue_data"])["capacity"] = 0.0
        x = [k for k in LISTS if a[k] != full[k]]
        if x: err("sink-frame", f"{x} changed")
    elif kind == "defaults":
        # the convenience functions that give parts their own queues
        from prodsys.adapters import adapter as AD
        a = build(d); cap = rnd.choice([0.0, 3])
        for o in a.source_data:
            if rnd.random() < .5: o.output_queues = []
        for o in a.sink_data:
            if rnd.random() < .5: o.input_queues = []
        b = dump(a); AD.add_default_queues_to_adapter(a, cap); c = dump(a)
        x = [k for k in LISTS if c[k] != b[k] and k not in ("resource_data", "source_data", "sink_data", "queue_data")]
        if x: err("defaults-frame", f"changed {x}")
        Q = {q["ID"]: q for q in c["queue_data"]}; B = {q["ID"]: q for q in b["queue_data"]}
        if len(Q) != len(c["queue_data"]): err("defaults-twice", f"a queue exists twice: {[q['ID'] for q in c['queue_data']]}")
        used = []; K.add((kind, cap, sum(not o["output_queues"] for o in b["source_data"]), sum(not o["input_queues"] for o in b["sink_data"])))
        for k in ("resource_data", "source_data", "sink_data"):
            if [o["ID"] for o in c[k]] != [o["ID"] for o in b[k]]: err("defaults-frame", f"{k} changed")
            for o, f in zip(c[k], b[k]):
                x = [g for g in o if g not in ("input_queues", "output_queues") and o[g] != f[g]]
                if x: err("defaults-frame", f"{o['ID']}: {x} changed")
                for at in [x for x in ("input_queues", "output_queues") if x in o]:
                    used += o[at]
                    if f[at] and k != "resource_data":
                        if o[at] != f[at] or any(Q.get(y) != B[y] for y in o[at]): err("defaults-replaced", f"{o['ID']}.{at} was {f[at]}, is {o[at]}")
                    elif len(o[at]) != 1 or o[at][0] not in Q: err("defaults-missing", f"{o['ID']}.{at} = {o[at]}")
                    elif Q[o[at][0]]["capacity"] != cap: err("defaults-capacity", f"{Q[o[at][0]]} instead of capacity {cap}")
        for y in set(used):
            if used.count(y) != 1 and y not in [z for k in ("source_data", "sink_data") for o in b[k] for z in o.get("input_queues", []) + o.get("output_queues", [])]: err("defaults-shared", f"new queue {y} is used {used.count(y)} times")
        need = {z for o in c["auxiliary_data"] for z in o["storages"]}
        if any(Q.get(z) != B[z] for z in need): err("defaults-storage", "a storage of auxiliaries is changed or gone")
        if set(Q) - set(used) - need: err("defaults-unused", f"queues of nobody remain: {sorted(set(Q) - set(used) - need)}")
    else:
        # physical validation
        a = build(d)
        objs = [o for o in a.resource_data + a.source_data + a.sink_data + [q for q in a.queue_data if hasattr(q, "location")]]
        for _ in range(rnd.choice([0, 1, 1, 2])):
            how = rnd.choice(["loc", "loc", "withdraw", "link", "abstract", "withdrawcap"])
            if how == "loc":
                o, p = rnd.sample(objs, 2)
                fs = lambda o: [f for f in ("location", "input_location", "output_location") if getattr(o, f, None)]
                setattr(o, rnd.choice(fs(o)), list(getattr(p, rnd.choice(fs(p)))))
            elif how == "withdraw":
                x = rnd.choice([p.ID for p in a.process_data])
                for r in a.resource_data: r.process_ids = [y for y in r.process_ids if y != x]
            elif how == "withdrawcap":
                for r in a.resource_data: r.process_ids = [y for y in r.process_ids if y != "C0"]
                a.process_data = [p for p in a.process_data]
            elif how == "link":
                t = [p for p in a.process_data if p.ID == "TL"][0]; t.links = t.links + [[rnd.choice(["N0", "nowhere"]), rnd.choice(["R0", "N1", "elsewhere", "I0"])]]
            elif how == "abstract" and rnd.random() < .4: a.resource_data[0].process_ids = a.resource_data[0].process_ids + ["RC"]
            if rnd.random() < .3 and a.product_data:
                p = rnd.choice(a.product_data)
                if isinstance(p.processes, list): p.processes = [p.processes[:1], p.processes[-1:]] if rnd.random() < .5 and isinstance(p.processes[0], str) else p.processes
        b = dump(a); rs = physical(b)
        try: a.validate_configuration(); K.add((kind, "ok", tuple(rs)))
        except ValueError as e:
            K.add((kind, "refused", tuple(rs)))
            if not rs: err("physical-refuses", f"refused: {str(e)[:200]}")
            rs = None
        except Exception as e: err("raises", f"validate_configuration: {type(e).__name__} {str(e)[:200]}"); rs = None
        if rs: err("physical-accepts", f"accepted in spite of {rs}")
        if dump(a) != b: err("physical-frame", "physical validation changed the configuration")
    return bad

# ------------------------------------------------------------------ P17
def rename(d, rnd, names=None):
    """consistent renaming and reordering without functional meaning; auxiliaries keep their names and the order of their storages (a known finding; a sequence)"""
    d = copy.deepcopy(d)
    m = {}
    for k in LISTS:
        for o in d[k]: m[o["ID"]] = o["ID"] if k == "auxiliary_data" else f"{rnd.choice('abcxyz')}{len(m)}_{rnd.randrange(1000)}"
    def sub(v): return [sub(x) for x in v] if isinstance(v, list) else m.get(v, v) if isinstance(v, str) else v
    for k in LISTS:
        for o in d[k]:
            for f in o:
                if f not in ("description", "type", "controller", "control_policy", "capability", "routing_heuristic", "distribution_function", "metric"): o[f] = sub(o[f])
            o["description"] = rnd.choice(["", "other"])
            for f in ("state_ids", "input_queues", "output_queues", "links", "reworked_process_ids", "relevant_processes", "relevant_transport_processes"):
                if o.get(f): rnd.shuffle(o[f])
            if k == "process_data" and o.get("process_ids"): rnd.shuffle(o["process_ids"])
            if k == "resource_data":
                z = list(zip(o["process_ids"], o["process_capacities"])); rnd.shuffle(z)
                o["process_ids"], o["process_capacities"] = [x for x, _ in z], [x for _, x in z]
        rnd.shuffle(d[k])
    return d
OTHER = lambda rnd, v, L: rnd.choice([x for x in L if x != v])
def changes(d, rnd):
    """(key, [paths changed]) one functional attribute changed, in place on a copy"""
    L = []
    def add(key, f): L.append((key, f))
    def at(k, pred, f): 
        os_ = [o for o in d[k] if pred(o)]
        return [(o["ID"], f) for o in os_]
    def num(k, f, pred=lambda o: True, delta=lambda v: v + 1):
        for o in d[k]:
            if f in o and o[f] is not None and pred(o): add(f"{k}.{f}", lambda e, i=o["ID"], k=k, f=f: find(e, i, [k]).__setitem__(f, delta(find(e, i, [k])[f])))
    for f in ("location", "scale", "speed", "reaction_time"): num("time_model_data", f, delta=lambda v: v + rnd.choice([1.0, 0.5, 0.001]))
    for f in ("absolute", "cyclic"): num("time_model_data", f, delta=lambda v: not v)
    num("time_model_data", "metric", delta=lambda v: "euclidian"); num("time_model_data", "distribution_function", delta=lambda v: OTHER(rnd, v, ["normal", "lognormal", "exponential", "constant"]))
    def lst(v):
        v = list(v); c = rnd.randrange(4)
        if c == 0: v.append(2.0)
        elif c == 1: v[rnd.randrange(len(v))] += 0.25
        elif c == 2 and len(v) > 1: v.pop()
        else: v = [1.01 if v[0] == 1.0 else v[0] + 1, 1.0] + v[2:]
        return v
    for f in ("samples", "sequence", "schedule"): num("time_model_data", f, delta=lst)
    # references to time models with other contents
    T = {t["ID"]: json.dumps({k: v for k, v in t.items() if k not in ("ID", "description")}, sort_keys=True) for t in d["time_model_data"]}
    otm = lambda v: rnd.choice([t for t in T if T[t] != T[v]])
    for k in ("state_data", "process_data", "source_data"):
        for f in ("time_model_id", "repair_time_model_id", "battery_time_model_id", "loading_time_model_id", "unloading_time_model_id"): num(k, f, delta=otm)
    for o in d["process_data"]:
        if o["type"] in ("TransportProcesses", "LinkTransportProcesses"):
            for f in ("loading_time_model_id", "unloading_time_model_id"):
                if not o.get(f): add(f"process_data.{f}", lambda e, i=o["ID"], f=f: find(e, i, ["process_data"]).__setitem__(f, "s0"))
    num("process_data", "failure_rate", delta=lambda v: v + 0.5); num("process_data", "capability", delta=lambda v: v + "2")
    num("process_data", "blocking", delta=lambda v: not v)
    def links(v):
        v = [list(x) for x in v]; c = rnd.randrange(2)
        if c and len(v) > 1: v.pop()
        else: v.append(["N0", "N1"])
        return v
    num("process_data", "links", delta=links)
    for o in d["process_data"]:
        if o["type"] == "CompoundProcesses": add("compound.process_ids", lambda e, i=o["ID"]: find(e, i, ["process_data"]).__setitem__("process_ids", find(e, i, ["process_data"])["process_ids"] + ["C0"]))
        if o["type"] == "ReworkProcesses": add("process_data.reworked_process_ids", lambda e, i=o["ID"]: find(e, i, ["process_data"])["reworked_process_ids"].append("C0"))
    st = lambda v: v + [s for s in ("b0", "pb", "su", "ch") if s not in v][:1] if len(v) < 2 else v[:-1]
    num("resource_data", "state_ids", delta=st)
    num("state_data", "process_id", delta=lambda v: "C0"); num("state_data", "origin_setup", delta=lambda v: "C0"); num("state_data", "target_setup", delta=lambda v: "RW")
    # swapped direction of a setup between processes with other contents
    su = find(d, "su", ["state_data"]); c = lambda i: {k: v for k, v in find(d, i, ["process_data"]).items() if k not in ("ID", "time_model_id")} | {"t": T[find(d, i, ["process_data"])["time_model_id"]]}
    if c(su["origin_setup"]) != c(su["target_setup"]): add("state_data.setup-direction", lambda e: find(e, "su").update(origin_setup=su["target_setup"], target_setup=su["origin_setup"]))
    num("queue_data", "capacity", pred=lambda o: not o["ID"].startswith("KQ"))   # queues of sinks are made unlimited by the validation
    for k in ("queue_data", "node_data", "resource_data", "sink_data", "source_data"):
        num(k, "location", delta=lambda v: [v[0] + 0.5, v[1]]); num(k, "input_location", delta=lambda v: [v[0], v[1] + 0.5]); num(k, "output_location", delta=lambda v: [v[0], v[1] - 0.5])
    for o in d["resource_data"]:
        i = o["ID"]; R = lambda e, i=i: find(e, i, ["resource_data"])
        add("resource_data.capacity", lambda e, R=R: R(e).__setitem__("capacity", R(e)["capacity"] + 3))
        add("resource_data.process_capacities", lambda e, R=R: R(e).__setitem__("process_capacities", R(e)["process_capacities"][:-1] + [R(e)["process_capacities"][-1] - 1]))
        def less(e, R=R): r = R(e); r["process_ids"] = r["process_ids"][:-1]; r["process_capacities"] = r["process_capacities"][:-1]
        if len(o["process_ids"]) > 1: add("resource_data.process_ids", less)
        pol = ["FIFO", "SPT_transport"] if o["controller"] == "TransportController" else ["FIFO", "LIFO", "SPT"]
        add("resource_data.control_policy", lambda e, R=R, pol=pol: R(e).__setitem__("control_policy", OTHER(rnd, R(e)["control_policy"], pol)))
        if "input_queues" in o:
            if o.get("batch_size"): add("resource_data.batch_size", lambda e, R=R: R(e).__setitem__("batch_size", 1))
            add("resource_data.input_queues", lambda e, R=R: R(e)["input_queues"].append("ST0")); add("resource_data.output_queues", lambda e, R=R: R(e)["output_queues"].append("ST1"))
            add("resource_data.queue-direction", lambda e, R=R: R(e).update(input_queues=R(e)["output_queues"], output_queues=R(e)["input_queues"]))
            if o["controller"] == "PipelineController": add("resource_data.controller", lambda e, R=R: R(e).update(controller="BatchController", batch_size=2))
        if c("P0") != c("P1") and {"P0", "P1"} <= set(o["process_ids"]) and o["process_capacities"][o["process_ids"].index("P0")] != o["process_capacities"][o["process_ids"].index("P1")]:
            def swap(e, R=R): m = {"P0": "P1", "P1": "P0"}; R(e)["process_ids"] = [m.get(x, x) for x in R(e)["process_ids"]]
            add("resource_data.process_capacities-alignment", swap)
    def prc(v): return rnd.choice([v + [v[0]], v + ["C0"], v[:-1] or ["C0", "RC"]])
    num("product_data", "processes", delta=prc); num("product_data", "transport_process", delta=lambda v: "T1" if v == "T0" else "T0")
    num("source_data", "routing_heuristic", delta=lambda v: OTHER(rnd, v, ["shortest_queue", "random", "FIFO"]))
    num("source_data", "output_queues", delta=lambda v: v + ["ST0"]); num("sink_data", "input_queues", delta=lambda v: v + ["KX"])
    for o in d["product_data"]:
        if o["auxiliaries"]: add("product_data.auxiliaries", lambda e, i=o["ID"]: find(e, i, ["product_data"]).__setitem__("auxiliaries", []))
    num("auxiliary_data", "quantity_in_storages", delta=lambda v: [v[0] + 1] + v[1:]); num("auxiliary_data", "transport_process", delta=lambda v: "T1"); num("auxiliary_data", "relevant_processes", delta=lambda v: v + ["C0"])
    num("auxiliary_data", "relevant_transport_processes", delta=lambda v: v + ["T0"]); num("auxiliary_data", "storages", delta=lambda v: [v[0], "I0"])
    return L
# attributes the identity hash ignores (known findings; the test-suite pins the hash values of its example systems, so their hash cannot be corrected)
IGNORED = {"resource_data.control_policy", "resource_data.batch_size", "resource_data.queue-direction", "process_data.blocking", "process_data.reworked_process_ids", "product_data.auxiliaries"}
DREFS = [r for r in REFS if r not in (("product_data", "auxiliaries"), ("process_data", "reworked_process_ids"))]
UNREPORTED = {("product_data", "auxiliaries"), ("process_data", "reworked_process_ids")}
def part_hash(a, i, k=None):
    for kk in ([k] if k else LISTS):
        for o in getattr(a, kk):
            if o.ID == i: return o.hash() if kk in ("time_model_data", "queue_data", "node_data") else o.hash(a)
def case17(inp, K):
    bad = []; err = lambda k, t: bad.append((k, t))
    d = inp["system"]; rnd = random.Random(inp["seed"]); kind = inp["kind"]
    a = build(d); h = a.hash()
    if kind == "rename":
        e = rename(d, rnd); b = build(e); g = b.hash(); K.add((kind, len(d["product_data"]), bool(d["auxiliary_data"])))
        if g != h:
            # which parts differ
            bad_ = [k for k in LISTS if sorted(x.hash() if k in ("time_model_data", "queue_data", "node_data") else x.hash(a) for x in getattr(a, k)) != sorted(x.hash() if k in ("time_model_data", "queue_data", "node_data") else x.hash(b) for x in getattr(b, k))]
            err("names-or-order:" + "+".join(bad_), f"renaming and reordering parts changes the identity hash (parts: {bad_})")
        if build(d).hash() != h: err("repeat", "the same configuration hashes differently the second time")
    elif kind == "change":
        cs = changes(d, rnd); key, f = cs[inp["pick"] % len(cs)]
        e = copy.deepcopy(d)
        f(e)
        if key == "sink_data.input_queues": e["queue_data"].append({"ID": "KX", "capacity": 0, "description": ""})
        try: b = build(e); g = b.hash()
        except Exception as x: err("raises", f"{key}: {type(x).__name__} {str(x)[:200]}"); return bad
        K.add((kind, key))
        if g == h: err(("ignored:" if key in IGNORED else "insensitive:") + key, f"changing {key} keeps the identity hash")
        if key == "sink_data.input_queues": pass
        if key not in IGNORED:
            for k in LISTS:
                for o, p in zip(d[k], e[k]):
                    if o != p and part_hash(a, o["ID"], k) == part_hash(b, o["ID"], k): err("insensitive-part:" + key, f"{o['ID']} hashes like before the change of {key}")
    elif kind == "digits":
        x, y = rnd.choice([(1.0, 11.0), (2.0, 21.0), (3.0, 12.0)]), None
        s = f"{x[0]}{x[1]}"; y = (float(s[:4]), float(s[4:])) if s[4:].count(".") == 1 else None
        t = rnd.choice(["f0", "d0", "m0"]); fs = {"f0": ("location", "scale"), "d0": ("speed", "reaction_time"), "m0": ("speed", "reaction_time")}[t]
        hs = []
        for v in (x, y):
            e = copy.deepcopy(d); find(e, t)[fs[0]], find(e, t)[fs[1]] = v; hs.append(build(e).hash())
        K.add((kind, t))
        if hs[0] == hs[1]: err(f"digits:{t}", f"{fs} = {x} and {y} have the same hash")
    elif kind == "loading":
        hs = []
        for v in (("s0", None), (None, "s0")):
            e = copy.deepcopy(d); t = find(e, "T1"); t["loading_time_model_id"], t["unloading_time_model_id"] = v; hs.append(build(e).hash())
        K.add((kind,))
        if hs[0] == hs[1]: err("loading", "a loading time and the same unloading time have the same hash")
    elif kind == "auxname":
        if not d["auxiliary_data"]: return bad
        e = copy.deepcopy(d)
        for o in e["auxiliary_data"]: o["ID"] = o["auxiliary_type"] = "renamed"
        for p in e["product_data"]: p["auxiliaries"] = ["renamed" for _ in p["auxiliaries"]]
        K.add((kind,))
        if build(e).hash() != h: err("auxiliary-name", "renaming an auxiliary changes the hash")
    else:
        ref = tuple(inp["ref"]); e = dump(a)
        w = dangle(e, ref, rnd, rnd.choice(["nowhere", "", "P"]))
        if w is None: return bad
        if w.split(".")[1] in ("loading_time_model_id", "unloading_time_model_id", ) and not find(e, w.split(".")[0])[ref[1]]: return bad
        for o, p in zip(getattr(a, ref[0]), e[ref[0]]):
            if json.loads(o.model_dump_json()) != p: setattr(o, ref[1], p[ref[1]])
        try: a.hash(); K.add((kind, ref, "hashed")); err(("unreported:" if ref in UNREPORTED else "hashes-dangling:") + ".".join(ref), f"{w} refers to nothing and is hashed")
        except ValueError: K.add((kind, ref, "reported"))
        except Exception as x: err("raises", f"{w} refers to nothing: {type(x).__name__} {str(x)[:150]}")
    return bad

def run(ctx):
    rnd = ctx.rnd; seen = set()
    while ctx.more(200000):
        s = gen(rnd)
        if ctx.prop == "P16":
            kind = rnd.choice(["again", "dangling", "dangling", "dangling", "dangling", "queues", "queues", "sinkcap", "defaults", "physical", "physical", "physical"])
            inp = {"system": s, "kind": kind, "seed": rnd.randrange(10 ** 6), "ref": rnd.choice(REFS)}
            if kind in ("dangling", "physical") and rnd.random() < .3:
                p = rnd.choice(s["product_data"]); ps = list(dict.fromkeys(p["processes"])); p["processes"] = {x: [y] for x, y in zip(ps, ps[1:])} | {ps[-1]: []}
            if kind == "dangling" and rnd.random() < .15:
                p = rnd.choice(s["product_data"])
                if isinstance(p["processes"], list): p["processes"] = [p["processes"][:1], p["processes"][-1:]]; inp["ref"] = ("product_data", "transport_process")
            f = case16
        else:
            kind = rnd.choice(["rename", "rename", "rename", "change", "change", "change", "change", "change", "change", "dangling", "dangling", "digits", "loading", "auxname"])
            inp = {"system": s, "kind": kind, "seed": rnd.randrange(10 ** 6), "ref": rnd.choice(REFS), "pick": rnd.randrange(10 ** 6)}
            f = case17
        K = set(); bad = f(inp, K)
        for k in K: ctx.case(k, None)
        for k, t in bad[:2]:
            ctx.violation(k, t, inp)

def replay(ctx, inp):
    for k, t in (case16 if ctx.prop == "P16" else case17)(inp, set()): ctx.violation(k, t, inp)

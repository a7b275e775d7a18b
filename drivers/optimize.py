"""random configurations with scenarios, run through random histories of the real variation operators, mutation, crossover and random generation; every step is compared with the
configuration before it (only the named part may differ), validity and cost are compared with independent re-implementations; distinct by operator, outcome and shape of the configuration"""
PROPS = ["P19"]
import json, random, copy, collections, logging

def mods():
    from prodsys import adapters
    from prodsys.optimization import adapter_manipulation as am, optimization as op, util as ut
    from prodsys.models import scenario_data, processes_data, performance_indicators
    logging.disable(logging.CRITICAL)
    return adapters, am, op, ut

# ---------------------------------------------------------------- random configurations (json-able)
def gen(rnd):
    n = rnd.randint(1, 4)
    procs = [{"ID": f"P{i}", "description": "", "type": "ProductionProcesses", "time_model_id": "t"} for i in range(n)]
    plain = [p["ID"] for p in procs]
    if rnd.random() < .25:
        procs.append({"ID": "C0", "description": "", "type": "CapabilityProcesses", "time_model_id": "t", "capability": "cap"}); procs.append({"ID": "RC", "description": "", "type": "RequiredCapabilityProcesses", "capability": "cap"})
    if rnd.random() < .4 and n >= 2:
        procs.append({"ID": "CP", "description": "", "type": "CompoundProcesses", "process_ids": rnd.sample(plain, 2)})
    nt = rnd.choice([1, 1, 2])
    procs += [{"ID": f"T{i}", "description": "", "type": "TransportProcesses", "time_model_id": "d"} for i in range(nt)]
    comp = next((p["process_ids"] for p in procs if p["ID"] == "CP"), [])
    offer = [p for p in plain if p not in comp] + (["C0"] if any(p["ID"] == "C0" for p in procs) else []) + ([tuple(comp)] if comp else [])
    pos = [[float(x), float(y)] for x in (10, 20, 30) for y in (10, 20)]; rnd.shuffle(pos)
    pos = pos[:rnd.randint(1, 6)]
    states = []
    tm = rnd.sample(["none", "all", "m", "t"], 1)[0]
    if tm in ("all", "m"): states.append({"ID": "BSM", "description": "", "type": "BreakDownState", "time_model_id": "t", "repair_time_model_id": "t"})
    if tm in ("all", "t"): states.append({"ID": "BST", "description": "", "type": "BreakDownState", "time_model_id": "t", "repair_time_model_id": "t"})
    if tm == "all" or rnd.random() < .2:
        for p in plain:
            if rnd.random() < .7: states.append({"ID": "BSP_" + p, "description": "", "type": "ProcessBreakDownState", "time_model_id": "t", "repair_time_model_id": "t", "process_id": p})
    if rnd.random() < .5:
        for a in plain:
            for b in plain:
                if a != b and rnd.random() < .5: states.append({"ID": f"S{a}{b}", "description": "", "type": "SetupState", "time_model_id": "t", "origin_setup": a, "target_setup": b})
    pols = ["FIFO", "LIFO", "SPT"]; tpols = ["FIFO", "SPT_transport"]
    queues = []; res = []
    nm = rnd.choice([0, 1, 1, 2, 3, 4])
    fixed = list(pos); rnd.shuffle(fixed)
    def flat(gs): return [x for g in gs for x in ([g] if isinstance(g, str) else g)]
    for i in range(nm):
        loc = fixed.pop() if fixed and rnd.random() < .8 else [float(100 + i), 3.0]
        ps = flat(rnd.sample(offer, rnd.randint(1, min(3, len(offer)))))
        if rnd.random() < .15 and comp: ps = [comp[0]]
        st = [s["ID"] for s in states if (s["ID"] == "BSM" or (s["ID"].startswith("BSP_") and s["process_id"] in ps) or (s["type"] == "SetupState" and (s["origin_setup"] in ps or s["target_setup"] in ps))) and rnd.random() < .8]
        r = {"ID": f"M{i}", "description": "", "capacity": rnd.choice([1, 1, 2]), "location": loc, "controller": "PipelineController", "control_policy": rnd.choice(pols), "process_ids": ps, "state_ids": st}
        if rnd.random() < .15: r["input_location"] = [loc[0] - 1, loc[1]]; r["output_location"] = [loc[0], loc[1] + 1]
        for k in ("input", "output"):
            if rnd.random() < .9:
                q = f"{'d_' if rnd.random() < .5 else ''}M{i}_{k}"; queues.append({"ID": q, "description": "", "capacity": 0}); r[k + "_queues"] = [q]
        if len([k for k in ("input_queues", "output_queues") if k in r]) == 1: r.pop("input_queues", None); r.pop("output_queues", None)
        res.append(r)
    nv = rnd.choice([0, 1, 1, 2, 3])
    for i in range(nv):
        res.append({"ID": f"V{i}", "description": "", "capacity": 1, "location": [0.0, 0.0], "controller": "TransportController", "control_policy": rnd.choice(tpols), "process_ids": [f"T{rnd.randrange(nt)}"],
                    "state_ids": ["BST"] if any(s["ID"] == "BST" for s in states) and rnd.random() < .7 else []})
    rnd.shuffle(res)
    na = rnd.choice([0, 0, 1, 2]); aux = []; caps = {}
    for i in range(na):
        ns = rnd.choice([1, 2]); q = []; st_ = []
        for j in range(ns):
            c = rnd.choice([0, 2, 5]); x = f"ST{i}{j}"
            if i == 1 and j == 0 and rnd.random() < .4: x, c = "ST00", caps["ST00"]        # one storage for two kinds of auxiliaries
            if x not in caps: queues.append({"ID": x, "description": "", "capacity": c, "location": [200.0 + i, 5.0 + j]})
            caps[x] = c; st_.append(x); q.append(rnd.randint(0, c or 3))
        aux.append({"ID": f"A{i}", "description": "", "auxiliary_type": f"A{i}", "transport_process": "T0", "storages": st_, "quantity_in_storages": q})
    prods = []
    req = [p["ID"] for p in procs if p["type"] in ("ProductionProcesses", "RequiredCapabilityProcesses", "CompoundProcesses")]
    for i in range(rnd.choice([1, 1, 2])):
        kind = rnd.choice(["list", "list", "dict"]); ps = [rnd.choice(req) for _ in range(rnd.randint(1, 3))]
        prods.append({"ID": f"pr{i}", "description": "", "product_type": f"pr{i}", "processes": ps if kind == "list" else {**{a: [b] for a, b in zip(ps, ps[1:])}, ps[-1]: []}, "transport_process": f"T{rnd.randrange(nt)}",
                      "auxiliaries": [a["ID"] for a in aux if rnd.random() < .7]})
    at = fixed[0] if fixed and rnd.random() < .1 else [0.0, 50.0]
    src = [{"ID": f"S{i}", "description": "", "location": at if i == 0 else [1.0, 50.0], "product_type": p["ID"], "time_model_id": "t", "routing_heuristic": rnd.choice(["shortest_queue", "random", "FIFO"]), "output_queues": [f"SQ{i}"]} for i, p in enumerate(prods)]
    snk = [{"ID": f"K{i}", "description": "", "location": [2.0, 60.0], "product_type": p["ID"], "input_queues": [f"KQ{i}"]} for i, p in enumerate(prods)]
    queues += [{"ID": f"{k}Q{i}", "description": "", "capacity": 0} for i in range(len(prods)) for k in "SK"]
    sc = {"constraints": {"max_reconfiguration_cost": float(rnd.choice([0, 50, 500, 100000])), "max_num_machines": rnd.randint(1, 5), "max_num_processes_per_machine": rnd.randint(1, 3), "max_num_transport_resources": rnd.randint(1, 3), "target_product_count": {}},
          "options": {"transformations": rnd.sample(["production_capacity", "transport_capacity", "auxiliary_capacity", "layout", "sequencing_logic", "routing_logic"], rnd.randint(1, 6)), "machine_controllers": rnd.sample(pols, rnd.randint(1, 3)),
                      "transport_controllers": rnd.sample(tpols, rnd.randint(1, 2)), "routing_heuristics": rnd.sample(["shortest_queue", "random", "FIFO"], rnd.randint(1, 3)), "positions": pos},
          "info": {"machine_cost": float(rnd.choice([0, 30, 100])), "transport_resource_cost": float(rnd.choice([0, 20, 70])), "process_module_cost": rnd.choice([None, 7.0, {p: float(3 + i) for i, p in enumerate(plain) if rnd.random() < .8}]),
                   "auxiliary_cost": rnd.choice([None, 2.0, 2.0]), "time_range": 20},
          "objectives": [{"name": k, "weight": w} for k, w in rnd.sample([("cost", 1.0), ("throughput", .5), ("WIP", .25), ("throughput_time", 2.0)], rnd.randint(1, 4))]}
    return {"ID": "base", "time_model_data": [{"ID": "t", "description": "", "distribution_function": "constant", "location": 2.0, "scale": 0.0}, {"ID": "d", "description": "", "speed": 10.0, "reaction_time": 0.1}],
            "state_data": states, "process_data": procs, "queue_data": queues, "resource_data": res, "product_data": prods, "sink_data": snk, "source_data": src, "scenario_data": sc, "auxiliary_data": aux}

# ---------------------------------------------------------------- oracles over dumps
def D(a): return json.loads(a.model_dump_json())
def ismach(r): return r["controller"] != "TransportController"
def M(d): return [r for r in d["resource_data"] if ismach(r)]
def V(d): return [r for r in d["resource_data"] if not ismach(r)]
def P(d): return {p["ID"]: p for p in d["process_data"]}
def groups(d):
    """process modules: every process of its own, and the contained processes of a compound process together"""
    comp = [p for p in d["process_data"] if p["type"] == "CompoundProcesses"]
    inner = {x for c in comp for x in c["process_ids"]}
    return [(p["ID"],) for p in d["process_data"] if p["type"] in ("ProductionProcesses", "CapabilityProcesses", "ReworkProcesses") and p["ID"] not in inner] + [tuple(c["process_ids"]) for c in comp]
def modules(r, d): return [g for g in groups(d) if set(g) & set(r["process_ids"])]
def required_aux(d):
    u = {x for p in d["product_data"] for x in p["auxiliaries"]}
    return [a for a in d["auxiliary_data"] if a["ID"] in u or a["auxiliary_type"] in u]
def available(d):
    ps = P(d)
    def expand(ids):
        out = set()
        for i in ids:
            out |= set(ps[i]["process_ids"]) if ps[i]["type"] == "CompoundProcesses" else {i}
        return out
    off = [x for r in d["resource_data"] for x in r["process_ids"]]
    if any(ps[x]["type"] == "RequiredCapabilityProcesses" for x in off): return False
    have = expand(off); caps = {ps[x]["capability"] for x in have if ps[x]["type"] == "CapabilityProcesses"}
    need = set()
    for p in d["product_data"]: need |= set(p["processes"]) | {p["transport_process"]}
    for x in expand(need):
        t = ps[x]["type"]
        if t in ("RequiredCapabilityProcesses", "CapabilityProcesses"):
            if ps[x]["capability"] not in caps: return False
        elif x not in have: return False
    return True
def places_ok(d):
    def locs(o): return {tuple(o[k]) for k in ("location", "input_location", "output_location") if o.get(k)}
    L = [p for r in M(d) for p in locs(r)]
    L += list({p for s in d["source_data"] for p in locs(s)}) + list({p for s in d["sink_data"] for p in locs(s)})
    if len(L) != len(set(L)): return False
    return all(r["input_location"] in d["scenario_data"]["options"]["positions"] for r in M(d))
def cost(d, b):
    i = d["scenario_data"]["info"]; c = max(0, len(M(d)) - (len(M(b)) if b else 4)) * i["machine_cost"] + max(0, len(V(d)) - (len(V(b)) if b else 1)) * i["transport_resource_cost"]
    def count(x): return collections.Counter(g for r in M(x) for g in modules(r, x))
    n, o = count(d), count(b) if b else {}
    for g in set(groups(d)):
        pr = i["process_module_cost"]; pr = pr.get(g[0], 0) if isinstance(pr, dict) else (pr or 0)
        c += max(0, n[g] - o.get(g, 0)) * pr
    for k, a in enumerate(d["auxiliary_data"]):
        for j, q in enumerate(a["quantity_in_storages"]):
            c += max(0, q - (b["auxiliary_data"][k]["quantity_in_storages"][j] if b else 0)) * (i["auxiliary_cost"] or 0)
    return c
def close(a, b): return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
def reasons(d, b):
    k = d["scenario_data"]["constraints"]; out = []
    if len(M(d)) > k["max_num_machines"]: out.append("too many machines")
    if not 0 < len(V(d)) <= k["max_num_transport_resources"]: out.append("number of vehicles")
    if any(len(modules(r, d)) > k["max_num_processes_per_machine"] for r in M(d)): out.append("too many processes on a machine")
    if any(sum(a["quantity_in_storages"]) <= 0 for a in required_aux(d)): out.append("required auxiliary missing")
    if not available(d): out.append("required process missing")
    if not places_ok(d): out.append("positions")
    if cost(d, b) > k["max_reconfiguration_cost"]: out.append("cost")
    return out
def strip(r): return {k: v for k, v in r.items() if k not in ("input_queues", "output_queues", "state_ids", "process_capacities")}
def diff(x, y): return sorted(k for k in x if x[k] != y[k])

def setup_states_ok(r, d):
    S = {s["ID"]: s for s in d["state_data"]}
    return set(s for s in r["state_ids"] if S[s]["type"] == "SetupState") == {s["ID"] for s in d["state_data"] if s["type"] == "SetupState" and (s["origin_setup"] in r["process_ids"] or s["target_setup"] in r["process_ids"])}

def check_op(name, before, after, ok, err):
    """one variation operator; err(key, text)"""
    ch = diff(before, after); o = before["scenario_data"]["options"]; k = before["scenario_data"]["constraints"]
    B, A = before["resource_data"], after["resource_data"]
    if ok is not True and ok is not False: err(name + "-answer", f"answers {ok!r}")
    if not ok:
        if ch: err(name + "-noop", f"reports that it did nothing, but {ch} changed")
        # doing nothing is only right if nothing could be done (the machine is chosen at random, so only sure cases are judged)
        if name in ("remove_machine", "add_process_module") and M(before): err(name + "-refuses", "does nothing although there is a machine")
        if name == "remove_transport_resource" and V(before): err(name + "-refuses", "does nothing although there is a vehicle")
        if name == "add_transport_resource": err(name + "-refuses", "does nothing")
        free = [p for p in o["positions"] if p not in [m["location"] for m in M(before)]]
        if name in ("add_machine",) and free: err(name + "-refuses", "does nothing although a position is free")
        if name == "move_machine" and free and M(before): err(name + "-refuses", "does nothing although a position is free")
        cq = {q["ID"]: q["capacity"] for q in before["queue_data"]}
        if name == "add_auxiliary" and required_aux(before) and all(q < cq[s] for a in required_aux(before) for q, s in zip(a["quantity_in_storages"], a["storages"])): err(name + "-refuses", "does nothing although no storage is full")
        if name == "remove_auxiliary" and required_aux(before) and all(q > 0 for a in required_aux(before) for q in a["quantity_in_storages"]): err(name + "-refuses", "does nothing although no storage is empty")
        return
    def same_except(allowed):
        x = [c for c in ch if c not in allowed]
        if x: err(name + "-frame", f"changed {x} as well")
    if name in ("add_machine", "add_transport_resource"):
        same_except(["resource_data"] + (["queue_data"] if name == "add_machine" else []))
        drop = strip if name == "add_machine" else (lambda r: r)
        if [drop(r) for r in A[:len(B)]] != [drop(r) for r in B] or len(A) != len(B) + 1: err(name + "-frame", f"existing resources changed or not exactly one added: {len(B)} -> {len(A)}"); return
        if name == "add_machine" and [(r["state_ids"], r["process_capacities"]) for r in A[:len(B)]] != [(r["state_ids"], r["process_capacities"]) for r in B]: err(name + "-frame", "existing machines changed")
        new = A[-1]
        if new["ID"] in [r["ID"] for r in B]: err(name + "-id", f"ID {new['ID']} used twice")
        if new["capacity"] != 1 or len(new["process_capacities"]) != len(new["process_ids"]) or set(new["process_capacities"]) - {1}: err(name + "-capacity", f"new resource has capacities {new['capacity']} {new['process_capacities']}")
        if name == "add_machine":
            if not ismach(new): err(name + "-kind", "no machine was added")
            if new["location"] not in o["positions"] or new["location"] in [m["location"] for m in M(before)]: err(name + "-position", f"placed at {new['location']}")
            if new["control_policy"] not in o["machine_controllers"]: err(name + "-policy", new["control_policy"])
            gs = groups(before)
            if not new["process_ids"] or any(not set(g) <= set(new["process_ids"]) for g in modules(new, before)) or set(new["process_ids"]) - {x for g in gs for x in g}: err(name + "-processes", f"offers {new['process_ids']} of {gs}")
            if len(modules(new, before)) > k["max_num_processes_per_machine"] and len({x for g in gs for x in g}) == sum(map(len, gs)): err(name + "-processes", f"{len(modules(new, before))} modules on the new machine, at most {k['max_num_processes_per_machine']}")
            if not setup_states_ok(new, after): err(name + "-setup", f"setup states {new['state_ids']} for {new['process_ids']}")
            queues_ok(after, err, name)
        else:
            if ismach(new): err(name + "-kind", "no vehicle was added")
            if len(new["process_ids"]) != 1 or P(before).get(new["process_ids"][0], {}).get("type") not in ("TransportProcesses", "LinkTransportProcesses"): err(name + "-processes", f"offers {new['process_ids']}")
            if new["control_policy"] not in o["transport_controllers"]: err(name + "-policy", new["control_policy"])
    elif name in ("remove_machine", "remove_transport_resource"):
        same_except(["resource_data"])
        gone = [i for i in range(len(B)) if B[:i] + B[i + 1:] == A]
        if not gone: err(name + "-frame", "the remaining resources are not the others unchanged")
        elif not any(ismach(B[i]) == (name == "remove_machine") for i in gone): err(name + "-kind", "a resource of the other kind was removed")
    elif name in ("add_process_module", "remove_process_module", "move_process_module", "move_machine", "change_control_policy"):
        same_except(["resource_data"])
        if len(A) != len(B) or [r["ID"] for r in A] != [r["ID"] for r in B]: err(name + "-frame", "resources added, removed or reordered"); return
        cs = [i for i in range(len(A)) if A[i] != B[i]]
        flds = {"move_machine": ["input_location", "location", "output_location"], "change_control_policy": ["control_policy"]}.get(name, ["process_ids", "state_ids"])
        for i in cs:
            x = [f for f in diff(B[i], A[i]) if f not in flds]
            if x: err(name + "-frame", f"changed {x} of {A[i]['ID']}")
        if len(cs) > (2 if name == "move_process_module" else 1): err(name + "-frame", f"{len(cs)} resources changed"); return
        if name in ("move_machine", "change_control_policy") and len(cs) != 1: err(name + "-effect", "reports a change, nothing changed"); return
        gs = groups(before)
        for i in cs:
            if not ismach(A[i]) and name != "change_control_policy": err(name + "-kind", f"changed vehicle {A[i]['ID']}")
            if name.endswith("module"):
                if not setup_states_ok(A[i], after): err(name + "-setup", f"{A[i]['ID']} offers {A[i]['process_ids']} with states {A[i]['state_ids']}")
                ns = lambda r: [s for s in r["state_ids"] if {t["ID"]: t for t in before["state_data"]}[s]["type"] != "SetupState"]
                if ns(A[i]) != ns(B[i]): err(name + "-frame", f"other states of {A[i]['ID']} changed")
        for i in cs:
            b, a = B[i], A[i]
            if name == "add_process_module":
                if a["process_ids"][:len(b["process_ids"])] != b["process_ids"] or not any(set(a["process_ids"]) == set(b["process_ids"]) | set(g) for g in gs) or len(set(a["process_ids"]) - set(b["process_ids"])) != len(a["process_ids"]) - len(b["process_ids"]):
                    err(name + "-effect", f"{b['process_ids']} -> {a['process_ids']}")
            if name == "remove_process_module":
                if not any(set(a["process_ids"]) == set(b["process_ids"]) - set(g) for g in modules(b, before)) or [x for x in b["process_ids"] if x in a["process_ids"]] != a["process_ids"]: err(name + "-effect", f"{b['process_ids']} -> {a['process_ids']}")
            if name == "move_machine":
                d = [a["location"][j] - b["location"][j] for j in (0, 1)]
                if a["location"] not in o["positions"] or a["location"] in [m["location"] for m in M(before)]: err(name + "-position", f"moved to {a['location']}")
                if any(not close(a[f][j] - b[f][j], d[j]) for f in ("input_location", "output_location") for j in (0, 1)): err(name + "-effect", "input/output place does not move along")
            if name == "change_control_policy":
                if a["control_policy"] == b["control_policy"] or a["control_policy"] not in o["machine_controllers" if ismach(a) else "transport_controllers"]: err(name + "-effect", f"policy {b['control_policy']} -> {a['control_policy']}")
        if name == "remove_process_module" and not cs: err(name + "-effect", "reports a change, nothing changed")
        if name == "move_process_module":
            # one machine lost a module's processes, another one has them all now
            lost = [i for i in cs if set(B[i]["process_ids"]) - set(A[i]["process_ids"])]
            ok_ = len(lost) == 1
            if ok_:
                i = lost[0]; mv = set(B[i]["process_ids"]) - set(A[i]["process_ids"])
                gg = [g for g in modules(B[i], before) if mv == set(g) & set(B[i]["process_ids"])]
                ok_ = bool(gg) and not set(A[i]["process_ids"]) - set(B[i]["process_ids"])
                rest = [j for j in range(len(A)) if j != i and ismach(A[j])]
                oth = [j for j in cs if j != i]
                ok_ = ok_ and (any(set(A[oth[0]]["process_ids"]) == set(B[oth[0]]["process_ids"]) | x for x in [mv] + [set(g) for g in gg]) if oth else any(mv <= set(A[j]["process_ids"]) for j in rest))
            if not ok_: err(name + "-effect", f"{[(B[i]['process_ids'], A[i]['process_ids']) for i in cs]}")
            for i in cs:
                if len(A[i]["process_ids"]) != len(set(A[i]["process_ids"])) and len(B[i]["process_ids"]) == len(set(B[i]["process_ids"])): err(name + "-duplicate", f"{A[i]['ID']} offers {A[i]['process_ids']}")
    elif name in ("add_auxiliary", "remove_auxiliary"):
        same_except(["auxiliary_data"]); cs = []
        for a, b in zip(after["auxiliary_data"], before["auxiliary_data"]):
            x = diff(a, b)
            if set(x) - {"quantity_in_storages"}: err(name + "-frame", f"changed {x}")
            cs += [(a, j, q - p) for j, (q, p) in enumerate(zip(a["quantity_in_storages"], b["quantity_in_storages"])) if q != p]
        if len(cs) != 1 or cs[0][2] != (1 if name == "add_auxiliary" else -1): err(name + "-effect", f"quantities changed by {[c[2] for c in cs]}"); return
        a, j, _ = cs[0]; c = next(q["capacity"] for q in before["queue_data"] if q["ID"] == a["storages"][j])
        if a["quantity_in_storages"][j] < 0 or (c and a["quantity_in_storages"][j] > c): err(name + "-range", f"{a['quantity_in_storages'][j]} in a storage of {c}")
        if a["ID"] not in [r["ID"] for r in required_aux(before)]: err(name + "-kind", f"changed {a['ID']}, which no product needs")
    elif name == "change_routing_policy":
        same_except(["source_data"])
        cs = [(a, b) for a, b in zip(after["source_data"], before["source_data"]) if a != b]
        if len(cs) != 1 or diff(*cs[0]) != ["routing_heuristic"] or cs[0][0]["routing_heuristic"] not in o["routing_heuristics"]: err(name + "-effect", f"{len(cs)} sources changed")

def queues_ok(d, err, name):
    q = [x["ID"] for x in d["queue_data"]]
    if len(q) != len(set(q)): err(name + "-queues", f"queue defined twice: {[x for x in q if q.count(x) > 1]}")
    for r in M(d):
        if not r["input_queues"] or not r["output_queues"]: err(name + "-queues", f"{r['ID']} has no queues")
        for x in r["input_queues"] + r["output_queues"]:
            if x not in q: err(name + "-queues", f"queue {x} of {r['ID']} does not exist")
    for s in d["source_data"]:
        if set(s["output_queues"]) - set(q): err(name + "-queues", f"queue of {s['ID']} does not exist any more")
    for s in d["sink_data"]:
        if set(s["input_queues"]) - set(q): err(name + "-queues", f"queue of {s['ID']} does not exist any more")
    for a in d["auxiliary_data"]:
        if set(a["storages"]) - set(q): err(name + "-queues", f"storage of {a['ID']} does not exist any more")
def consistent(d, err, name):
    """after a complete variation step"""
    ps, st = P(d), {s["ID"] for s in d["state_data"]}
    for r in d["resource_data"]:
        if set(r["process_ids"]) - set(ps): err(name + "-process-reference", f"{r['ID']} offers {r['process_ids']}")
        if set(r["state_ids"]) - st: err(name + "-state-reference", f"{r['ID']} has states {r['state_ids']}")
        if r["process_capacities"] != [r["capacity"]] * len(r["process_ids"]): err(name + "-capacities", f"{r['ID']}: capacities {r['process_capacities']} for {r['process_ids']} (capacity {r['capacity']})")
        names = {s["ID"] for s in d["state_data"]}
        if ismach(r):
            if any(x == "BSM" or "BSP" in x for x in names):
                want = (["BSM"] if "BSM" in names else []) + [f"BSP_{x}" for x in r["process_ids"] if f"BSP_{x}" in names]
                if r["state_ids"] != want: err(name + "-breakdowns", f"{r['ID']} offers {r['process_ids']}: states {r['state_ids']}, expected {want}")
        elif "BST" in names and r["state_ids"] != ["BST"]: err(name + "-breakdowns", f"{r['ID']}: states {r['state_ids']}")
    queues_ok(d, err, name)

OPS = ["add_machine", "add_transport_resource", "add_process_module", "remove_machine", "remove_transport_resource", "remove_process_module", "move_process_module", "move_machine", "add_auxiliary", "remove_auxiliary", "change_control_policy", "change_routing_policy"]
TR = {"production_capacity": ["add_machine", "remove_machine", "move_machine", "change_control_policy", "add_process_module", "remove_process_module", "move_process_module"], "transport_capacity": ["add_transport_resource", "remove_transport_resource"],
      "auxiliary_capacity": ["add_auxiliary", "remove_auxiliary"], "layout": ["move_machine"], "sequencing_logic": ["change_control_policy"], "routing_logic": ["change_routing_policy"]}
RANDOMS = ["arrange_machines", "get_random_layout", "get_random_production_capacity", "get_random_transport_capacity", "get_random_auxiliary_capacity", "get_random_control_policies", "get_random_routing_logic"]
def check_random(name, before, after, err):
    """one part of the random generation: changes only what it names and stays within the options of the scenario"""
    o = before["scenario_data"]["options"]; k = before["scenario_data"]["constraints"]
    allowed = {"get_random_auxiliary_capacity": ["auxiliary_data"], "get_random_routing_logic": ["source_data"], "get_random_production_capacity": ["resource_data", "queue_data"]}.get(name, ["resource_data"])
    x = [c for c in diff(before, after) if c not in allowed]
    if x: err(name + "-frame", f"changed {x} as well")
    B, A = before["resource_data"], after["resource_data"]
    if name in ("arrange_machines", "get_random_layout"):
        if [r["ID"] for r in A] != [r["ID"] for r in B]: err(name + "-frame", "resources added, lost or reordered"); return
        for a, b in zip(A, B):
            x = diff(b, a)
            if set(x) - ({"location", "input_location", "output_location"} if ismach(b) else set()): err(name + "-frame", f"changed {x} of {b['ID']}")
            if ismach(b):
                dx = [a["location"][i] - b["location"][i] for i in (0, 1)]
                for f in ("input_location", "output_location"):
                    if b.get(f) and not all(close(a[f][i] - b[f][i], dx[i]) for i in (0, 1)): err(name + "-effect", f"{f} of {b['ID']} moves from {b[f]} to {a[f]}, the machine from {b['location']} to {a['location']}")
        at = [r["location"] for r in M(after)]
        if any(p not in o["positions"] for p in at): err(name + "-position", f"machines at {at}, possible are {o['positions']}")
        if any(at.count(p) > o["positions"].count(p) for p in at): err(name + "-position", f"two machines at one place: {at}")
    elif name == "get_random_production_capacity":
        if V(after) != V(before): err(name + "-frame", "vehicles changed")
        m = M(after)
        if len(m) > k["max_num_machines"]: err(name + "-limit", f"{len(m)} machines, at most {k['max_num_machines']} are allowed")
        if o["positions"] and not m: err(name + "-effect", "no machine is generated")
        at = [r["location"] for r in m]
        if any(p not in o["positions"] for p in at) or any(at.count(p) > o["positions"].count(p) for p in at): err(name + "-position", f"machines at {at}, possible are {o['positions']}")
        for r in m:
            if len(modules(r, after)) > k["max_num_processes_per_machine"] or r["control_policy"] not in o["machine_controllers"]: err(name + "-options", f"{r['process_ids']} with {r['control_policy']}")
    elif name == "get_random_transport_capacity":
        if M(after) != M(before): err(name + "-frame", "machines changed")
        v = V(after)
        if not 1 <= len(v) <= k["max_num_transport_resources"]: err(name + "-limit", f"{len(v)} vehicles, at most {k['max_num_transport_resources']} are allowed")
        if any(r["control_policy"] not in o["transport_controllers"] for r in v): err(name + "-options", f"{[r['control_policy'] for r in v]}")
    elif name == "get_random_control_policies":
        for a, b in zip(A, B):
            x = diff(b, a)
            if set(x) - {"control_policy"}: err(name + "-frame", f"changed {x} of {b['ID']}")
            if a["control_policy"] not in o["machine_controllers" if ismach(a) else "transport_controllers"]: err(name + "-options", f"{a['ID']} gets {a['control_policy']}")
        if len(A) != len(B): err(name + "-frame", "resources added or lost")
    elif name == "get_random_routing_logic":
        for a, b in zip(after["source_data"], before["source_data"]):
            if set(diff(b, a)) - {"routing_heuristic"} or a["routing_heuristic"] not in o["routing_heuristics"]: err(name + "-effect", f"changed {diff(b, a)} of {b['ID']}, {a['routing_heuristic']}")
    elif name == "get_random_auxiliary_capacity":
        cap = {q["ID"]: q["capacity"] for q in before["queue_data"]}; left = dict(cap); need = [a["ID"] for a in required_aux(before)]
        for a, b in zip(after["auxiliary_data"], before["auxiliary_data"]):
            if set(diff(b, a)) - {"quantity_in_storages"} or (a["ID"] not in need and a != b): err(name + "-frame", f"changed {diff(b, a)} of {b['ID']}")
            if a["ID"] not in need: continue
            for q, p, s in zip(a["quantity_in_storages"], b["quantity_in_storages"], a["storages"]):
                if not left[s]:
                    if q != p: err(name + "-frame", f"changed the quantity in {s}, which has no room or no limit")
                elif not 1 <= q <= left[s]: err(name + "-range", f"{q} of {a['ID']} in {s}, where {left[s]} of {cap[s]} places are left")
                else: left[s] -= q

class Stop(Exception): pass

def case(inp, kinds=None):
    """replays one history; returns violations [(key, text)]"""
    adapters, am, op, ut = mods()
    bad = []; K = kinds if kinds is not None else set()
    base = adapters.JsonProductionSystemAdapter.model_validate(copy.deepcopy(inp["system"]))
    base0 = D(base)
    cur = base.model_copy(deep=True); other = base.model_copy(deep=True)
    def err(k, t): bad.append((k, t))
    def guarded(name, f):
        try: return True, f()
        except Stop: raise
        except Exception as e:
            err(name + "-raises", f"{type(e).__name__}: {e}"); return False, None
    def judge(a, b, who):
        d, bd = D(a), D(b) if b is not None else None
        ok, v = guarded("cost", lambda: op.get_reconfiguration_cost(a, b))
        if ok and (v < 0 or not close(v, cost(d, bd))): err("cost", f"{who}: cost {v}, the added parts cost {cost(d, bd)}")
        if diff(d, D(a)): err("cost-frame", f"{who}: computing the cost changed {diff(d, D(a))}")
        if b is None: return
        ok, v = guarded("validity", lambda: op.check_valid_configuration(a, b))
        rs = reasons(d, bd); K.add(("valid", v, tuple(rs)))
        if ok and bool(v) != (not rs): err("validity-" + ("accepts" if v else "rejects"), f"{who}: judged {'valid' if v else 'invalid'}, reasons against it: {rs}")
        e = D(a); x = [f for f in diff(d, e) if f != "reconfiguration_cost"]
        if x: err("validity-frame", f"{who}: judging changed {x}")
    judge(cur, base, "start"); judge(cur, None, "start without baseline")
    for step in inp["steps"]:
        if bad: break
        name = step[0]; rs = step[1]
        random.seed(rs)
        b = D(cur)
        if name in OPS:
            ok, v = guarded(name, lambda: getattr(am, name)(cur))
            if not ok: break
            K.add((name, v, len(M(b)), len(V(b)), len(required_aux(b)) > 0))
            check_op(name, b, D(cur), v, err)
        elif name == "mutation":
            ran = []
            names = [n for t in b["scenario_data"]["options"]["transformations"] for n in TR[t]]
            ok, ops = guarded("operators", lambda: am.get_mutation_operations(cur))
            if not ok: break
            if sorted({o.__name__ for o in ops}) != sorted(set(names)): err("operators", f"{sorted({o.__name__ for o in ops})} for {b['scenario_data']['options']['transformations']}")
            old = cur.ID; ind = [cur]
            ok, v = guarded(name, lambda: am.mutation(ind))
            if not ok: break
            d = D(cur); K.add((name, old == cur.ID, len(M(b)), len(V(b))))
            if v[0] is not ind or ind[0] is not cur: err("mutation-answer", "does not answer the individual")
            consistent(d, err, name)
            x = [f for f in diff(b, d) if f not in ("ID", "resource_data", "queue_data", "auxiliary_data", "source_data")]
            if x: err("mutation-frame", f"changed {x}")
            if old == d["ID"]:
                x = [f for f in diff(b, d) if f not in ("resource_data", "queue_data")]
                if x or [strip(r) for r in b["resource_data"]] != [strip(r) for r in d["resource_data"]]: err("mutation-id", f"changed the system but kept its ID")
        elif name == "crossover":
            o0 = D(other); i1, i2 = [cur], [other]
            ids = {b["ID"], o0["ID"]}
            ok, v = guarded(name, lambda: am.crossover(i1, i2))
            if not ok: break
            cur, other = i1[0], i2[0]; d1, d2 = D(cur), D(other)
            K.add((name, len(M(b)), len(M(o0)), len(V(b)), len(V(o0)), len(M(d1))))
            if cur is other or d1["ID"] == d2["ID"]: err("crossover-id", "both children have the same ID")
            for a, bb, w in ((d1, b, 1), (d2, o0, 2)):
                x = [f for f in diff(bb, a) if f not in ("ID", "resource_data", "queue_data")]
                if x: err("crossover-frame", f"changed {x} of parent {w}")
                consistent(a, err, name)
            key = lambda rs_: sorted(json.dumps({k: v for k, v in strip(r).items() if k != "ID" or not ismach(r)}, sort_keys=True) for r in rs_)
            idn = lambda d: [r["ID"] for r in M(d)]
            if len(idn(b)) == len(set(idn(b))) and len(idn(o0)) == len(set(idn(o0))):
                for d in (d1, d2):
                    if len(idn(d)) != len(set(idn(d))): err("crossover-same-id", f"two machines with one ID: {idn(d)}")
                new = [x for x in idn(d1) + idn(d2) if x not in idn(b) + idn(o0)]
                if len(new) > len(set(idn(b)) & set(idn(o0))): err("crossover-conserves", f"machines {idn(b)} + {idn(o0)} -> {idn(d1)} + {idn(d2)}")
            if key(b["resource_data"] + o0["resource_data"]) != key(d1["resource_data"] + d2["resource_data"]):
                err("crossover-conserves", f"resources before {[r['ID'] for r in b['resource_data']]} + {[r['ID'] for r in o0['resource_data']]}, after {[r['ID'] for r in d1['resource_data']]} + {[r['ID'] for r in d2['resource_data']]}")
            if b["resource_data"] or o0["resource_data"]:
                s = [id(r) for r in cur.resource_data] + [id(r) for r in other.resource_data]
                if len(s) != len(set(s)): err("crossover-shares", "one machine object belongs to both children")
        elif name in RANDOMS:
            if name in ("arrange_machines", "get_random_layout") and len(M(b)) > len(b["scenario_data"]["options"]["positions"]): continue       # no layout exists
            c = cur.model_copy(deep=True)
            ok, v = guarded(name, lambda: getattr(am, name)(c))
            if not ok: break
            K.add((name, len(M(b)), len(V(b)), len(required_aux(b))))
            check_random(name, b, D(c), err)
            if rs % 2:
                am.add_default_queues_to_resources(c); ut.clean_out_breakdown_states_of_resources(c); ut.adjust_process_capacities(c)
                consistent(D(c), err, name); cur = c
        elif name == "swap": cur, other = other, cur
        elif name == "restart": cur = base.model_copy(deep=True)
        elif name == "random":
            t = base0["scenario_data"]["options"]["transformations"]
            if "layout" in t and "production_capacity" not in t and len(M(base0)) > len(base0["scenario_data"]["options"]["positions"]): continue       # no layout exists
            n = [0]; real = op.check_valid_configuration
            def chk(a, bb):
                n[0] += 1
                if n[0] > 40: raise Stop()
                judge(a, bb, "random configuration")
                if bad: raise Stop()
                return real(a, bb)
            am.check_valid_configuration = chk
            try:
                ok, v = guarded("random", lambda: am.random_configuration(base))
                if ok:
                    d = D(v); consistent(d, err, "random"); K.add(("random", len(M(d)), len(V(d))))
                    if reasons(d, base0): err("random-valid", f"a generated configuration is invalid: {reasons(d, base0)}")
                    if "production_capacity" not in t:
                        x = lambda rr: [{k: w for k, w in strip(r).items() if k not in ("control_policy", "location", "input_location", "output_location")} for r in rr]
                        if x(M(d)) != x(M(base0)): err("random-frame", "machines changed although the scenario does not allow it")
                    if "transport_capacity" not in t:
                        x = lambda rr: [{k: w for k, w in strip(r).items() if k != "control_policy"} for r in rr]
                        if x(V(d)) != x(V(base0)): err("random-frame", "vehicles changed although the scenario does not allow it")
                    if "auxiliary_capacity" not in t and d["auxiliary_data"] != base0["auxiliary_data"]: err("random-frame", "auxiliaries changed although the scenario does not allow it")
                    if "routing_logic" not in t and d["source_data"] != base0["source_data"]: err("random-frame", "routing changed although the scenario does not allow it")
                    if "layout" not in t and "production_capacity" not in t and [r["location"] for r in M(d)] != [r["location"] for r in M(base0)]: err("random-frame", "layout changed although the scenario does not allow it")
                    if d["ID"] == base0["ID"]: err("random-id", "keeps the ID of the baseline")
                    cur = v
            except Stop: K.add(("random", "given up"))
            finally: am.check_valid_configuration = real
        elif name == "evaluate":
            if any(isinstance(p["processes"], dict) for p in b["product_data"]): continue      # evaluation needs the identity hash, which rejects graphs explicitly
            d = D(cur); o = d["scenario_data"]["objectives"]; sign = {"cost": "min", "throughput": "max", "WIP": "min", "throughput_time": "min"}
            w = lambda dr: tuple(x["weight"] if sign[x["name"]] == dr else -x["weight"] for x in base0["scenario_data"]["objectives"])
            for dr in ("min", "max"):
                ok, v = guarded("weights", lambda: ut.get_weights(base, dr))
                if ok and tuple(v) != w(dr): err("weights", f"{dr}: {v} for {o}")
            if reasons(d, base0):
                ok, v = guarded("evaluate", lambda: op.evaluate(base, {"current_generation": "0", "hashes": {}}, {}, 1, "", [cur]))
                K.add(("evaluate", "invalid"))
                if ok and (len(v) != len(o) or any(not close(x, -100000 / y) for x, y in zip(v, w("max")))): err("evaluate-invalid", f"an invalid configuration gets {v}")
            h = cur.hash()
            ok, v = guarded("evaluate", lambda: op.evaluate(base, {"current_generation": "3", "hashes": {h: {"generation": "1", "ID": "x"}}}, {"1": {"x": {"fitness": [4.5] * len(o), "agg_fitness": 0}}}, 1, "", [cur]))
            if ok and v != [4.5] * len(o): err("evaluate-known", f"an already evaluated configuration gets {v}")
        if name in OPS and len(step) > 2 and step[2]:
            am.add_default_queues_to_resources(cur); ut.clean_out_breakdown_states_of_resources(cur); ut.adjust_process_capacities(cur)
            consistent(D(cur), err, "cleanup")
        if not bad and rs % 3 == 0: judge(cur, base, f"after {name}")
        if diff(base0, D(base)): err("baseline", f"{name} changed the baseline: {diff(base0, D(base))}")
    return bad

def run(ctx):
    rnd = ctx.rnd
    while ctx.more(100000):
        inp = {"system": gen(rnd), "steps": []}
        for _ in range(rnd.randint(1, 10)):
            n = rnd.choice(OPS + RANDOMS + ["mutation"] * 4 + ["crossover"] * 4 + ["swap", "random", "random", "evaluate", "restart"])
            inp["steps"].append([n, rnd.randrange(10 ** 6), rnd.random() < .3])
        K = set()
        try: bad = case(inp, K)
        except Stop: continue
        for k in K: ctx.case(k, None)
        ctx.case(("history", tuple(s[0] for s in inp["steps"])[:3]), inp["steps"])
        for k, t in bad[:2]: ctx.violation(k, t, inp)

def replay(ctx, inp):
    for k, t in case(inp): ctx.violation(k, t, inp)

"""random histories of requests (create, read, list, update, replace under a new ID, delete; existing and missing projects, configurations, parts, performances, post processors, scenarios,
objectives) sent to the real web service over HTTP and to its backend, after every request the complete visible state is compared with a reference model; distinct by the kind of request and answer"""
PROPS = ["P20"]
import json, random

def setup():
    import prodsys_api
    from fastapi.testclient import TestClient
    from app.dependencies import prodsys_backend
    return TestClient(prodsys_api.app, raise_server_exceptions=False), prodsys_backend
PAYS = {
    "queues": ("queue_data", lambda i, n: {"ID": i, "description": "", "capacity": n}),
    "sinks": ("sink_data", lambda i, n: {"ID": i, "description": "", "location": [n, 1.0], "product_type": "A", "input_queues": ["q"]}),
    "sources": ("source_data", lambda i, n: {"ID": i, "description": "", "location": [n, 2.0], "product_type": "A", "time_model_id": "t", "routing_heuristic": "FIFO", "output_queues": ["q"]}),
    "products": ("product_data", lambda i, n: {"ID": i, "description": str(n), "product_type": i, "processes": ["x"], "transport_process": "y"}),
    "resources": ("resource_data", lambda i, n: ({"ID": i, "description": "", "capacity": 1, "location": [n, 0.0], "controller": "PipelineController", "control_policy": "FIFO", "process_ids": ["x"]} if n % 2 else
                                             {"ID": i, "description": "", "capacity": 1, "location": [n, 0.0], "controller": "TransportController", "control_policy": "SPT_transport", "process_ids": ["y"]})),
    "processes": ("process_data", lambda i, n: {"ID": i, "description": str(n), "type": "ProductionProcesses", "time_model_id": "t"}),
    "states": ("state_data", lambda i, n: {"ID": i, "description": str(n), "type": "BreakDownState", "time_model_id": "t", "repair_time_model_id": "t"}),
    "time_models": ("time_model_data", lambda i, n: {"ID": i, "description": "", "samples": [1.0 + n]}),
}
def scenario(n):
    return {"constraints": {"max_reconfiguration_cost": n, "max_num_machines": 3, "max_num_processes_per_machine": 2, "max_num_transport_resources": 1, "target_product_count": {"A": n}},
            "options": {"transformations": ["production_capacity"], "machine_controllers": ["FIFO"], "transport_controllers": ["SPT_transport"], "routing_heuristics": ["shortest_queue"], "positions": [[float(n), 0.0]]},
            "info": {"machine_cost": n, "transport_resource_cost": 1.0, "process_module_cost": 1.0, "time_range": 100}, "objectives": [{"name": "cost", "weight": 1.0}]}

def sub(a, b):
    """everything sent is in the answer"""
    if isinstance(a, dict): return isinstance(b, dict) and all(k in b and sub(v, b[k]) for k, v in a.items())
    if isinstance(a, list): return isinstance(b, list) and len(a) == len(b) and all(sub(x, y) for x, y in zip(a, b))
    return a == b

class H:
    def __init__(self, ops):
        self.c, self.be = setup()
        self.be.database.clear()
        self.m = {}; self.bad = []; self.kinds = set()
        for op in ops:
            self.step(op)
            if self.bad: break
        self.be.database.clear()
    def err(self, k, w): self.bad.append((k, w))
    def call(self, op, verb, url, js=None):
        r = getattr(self.c, verb)(url, **({"json": js} if js is not None else {}))
        self.kinds.add((op[0], verb, url.count("/"), r.status_code))
        if r.status_code >= 500: self.err("internal-error", f"{verb.upper()} {url} with {js}: answered {r.status_code}")
        return r
    def expect(self, op, r, ok, what):
        if (r.status_code < 300) != ok and not self.bad:
            self.err("accepted" if not ok else "refused", f"{op}: {what}: {'must be refused' if not ok else 'must succeed'}, answered {r.status_code} {r.text[:150]}")
        return r.status_code < 300 and ok and not self.bad
    def step(self, op):
        k, p = op[0], op[1]; m = self.m
        a = op[2] if len(op) > 2 else None
        if k == "p+":
            r = self.call(op, "post", "/projects/", {"ID": p})
            if self.expect(op, r, p not in m, "create project"): m[p] = {"ad": {}, "perf": {}, "pp": None}
        elif k == "p-":
            r = self.call(op, "delete", f"/projects/{p}")
            if self.expect(op, r, p in m, "delete project"): del m[p]
        elif k == "p=":
            q = op[2]
            r = self.call(op, "put", f"/projects/{p}", {"ID": q, "adapters": [{"ID": "n" + str(op[3])}]})
            if self.expect(op, r, p in m and (q == p or q not in m), "update project"):
                del m[p]; m[q] = {"ad": {}, "perf": {}, "pp": None}; self.newad(q, "n" + str(op[3]))
        elif k == "a+":
            r = self.call(op, "post", f"/projects/{p}/adapters/", {"ID": a, "seed": op[3]})
            if self.expect(op, r, p in m and a not in m[p]["ad"], "create configuration"): self.newad(p, a, seed=op[3])
        elif k == "a-":
            r = self.call(op, "delete", f"/projects/{p}/adapters/{a}")
            if self.expect(op, r, p in m and a in m[p]["ad"], "delete configuration"): del m[p]["ad"][a]; m[p]["perf"].pop(a, None)
        elif k == "a=":
            b = op[3]
            r = self.call(op, "put", f"/projects/{p}/adapters/{a}", {"ID": b, "seed": op[4]})
            if self.expect(op, r, p in m and a in m[p]["ad"] and (b == a or b not in m[p]["ad"]), "update configuration"):
                old = m[p]["ad"]; m[p]["ad"] = {}
                for x in old:
                    if x == a: self.newad(p, b, seed=op[4])
                    else: m[p]["ad"][x] = old[x]
                if b != a: self.m[p]["perf"] = {x: v for x, v in self.m[p]["perf"].items()}
        elif k in ("x+", "x-", "x=", "x?"):
            kind, i = op[3], op[4]
            fld, mk = PAYS[kind]
            has = p in m and a in m[p]["ad"]
            L = m[p]["ad"][a][fld] if has else []
            ids = [e["ID"] for e in L]
            url = f"/projects/{p}/adapters/{a}/{kind}/"
            if k == "x+":
                pay = mk(i, op[5]); r = self.call(op, "post", url, pay)
                if self.expect(op, r, has and i not in ids, f"add to {kind}"):
                    if not sub(pay, r.json()): self.err("changed-answer", f"{op}: sent {pay}, answered {r.json()}")
                    L.append(r.json())
            elif k == "x?":
                r = self.call(op, "get", url + i)
                if self.expect(op, r, has and i in ids, f"read from {kind}") and r.json() != L[ids.index(i)]: self.err("read", f"{op}: {r.json()} instead of {L[ids.index(i)]}")
            elif k == "x-":
                r = self.call(op, "delete", url + i)
                if self.expect(op, r, has and i in ids, f"delete from {kind}"): L.pop(ids.index(i))
            else:
                j = op[6]
                if j != i and j in ids: return
                pay = mk(j, op[5]); r = self.call(op, "put", url + i, pay)
                if self.expect(op, r, has and i in ids, f"update in {kind}"):
                    if not sub(pay, r.json()): self.err("changed-answer", f"{op}: sent {pay}, answered {r.json()}")
                    L[ids.index(i)] = r.json()
        elif k[0] == "f":        # performances: only reachable through the backend (a simulation run writes them)
            self.direct(op, p, a)
        elif k[0] == "o":        # post processor
            self.direct(op, p, a)
        elif k[0] == "s": self.scen(op, p, a)
        if not self.bad: self.compare(op)
    def newad(self, p, a, seed=0):
        self.m[p]["ad"][a] = {**{f: [] for f, _ in PAYS.values()}, "ID": a, "seed": seed, "scenario_data": None}
    def direct(self, op, p, a):
        from fastapi import HTTPException
        from prodsys.models.performance_data import Performance
        m = self.m; k = op[0]
        has = p in m and a in m[p]["ad"]
        cur = (m[p]["perf"].get(a) if k[0] == "f" else m[p]["pp"]) if has else None
        o = Performance(event_log=[], kpis=[]) if k[0] == "f" else __import__("prodsys").post_processing.PostProcessor(df_raw=None)
        nm = "performance" if k[0] == "f" else "post_processor"
        f = getattr(self.be, {"+": "create_", "=": "update_", "-": "delete_", "?": "get_"}[k[1]] + nm)
        ok = has and ((cur is None) == (k[1] == "+"))
        self.kinds.add((k, ok))
        try: r = f(p, a, o) if k[1] in "+=" else f(p, a)
        except HTTPException as e:
            if ok: self.err("refused", f"{op}: {nm}: refused with {e.detail}")
            return
        except Exception as e: self.err("internal-error", f"{op}: {nm}: {type(e).__name__} {e}"); return
        if not ok: self.err("accepted", f"{op}: {nm} of {'an existing' if has else 'a missing'} configuration accepted (present before: {cur is not None})"); return
        if k[1] == "?":
            if r is not cur: self.err("read", f"{op}: another {nm} is returned")
        else:
            v = o if k[1] in "+=" else None
            if k[0] == "f":
                if v is None: m[p]["perf"].pop(a)
                else: m[p]["perf"][a] = v
            else: m[p]["pp"] = v
    def scen(self, op, p, a):
        k = op[0]; n = op[3]; m = self.m
        url = f"/projects/{p}/adapters/{a}/scenario/"
        has = p in m and a in m[p]["ad"]
        A = m[p]["ad"][a] if has else {}
        S = A.get("scenario_data")
        if k == "s=":
            r = self.call(op, "put", url, scenario(n))
            if self.expect(op, r, has, "set scenario"):
                if not sub(scenario(n), r.json()): self.err("changed-answer", f"{op}: answered {r.json()}")
                A["scenario_data"] = r.json()
        elif k == "s?":
            r = self.call(op, "get", url)
            if self.expect(op, r, S is not None, "read scenario") and r.json() != S: self.err("read", f"{op}: {r.json()} instead of {S}")
        elif k == "s:":
            part = op[4]
            r = self.call(op, "put", url + part, scenario(n)[part])
            if self.expect(op, r, S is not None, f"set {part} of scenario"): S[part] = json.loads(json.dumps({**S, part: r.json().get(part)}))[part]
            if not self.bad and S is not None and not sub(scenario(n)[part], S[part]): self.err("changed-answer", f"{op}: {part} is {S[part]}")
        elif k == "s.":
            part = op[4]
            r = self.call(op, "get", url + ("contraints" if part == "constraints" else part))
            if self.expect(op, r, S is not None, f"read {part} of scenario") and r.json() != S[part]: self.err("read", f"{op}: {r.json()} instead of {S[part]}")
        else:
            nm = op[4]
            names = [o["name"] for o in S["objectives"]] if S else []
            if k == "s+":
                r = self.call(op, "post", url + "objectives/objective", {"name": nm, "weight": n})
                if self.expect(op, r, S is not None and nm not in names, "add objective"): S["objectives"].append({"name": nm, "weight": float(n)})
            elif k == "s~":
                r = self.call(op, "put", url + "objectives/objective", {"name": nm, "weight": n})
                if self.expect(op, r, nm in names, "update objective"): S["objectives"][names.index(nm)] = {"name": nm, "weight": float(n)}
            else:
                r = self.call(op, "delete", url + f"objectives/objective/{nm}")
                if self.expect(op, r, nm in names, "delete objective"): S["objectives"].pop(names.index(nm))
    def compare(self, op):
        db = self.be.database
        if list(db) != list(self.m) and sorted(db) != sorted(self.m): self.err("projects", f"after {op}: projects {list(db)} instead of {list(self.m)}"); return
        for p, P in self.m.items():
            if db[p].ID != p: self.err("projects", f"after {op}: project {p} is {db[p].ID}"); return
            if [x.ID for x in db[p].adapters] != list(P["ad"]): self.err("configurations", f"after {op}: project {p} has configurations {[x.ID for x in db[p].adapters]} instead of {list(P['ad'])}"); return
            pf = db[p].performances or {}
            if {k: id(v) for k, v in pf.items() if k in P["ad"]} != {k: id(v) for k, v in P["perf"].items() if k in P["ad"]}: self.err("performances", f"after {op}: project {p} has performances of {sorted(pf)} instead of {sorted(P['perf'])}"); return
            if db[p].post_processor is not P["pp"]: self.err("post-processor", f"after {op}: the post processor of {p} is another one"); return
            for x in db[p].adapters:
                got = json.loads(x.model_dump_json()); want = P["ad"][x.ID]
                for f in want:
                    if got[f] != want[f]: self.err("content", f"after {op}: {f} of {p}/{x.ID} is {str(got[f])[:300]} instead of {str(want[f])[:300]}"); return
        # the same over HTTP for one configuration
        r = self.call(op, "get", "/projects/")
        if not self.bad and [x["ID"] for x in r.json()] != list(db): self.err("list", f"after {op}: GET /projects/ lists {[x['ID'] for x in r.json()]}")
        if len(op) > 2 and op[1] in self.m and op[2] in self.m[op[1]]["ad"]:
            if len(op) > 4 and op[0][0] == "x":
                r = self.call(op, "get", f"/projects/{op[1]}/adapters/{op[2]}/{op[3]}/")
                if not self.bad and r.status_code < 300 and r.json() != self.m[op[1]]["ad"][op[2]][PAYS[op[3]][0]]: self.err("list", f"after {op}: listing {op[3]} answers {r.text[:200]}")
            else:
                r = self.call(op, "get", f"/projects/{op[1]}/adapters/{op[2]}")
                if not self.bad and r.status_code < 300 and (r.json()["ID"], r.json()["seed"]) != (op[2], self.m[op[1]]["ad"][op[2]]["seed"]): self.err("read", f"after {op}: reading the configuration answers {r.text[:100]}")

def gen(rnd, n):
    ops = [("p+", "p1"), ("a+", "p1", "a1", 1), ("a+", "p1", "a2", 2)]
    if rnd.random() < .5: ops.append(("s=", "p1", "a1", 3))
    kinds = list(PAYS); fav = rnd.choice(kinds)
    for _ in range(n):
        p = rnd.choice(["p1", "p1", "p1", "p2", "p3"]); a = rnd.choice(["a1", "a1", "a2", "a3"]); v = rnd.randrange(9)
        t = rnd.random()
        if t < .10: ops.append(("p+", p))
        elif t < .13: ops.append(("p-", p))
        elif t < .17: ops.append(("p=", p, rnd.choice([p, "p1", "p2", "p4"]), v))
        elif t < .24: ops.append(("a+", p, a, v))
        elif t < .27: ops.append(("a-", p, a))
        elif t < .32: ops.append(("a=", p, a, rnd.choice([a, "a2", "a4"]), v))
        elif t < .70:
            k = rnd.choice(["x+", "x+", "x+", "x=", "x=", "x-", "x?"]); kind = rnd.choice([fav, rnd.choice(kinds)]); i = rnd.choice(["i1", "i2", "i3", "i4"])
            ops.append((k, p, a, kind, i, v, rnd.choice([i, i, "i3", "i5"])))
        elif t < .80: ops.append((rnd.choice(["f+", "f+", "f=", "f-", "f?"]), p, a))
        elif t < .86: ops.append((rnd.choice(["o+", "o+", "o=", "o-", "o?"]), p, a))
        else:
            k = rnd.choice(["s=", "s?", "s:", "s.", "s+", "s+", "s~", "s-"])
            ops.append((k, p, a, v, rnd.choice(["constraints", "options", "info", "objectives"]) if k in ("s:", "s.") else rnd.choice(["cost", "throughput", "WIP"])))
    return ops
def gen_list(rnd, kind):
    """one part list: several parts, then updates and deletions at every position"""
    ids = ["i1", "i2", "i3", "i4"]; rnd.shuffle(ids); ids = ids[:rnd.choice([2, 3, 4])]
    ops = [("p+", "p1"), ("a+", "p1", "a1", 1)] + [("x+", "p1", "a1", kind, i, n, i) for n, i in enumerate(ids)]
    cur = list(ids)
    for n in range(rnd.choice([3, 5, 7])):
        k = rnd.choice(["x-", "x=", "x=", "x?", "x+"]) 
        i = rnd.choice([cur[-1], cur[0], rnd.choice(cur)]) if cur and k != "x+" else rnd.choice(["i1", "i2", "i3", "i4", "i6"])
        j = rnd.choice([i, i, "i5"])
        ops.append((k, "p1", "a1", kind, i, n + 3, j))
        if k == "x-" and i in cur: cur.remove(i)
        elif k == "x+" and i not in cur: cur.append(i)
        elif k == "x=" and i in cur and j not in cur: cur[cur.index(i)] = j
    return ops
def run(ctx):
    todo = list(PAYS) * 2; ctx.rnd.shuffle(todo)
    while ctx.more(100000):
        if todo or ctx.rnd.random() < .3: ops = gen_list(ctx.rnd, todo.pop() if todo else ctx.rnd.choice(list(PAYS)))
        else: ops = gen(ctx.rnd, ctx.rnd.randrange(5, 50))
        h = H(ops)
        ctx.case((len(h.kinds), frozenset(h.kinds) and sorted(map(str, h.kinds))[0]), {"requests": [list(o) for o in ops[:12]]})
        ctx.kinds |= {repr(k) for k in h.kinds}
        for k, w in h.bad: ctx.violation("service#" + k, w, {"ops": [list(o) for o in ops]})
def replay(ctx, inp):
    h = H([tuple(o) for o in inp["ops"]])
    for k, w in h.bad: ctx.violation("service#" + k, w, inp)

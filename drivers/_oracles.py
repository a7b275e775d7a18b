"""oracles over real runs of generated systems; each judges only what is observable (log entries, requests, queues, objects)"""
from drivers._simlib import *
import collections

class Bad(Exception): pass
def val(x): return getattr(x, "value", x)

class Oracle:
    want = ()
    def __init__(self, s): self.s, self.bad = s, []
    def fail(self, key, what):
        if len(self.bad) < 20: self.bad.append((key, what))
    def prepare(self, run): pass
    def step(self, run): pass
    def end(self, run): pass
    def kind(self, run): return (len(run.log), tuple(sorted({s["kind"] for s in self.s["states"].values()})), len(self.s["res"]), tuple(sorted(p["kind"] for p in self.s["procs"].values())))

def wrap_method(obj, name, before=None, after=None):
    f = getattr(obj, name)
    def w(*a, **k):
        if before: before(*a, **k)
        r = f(*a, **k)
        if after: after(r, *a, **k)
        return r
    object.__setattr__(obj, name, w)
    return f

# ---------------------------------------------------------------- P01
class P01(Oracle):
    want = ("finite",)
    def prepare(self, run):
        self.res = {}
        self.caps = dict(self.s["queues"]); self.caps.update({k: v["cap"] for k, v in self.s["stores"].items()})
        self.qs = []
        for q in run.runner.queue_factory.queues: self.watch(q)
    def watch(self, q):
        i = q.data.ID; cap = self.caps.get(i)
        if cap is None: return
        cap = float("inf") if cap == 0 else cap
        self.res[i] = 0; self.qs.append((q, cap))
        f = q.reserve
        def reserve():
            room = len(q.items) + self.res[i] + 1 <= cap
            try: f()
            except RuntimeError:
                if room: self.fail("reserve-refused", f"queue {i} with capacity {cap} refuses a reservation although {len(q.items)} items and {self.res[i]} reservations are present")
                raise
            self.res[i] += 1
            if not room: self.fail("over-reserved", f"queue {i} with capacity {cap} accepts a reservation on top of {len(q.items)} items and {self.res[i] - 1} reservations")
        object.__setattr__(q, "reserve", reserve)
        g = q.unreserve
        def unreserve(): g(); self.res[i] -= 1
        object.__setattr__(q, "unreserve", unreserve)
        for name, d in (("put", -1), ("get", 0)):
            def mk(name, d, h):
                def m(*a, **k):
                    ev = q.state_change; before = self.res[i]
                    r = h(*a, **k)
                    self.res[i] = before + d
                    if not ev.triggered: self.fail("no-wake", f"{name} on queue {i} does not wake those waiting for a change")
                    if q.state_change is ev or q.state_change.triggered: self.fail("no-rearm", f"{name} on queue {i} leaves the change signal unarmed")
                    return r
                return m
            object.__setattr__(q, name, mk(name, d, getattr(q, name)))
    def step(self, run):
        for q, cap in self.qs:
            n, r = len(q.items), self.res[q.data.ID]
            if n > cap: self.fail("overfull", f"queue {q.data.ID} of capacity {cap} holds {n} items")
            if q.full != (n + r + 1 > cap): self.fail("full", f"queue {q.data.ID} of capacity {cap} with {n} items and {r} reservations reports full={q.full}")
    def end(self, run):
        # after everything is finished no reservation of an own input queue is left over
        if not run.runner.product_factory.products and not any(a.current_product is not None for a in run.runner.auxiliary_factory.auxiliaries) and not any(v["ctrl"] == "Batch" for v in self.s["res"].values()):
            for q, cap in self.qs:
                if self.res[q.data.ID] != 0: self.fail("leak", f"queue {q.data.ID} is left with {self.res[q.data.ID]} reservations although every product has finished")

# ---------------------------------------------------------------- P02
class P02(Oracle):
    want = ("setup",)
    def prepare(self, run):
        self.rs = [(r, self.s["res"][r.data.ID]) for r in run.runner.resource_factory.resources if r.data.ID in self.s["res"]]
        for r, v in self.rs:
            c = collections.Counter(x.state_data.ID for x in r.production_states)
            want = dict(zip(v["procs"], v["pcs"]))
            if dict(c) != want: self.fail("slots", f"resource {r.data.ID} offers slots {dict(c)} instead of {want}")
        self.last = {}
        self.n = 0
        self.batch = {r for r, v in self.s["res"].items() if v["ctrl"] == "Batch"}
    def step(self, run):
        for r, v in self.rs:
            busy = [x for x in r.production_states if x.process is not None and x.process.is_alive]
            if v["ctrl"] != "Batch" and len(busy) > v["cap"]: self.fail("overload", f"resource {r.data.ID} of capacity {v['cap']} runs {len(busy)} processes at once")
            su = [x for x in r.setup_states if x.process is not None and x.process.is_alive]
            if len(su) > 1 and v["cap"] == 1: self.fail("two-setups", f"resource {r.data.ID} performs two changeovers at once")
        rows = run.log
        while self.n < len(rows):
            e = rows[self.n]; self.n += 1
            st, act, R = val(e["State Type"]), val(e["Activity"]), e["Resource"]
            if R not in self.s["res"]: continue
            if st == "Setup" and act == "end state":
                self.last[R] = self.s["states"][e["State"]]["b"]
            if st == "Setup" and act == "start state":
                a = self.s["states"][e["State"]]["a"]
                if R in self.last and self.last[R] != a and self.s["res"][R]["cap"] == 1: self.fail("setup-origin", f"resource {R} changes over from {a} although {self.last[R]} is set up")
            if st == "Production" and act == "start state" and R not in self.batch:
                p = e["State"]; sus = [self.s["states"][x] for x in self.s["res"][R]["states"] if self.s["states"][x]["kind"] == "setup"]
                if R not in self.last: self.last[R] = p
                elif self.s["res"][R]["cap"] == 1 and sus and self.last[R] != p and any(x["b"] == p and x["a"] == self.last[R] for x in sus):
                    self.fail("wrong-setup", f"resource {R} starts {p} although {self.last[R]} is set up and a changeover exists")
    def end(self, run):
        for r, v in self.rs:
            busy = [x for x in r.production_states if x.process is not None and x.process.is_alive]
            su = [x for x in r.setup_states if x.process is not None and x.process.is_alive]
            # the horizon may cut off a charging or a breakdown; such a resource is not idle
            mine = [(val(e["State Type"]), val(e["Activity"])) for e in run.log if e["Resource"] == r.data.ID]
            cut = any([a for t, a in mine if (t in ("Breakdown", "ProcessBreakdown")) == b][-1:] not in ([], ["end state"]) for b in (True, False))
            if not busy and not su and not cut and not run.runner.product_factory.products:
                if r.reserved_setup is not None: self.fail("setup-left", f"resource {r.data.ID} keeps a changeover reserved after all work is done")
                if v["ctrl"] != "Batch" and r.full: self.fail("full-idle", f"idle resource {r.data.ID} reports itself full")
                if r.data.ID in self.last and [x for x in v["states"] if self.s["states"][x]["kind"] == "setup"] and r.data.ID not in self.batch:
                    if r.current_setup is None or r.current_setup.process_data.ID != self.last[r.data.ID]:
                        self.fail("setup-result", f"resource {r.data.ID} has {r.current_setup and r.current_setup.process_data.ID} set up instead of {self.last[r.data.ID]}")

# ---------------------------------------------------------------- P03
class P03(Oracle):
    want = ("nobatch",)
    def prepare(self, run):
        self.cs = []
        for r in run.runner.resource_factory.resources:
            if r.data.ID not in self.s["res"]: continue
            c = r.controller; st = {"acc": [], "wait": [], "started": [], "seq": {}}
            self.cs.append((r, c, st, self.s["res"][r.data.ID]))
            self.hook(r, c, st, self.s["res"][r.data.ID])
    def hook(self, r, c, st, v):
        f = c.request
        def request(q, *a, **k):
            st["acc"].append(q); st["wait"].append(q); st["seq"][id(q)] = len(st["acc"])
            ret = f(q, *a, **k)
            if not any(x is q for x in c.requests): self.fail("lost", f"the controller of {r.data.ID} does not keep a request it was given")
            return ret
        object.__setattr__(c, "request", request)
        g = c.control_policy
        pol = v["pol"]
        def policy(reqs, *a, **k):
            before = list(reqs)
            ret = g(reqs, *a, **k)
            if sorted(map(id, before)) != sorted(map(id, reqs)): self.fail("policy-set", f"policy {pol} of {r.data.ID} adds or drops requests"); return ret
            seq = [st["seq"].get(id(q), 0) for q in reqs]
            if pol == "FIFO" and seq != sorted(seq): self.fail("fifo", f"FIFO policy of {r.data.ID} leaves the order {seq}")
            if pol == "LIFO" and len(before) and c.reserved_requests_count == 0 and seq[0] != max(seq): self.fail("lifo", f"LIFO policy of {r.data.ID} puts arrival number {seq[0]} first of {sorted(seq)}")
            if pol == "SPT":
                key = [expected(self.s, q.process.process_data.ID) for q in reqs]
                if any(a > b + 1e-9 for a, b in zip(key, key[1:])): self.fail("spt", f"shortest-processing-time policy of {r.data.ID} leaves the times {key}")
                elif any(abs(a - b) < 1e-12 and x > y for a, b, x, y in zip(key, key[1:], seq, seq[1:])): self.fail("spt-ties", f"shortest-processing-time policy of {r.data.ID} reorders equal times: {key} arrivals {seq}")
            if pol == "SPT_transport":
                key = [travel(self.s, "tmd", place_of(self.s, q.origin.data.ID, "out"), place_of(self.s, q.target.data.ID, "in")) for q in reqs]
                if any(a > b + 1e-9 for a, b in zip(key, key[1:])): self.fail("spt-transport", f"shortest-transport-time policy of {r.data.ID} leaves the times {key}")
            return ret
        object.__setattr__(c, "control_policy", policy)
    def step(self, run):
        for r, c, st, v in self.cs:
            if len(c.requests) == len(st["wait"]): continue
            now = {id(q) for q in c.requests}
            for q in c.requests:
                if id(q) not in st["seq"]: self.fail("invented", f"the controller of {r.data.ID} holds a request nobody made")
            gone = [q for q in st["wait"] if id(q) not in now]
            st["wait"] = [q for q in st["wait"] if id(q) in now]
            for q in gone:
                if any(x is q for x in st["started"]): self.fail("twice", f"a request of {r.data.ID} is started twice")
                st["started"].append(q)
            if v["pol"] == "FIFO" and gone:
                a = [st["seq"][id(q)] for q in st["started"]]
                if a != sorted(a): self.fail("fifo-start", f"FIFO controller of {r.data.ID} starts requests in order {a}")
            if len({id(q) for q in c.requests}) != len(c.requests): self.fail("dup", f"the controller of {r.data.ID} holds a request twice")
    def end(self, run):
        if run.runner.product_factory.products or any(a.current_product is not None for a in run.runner.auxiliary_factory.auxiliaries): return
        for r, c, st, v in self.cs:
            if c.requests: self.fail("left", f"all products are finished but the controller of {r.data.ID} still holds {len(c.requests)} requests")
            if any(p.is_alive for p in c.running_processes): self.fail("running", f"all products are finished but {r.data.ID} still runs a process")

def expected(s, pid):
    t = s["tm"][s["procs"][pid]["tm"]]
    if t[0] in ("const", "exp", "norm"): return t[1]
    if t[0] == "sample": return sum(t[1]) / len(t[1])
    raise KeyError(t)
def travel(s, tm, a, b):
    _, speed, reac, metric = s["tm"][tm]
    d = abs(a[0] - b[0]) + abs(a[1] - b[1]) if metric == "manhattan" else math.hypot(a[0] - b[0], a[1] - b[1])
    return d / speed + reac
def place_of(s, i, mode):
    if i in s["res"]:
        v = s["res"][i]
        if v["ctrl"] == "Transport": return v["loc"]
        if mode == "in" and v.get("iloc"): return v["iloc"]
        if mode == "out" and v.get("oloc"): return v["oloc"]
        return v["loc"]
    if i in s["stores"]: return s["stores"][i]["loc"]
    if i in s["nodes"]: return s["nodes"][i]
    for x in s["sources"] + s["sinks"]:
        if x["ID"] == i: return x["loc"]
    raise KeyError(i)

# ---------------------------------------------------------------- sessions of work in the log
def sessions_of(rows, s, fail):
    """split the log into work sessions; a session starts with the first 'start state' after the previous 'end state' of the same slot"""
    op, out = {}, []
    for n, e in enumerate(rows):
        st, act = e["State Type"], e["Activity"]
        if st not in ("Production", "Transport", "Setup", "Charging") or e["Resource"] not in s["res"] or e["State"] == e["Resource"]: continue
        if act not in ("start state", "end state", "start interrupt", "end interrupt"): continue
        k = (e["Resource"], e["State"], e.get("Product") if st != "Setup" else None)
        x = op.get(k)
        if act == "start state":
            if x is None:
                x = op[k] = {"key": k, "type": st, "drawn": e["Expected End Time"] - e["Time"], "segs": [], "gaps": [], "cur": e["Time"], "int": None, "first": e, "mode": "work"}; continue
            if x["mode"] != "resumed": fail("automaton", f"{k} logs a second start at {e['Time']} without interruption"); op.pop(k); continue
            if not close(e["Time"], x["cur"]): fail("automaton", f"{k} is resumed at {x['cur']} but restarts at {e['Time']}")
            x["mode"] = "work"; rem = x["drawn"] - sum(b - a for a, b in x["segs"])
            if not close(e["Expected End Time"], e["Time"] + rem): fail("expected", f"{k} restarts at {e['Time']} with expected end {e['Expected End Time']} although {rem} is left")
        elif x is None: fail("automaton", f"{k} logs {act} at {e['Time']} without a start")
        elif act == "start interrupt":
            if x["mode"] != "work": fail("automaton", f"{k} is interrupted at {e['Time']} while not working"); op.pop(k); continue
            x["segs"].append((x["cur"], e["Time"])); x["int"] = e["Time"]; x["mode"] = "int"
        elif act == "end interrupt":
            if x["mode"] != "int": fail("automaton", f"{k} ends an interruption at {e['Time']} that never began"); op.pop(k); continue
            x["gaps"].append((x["int"], e["Time"])); x["cur"] = e["Time"]; x["mode"] = "resumed"
            rem = x["drawn"] - sum(b - a for a, b in x["segs"])
            if not close(e["Expected End Time"], e["Time"] + rem): fail("expected", f"{k} resumes at {e['Time']} with expected end {e['Expected End Time']} although {rem} is left")
        elif act == "end state":
            if x["mode"] != "work": fail("automaton", f"{k} ends at {e['Time']} while interrupted"); op.pop(k); continue
            x["segs"].append((x["cur"], e["Time"])); x["end"] = e; out.append(op.pop(k))
    return out, op
def downs(rows, s, kind, horizon):
    op, out = {}, []
    for e in rows:
        if e["State Type"] != kind: continue
        k = (e["Resource"], e["State"])
        if e["Activity"] == "start state": op[k] = e
        elif e["Activity"] == "end state" and k in op:
            a = op.pop(k); out.append((k, a["Time"], e["Time"], a["Expected End Time"]))
    for k, a in op.items(): out.append((k, a["Time"], max(a["Expected End Time"], horizon), None))
    return out
def overlap(a, b, c, d): return max(0.0, min(b, d) - max(a, c))

class P04(Oracle):
    want = ("breakdown",)
    keys = None
    def end(self, run):
        rows = run.rows(); s = self.s
        done, openx = sessions_of(rows, s, lambda k, w: self.fail(k, w))
        bd = downs(rows, s, "Breakdown", s["horizon"] + 1); pb = downs(rows, s, "ProcessBreakdown", s["horizon"] + 1)
        for x in done + list(openx.values()):
            R, S, P = x["key"]
            segs = x["segs"]
            if "end" in x:
                w = sum(b - a for a, b in segs)
                if not close(w, x["drawn"]): self.fail("work", f"{R}/{S} for {P} works {w} instead of the drawn {x['drawn']} (segments {segs[:4]})")
                tm = None
                if S in s["procs"] and x["type"] == "Production": tm = s["tm"][s["procs"][S]["tm"]]
                elif S in s["states"]: tm = s["tm"][s["states"][S]["tm"]]
                if tm and tm[0] == "const" and not close(w, tm[1]): self.fail("const-work", f"{R}/{S} for {P} works {w} instead of the configured constant {tm[1]}")
                if tm and tm[0] == "sample" and not any(close(w, t) for t in tm[1]): self.fail("sample-work", f"{R}/{S} for {P} works {w}, not one of the configured {tm[1]}")
            if x["type"] == "Charging": continue
            for (r, _), a, b, _e in bd:
                for c, d in segs:
                    if r == R and overlap(a, b, c, d) > 1e-6: self.fail("work-while-down", f"{R}/{S} works during {c}..{d} although the resource is broken down during {a}..{b}")
            for (r, i), a, b, _e in pb:
                if r != R or (x["type"] == "Production" and s["states"][i]["p"] != S): continue
                for c, d in segs:
                    if overlap(a, b, c, d) > 1e-6: self.fail("work-while-process-down", f"{R}/{S} works during {c}..{d} although its process is broken down during {a}..{b}")
            for c, d in x["gaps"]:
                cov = [(a, b) for (r, _), a, b, _e in bd if r == R] + [(a, b) for (r, i), a, b, _e in pb if r == R and (x["type"] == "Setup" or s["states"][i]["p"] == S)]
                t = c
                for a, b in sorted(cov):
                    if a <= t + 1e-6 and b > t: t = b
                if t < d - 1e-6: self.fail("idle-interrupt", f"{R}/{S} stays interrupted during {c}..{d} although everything is repaired at {t}")

class P05(Oracle):
    want = ("nobatch", "breakdown")
    def prepare(self, run):
        self.rs = [r for r in run.runner.resource_factory.resources if r.data.ID in self.s["res"]]
        self.pbs = [(r, st) for r in self.rs for st in r.states if type(st).__name__ == "ProcessBreakDownState"]
        self.n = 0; self.down = collections.Counter(); self.pdown = collections.Counter()
        self.bat = {}
        for r in self.rs:
            st = [self.s["states"][k] for k in self.s["res"][r.data.ID]["states"]]
            ch = [x for x in st if x["kind"] == "charge"]
            if ch and not any(x["kind"] in ("bd", "pb") for x in st): self.bat[r.data.ID] = (r, self.s["tm"][ch[0]["bat"]][1])
        self.use = collections.Counter()
    def step(self, run):
        rows = run.log
        while self.n < len(rows):
            e = rows[self.n]; self.n += 1
            k, act = val(e["State Type"]), val(e["Activity"])
            if k == "Breakdown": self.down[e["Resource"]] += {"start state": 1, "end state": -1}.get(act, 0)
            if k == "ProcessBreakdown": self.pdown[e["Resource"], self.s["states"][e["State"]]["p"]] += {"start state": 1, "end state": -1}.get(act, 0)
            R = e["Resource"]
            if R in self.bat and e["State"] != R:
                if k in ("Production", "Transport") and act == "start state": self.use[R] += float(e["Expected End Time"]) - e["Time"]
                if k == "Charging" and act == "start state" and self.use[R] < 0.9 * self.bat[R][1] - 1e-6: self.fail("early-charge", f"{R} charges after a usage of {self.use[R]} although the battery lasts {self.bat[R][1]}")
                if k == "Charging" and act == "end state": self.use[R] = 0.0
        if self.bat and run.env.peek() > run.env.now:
            for R, (r, b) in self.bat.items():
                u = self.use[R]
                if abs(u - 0.9 * b) > 1e-6 and r.requires_charging != (u >= 0.9 * b): self.fail("charge-need", f"{R} with a usage of {u} since the last charge and a battery of {b} {'needs' if r.requires_charging else 'does not need'} charging at {run.env.now}")
        for r in self.rs:
            d = self.down[r.data.ID]
            if r.active is None: continue
            if r.active.triggered != (d == 0): self.fail("available", f"resource {r.data.ID} with {d} active breakdowns is {'available' if r.active.triggered else 'unavailable'} at {run.env.now}")
            pd = {p for (R, p), n in self.pdown.items() if R == r.data.ID and n > 0}
            for x in r.production_states:
                blocked = x.state_data.ID in pd
                if x.active is not None and x.active.triggered == blocked: self.fail("slot", f"slot {x.state_data.ID} of {r.data.ID} is {'blocked' if not blocked else 'open'} although its process is {'' if blocked else 'not '}broken down at {run.env.now}")
            for x in r.setup_states:
                if x.active is not None and x.active.triggered == bool(pd): self.fail("slot", f"setup of {r.data.ID} is {'blocked' if not pd else 'open'} although {'a' if pd else 'no'} process is broken down at {run.env.now}")
            if d:
                for x in r.setup_states + r.production_states:
                    if x.process and x.process.is_alive and x.start != x.start + 0 : pass
    def end(self, run):
        rows = run.rows(); s = self.s
        last = {}
        for e in rows:
            if e["State Type"] in ("Breakdown", "ProcessBreakdown"):
                st = s["states"][e["State"]]; k = (e["Resource"], e["State"])
                if e["Activity"] == "start state":
                    rep = e["Expected End Time"] - e["Time"]; t = s["tm"][st["rep"]]
                    if t[0] == "const" and not close(rep, t[1]): self.fail("repair-time", f"breakdown {k} plans a repair of {rep} instead of {t[1]}")
                    f = s["tm"][st["tm"]]
                    prev = last.get(k, 0.0)
                    if f[0] == "const" and st["kind"] == "bd" and not close(e["Time"], prev + f[1]): self.fail("failure-time", f"breakdown {k} occurs at {e['Time']} instead of {prev + f[1]}")
                    if f[0] == "const" and e["Time"] < prev + f[1] - 1e-6: self.fail("failure-time", f"breakdown {k} occurs at {e['Time']} before {prev + f[1]}")
                    last[k, "exp"] = e["Expected End Time"]
                elif e["Activity"] == "end state":
                    if not close(e["Time"], last[k, "exp"]): self.fail("repair-end", f"breakdown {k} ends at {e['Time']} instead of {last[k, 'exp']}")
                    last[k] = e["Time"]
        def ig(k, w): pass
        done, openx = sessions_of(rows, s, ig)
        bd = downs(rows, s, "Breakdown", s["horizon"] + 1)
        for x in done + list(openx.values()):
            R, S, P = x["key"]
            if x["type"] == "Charging": continue
            for (r, _), a, b, _e in bd:
                if r == R:
                    for c, d in x["segs"]:
                        if c < a - 1e-6 and d > a + 1e-6: self.fail("not-interrupted", f"{R}/{S} keeps working during {c}..{d} over the breakdown at {a}")

class P06(Oracle):
    want = ("nobatch",)
    def prepare(self, run):
        self.n = 0; self.copy = []; self.reqs = []
        f = run.env.request_process_of_resource
        def rp(request, *a, **k):
            self.reqs.append((run.env.now, request.resource.data.ID, request.process.process_data.ID, getattr(request.product, "product_data", None) and request.product.product_data.ID or request.product.data.ID,
                              getattr(request, "origin", None) and request.origin.data.ID, getattr(request, "target", None) and request.target.data.ID, [x.data.ID for x in request.route] if getattr(request, "route", None) else None))
            return f(request=request)
        run.env.request_process_of_resource = rp
    def step(self, run):
        rows = run.log
        while self.n < len(rows):
            e = rows[self.n]; self.n += 1
            if not isinstance(e, dict): self.fail("entry", "log entry is not a record"); continue
            if e["Time"] != run.env.now: self.fail("time", f"entry {val(e['Activity'])} of {e['Resource']}/{e['State']} is stamped {e['Time']} but happens at {run.env.now}")
            self.copy.append(dict(e))
    def end(self, run):
        s = self.s
        rows = run.rows()
        if len(self.copy) != len(run.log): self.fail("count", "log entries disappeared")
        for a, b in zip(self.copy, run.log):
            if a != b: self.fail("mutated", f"a log entry changed after it was written: {a} became {b}"); break
        if any(a["Time"] > b["Time"] for a, b in zip(rows, rows[1:])): self.fail("order", "log times decrease")
        kinds = {"setup": "Setup", "bd": "Breakdown", "pbd": "ProcessBreakdown", "charge": "Charging"}
        for e in rows:
            S = e["State"]
            if e["Activity"] in ("start state", "end state", "start interrupt", "end interrupt"):
                if S in s["procs"]: want = "Transport" if s["procs"][S]["kind"] in ("tp", "link") else "Production"
                elif S in s["states"]: want = kinds[s["states"][S]["kind"]]
                else: self.fail("state", f"unknown state {S} in the log"); continue
                if e["State Type"] != want: self.fail("work-type", f"{e['Resource']}/{S} logs {e['Activity']} as {e['State Type']} instead of {want}")
                offer = s["res"][e["Resource"]]["procs"] + s["res"][e["Resource"]]["states"]
                if S not in offer: self.fail("resource", f"log names state {S} on resource {e['Resource']} which does not have it")
        done, openx = sessions_of(rows, s, lambda k, w: self.fail(k, w))
        for x in done:
            R, S, P = x["key"]
            e = x["end"]
            if e["Expected End Time"] is not None and not close(e["Expected End Time"], e["Time"]): self.fail("expected-end", f"{R}/{S} ends at {e['Time']} but expected {e['Expected End Time']}")
        # every production request leads to exactly one logged execution of that process on that resource for that product
        want = collections.Counter((r, p, q) for _, r, p, q, o, t, ro in self.reqs if o is None)
        got = collections.Counter(x["key"] for x in done + list(openx.values()) if x["type"] == "Production")
        for k, n in got.items():
            if n > want[k]: self.fail("executed-without-request", f"log shows {n} executions of {k} although {want[k]} were requested")
        if not run.runner.product_factory.products:
            for k, n in want.items():
                if got[k] != n: self.fail("not-logged", f"{n} executions of {k} were requested but {got[k]} are logged")
        # loaded transports describe the requested journey
        legs = collections.defaultdict(list)
        for x in done:
            if x["type"] == "Transport" and not x["first"]["Empty Transport"]:
                legs[x["key"][0], x["key"][2]].append((x["first"]["Origin location"], x["first"]["Target location"]))
                if (x["end"]["Origin location"], x["end"]["Target location"]) != (x["first"]["Origin location"], x["first"]["Target location"]): self.fail("journey", f"start and end of a transport by {x['key'][0]} name different places")
        exp = collections.defaultdict(list)
        for _, r, p, q, o, t, ro in self.reqs:
            if o is not None and ro: exp[r, q] += list(zip(ro, ro[1:]))
        for k, l in legs.items():
            l = [e if a == "Loading station" else (a, b) for (a, b), e in zip(l, exp[k] + l)]
            legs[k] = l
            if l != exp[k][:len(l)]: self.fail("journey", f"loaded transports of {k} are logged as {l[:6]} instead of {exp[k][:6]}")
        if not run.runner.product_factory.products:
            for k, l in exp.items():
                if k[1] not in s["aux"] and not k[1].startswith("AUX") and legs[k] != l: self.fail("journey", f"loaded transports of {k} are logged as {legs[k][:6]} instead of {l[:6]}")
        # product events
        cr, fi = collections.Counter(), collections.Counter()
        src = {x["ID"]: x["product"] for x in s["sources"]}; snk = {x["ID"]: x["product"] for x in s["sinks"]}
        for e in rows:
            if e["Activity"] == "created product":
                cr[e["Product"]] += 1
                if e["State Type"] != "Source" or e["Resource"] not in src or not e["Product"].startswith(src[e["Resource"]] + "_"): self.fail("created", f"creation of {e['Product']} is logged at {e['Resource']} as {e['State Type']}")
            if e["Activity"] == "finished product":
                fi[e["Product"]] += 1
                if e["State Type"] != "Sink" or e["Resource"] not in snk or not e["Product"].startswith(snk[e["Resource"]] + "_"): self.fail("finished", f"completion of {e['Product']} is logged at {e['Resource']} as {e['State Type']}")
        if any(n != 1 for n in list(cr.values()) + list(fi.values())): self.fail("terminal-twice", "a product is created or finished twice in the log")
        if not run.runner.product_factory.products and set(cr) != set(fi): self.fail("terminal-missing", f"products {sorted(set(cr) ^ set(fi))[:3]} have no matching creation and completion entries")
        n = len(run.runner.product_factory.products) + len(run.runner.product_factory.finished_products)
        if len(cr) != n: self.fail("terminal-missing", f"{n} products were created but {len(cr)} creations are logged")

class Reqs(Oracle):
    def prepare(self, run):
        self.reqs = []
        f = run.env.request_process_of_resource
        def rp(request, *a, **k):
            self.request(run, request)
            return f(request=request)
        run.env.request_process_of_resource = rp
    def request(self, run, q): pass

class P08(Reqs):
    want = ()
    def prepare(self, run):
        super().prepare(run); self.done = collections.defaultdict(list)
    def request(self, run, q):
        if getattr(q, "origin", None) is not None: return
        p = q.product; i = p.product_data.ID; t = p.product_data.product_type
        pid = q.process.process_data.ID; pr = self.s["procs"][pid]
        if pr["kind"] == "rework": return
        name = pid if pr["kind"] != "cap" else next(k for k, v in self.s["procs"].items() if v["kind"] == "req" and v["cap"] == pr["cap"])
        plan = self.s["products"][t]["plan"]; d = self.done[i]
        if isinstance(plan, list) and plan and isinstance(plan[0], str):
            if len(d) >= len(plan) or plan[len(d)] != name: self.fail("sequence", f"product {i} with plan {plan} executes {name} after {d}")
        else:
            edges = plan if isinstance(plan, list) else [[a, b] for a, bs in plan.items() for b in bs]
            nodes = set(x for e in edges for x in e) | (set(plan) if isinstance(plan, dict) else set())
            pre = {a for a, b in edges if b == name}
            if name in d: self.fail("repeated", f"product {i} executes {name} twice")
            if name not in nodes: self.fail("foreign", f"product {i} executes {name} which is not in its plan")
            if not pre <= set(d): self.fail("precedence", f"product {i} executes {name} before its predecessors {sorted(pre - set(d))}")
        d.append(name)
    def end(self, run):
        for p in run.runner.product_factory.finished_products:
            i = p.product_data.ID; plan = self.s["products"][p.product_data.product_type]["plan"]
            if isinstance(plan, list) and isinstance(plan[0], str): n = len(plan)
            else:
                edges = plan if isinstance(plan, list) else [[a, b] for a, bs in plan.items() for b in bs]
                n = len(set(x for e in edges for x in e) | (set(plan) if isinstance(plan, dict) else set()))
            if len(self.done[i]) != n: self.fail("incomplete", f"product {i} finishes after {len(self.done[i])} of {n} processes")

class P09(Reqs):
    want = ()
    def request(self, run, q):
        s = self.s; R = q.resource.data.ID; pid = q.process.process_data.ID
        if pid not in s["res"][R]["procs"]: self.fail("not-offered", f"process {pid} is requested from {R} which does not offer it")
        if getattr(q, "origin", None) is None:
            n = q.product.next_prodution_process
            if n is not None:
                a, b = s["procs"][n.process_data.ID], s["procs"][pid]
                if not (n.process_data.ID == pid or (a["kind"] == "req" and b["kind"] == "cap" and a["cap"] == b["cap"])): self.fail("mismatch", f"{n.process_data.ID} is needed but {pid} is requested")
        else:
            t = q.target.data.ID
            for k in s["sinks"]:
                if k["ID"] == t and hasattr(q.product, "product_data") and q.product.product_data.product_type != k["product"]: self.fail("sink", f"{q.product.product_data.ID} is sent to sink {t} for {k['product']}")
            if q.product.transport_process.process_data.ID != pid: self.fail("transport", f"{pid} transports although {q.product.transport_process.process_data.ID} is required")
    def prepare(self, run):
        super().prepare(run)
        # production resources must have room in some own input queue when routed to
        for r in run.runner.resource_factory.resources:
            if hasattr(r, "reserve_internal_input_queues"):
                def mk(r, f):
                    def g():
                        if any(q.full for q in r.input_queues): self.fail("full-input", f"a product is routed to {r.data.ID} whose input queues are full")
                        return f()
                    return g
                object.__setattr__(r, "reserve_internal_input_queues", mk(r, r.reserve_internal_input_queues))

class P11(Reqs):
    want = ("nobatch",)
    def request(self, run, q):
        if getattr(q, "origin", None) is None: return
        s = self.s; ro = [x.data.ID for x in q.route]; pr = s["procs"][q.process.process_data.ID]
        if not ro or ro[0] != q.origin.data.ID or ro[-1] != q.target.data.ID: self.fail("route-ends", f"route {ro} for a transport from {q.origin.data.ID} to {q.target.data.ID}")
        if pr["kind"] == "link":
            for a, b in zip(ro, ro[1:]):
                if [a, b] not in pr["links"] and [b, a] not in pr["links"]: self.fail("route-link", f"route {ro} uses {a}->{b} which is not a link")
    def prepare(self, run):
        super().prepare(run)
        self.n = 0; self.pos = {}; self.at = {}
        for n, v in self.s["res"].items():
            if v["ctrl"] == "Transport": self.pos[n] = list(v["loc"]); self.at[n] = None
        self.op = {}; self.veh = {r.data.ID: r for r in run.runner.resource_factory.resources}
        self.leg = {}
    def step(self, run):
        s = self.s
        while self.n < len(run.log):
            e = run.log[self.n]; self.n += 1
            if val(e["State Type"]) != "Transport" or e["Resource"] not in self.pos or e["State"] == e["Resource"]: continue
            R = e["Resource"]; act = val(e["Activity"]); pr = s["procs"].get(e["State"])
            if act == "start state" and R not in self.op:
                self.op[R] = e
                o, t, empty = e["Origin location"], e["Target location"], e["Empty Transport"]
                if self.at[R] is not None and o != self.at[R]: self.fail("chain", f"{R} starts at {o} although it is at {self.at[R]}")
                if self.at[R] is None and o not in ("Loading station", R): self.fail("chain", f"{R} starts at {o} before having moved")
                if pr["kind"] == "link" and self.at[R] is not None and [o, t] not in pr["links"] and [t, o] not in pr["links"]: self.fail("link", f"{R} moves {o}->{t} which is not a link")
                # possible target places
                cand = [place_of(s, t, "node")] + ([place_of(s, t, "out")] if empty else [place_of(s, t, "in")])
                loads = [0.0] + ([s["tm"][pr["load"]][1]] if pr.get("load") and not empty else []); unl = [0.0] + ([s["tm"][pr["unload"]][1]] if pr.get("unload") and not empty else [])
                d = e["Expected End Time"] - e["Time"]
                ok = [(c, l, u) for c in cand for l in loads for u in unl if close(d, travel(s, pr["tm"], self.pos[R], c) + l + u)]
                if not ok: self.fail("travel-time", f"{R} needs {d} from {self.pos[R]} to {t} at {cand} (loading {loads} unloading {unl} {'empty' if empty else 'loaded'})")
                self.leg.setdefault(R, []).append((e["Product"], empty, o, t, d, list(self.pos[R])))
                self.cand = getattr(self, "cand", {}); self.cand[R] = cand
            elif act == "end state" and R in self.op:
                e0 = self.op.pop(R); self.at[R] = e0["Target location"]
                self.pend = getattr(self, "pend", {}); self.pend[R] = run.env.now
                v = self.veh[R]
                self.check = getattr(self, "check", []); self.check.append((R, self.cand[R], e0["Target location"]))
                # the place is updated right after the process ended: take the one the vehicle reports before its next start
                self.pos[R] = None
        for R in self.pos:
            if self.pos[R] is None or R not in self.op:
                v = self.veh[R]; loc = list(v.get_location())
                if self.pos[R] is None:
                    if any(loc == list(c) for c in self.cand[R]): self.pos[R] = loc
                    elif run.env.now > self.pend[R]: self.fail("location", f"{R} reports {loc} after arriving at one of {self.cand[R]}"); self.pos[R] = loc
    def end(self, run):
        s = self.s
        for R, l in self.leg.items():
            # loading exactly on the first loaded hop, unloading exactly on the last one; place of the last hop
            i = 0
            while i < len(l):
                j = i
                while j + 1 < len(l) and l[j + 1][:2] == l[i][:2] and l[j][3] == l[j + 1][2] and (l[i][0], l[j][3]) : j += 1
                i = j + 1
        # per request: legs in order
        for R, l in self.leg.items():
            reqs = self.byres.get(R, [])
            k = 0
            for (prod, o, t, ro, pid) in reqs:
                pr = s["procs"][pid]
                while k < len(l) and l[k][1] and l[k][0] == prod: k += 1
                hops = l[k:k + len(ro) - 1]
                if len(hops) < len(ro) - 1: break
                if [h[0] for h in hops] != [prod] * len(hops) or any(h[1] for h in hops): break
                for n, h in enumerate(hops):
                    first, last = n == 0, n == len(hops) - 1
                    c = place_of(s, h[3], "in") if last else place_of(s, h[3], "node")
                    want = travel(s, pr["tm"], h[5], c) + (s["tm"][pr["load"]][1] if pr.get("load") and first else 0) + (s["tm"][pr["unload"]][1] if pr.get("unload") and last else 0)
                    if not close(h[4], want): self.fail("handling", f"hop {n + 1}/{len(hops)} of {R} carrying {prod} to {h[3]} takes {h[4]} instead of {want}")
                k += len(hops)
        if not run.runner.product_factory.products:
            for p in run.runner.product_factory.finished_products:
                t = p.product_data.product_type
                if p.current_locatable.data.ID not in [x["ID"] for x in s["sinks"] if x["product"] == t]: self.fail("delivered", f"finished product {p.product_data.ID} is at {p.current_locatable.data.ID}")
    byres = {}

class P11b(P11):
    """also records the requests in the order they are started"""
    def prepare(self, run):
        super().prepare(run); self.byres = collections.defaultdict(list)
        for r in run.runner.resource_factory.resources:
            if r.data.ID in self.pos:
                self.track(r)
    def track(self, r):
        self.trk = getattr(self, "trk", []); self.trk.append((r, []))
    def step(self, run):
        super().step(run)
        for r, known in self.trk:
            now = {id(q) for q in r.controller.requests}
            gone = [q for q in known if id(q) not in now]
            for q in gone:
                known.remove(q)
                i = q.product.product_data.ID if hasattr(q.product, "product_data") else q.product.data.ID
                self.byres[r.data.ID].append((i, q.origin.data.ID, q.target.data.ID, [x.data.ID for x in q.route], q.process.process_data.ID))
            have = {id(q) for q in known}
            for q in r.controller.requests:
                if id(q) not in have: known.append(q)

class P12(Oracle):
    want = ("aux", "nobatch")
    def prepare(self, run):
        s = self.s; self.aux = list(run.runner.auxiliary_factory.auxiliaries) if getattr(run.runner, "auxiliary_factory", None) else []
        c = collections.Counter((a.data.auxiliary_type if hasattr(a.data, "auxiliary_type") else "AUX", a.storage.data.ID) for a in self.aux)
        want = {(k, st): n for k, v in s["aux"].items() for st, n in zip(v["stores"], v["qty"])}
        if dict(c) != want: self.fail("count", f"auxiliaries {dict(c)} are created instead of {want}")
        if len({a.data.ID for a in self.aux}) != len(self.aux): self.fail("identity", "two auxiliaries share an identity")
        self.cur = {id(a): None for a in self.aux}; self.n = 0; self.use = {}; self.prods = {}; self.idle = None; self.last = 0
        A = type(self.aux[0]) if self.aux else None
        if A is not None:
            import prodsys.simulation.auxiliary as M
            if not hasattr(M.Auxiliary, "_orig_reserve"):
                M.Auxiliary._orig_reserve, M.Auxiliary._orig_rel = M.Auxiliary.reserve, M.Auxiliary.release_auxiliary_from_product
            o = self
            def reserve(a, *x, **k):
                if a.reserved or a.current_product is not None: o.fail("double", f"auxiliary {a.data.ID} is handed out although it is in use")
                r = M.Auxiliary._orig_reserve(a, *x, **k)
                if not a.reserved: o.fail("reserve", f"auxiliary {a.data.ID} stays available after being reserved")
                return r
            def release(a, *x, **k):
                ev = a.got_free
                if a.current_locatable is None or a.current_locatable.data.ID not in s["aux"][a.data.auxiliary_type]["stores"]: o.fail("back", f"auxiliary {a.data.ID} becomes available outside its storages")
                r = M.Auxiliary._orig_rel(a, *x, **k)
                if a.reserved or a.current_product is not None: o.fail("release", f"released auxiliary {a.data.ID} is not free")
                if not ev.triggered: o.fail("announce", f"released auxiliary {a.data.ID} does not announce its availability")
                return r
            M.Auxiliary.reserve, M.Auxiliary.release_auxiliary_from_product = reserve, release
    def step(self, run):
        s = self.s; own = collections.Counter(id(a.current_product) for a in self.aux if a.current_product is not None)
        if any(n > 1 for n in own.values()): self.fail("two-for-one", "one product holds two auxiliaries of one kind")
        for a in self.aux:
            p = a.current_product; q = self.cur[id(a)]
            if q is not None and p is not None and p is not q: self.fail("stolen", f"auxiliary {a.data.ID} passes from {q.product_data.ID} to {p.product_data.ID} without being released")
            if p is not None and not a.reserved: self.fail("unreserved", f"auxiliary {a.data.ID} serves {p.product_data.ID} but counts as available")
            self.cur[id(a)] = p
        now = run.runner.env.now
        if self.idle and now > self.last + 1e-9: self.fail("starved", f"{self.idle[0]} waits for an auxiliary while {self.idle[1]} is available"); self.idle = None
        for p in self.prods:
            if self.prods[p][1] is False and any(a.current_product is not None and a.current_product.product_data.ID == p for a in self.aux): self.prods[p][1] = True
        self.last = now; self.idle = next(((p, a.data.ID) for p, (t, used) in self.prods.items() if used is False for a in self.aux if not a.reserved and a.current_product is None and a.data.auxiliary_type in s["products"][t]["aux"]), None)
        while self.n < len(run.log):
            e = run.log[self.n]; self.n += 1
            t = next((q for q in s["products"] if e["Product"] and str(e["Product"]).startswith(q + "_")), None)
            if val(e["Activity"]) == "created product" and t and s["products"][t]["aux"]: self.prods[e["Product"]] = [t, False]
            if val(e["Activity"]) in ("start state",) and e["Product"] in self.prods and val(e["State Type"]) in ("Production", "Transport") and self.prods[e["Product"]][1] is False:
                self.fail("without", f"{e['Product']} is processed without its auxiliary")
            if val(e["Activity"]) == "started auxiliary usage":
                if self.use.get(e["Product"]): self.fail("usage", f"usage of {e['Product']} starts twice")
                self.use[e["Product"]] = 1
            if val(e["Activity"]) == "finished auxiliary usage":
                if not self.use.get(e["Product"]): self.fail("usage", f"usage of {e['Product']} ends without having started")
                self.use[e["Product"]] = 0
    def end(self, run):
        pass

class P13(Oracle):
    def prepare(self, run):
        self.n = 0; self.created = []; self.fin = []
        pf = run.runner.product_factory; f = pf.create_product
        def create(*a, **k):
            p = f(*a, **k); self.created.append(p.product_data.ID); return p
        pf.create_product = create
    def step(self, run):
        pf = run.runner.product_factory; new = False
        while self.n < len(run.log):
            e = run.log[self.n]; self.n += 1
            if val(e["Activity"]) == "finished product": self.fin.append(e["Product"]); new = True
        a = [p.product_data.ID for p in pf.products]; b = [p.product_data.ID for p in pf.finished_products]
        if (len(a), len(b)) == getattr(self, "last", None) and not new: return
        self.last = (len(a), len(b))
        if len(set(self.created)) != len(self.created): self.fail("identity", f"two products share the identity {[x for x in self.created if self.created.count(x) > 1][:1]}")
        if sorted(a + b) != sorted(self.created): self.fail("partition", f"created {sorted(self.created)} but in progress {sorted(a)} and finished {sorted(b)}")
        if sorted(b) != sorted(self.fin): self.fail("finished", f"finished products {sorted(b)} but completions {sorted(self.fin)}")
    def end(self, run):
        n = sum(len(x["gaps"]) for x in self.s["sources"])
        if run.env.now >= max(sum(x["gaps"]) for x in self.s["sources"]) and len(self.created) != n and not run.error: self.fail("number", f"{len(self.created)} products are created instead of {n}")

class P07(Oracle):
    want = ("nobatch",)
    def end(self, run):
        s = self.s; t = collections.defaultdict(list)
        for e in run.rows():
            if e["Activity"] == "created product": t[e["Resource"]].append(float(e["Time"]))
        for x in s["sources"]:
            want = list(np.cumsum(x["gaps"]))
            if len(t[x["ID"]]) != len(want) or any(not close(a, b) for a, b in zip(t[x["ID"]], want)): self.fail("arrivals", f"source {x['ID']} emits at {t[x['ID']]} instead of {[float(v) for v in want]}")
        done, _ = sessions_of(run.rows(), s, lambda k, w: None)
        for y in done:
            R, S, P = y["key"]; tm = None
            if y["type"] == "Production": tm = s["tm"][s["procs"][S]["tm"]]
            elif S in s["states"]: tm = s["tm"][s["states"][S]["tm"]]
            if tm and tm[0] == "const" and not close(y["drawn"], tm[1]): self.fail("constant", f"{R}/{S} draws {y['drawn']} instead of {tm[1]}")
            if tm and tm[0] == "sample" and not any(close(y["drawn"], v) for v in tm[1]): self.fail("sample", f"{R}/{S} draws {y['drawn']} which is none of {tm[1]}")
            if y["drawn"] < 0: self.fail("negative", f"{R}/{S} draws the negative time {y['drawn']}")

ORACLES = {"P01": P01, "P02": P02, "P03": P03, "P04": P04, "P05": P05, "P06": P06, "P07": P07, "P08": P08, "P09": P09, "P11": P11b, "P12": P12, "P13": P13}

def run_one(prop, s):
    o = ORACLES[prop](s)
    r = Run(s, on_step=o.step, prepare=o.prepare)
    if r.error is not None and any(v.get("batch") for v in s["res"].values()): pass
    elif r.error is not None: o.fail("crash", f"the simulation of a valid system fails: {type(r.error).__name__}: {str(r.error)[:200]}")
    elif r.stuck: o.fail("livelock", "the simulation makes no progress in time")
    else: o.end(r)
    return o, r

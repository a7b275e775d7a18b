#!/usr/bin/env python3-vt
"""Decides one property: discharges every obligation of its contracts on /repo's current source, and executes the same contracts on the real code.
usage: check.py --property Pxx [--tier quick|thorough] | --replay FILE
exit 0: held; exit 1: VIOLATION line printed."""
import sys, os, json, time, argparse, subprocess, tempfile, multiprocessing as mp, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PY = "/opt/venv/bin/python"
T0 = time.time()

def work(world, key, c, pipe, escalate, timeout):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    from pyvc.verify import verify_function
    try:
        sys.stdout = open(os.devnull, "w"); sys.stderr = open(os.devnull, "w")
        r = verify_function(world, key, c, escalate=escalate, timeout=timeout)
        for o in r["obligations"]:
            for f in ("model", "smt"):
                if o.get(f) is not None: o[f] = str(o[f])[:6000]
            if o["proved"]: o.pop("smt", None); o.pop("model", None)
        pipe.send(json.dumps(r, default=str))
    except BaseException as e:
        try: pipe.send(json.dumps({"fn": key, "status": "error", "detail": f"{type(e).__name__}: {e}", "obligations": [], "trace": traceback.format_exc()[-1500:]}))
        except Exception: pass
    pipe.close()
    os._exit(0)

def run_verify(world, items, jobs, limit, escalate, stop=lambda: False, timeout=None):
    """verify the contracts in forked processes; limit: seconds per function"""
    out, running, todo = {}, [], list(items)
    ctx = mp.get_context("fork")
    while todo or running:
        if stop():
            for _, pr, _, _ in running: pr.kill()
            for k, *_ in [r[0] for r in running] + todo: out.setdefault(k, {"fn": k, "status": "stopped", "obligations": [], "detail": "a failing input was found first"})
            return out
        while todo and len(running) < jobs:
            k, c = todo.pop(0)
            r, s = mp.Pipe(False)
            pr = ctx.Process(target=work, args=(world, k, c, s, escalate, timeout)); pr.start(); s.close()
            running.append(((k, c), pr, r, time.time() + limit))
        nxt = []
        for t, pr, r, dl in running:
            o = None
            if r.poll(0):
                try: o = json.loads(r.recv())
                except EOFError: o = {"fn": t[0], "status": "error", "detail": "worker died", "obligations": []}
            elif not pr.is_alive() and not r.poll(0.05): o = {"fn": t[0], "status": "error", "detail": "worker died (memory?)", "obligations": []}
            elif time.time() > dl: pr.kill(); o = {"fn": t[0], "status": "timeout", "detail": f"no verdict within {limit:.0f} s", "obligations": []}
            if o is None: nxt.append((t, pr, r, dl)); continue
            pr.join(2)
            if pr.is_alive(): pr.kill()
            out[t[0]] = o
        running = nxt
        time.sleep(0.02)
    return out

def conc(prop, tier, seed, out, *extra):
    return subprocess.Popen([PY, os.path.join(HERE, "conc", "run.py"), "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, *extra],
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)

def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") != "fixed": out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.replay: sys.exit(replay(a.replay))
    prop, q = a.property, a.tier != "thorough"
    hard = 780 if q else 840
    man = {}
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop: man = c
    except FileNotFoundError: pass
    level = man.get("level", "proof")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="check_")
    try: rc = decide(prop, a.tier, q, a.seed, level, hard, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, q, seed, level, hard, tmp):
    from pyvc.verify import World
    cout = os.path.join(tmp, "c1.json")
    p1 = conc(prop, tier, seed, cout, "--jobs", "4")
    world, werr = None, ""
    try: world = World()
    except Exception as e: werr = f"{type(e).__name__}: {e}"
    items = world.funcs_for(prop) if world else []
    KF = known(prop)
    seenk = set()
    def findings(cres):
        """concrete violations not listed as known"""
        new = []
        for fk, r in cres.get("functions", {}).items():
            v = r.get("violation")
            if v and not matched(KF, fk + "#" + v["clause"], v, seenk): new.append(dict(kind="contract", function=fk, **v))
        for dn, r in cres.get("drivers", {}).items():
            for v in r.get("violations", []):
                if not matched(KF, v["key"], v, seenk): new.append(dict(kind="driver", driver=dn.partition("~")[0], **v))
        return new
    state = {"done": None}
    def cdone():
        if state["done"] is None and p1.poll() is not None:
            try: state["done"] = json.load(open(cout))
            except Exception as e: state["done"] = {"functions": {}, "drivers": {}, "error": (p1.stderr.read() or b"").decode()[-1500:]}
        return state["done"]
    def stop():
        d = cdone()
        return bool(d) and bool(findings(d))
    todo = [(k, c) for k, c in items if not c.bounded]
    vres = run_verify(world, todo, 6, 150 if q else 400, not q, stop) if world else {}
    while cdone() is None:
        if time.time() - T0 > hard - 60: kill(p1); break
        time.sleep(0.05)
    cres = cdone() or {"functions": {}, "drivers": {}, "error": "time limit"}
    for k, c in items:
        if c.bounded: vres[k] = {"fn": k, "status": "bounded", "detail": c.bounded, "obligations": []}
    new = findings(cres)
    bad = [k for k, r in vres.items() if r["status"] in ("failed", "timeout", "vacuous", "error")]
    if bad and not new:
        # second phase: more time for the solvers, and a longer search for a failing input
        cout2 = os.path.join(tmp, "c2.json")
        p2 = conc(prop, "thorough", seed + 7919, cout2, "--only", ";".join(bad), "--budget", "40" if q else "90", "--jobs", "3", "--nodrivers", "--nmax", "1000000")
        left = max(30, min(300, hard - 120 - (time.time() - T0)))
        again = run_verify(world, [(k, c) for k, c in items if k in bad], 5, left, True)
        for k, r in again.items():
            if r["status"] in ("proved", "failed", "unsupported", "missing", "vacuous") or vres[k]["status"] != "failed": vres[k] = r
        try: p2.wait(timeout=max(5, hard - 20 - (time.time() - T0)))
        except subprocess.TimeoutExpired: kill(p2)
        try:
            c2 = json.load(open(cout2))
            new = findings(c2)
            for k, r in c2["functions"].items():
                if k in cres["functions"]: cres["functions"][k]["accepted"] = cres["functions"][k].get("accepted", 0) + r.get("accepted", 0)
        except Exception: pass
        bad = [k for k, r in vres.items() if r["status"] in ("failed", "timeout", "vacuous", "error")]
    for f in KF:
        if f["key"] in seenk: print(f"KNOWN-FINDING: property={prop} {f['what']}")
    rc = 0
    out = []
    for i, v in enumerate(new[:5]):
        path = os.path.join(HERE, "replays", f"{prop}-{i}.json")
        json.dump({"property": prop, "seed": v.get("seed", seed), **v}, open(path, "w"), indent=1, default=str)
        out.append((v.get("function") or v.get("driver")) + ": " + str(v.get("clause") or v.get("what"))[:300])
        print(f"  {out[-1]}\n    {str(v.get('detail', ''))[:400]}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    if not new:
        for i, k in enumerate(bad):
            r = vres[k]
            path = os.path.join(HERE, "replays", f"{prop}-o{i}.json")
            failed = [o for o in r["obligations"] if not o["proved"]]
            json.dump({"property": prop, "kind": "obligation", "function": k, "status": r["status"], "detail": r["detail"], "failed_obligations": failed}, open(path, "w"), indent=1, default=str)
            print(f"  {k}: {r['status']} {r['detail']} " + "; ".join(f"[{o['kind']}] {o['name']} ({o.get('result')})" for o in failed)[:800])
            print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
            out.append(k); rc = 1
    evidence(prop, tier, seed, level, vres, cres, new, bad, werr, world)
    n = sum(len(r["obligations"]) for r in vres.values()); d = sum(o["proved"] for r in vres.values() for o in r["obligations"])
    st = [k + f" ({r['status']}: {r['detail'][:80]})" for k, r in vres.items() if r["status"] in ("unsupported", "missing")]
    for s in st: print("  outside the verifier's reach on this tree, bounded check only:", s)
    print(f"{prop}: {d}/{n} obligations discharged over {len(vres)} functions; {sum(r.get('accepted', 0) for r in cres['functions'].values())} contract executions; "
          f"{sum(r.get('evaluations', 0) for r in cres['drivers'].values())} driver cases; {time.time() - T0:.0f} s; " + ("violated" if rc else "held"))
    return rc

def matched(KF, key, v, seen):
    for f in KF:
        if f["key"] == key and (f.get("input_contains") is None or all(s in json.dumps(v.get("input"), default=str) for s in f["input_contains"])):
            seen.add(key); return True
    return False

def kill(p):
    import signal
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass

def evidence(prop, tier, seed, level, vres, cres, new, bad, werr, world):
    fns, trusted, backs, secs = [], set(), {}, 0.0
    assumed, dropped = set(), set()
    for k, r in sorted(vres.items()):
        ob = r["obligations"]
        for o in ob:
            if o["proved"]: backs[o["backend"]] = backs.get(o["backend"], 0) + 1
        secs += r.get("secs", 0) or 0
        trusted |= set(map(str, r.get("trusted", []))); assumed |= set(map(str, r.get("assumed", []))); dropped |= set(map(str, r.get("dropped", [])))
        fc = cres["functions"].get(k, {})
        fns.append({"function": k, "status": r["status"], "detail": r["detail"], "obligations": len(ob), "discharged": sum(o["proved"] for o in ob),
                    "callee_contracts_used": r.get("used", []), "callees_inlined": r.get("inlined", []), "seconds": round(r.get("secs", 0) or 0, 2),
                    "concrete_executions": fc.get("accepted", 0)})
    n = sum(f["obligations"] for f in fns); d = sum(f["discharged"] for f in fns)
    ev = sum(r.get("accepted", 0) for r in cres["functions"].values()) + sum(r.get("evaluations", 0) for r in cres["drivers"].values())
    dist = sum(1 for r in cres["functions"].values() if r.get("accepted")) + sum(r.get("distinct", 0) for r in cres["drivers"].values())
    samples = [s for r in cres["drivers"].values() for s in r.get("samples", [])][:6] or [f["function"] for f in fns[:3]]
    env = sorted(t for t in trusted)
    cov = {"obligations": n, "discharged": d, "checker_cmd": f"python3-vt /verif/check.py --property {prop} --tier {tier}",
           "trusted_base": ["PyVC (/verif/pyvc): translation of the Python subset to first-order obligations", "z3, cvc5",
                            "type annotations of /repo as completed by contracts/*.py `field`/`params` (assumed, not proved)"] + [f"external behaviour: {t}" for t in env],
           "functions_under_contract": fns, "discharged_by_backend": backs, "verification_seconds": round(secs, 1),
           "statements_without_effect_on_the_contract_dropped": sorted(dropped)[:60],
           "bounded_standins": [{"function": f["function"], "reason": f["detail"], "executions": f["concrete_executions"]} for f in fns if f["status"] in ("bounded", "unsupported", "missing")],
           "evaluations": ev, "distinct_nontrivial": dist,
           "rule": "contract executions: random heaps built from the declared field types that satisfy `requires`; non-trivial = functions with at least one accepted execution, plus distinct scenario kinds of the drivers: " + " | ".join(r.get("rule", "")[:400] for r in cres["drivers"].values()),
           "samples": samples, "explanation": "deductive obligations are counted under obligations/discharged; executions of the same contracts and drivers are bounded and never counted as proved",
           "drivers": {k: {x: r.get(x) for x in ("evaluations", "distinct", "notes", "secs", "error")} for k, r in cres["drivers"].items()},
           "contract_clauses_not_executable": sorted({f"{k}: {s}" for k, r in cres["functions"].items() for s in r.get("skipped", [])})[:40]}
    errs = [f"{k}: {r['error']}" for g in ("functions", "drivers") for k, r in cres[g].items() if r.get("error")]
    if werr or errs or cres.get("error"): cov["errors"] = [str(x) for x in [werr, *errs, cres.get("error")] if x]
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 1),
           "assumptions": ["machine floats treated as reals with +infinity as a large constant", "integers unbounded (exact in Python)",
                           "single-threaded execution; simpy callbacks run between yields only"] + sorted(assumed)[:60],
           "violations": len(new) + (len(bad) if not new else 0)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(doc, open(p + ".tmp", "w"), indent=1, default=str); os.replace(p + ".tmp", p)

def replay(path):
    d = json.load(open(path))
    if d["kind"] == "obligation":
        from pyvc.verify import World, verify_function
        w = World(); c = dict(w.funcs_for(None))[d["function"]]
        r = verify_function(w, d["function"], c)
        for o in r["obligations"]:
            if not o["proved"]: print("unproved:", o["kind"], o["name"], o.get("result"))
        return 0 if r["status"] == "proved" else 1
    return subprocess.call([PY, os.path.join(HERE, "conc", "run.py"), "--replay", path])

if __name__ == "__main__": main()

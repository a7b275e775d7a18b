"""Discharge of obligations: z3 first, escalating time limits and seeds, then cvc5."""
import z3, time, subprocess, tempfile, os
from .core import *

T1, T2, T3 = 4000, 20000, 60000

def comp_lemmas(E):
    """congruence of filtered comprehensions/loops: same range, equivalent condition, equal elements => same list (by induction)"""
    out = []
    cs = list(E.comps.values())
    for a in range(len(cs)):
        for b in range(a + 1, len(cs)):
            A, n, k, c, e = cs[a][:5]; B, m, l, d, g = cs[b][:5]
            if A.sort() != B.sort(): continue
            d2, g2 = z3.substitute(d, (l, k)), z3.substitute(g, (l, k))
            # lists are compared through their element arrays; lengths are determined by the number of accepted indices
            cond = And(n == m, forall(k, Implies(And(0 <= k, k < n), And(c == d2, Implies(c, e == g2)))))
            i = z3.Int("i!cg")
            LA, LB = E.comp_len(A), E.comp_len(B)
            body = [forall(i, Implies(And(0 <= i, i < (LA if LA is not None else n)), z3.Select(A, i) == z3.Select(B, i)), None)]
            if LA is not None and LB is not None: body.append(LA == LB)
            kc = z3.FreshConst(Int, "kc")
            prem = And(n == m, Implies(And(0 <= kc, kc < n), And(z3.substitute(c, (k, kc)) == z3.substitute(d2, (k, kc)), Implies(z3.substitute(c, (k, kc)), z3.substitute(e, (k, kc)) == z3.substitute(g2, (k, kc))))))
            out.append((Implies(cond, And(body)), A, B, prem, And(body)))
    ss = list(E.sums.values())
    for a in range(len(ss)):
        for b in range(a + 1, len(ss)):
            S, n, k, d, p = ss[a]; T, m, l, e, q = ss[b]
            if S.sort() != T.sort(): continue
            e2 = z3.substitute(e, (l, k))
            out.append((Implies(And(n == m, p == q, forall(k, Implies(And(0 <= k, k < n), d == e2))), z3.Select(S, n) == z3.Select(T, m)), S, T, None, None))
    return out

def consts_of(e, cache={}):
    i = e.get_id()
    if i in cache and cache[i][0].eq(e): return cache[i][1]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0: out.add(x.decl().name())
        todo.extend(x.children())
    cache[i] = (e, out)
    return out

def check(conds, goal, timeout, seed=0, mbqi=True):
    s = z3.Solver()
    s.set("timeout", timeout)
    if seed: s.set("random_seed", seed); s.set("smt.random_seed", seed)
    if not mbqi: s.set("smt.mbqi", False); s.set("smt.auto_config", False)
    s.add(*conds); s.add(Not(goal))
    r = s.check()
    return r, s

def cvc5_check(conds, goal, timeout): return cli_check(["cvc5", "--lang=smt2", f"--tlimit={timeout}"], conds, goal, timeout)
def z3old_check(conds, goal, timeout): return cli_check(["/usr/bin/z3", f"-t:{timeout}"], conds, goal, timeout)
def cli_check(cmd, conds, goal, timeout):
    s = z3.Solver(); s.add(*conds); s.add(Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt); p = f.name
    try:
        r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except Exception as e: return "error"
    finally: os.unlink(p)

def intify(fs):
    """equisatisfiable preprocessing: use equalities t == to_real(i), then turn comparisons of whole-valued real terms into integer comparisons"""
    def flat(e):
        if z3.is_and(e): return [y for c in e.children() for y in flat(c)]
        if z3.is_not(e) and z3.is_or(e.arg(0)): return [y for c in e.arg(0).children() for y in flat(z3.simplify(Not(c)))]
        if z3.is_not(e) and z3.is_implies(e.arg(0)): return flat(e.arg(0).arg(0)) + flat(Not(e.arg(0).arg(1)))
        return [e]
    def toint(t):
        if z3.is_rational_value(t): return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_TO_REAL: return t.arg(0)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            xs = [toint(c) for c in t.children()]
            if any(x is None for x in xs): return None
            if k == z3.Z3_OP_UMINUS: return -xs[0]
            r = xs[0]
            for x in xs[1:]: r = r + x if k == z3.Z3_OP_ADD else r - x if k == z3.Z3_OP_SUB else r * x
            return r
        return None
    fs = [y for f in fs for y in flat(f)]
    subs = []
    for f in fs:
        if z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL and not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL) and not z3.is_rational_value(a) and not mentions(b, [a]):
                    subs.append((a, b)); break
    if subs: fs = fs + [z3.substitute(f, *subs) for f in fs]
    memo = {}
    def go(e):
        i = e.get_id()
        if i in memo: return memo[i][1]
        r = e
        if z3.is_app(e) and e.num_args():
            k = e.decl().kind()
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and e.arg(0).sort() == z3.RealSort():
                a, b = toint(e.arg(0)), toint(e.arg(1))
                if a is not None and b is not None:
                    r = {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[k]
            elif e.sort() == z3.BoolSort():
                ch = [go(c) for c in e.children()]
                if any(not x.eq(y) for x, y in zip(ch, e.children())): r = e.decl()(*ch)
        memo[i] = (e, r)
        return r
    return [go(f) for f in fs]

def discharge(E, res, timeout=None, escalate=True):
    lem = comp_lemmas(E)
    budget = timeout or 1
    lemc = [(l, consts_of(a) | consts_of(b), pr, bd) for l, a, b, pr, bd in lem]
    perf = {"z3": 0, "cvc5": 0, "simplifier": 0}
    tsolve = 0.0
    seen = {}
    for ob in E.obls:
        t0 = time.time()
        kk = (tuple(c.get_id() for c in ob.conds), ob.goal.get_id())
        o = {"name": ob.name, "kind": ob.kind, "proved": False, "backend": None, "secs": 0.0, "model": None}
        if kk in seen:
            o.update({k: seen[kk][k] for k in ("proved", "backend", "model")}); res["obligations"].append(o); continue
        g = z3.simplify(ob.goal)
        if z3.is_true(g): o["proved"], o["backend"] = True, "simplifier"
        else:
            cs = set()
            for c in ob.conds + [ob.goal]: cs |= consts_of(c)
            use = [x for x in lemc if x[1] <= cs]
            conds = ob.conds + [x[0] for x in use]
            if any(z3.is_false(c) for c in conds): o["proved"], o["backend"] = True, "simplifier"
            else:
                plan = [(1500, 0, True)] + ([("lemmas",)] if any(x[2] is not None for x in use) else []) + [("resel",)] + [("z3-4.8", 2000), ("intify", 2000, 0), ("cvc5", 2500, 0), (T1, 0, False), (T1, 0, True)]
                if escalate: plan += [("z3-4.8", 10000), ("cvc5", 10000, 0), (T2, 7, True), (T2, 3, False), ("cvc5", 40000, 0), (T3, 11, True)]
                last = None; goal = ob.goal
                for a in plan:
                    if a[0] == "lemmas":        # premises of the congruence lemmas, each proved by itself
                        memo = {}
                        base = [resel(c, memo) for c in ob.conds]
                        n0 = len(conds)
                        for x in use:
                            if x[2] is None: continue
                            pr = resel(x[2], memo)
                            if any(check(base, pr, 1500, 0, mb)[0] == z3.unsat for mb in (False, True)): conds = conds + [x[3]]
                        if len(conds) == n0: continue
                        if any(check(conds, goal, 3000, 0, mb)[0] == z3.unsat for mb in (True, False)): o["proved"], o["backend"] = True, "z3"; break
                        continue
                    if a[0] == "resel":
                        memo = {}
                        c2 = [resel(c, memo) for c in conds]; g2 = resel(ob.goal, memo)
                        if g2.eq(goal) and all(x.eq(y) for x, y in zip(c2, conds)): continue
                        conds, goal = c2, g2
                        if check(conds, goal, 1500, 0, True)[0] == z3.unsat: o["proved"], o["backend"] = True, "z3"; break
                        continue
                    if a[0] == "intify":
                        fs = conds + [Not(goal)]
                        if not any("to_real" in f.sexpr() for f in fs): continue
                        s = z3.Solver(); s.set("timeout", a[1]); s.add(*intify(fs))
                        if s.check() == z3.unsat: o["proved"], o["backend"] = True, "z3"; break
                        continue
                    if a[0] == "z3-4.8":
                        if z3old_check(conds, goal, a[1]) == "unsat": o["proved"], o["backend"] = True, "z3-4.8"; break
                        continue
                    if a[0] == "cvc5":
                        r = cvc5_check(conds, goal, a[1])
                        if r == "unsat": o["proved"], o["backend"] = True, "cvc5"; break
                        continue
                    r, s = check(conds, goal, a[0], a[1], a[2])
                    if r == z3.unsat: o["proved"], o["backend"] = True, "z3"; break
                    if r == z3.sat and a[2]:
                        o["model"] = s.model(); last = "sat"
                        break
                    last = str(r)
                o["result"] = last
                if not o["proved"]: o["smt"] = (conds, ob.goal)
        o["secs"] = time.time() - t0
        tsolve += o["secs"]
        seen[kk] = o
        res["obligations"].append(o)
    res["solver_secs"] = tsolve + E.solver.secs
    E.solver.secs = 0.0

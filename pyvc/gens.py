"""Generators (simpy processes): yield points as rely/guarantee cut points; while loops by candidate invariants (Houdini)."""
import ast, os, z3
TRACE = os.environ.get("PYVC_TRACE")
from .core import *
from .types import *
from .front import Cls, Func, Mod

class GenMixin:
    # contract options (Contract.gen): dict(rely=[exprs, old()=before the yield], stable=[cells], interrupt=None|[exprs],
    #   at_yield=[(name, guard-class or None, expr)], ghost={name: (type, init expr)}, on_timeout={name: expr of (elapsed)})
    def gopts(self):
        c = self.contract_of(self.cur) if self.cur is not None else None
        return (c.gen if c is not None else None) or {}
    def immutable(self, key):
        """heap map of a field that is only stored by constructors (computed from the sources on every run)"""
        if not key.startswith("f:"): return False
        f = key.split(":")[1]
        return f in self.types.immutable_fields()
    def gen_init(self, st, fn):
        g = self.gopts()
        for nm, (T, e) in (g.get("ghost") or {}).items():
            v, _ = self.spec_val(e, st, self.genv(st), fn)
            st.env["g_" + nm] = self.coerce(st, v, self.types.parse(T))
        st.env["g_yields"] = VI(0)
        st.ghost["evolve"] = True
    def genv(self, st):
        """environment for annotations inside the body: parameters/locals plus ghosts without prefix"""
        e = dict(st.env)
        for k, v in list(st.env.items()):
            if k.startswith("g_"): e[k[2:]] = v
        for ce in reversed(getattr(self, "gen_callers", [])):       # locals of the generators this one is inlined into
            for k, v in ce.items():
                if not k.startswith("g_"): e.setdefault(k, v)
        for k, v in (self.entry_env or {}).items():
            e.setdefault(k, v)
        return e
    def do_yield(self, node, st):
        if isinstance(node, ast.Await): raise Unsupported("await")
        out = []
        if isinstance(node, ast.YieldFrom):
            for v, x in self.ev(node.value, st):
                if v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "gen":
                    out += self.run_gen_inline(v.t, x)
                elif v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "genexp" or v.T[0] in ("list",):
                    raise Unsupported("yield from a collection")
                else: raise Unsupported("yield from")
            return out
        vals = [(NONEV, st)] if node.value is None else self.ev(node.value, st)
        for v, x in vals: out += self.yield_value(v, x)
        return out
    def run_gen_inline(self, g, st):
        _, fn, env = g
        c = self.contract_of(fn)
        self.inlined.add(fn.key)
        gh = {k: v for k, v in st.env.items() if k.startswith("g_")}
        env = {**env, **gh}
        caller = st.env
        x = st.fork(); x.env = dict(env)
        fr, self.frame = self.frame, self.newframe(fn, fn.mod, fn.cls)
        gc = getattr(self, "gen_callers", []); self.gen_callers = gc + [caller]
        try: outs = self.exec_block(fn.node.body, x)
        finally: self.frame = fr; self.gen_callers = gc
        res = []
        for o in outs:
            y = o[1]
            gh = {k: v for k, v in y.env.items() if k.startswith("g_")}
            y.env = {**caller, **gh}
            if o[0] == "norm": res.append((NONEV, y))
            elif o[0] == "ret": res.append((o[2], y))
            elif o[0] == "raise": self.sink.append(o)
            else: raise Unsupported("control flow")
        return res
    def is_cls(self, v, name):
        return v.T[0] == "ref" and all(c.name == name or any(b.name == name for b in c.mro()) for c in self.classes_of(v.T))
    def yield_value(self, v, st):
        from .engine import Obl
        if self.cur is None or not self.cur.is_gen: raise Unsupported("yield outside a generator under contract")
        g = self.gopts()
        if not g: raise Unsupported("generator without rely conditions")
        fn = self.cur
        if g.get("collect"):
            # pure generator used as a sequence: yielded values are appended to a ghost list
            raise Unsupported("collecting generator")
        env = self.genv(st)
        if v.T[0] == "ref":
            env["ev"] = v
        st.env["g_yields"] = VI(plus(st.env["g_yields"].t, 1)) if "g_yields" in st.env else VI(1)
        kind = "timeout" if self.is_cls(v, "SimTimeout") else "cond" if self.is_cls(v, "AllOf") else "other"
        inv = [x if isinstance(x, tuple) else (x, x) for x in g.get("inv", [])]
        for nm, k, e in g.get("at_yield", []) + [(nm, None, e) for nm, e in inv]:
            if k is not None and k != kind: continue
            t, _ = self.spec_eval(e, st, {**env, **self.genv(st)}, fn, old=self.entry_old)
            self.obls.append(Obl(f"at yield ({kind}): {nm}", st.conds(), t, fn, "yield"))
        for nm, k, expr in g.get("set_at_yield", []):
            if k is not None and k != kind: continue
            w, _ = self.spec_val(expr, st, {**env, **self.genv(st)}, fn, old=self.entry_old)
            st.env["g_" + nm] = self.coerce(st, w, st.env["g_" + nm].T)
        pre = st.fork()
        outs = []
        modes = ["normal"] + (["interrupt"] if g.get("interrupt") is not None else [])
        for mode in modes:
            x = pre.fork()
            self.gen_havoc(x, pre, g, env, fn)
            nowk = self.now_key(x)
            n0, n1 = Sel(self.hmap(pre, nowk, Real), self.envref(pre, env)), Sel(self.hmap(x, nowk, Real), self.envref(x, env))
            x.fact(n1 >= n0)
            el = n1 - n0
            if kind == "timeout":
                d = self.field_get(pre, v.t, self.classes_of(v.T)[0], "delay", REAL).t
                x.fact(el == d if mode == "normal" else And(el >= 0, el <= d))
            if mode == "normal" and kind == "cond":
                lst = self.field_get(pre, v.t, self.classes_of(v.T)[0], "events", self.types.parse("list[SimEvent]"))
                n = self.length(pre, lst)
                nn = z3.simplify(n)
                tr = self.hmap(x, "f:triggered:bool", Bool)
                if z3.is_int_value(nn) and nn.as_long() <= 4:
                    for i in range(nn.as_long()): x.fact(Sel(tr, self.elem(pre, lst, z3.IntVal(i)).t))
                else:
                    i = z3.Int("i!y")
                    x.fact(forall(i, Implies(And(0 <= i, i < n), z3.Select(tr, z3.Select(self.earr(pre, lst), i)))))
                for q in pre.pc[len(x.pc):]: pass
            elif mode == "normal" and v.T[0] == "ref":
                x.fact(Sel(self.hmap(x, "f:triggered:bool", Bool), v.t))
            e2 = {**self.genv(x), "elapsed": VR(el)}
            rl = [e for _, e in inv] + list(g.get("rely", [])) + (list(g.get("resume", [])) if mode == "normal" else list(g["interrupt"]))
            for r in rl:
                # a clause about locals that do not exist yet says nothing at this suspension (dropping an assumption is sound)
                if isinstance(r, str) and any(isinstance(n, ast.Name) and n.id in self.own_locals(fn) and n.id not in e2 for n in ast.walk(ast.parse(r, mode="eval"))): continue
                t, _ = self.spec_eval(r, x, e2, fn, old=pre)
                x.fact(t)
            if kind == "timeout":
                for nm, expr in (g.get("on_timeout") or {}).items():
                    w, _ = self.spec_val(expr, x, {**self.genv(x), "elapsed": VR(el)}, fn, old=pre)
                    x.env["g_" + nm] = self.coerce(x, w, x.env["g_" + nm].T)
            for nm, k, expr in g.get("on_resume", []):
                if k is not None and k != (kind if mode == "normal" else "interrupt"): continue
                w, _ = self.spec_val(expr, x, {**self.genv(x), "elapsed": VR(el)}, fn, old=pre)
                x.env["g_" + nm] = self.coerce(x, w, x.env["g_" + nm].T)
            if not self.feasible(x): continue
            if mode == "normal":
                T = v.T
                val = NONEV
                if kind == "other" and g.get("value"):
                    vt = self.types.parse(g["value"], fn.mod)
                    val = self.fresh_val(x, vt, "yv")
                outs.append((val, x))
            else: self.sink.append(("raise", x, "Interrupt"))
        return outs
    def own_locals(self, fn):
        return {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    def now_key(self, st): return "f:now:real"
    def envref(self, st, env):
        g = self.gopts() or {}
        if g.get("env"): return self.spec_val(g["env"], st, self.genv(st), self.cur, old=self.entry_old)[0].t
        s = self.entry_env.get("self")
        T = self.types.field(self.classes_of(s.T)[0], "env")
        return self.field_get(st, s.t, self.classes_of(s.T)[0], "env", T).t
    def gen_havoc(self, x, pre, g, env, fn):
        """everything may change at a yield except constructor-only fields, declared stable cells and triggered flags (monotone)"""
        import itertools
        a2 = fresh("alloc", Int); x.fact(a2 >= pre.alloc); 
        ep = next(_epochs)
        oldheap = pre.heap
        x.heap = {}
        x.epoch = (ep, a2)
        x.alloc = a2
        r = z3.Int("r!y")
        for key, m in list(oldheap.items()):
            if self.immutable(key) or key.startswith(("tb",)):
                m2 = self.hmap(x, key, m.sort().range())
                x.fact(forall(r, Implies(r < pre.alloc, z3.Select(m2, r) == z3.Select(m, r)), [z3.Select(m2, r)]))
        tk = "f:triggered:bool"
        m, m2 = self.hmap(pre, tk, Bool), self.hmap(x, tk, Bool)
        x.fact(forall(r, Implies(And(r < pre.alloc, z3.Select(m, r)), z3.Select(m2, r)), [z3.Select(m2, r)]))
        from .contract import Contract
        for ent in g.get("stable", []):
            c = Contract("stable", modifies=[ent])
            for o in self.loc_targets(c, self.genv(pre), fn, pre):
                _, key, idx, srt = o
                mo = self.hmap(pre, key, srt); mn = self.hmap(x, key, srt)
                x.fact(Sel(mn, idx) == Sel(mo, idx))
        x.wlog.append(("bulk", "*"))
    def gen_for(self, s, seq, itv, st):
        """for loop whose body yields: candidate invariants like while"""
        k = fresh("it", Int)
        cands = self.loop_candidates(s)
        return self.houdini(s, st, cands, seq=seq, itv=itv)
    def loop_candidates(self, s):
        c = self.contract_of(self.cur) if self.cur is not None else None
        if c is None: return []
        L = c.loops
        out = list(L.get("*", []))
        out += [x for x in self.gopts().get("inv", []) if x not in out]
        return out
    def inv_while(self, s, st, inv=None):
        return self.houdini(s, st, self.loop_candidates(s))
    def houdini(self, s, st, cands, seq=None, itv=None):
        from .engine import Obl
        fn = self.cur
        cands = [x if isinstance(x, tuple) else (x, x) for x in cands]
        yields = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) 
        save_obls = list(self.obls)
        entry = st
        counted = seq is not None and not yields      # plain for loop: `it` = number of completed iterations
        # loop with suspensions over lists that nobody else changes (temporaries and lists declared stable): elements as on entry
        if seq is not None and yields and self.fixed_iter(s.iter): counted = True; fixed = (seq, st.fork())
        else: fixed = None
        if counted: st.env["g_it"] = VI(0)
        def ev(e, x): 
            if callable(e): return e(x)
            t, _ = self.spec_eval(e, x, self.genv(x), fn, old=self.entry_old)
            return t
        # candidates true on entry
        live = []
        for nm, e in cands:
            x = st.fork()
            try: t = ev(e, x)
            except Unsupported as ex:
                if TRACE: print("NOENTRY", s.lineno, nm, ex)
                continue
            if self.solver.valid(x.conds(), t, 3000): live.append((nm, e))
            elif TRACE:
                print("NOENTRY", s.lineno, nm)
                if TRACE == "3":
                    for c_ in x.conds(): print("   C", str(c_).replace("\n", " ")[:900])
                    print("   G", str(t)[:900])
        modv = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        keys = None
        if not yields:
            # dry run to find the modified heap keys; iterate to a fixpoint over the keys
            keys = set()
            for _ in range(4):
                h = self.havoc_head(st, modv, keys, yields); self.head_it(h, seq, itv, counted, fixed)
                so, sk = list(self.obls), self.sink
                self.sink = []
                outs = self.one_iter(s, h, seq, itv if counted and not fixed else None, fixed)
                more = set()
                for o in outs + self.sink:
                    for w in o[1].wlog[len(h.wlog):]:
                        if w[0] == "set": more.add(w[1])
                        elif w[0] in ("ext", "newlist"): more |= {"len:" + w[1], "elt:" + w[1]}
                        elif w[0] == "bulk": more.add(w[1])
                self.obls = so; self.sink = sk
                if more <= keys: break
                keys |= more
            live += self.frame_candidates(st, keys, modv)
        for _ in range(len(live) + 1):
            h = self.havoc_head(st, modv, keys, yields); self.head_it(h, seq, itv, counted, fixed)
            for nm, e in live: h.branch(ev(e, h))
            so, sk = list(self.obls), self.sink
            self.sink = []
            outs = self.one_iter(s, h, seq, itv if counted and not fixed else None, fixed)
            bad = set()
            for o in outs:
                if o[0] in ("next",):
                    for nm, e in live:
                        if nm in bad: continue
                        y = o[1].fork()
                        try:
                            t = ev(e, y)
                            if not self.strong_valid(y.conds(), t):
                                bad.add(nm)
                                if TRACE:
                                    print("DROP", s.lineno, nm)
                                    if TRACE == "2":
                                        for c_ in y.conds(): print("   C", str(c_).replace("\n", " ")[:900])
                                        print("   G", str(t)[:900])
                        except Unsupported as ex:
                            bad.add(nm)
                            if TRACE: print("DROP", s.lineno, nm, ex)
            self.obls, self.sink = so, sk
            if not bad: break
            live = [c for c in live if c[0] not in bad]
        # final pass with the surviving invariants, as obligations
        self.obls = save_obls
        for nm, e in live:
            x = st.fork(); t = ev(e, x)
            self.obls.append(Obl(f"loop invariant holds on entry: {nm}", x.conds(), t, fn, "inv"))
        h = self.havoc_head(st, modv, keys, yields); self.head_it(h, seq, itv, counted, fixed)
        for nm, e in live: h.branch(ev(e, h))
        outs = self.one_iter(s, h, seq, itv if counted and not fixed else None, fixed)
        res = []
        for o in outs:
            if o[0] == "next":
                for nm, e in live:
                    y = o[1].fork(); t = ev(e, y)
                    self.obls.append(Obl(f"loop invariant preserved: {nm}", y.conds(), t, fn, "inv"))
            elif o[0] == "exit":
                if counted: o[1].env.pop("g_it", None)
                res += self.exec_block(s.orelse, o[1]) if s.orelse else [("norm", o[1])]
            elif o[0] == "brk":
                if counted: o[1].env.pop("g_it", None)
                res.append(("norm", o[1]))
            else: res.append(o)
        if yields and sum(o[0] == "norm" for o in res) > 1: res = self.join_exits(s, st, res, cands, modv, keys, ev, fn)
        return res
    def join_exits(self, s, st, res, cands, modv, keys, ev, fn):
        """one state after a loop with yields: everything is havocked, the annotations valid at every exit are kept (a cut point)"""
        from .engine import Obl
        exits = [o[1] for o in res if o[0] == "norm"]
        try: 
            tst = ast.unparse(s.test) if isinstance(s, ast.While) else None
            if tst and not any(isinstance(n, ast.Call) for n in ast.walk(s.test)): cands = cands + [(f"not ({tst})", f"not ({tst})")]
        except Exception: pass
        cands = cands + [(x if isinstance(x, tuple) else (x, x)) for x in self.gopts().get("join", [])]
        keep = []
        for nm, e in cands:
            try:
                if all(self.strong_valid(x.conds(), ev(e, x.fork())) for x in exits): keep.append((nm, e))
                elif TRACE: print("NOJOIN", s.lineno, nm)
            except Unsupported: pass
        for nm, e in keep:
            for x in exits:
                y = x.fork(); self.obls.append(Obl(f"after the loop: {nm}", y.conds(), ev(e, y), fn, "inv"))
        h = self.havoc_head(st, modv, keys, True)
        for nm, e in keep: h.branch(ev(e, h))
        return [o for o in res if o[0] != "norm"] + [("norm", h)]
    def prune(self, x):
        """forget quantified facts about heap maps that are havocked anyway (dropping assumptions is sound; keeps the queries small)"""
        from .discharge import consts_of
        import re
        def dead(nm):
            m = re.match(r"(?:H\d+\.|M\.)(.*?)(?:!\d+)?$", nm)
            return m is not None and not (self.immutable(m.group(1)) or m.group(1).startswith("tb") or m.group(1) in ("f:triggered:bool", "f:now:real"))
        x.pc = [(k, e) for k, e in x.pc if not (k == "f" and has_quant(e) and any(dead(c) for c in consts_of(e)))]
    def join_states(self, xs):
        """one state for several alternatives (sound: a fresh selector says which alternative is meant); None if they cannot be joined"""
        a = xs[0]
        if any(x.epoch != a.epoch for x in xs): return None
        n0 = 0
        while all(len(x.pc) > n0 and x.pc[n0][0] == a.pc[n0][0] and x.pc[n0][1].eq(a.pc[n0][1]) for x in xs): n0 += 1
        sel = [fresh("alt", Bool) for _ in xs]
        def pick(ts):
            t = ts[-1]
            for s_, u in zip(reversed(sel[:-1]), reversed(ts[:-1])): t = u if u.eq(t) else z3.If(s_, u, t)
            return t
        out = a.fork(); out.pc = out.pc[:n0]; out.env = {}
        def pickv(vs):
            v0 = vs[0]
            if all(v is v0 for v in vs): return v0
            if any(v.T != v0.T for v in vs): return None
            if v0.T[0] == "opt":
                fl, inn = pick([v.t[0] for v in vs]), pickv([v.t[1] for v in vs])
                return None if inn is None else V(v0.T, (fl, inn))
            if v0.T[0] == "tuple":
                c = [pickv(list(z)) for z in zip(*[v.t for v in vs])]
                return None if any(z is None for z in c) else V(v0.T, c)
            if all(z3.is_expr(v.t) for v in vs): return V(v0.T, pick([v.t for v in vs]))
            return None
        for k in a.env:
            if all(k in x.env for x in xs):
                v = pickv([x.env[k] for x in xs])
                if v is None and k.startswith("g_"): return None
                if v is not None: out.env[k] = v
        for key in sorted({k for x in xs for k in x.heap}):
            srt = next(x.heap[key] for x in xs if key in x.heap).sort().range()
            ms = [self.hmap(x, key, srt) for x in xs]
            out.heap[key] = pick(ms)
        out.alloc = pick([x.alloc for x in xs])
        out.fact(z3.Or(sel))
        for s_, x in zip(sel, xs): out.fact(Implies(s_, And([e for _, e in x.pc[n0:]])))
        for i in range(len(sel)):
            for j in range(i): out.fact(z3.Not(z3.And(sel[i], sel[j])))
        out.wlog.append(("bulk", "*"))
        return out
    def strong_valid(self, conds, goal):
        from .discharge import check, cvc5_check, z3old_check
        r, _ = check(conds, goal, 1500)
        if r != z3.unknown: return r == z3.unsat
        if z3old_check(conds, goal, 2000) == "unsat": return True
        if check(conds, goal, 1500, 0, False)[0] == z3.unsat: return True
        if cvc5_check(conds, goal, 3000) == "unsat": return True
        return self.solver.valid(conds, goal, 4000)
    def frame_candidates(self, st, keys, modv):
        """automatic framing candidates of a loop: objects that existed before (other than lists/objects held in locals) keep their cells"""
        out = []
        a0 = st.alloc
        loc = {}
        for v, x in st.env.items():
            if v in modv: continue
            if x.T[0] in ("list", "dict", "set", "ref") and z3.is_expr(x.t): loc[x.t.get_id()] = x.t
        fe = self.entry_old.alloc if self.entry_old is not None else None
        for key in keys:
            m0 = st.heap.get(key)
            if m0 is None: continue
            r = z3.Int("r!fc")
            def mk(bound, exc, key=key, m0=m0):
                def f(x):
                    m = x.heap.get(key, m0)
                    if m.eq(m0): return z3.BoolVal(True)
                    return forall(r, Implies(And([0 <= r, r < bound] + [r != e for e in exc]), z3.Select(m, r) == z3.Select(m0, r)), [z3.Select(m, r)])
                return f
            if fe is not None: out.append((f"frame of the loop, {key}: objects of the caller", mk(fe, [])))
            out.append((f"frame of the loop, {key}: objects not held here", mk(a0, list(loc.values()))))
        return out
    def fixed_iter(self, e):
        stable = set(self.gopts().get("stable", []))
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id not in ("enumerate", "zip", "len", "range", "list", "reversed") and f"{n.id}[]" not in stable: return False
            if isinstance(n, ast.Attribute): return False
        return True
    def head_it(self, h, seq, itv, counted, fixed=None):
        if not counted: return
        if fixed:
            k = fresh("it", Int); h.fact(And(0 <= k, k <= fixed[0].n)); h.env["g_it"] = V(INT, k); return
        k = fresh("it", Int); n = self.toseq(h, itv).n
        h.fact(k >= 0)
        if z3.is_const(n) or True: h.env["g_it"] = V(INT, k)
    def havoc_head(self, st, modv, keys, yields):
        x = st.fork()
        if yields:
            g = dict(self.gopts()); g["stable"] = []
            pre = st.fork()
            nowk = self.now_key(x)
            self.prune(x)
            self.gen_havoc(x, pre, g, None, self.cur)
            e = self.genv(st)
            x.fact(Sel(self.hmap(x, nowk, Real), self.envref(x, e)) >= Sel(self.hmap(pre, nowk, Real), self.envref(pre, e)))
            modg = {k for k in x.env if k.startswith("g_")}
        else:
            a2 = fresh("alloc", Int); x.fact(a2 >= st.alloc); x.alloc = a2
            for key in keys:
                m = st.heap.get(key)
                if m is None: continue
                m2 = self.newmap(key, m.sort().range(), a2)
                x.heap[key] = m2
                if key.startswith("len:"):
                    r = z3.Int("r!h")
                    x.fact(forall(r, z3.Select(m2, r) >= 0, [z3.Select(m2, r)]))
            modg = set()
        for v in modv | modg:
            if v in x.env:
                T = x.env[v].T
                if T[0] in ("py", "none"): 
                    x.env.pop(v); self.poison.add(v); continue
                x.env[v] = self.fresh_like(x, T, v)
        return x
    def fresh_like(self, x, T, v):
        if T[0] == "opt": return V(T, (fresh(v + "_n", Bool), V(T[1], fresh(v, zsort(T[1])))))
        if T[0] == "tuple": return V(T, [self.fresh_like(x, t, v) for t in T[1]])
        r = V(T, fresh(v, zsort(T)))
        return self.wf(x, r)
    def one_iter(self, s, h, seq, itv=None, fixed=None):
        """outcomes: next (end of iteration), exit (condition false / exhausted), brk, ret, raise"""
        outs = []
        if seq is None:
            for v, x in self.ev(s.test, h):
                c = z3.simplify(self.truth(x, v))
                if not z3.is_false(c):
                    y = x.fork(); y.branch(c)
                    if z3.is_true(c) or self.feasible(y):
                        for o in self.exec_block(s.body, y):
                            outs.append(("next", o[1]) if o[0] in ("norm", "cont") else o)
                if not z3.is_true(c):
                    y = x.fork(); y.branch(Not(c))
                    if self.feasible(y): outs.append(("exit", y))
        elif fixed:
            k = h.env["g_it"].t; n = fixed[0].n
            y = h.fork(); y.branch(k < n)
            if self.feasible(y):
                e0 = fixed[1].fork(); m0 = len(e0.pc); e = fixed[0].elem(k, e0)
                have = {f_.get_id() for _, f_ in y.pc}
                for kind_, f_ in e0.pc:
                    if f_.get_id() not in have: y.fact(f_)
                for z in self.assign(s.target, e, y):
                    for o in self.exec_block(s.body, z):
                        if o[0] in ("norm", "cont"):
                            o[1].env["g_it"] = V(INT, k + 1); outs.append(("next", o[1]))
                        else: outs.append(o)
            y = h.fork(); y.branch(k >= n)
            if self.feasible(y): outs.append(("exit", y))
        elif itv is not None:
            seq = self.toseq(h, itv)              # python re-reads the iterated list in every iteration
            k = h.env["g_it"].t
            y = h.fork(); y.branch(k < seq.n)
            if self.feasible(y):
                e = seq.elem(k, y)
                for z in self.assign(s.target, e, y):
                    for o in self.exec_block(s.body, z):
                        if o[0] in ("norm", "cont"):
                            o[1].env["g_it"] = V(INT, k + 1); outs.append(("next", o[1]))
                        else: outs.append(o)
            y = h.fork(); y.branch(k >= seq.n)
            if self.feasible(y): outs.append(("exit", y))
        else:
            k = fresh("it", Int)
            n = seq.n
            y = h.fork(); y.branch(And(0 <= k, k < n))
            if self.feasible(y):
                e = seq.elem(k, y)
                for z in self.assign(s.target, e, y):
                    for o in self.exec_block(s.body, z):
                        outs.append(("next", o[1]) if o[0] in ("norm", "cont") else o)
            outs.append(("exit", h.fork()))
        return outs

import itertools
_epochs = itertools.count(1)

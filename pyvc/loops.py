"""Exact summarisation of `for` loops and comprehensions (no unrolling, no bound), and invariant-based `while`."""
import ast, z3
from .core import *
from .discharge import consts_of, check
from .types import *

class LoopMixin:
    def comp_len(self, A): return self.complen.get(A.get_id())
    # ------------------------------------------------------------ registry for list congruence
    def register_comp(self, A, n, k, cond, elem):
        if k is None: return
        # compose with a registered source:  elem/cond mention k only through Select(B,k) with B registered
        for _ in range(3):
            subs = {}
            todo, seen, bad = [cond, elem], set(), False
            srcs = {}
            while todo:
                e = todo.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_quantifier(e): todo.append(e.body()); continue
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(1).eq(k) and e.arg(0).get_id() in self.comps:
                    srcs[e.arg(0).get_id()] = e; continue
                if e.eq(k): bad = True
                todo.extend(e.children())
            if bad or len(srcs) != 1: break
            bid, sel = next(iter(srcs.items()))
            B, n0, k0, c0, e0 = self.comps[bid][:5]
            k1 = fresh("k", Int)
            el0 = z3.substitute(e0, (k0, k1)); cc0 = z3.substitute(c0, (k0, k1))
            cond2 = And(cc0, z3.substitute(cond, (sel, el0)))
            elem2 = z3.substitute(elem, (sel, el0))
            n, k, cond, elem = n0, k1, cond2, elem2
        self.comps[A.get_id()] = (A, n, k, cond, elem)
    # ------------------------------------------------------------ comprehension = loop with append
    def comp_list(self, n, st):
        # [e for x in xs if g]  ==  acc=[]; for x in xs: if g: acc.append(e)
        key = getattr(n, "_acc", None)
        if key is None:
            n._acc = key = f"__acc{n.lineno}_{n.col_offset}"
            node = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=key, ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[n.elt], keywords=[]))
            for g in reversed(n.generators):
                body = node
                for c in reversed(g.ifs): body = ast.If(test=c, body=[body], orelse=[])
                node = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[], type_comment=None)
            n._init = ast.List(elts=[], ctx=ast.Load())
            ast.copy_location(n._init, n)
            ast.fix_missing_locations(ast.copy_location(node, n))
            for x in ast.walk(node):
                if not hasattr(x, "lineno"): x.lineno = n.lineno; x.col_offset = n.col_offset; x.end_lineno = n.end_lineno
            n._loop = node
        out = []
        acc = self.list_lit(st, [], n._init)
        shadow = dict(st.env)
        st.env[key] = acc
        spec, sink = self.spec, self.sink
        outs = self.for_loop(n._loop, st, comp=True)
        for o in outs:
            if o[0] == "norm":
                x = o[1]
                v = x.env[key]
                x.env = dict(shadow)
                h = self.hints.get(id(n._init))
                if v.T[1][0] == "unk" and h is not None: v = V(LIST(h), v.t)
                out.append((v, x))
            elif o[0] == "raise": self.sink.append(o)
            else: raise Unsupported("control flow in comprehension")
        return out
    # ------------------------------------------------------------ for loops
    def for_loop(self, s, st, comp=False):
        outs = []
        for itv, x in self.ev(s.iter, st):
            if itv.T[0] == "py" and isinstance(itv.t, tuple) and itv.t[0] == "genexp":
                ge = itv.t[1]
                lc = getattr(ge, "_aslist", None)
                if lc is None:
                    lc = ge._aslist = ast.copy_location(ast.ListComp(elt=ge.elt, generators=ge.generators), ge)
                rs = self.comp_list(lc, x)
                for v, y in rs: outs += self.for_over(s, v, y, comp)
                continue
            if itv.T[0] == "any": raise Unsupported("iteration over a dynamically typed value")
            if itv.T[0] == "none" or (itv.T[0] in ("list", "dict") and nullable(itv.T) and not self.spec):
                bad = x.fork(); bad.branch(self.isnone(itv))
                if self.feasible(bad): self.raise_(bad, "TypeError")
                x.branch(Not(self.isnone(itv)))
                if itv.T[0] == "none" or not self.feasible(x): continue
            outs += self.for_over(s, itv, x, comp)
        return outs
    def for_over(self, s, itv, st, comp=False):
        seq = self.toseq(st, itv)
        n = z3.simplify(seq.n)
        if z3.is_int_value(n) and n.as_long() <= 0 and not comp:
            return self.exec_block(s.orelse, st) if s.orelse else [("norm", st)]
        # literal sequences of small length: iterate
        if z3.is_int_value(n) and n.as_long() <= 6:
            return self.unrolled(s, seq, n.as_long(), st)
        if self.has_yield(s): return self.gen_for(s, seq, itv, st)
        so, sk = list(self.obls), (list(self.sink) if self.sink is not None else None)
        try: return self.summarise(s, seq, n, itv, st.fork(), comp)
        except Unsupported:
            self.obls = so
            if sk is not None: self.sink[:] = sk
            c = self.contract_of(self.cur) if self.cur is not None else None
            if comp or c is None or not c.loops: raise
        return self.houdini(s, st, self.loop_candidates(s), seq=seq, itv=itv)
    def has_yield(self, s):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))
    def unrolled(self, s, seq, n, st):
        live, outs = [st], []
        for i in range(n):
            nx = []
            for x in live:
                e = seq.elem(z3.IntVal(i), x)
                for y in self.assign(s.target, e, x):
                    for o in self.exec_block(s.body, y):
                        if o[0] in ("norm", "cont"): nx.append(o[1])
                        elif o[0] == "brk": outs.append(("norm", o[1]))
                        else: outs.append(o)
            live = nx
        for x in live:
            outs += self.exec_block(s.orelse, x) if s.orelse else [("norm", x)]
        return outs
    def names_of(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    def body_run(self, s, seq, k, st, heapsub, locsub):
        """one symbolic iteration from a state where modified things are replaced"""
        x = st.fork()
        x.heap.update(heapsub)
        x.env.update(locsub)
        x.wlog = []
        n0 = len(x.pc)
        x.branch(And(0 <= k, k < seq.n))
        e = seq.elem(k, x)
        outs = []
        saved, self.sink = self.sink, []
        try:
            for y in self.assign(s.target, e, x):
                outs += self.exec_block(s.body, y)
            outs += self.sink
        finally: self.sink = saved
        return outs, n0 + 1
    def shield(self, c):
        """a per-loop array must not be treated as per-iteration constant while its own loop is closed (but by enclosing loops)"""
        from . import core
        nm = c.decl().name()
        self.shielded.append((nm, core._ids[nm])); core._ids[nm] = -5
    def summarise(self, s, seq, n, itv, st, comp):
        from . import core
        saved, self.shielded = getattr(self, "shielded", []), []
        try: return self.summarise_(s, seq, n, itv, st, comp)
        finally:
            for nm, i in self.shielded: core._ids[nm] = i
            self.shielded = saved
    def summarise_(self, s, seq, n, itv, st, comp):
        k = fresh("k", Int)
        mk = mark()
        tgt = self.names_of(s.target)
        # ---- dry run: what is modified
        save_obls = list(self.obls)
        allocbase = st.alloc
        outs, _ = self.body_run(s, seq, k, st, {}, {})
        self.obls = save_obls
        modk, modv = set(), set()
        nalloc = 0
        for o in outs:
            x = o[1]
            nalloc = max(nalloc, self.alloc_delta(allocbase, x.alloc))
            for w in x.wlog:
                if w[0] == "set": modk.add(w[1])
                elif w[0] in ("ext", "newlist"): modk |= {"len:" + w[1], "elt:" + w[1]}
                else: raise Unsupported(f"loop effect {w[0]}")
            if o[0] in ("norm", "cont"):
                for v in x.env:
                    if v not in tgt and (v not in st.env or not self.same_v(st.env[v], x.env[v])): modv.add(v)
        # ---- allocation per iteration: refs alloc0 + k*nalloc + j
        st0 = st
        if nalloc: 
            st = st.fork(); st.alloc = st0.alloc + k * nalloc
            so_ = list(self.obls); outs, _ = self.body_run(s, seq, k, st, {}, {}); self.obls = so_
        # ---- second run with in-loop symbols
        heapG, G = {}, {}
        for key in modk:
            m = st.heap.get(key)
            if m is None:
                # map first touched inside the body: find sort from outcome
                m = next(o[1].heap[key] for o in outs if key in o[1].heap)
                m = self.bases(m)[0] if not z3.is_const(m) else m
                rng = m.sort().range()
                m = self.hmap(st, key, rng); st0.heap[key] = m
            g = z3.Const(fresh("G." + key, m.sort()).decl().name(), m.sort())
            self.base_alloc[g.decl().name()] = st.alloc
            heapG[key] = g; G[key] = (g, m)
        # cells at a loop-invariant place behave like loop-carried locals
        cells = {}
        for key in list(G):
            if key.startswith(("len:", "elt:")): continue
            idxs, ok = {}, True
            for o in outs:
                for w in o[1].wlog:
                    if w[0] == "set" and w[1] == key:
                        idxs[w[2].get_id()] = w[2]
                        if mentions(w[2], [k]) or fresh_consts([w[2]], mk): ok = False
            if ok and len(idxs) == 1:
                idx = next(iter(idxs.values()))
                m = G[key][1]
                if nalloc and not z3.is_const(idx): pass
                Lc = fresh("C." + key, m.sort().range())
                cells[key] = (idx, Lc, m)
                heapG[key] = z3.Store(m, idx, Lc)
                del G[key]
        locL = {}
        for v in modv:
            if v in st.env:
                pv = st.env[v]
                T = pv.T
                if T[0] == "py":
                    continue
                for o in outs:
                    if o[0] in ("norm", "cont") and v in o[1].env:
                        try: T = unify(T, o[1].env[v].T)
                        except TypeError: raise Unsupported(f"loop variable {v} changes type")
                if T[0] == "none": continue
                if T[0] in ("tuple", "opttup"): continue
                if T[0] == "opt":
                    locL[v] = V(T, (fresh("Ln_" + v, Bool), V(T[1], fresh("L_" + v, zsort(T[1])))))
                else: locL[v] = V(T, fresh("L_" + v, zsort(T)))
        if modk or locL or nalloc:
            gmark = mark()
            outs, n0 = self.body_run(s, seq, k, st, heapG, locL)
        else:
            outs, n0 = self.body_run(s, seq, k, st, {}, {})
        self.obls, bodyobls = save_obls, self.obls[len(save_obls):]
        # ---- canonicalise paths
        paths = []
        for o in outs:
            x = o[1]
            bs = And([e for t, e in x.pc[n0:] if t == "b"])
            fs = [e for t, e in x.pc[n0:] if t == "f"]
            paths.append({"kind": o[0], "st": x, "cond": bs, "facts": fs, "wlog": x.wlog, "ret": o[2] if len(o) > 2 else None,
                          "env": x.env})
        cont = [p for p in paths if p["kind"] in ("norm", "cont")]
        exits = [p for p in paths if p["kind"] not in ("norm", "cont")]
        # ---- locals
        carried = []      # (name, kind, data)
        subs = []         # substitution for loop-carried symbols
        for v, L in locL.items():
            vals = [self.coerce(p["st"], p["env"][v], L.T) if v in p["env"] else L for p in cont]
            carried.append(self.carry(v, L, vals, cont, k, st0, subs))
        for key, (idx, Lc, m) in cells.items():
            T = {"Int": INT, "Real": REAL, "Bool": BOOL}.get(str(Lc.sort()), ANY)
            name = "@" + key
            vals = [V(T, self.Sel_full(p["st"].heap[key], idx)) for p in cont]
            preV = V(T, Sel(m, idx))
            tmp = st0.fork(); tmp.env[name] = preV
            c = self.carry(name, V(T, Lc), vals, cont, k, tmp, subs)
            c["cell"] = (key, idx)
            carried.append(c)
            for p in paths: p["wlog"] = [w for w in p["wlog"] if not (w[0] == "set" and w[1] == key)] + ([("set", key, idx, self.Sel_full(p["st"].heap[key], idx))] if p in exits else [])
        # substitute running values into everything
        def sb(e): return z3.substitute(e, *subs) if subs else e
        # ---- verify heap reads inside the body do not depend on earlier iterations
        presub = [(g, m) for g, m in G.values()]
        writes, exts = self.collect_writes(cont, modk, k, st0, presub, subs, nalloc)
        self.check_independent(paths, G, presub, writes, exts, k, n, st, subs, itv)
        allsub = presub + subs
        def full(e): return z3.substitute(z3.substitute(e, *presub) if presub else e, *subs) if (presub or subs) else e
        for p in paths:
            p["cond"] = full(p["cond"]); p["facts"] = [full(f) for f in p["facts"]]
        # ---- close fresh constants over k
        exprs, slots = [], []
        def put(e): exprs.append(e); return len(exprs) - 1
        for p in paths:
            p["ci"] = put(p["cond"]); p["fi"] = [put(f) for f in p["facts"]]
        for w in writes:
            w["ci"], w["ii"], w["vi"] = put(full(w["cond"])), put(full(w["idx"])), put(full(w["val"]))
        for e in exts:
            e["ci"], e["mi"] = put(full(e["cond"])), put(full(e["m"]))
            e["si"] = put(full(e["seg"]))
        ci = []
        for c in carried:
            c["xi"] = {nm: put(full(t)) for nm, t in c["terms"].items()}
        loc2 = {}
        for v in modv:
            if v in locL: continue
            if not self.used_after(s, v): continue
            loc2[v] = [(p, p["env"].get(v)) for p in cont]
        for v, lst in loc2.items():
            for i, (p, val) in enumerate(lst):
                if val is None or val.T[0] in ("py", "tuple", "opt", "opttup", "none"): lst[i] = (p, val, None)
                else: lst[i] = (p, val, put(full(val.t)))
        obi = []
        for ob in bodyobls:
            obi.append((ob, put(full(And([e for e in ob.conds[n0 - 1:]]))), put(full(ob.goal))))
        tgtvals = {}
        closed = self.closure(exprs, k, mk)
        self._note_comps(k, mk)
        clsub = self._lastsub
        at = lambda i, t: z3.substitute(closed[i], (k, t))
        contc = Or([closed[p["ci"]] for p in cont]) if cont else z3.BoolVal(False)
        contf = [Implies(closed[p["ci"]], And([closed[i] for i in p["fi"]])) for p in cont if p["fi"]]
        base = st0.fork()
        base.fact(n >= 0)
        # ---- obligations raised inside the body hold for every iteration
        for ob, pc_, g_ in obi:
            self.obls.append(Obl_(ob, base.conds() + [0 <= k, k < n, closed[pc_]], closed[g_]))
        results = []
        def effects(y, m, last=None):
            """state y after iterations 0..m-1"""
            if nalloc: y.alloc = z3.simplify(st0.alloc + m * nalloc) if not z3.is_int_value(m) else plus(st0.alloc, m.as_long() * nalloc)
            self.apply_writes(y, writes, closed, k, m)
            self.apply_exts(y, exts, closed, k, m, st0, y)
            self.apply_carried(y, carried, closed, k, m, st0)
            for v, lst in loc2.items():
                self.apply_lastval(y, v, lst, closed, k, m, st0)
            for c in carried:
                if "cell" in c:
                    key, idx = c["cell"]
                    val = y.env.pop(c["name"])
                    if c["kind"] != "same": self.wr(y, key, idx, val.t)
            for v in modv:
                if v not in locL and v not in loc2 and v in y.env and not (y.env[v].T[0] == "py" and False):
                    y.env.pop(v, None); self.poison.add(v)
            return y
        # normal completion
        y = base.fork()
        if exits or any(not z3.is_true(closed[p["ci"]]) for p in cont):
            f = forall(k, Implies(And(0 <= k, k < n), contc))
            if exits: y.branch(f)
            else: y.fact(f)
        if contf: y.fact(forall(k, Implies(And(0 <= k, k < n), And(contf))))
        if cont or True:
            if not cont: y.branch(n == 0)
            ok = (not exits) or self.feasible(y)
            if ok:
                effects(y, n)
                self.bind_target_after(s, seq, y, n, tgt)
                results += self.exec_block(s.orelse, y) if s.orelse else [("norm", y)]
        # early exits
        for p in exits:
            y = base.fork()
            w = fresh("w", Int)
            y.branch(And(0 <= w, w < n, at(p["ci"], w)))
            if not cont: y.branch(w == 0)
            for i in p["fi"]: y.fact(at(i, w))
            if exits: y.branch(forall(k, Implies(And(0 <= k, k < w), contc)))
            if contf: y.fact(forall(k, Implies(And(0 <= k, k < w), And(contf))))
            if not self.feasible(y): continue
            effects(y, w)
            # replay the exiting iteration
            wsub = self.path_instance(p, k, w, mk, presub, subs, carried, y, st0, clsub)
            if nalloc: y.alloc = plus(y.alloc, nalloc) if isinstance(nalloc, int) else y.alloc
            for op in p["wlog"]: self.replay_op(y, op, wsub)
            for v, val in p["env"].items():
                if v in tgt or v in modv or v not in st0.env or not self.same_v(st0.env[v], val):
                    y.env[v] = self.subst_v(val, wsub)
            if p["kind"] == "brk": results.append(("norm", y))
            elif p["kind"] == "ret": results.append(("ret", y, self.subst_v(p["ret"], wsub)))
            else: results.append((p["kind"], y, p["ret"]))
        return results
    # ------------------------------------------------------------ helpers
    def Sel_full(self, m, i):
        return Sel(m, i)
    def same_v(self, a, b):
        if a is b: return True
        if a.T != b.T: return False
        if a.T[0] == "py": return a.t is b.t or (not isinstance(a.t, Seq) and a.t == b.t)
        if a.T[0] == "none": return True
        if a.T[0] == "opt": return a.t[0].eq(b.t[0]) and a.t[1].t.eq(b.t[1].t)
        if a.T[0] == "tuple": return all(self.same_v(x, y) for x, y in zip(a.t, b.t))
        return a.t.eq(b.t)
    def subst_v(self, v, f):
        if v is None or v.T[0] in ("none",): return v
        if v.T[0] == "py":
            if isinstance(v.t, tuple) and v.t[0] == "bound": return PY(("bound", self.subst_v(v.t[1], f), v.t[2]))
            return v
        if v.T[0] == "opt": return V(v.T, (f(v.t[0]), self.subst_v(v.t[1], f)))
        if v.T[0] == "tuple": return V(v.T, [self.subst_v(x, f) for x in v.t])
        return V(v.T, f(v.t))
    def base_bounds(self, t):
        """references stored in a map since its introduction are older than that point (cells that were never initialised count as null)"""
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(x.arg(0)) and x.sort() == Int and not has_var(x):
                nm = x.arg(0).decl().name()
                al = self.base_alloc.get(nm)
                if al is not None and ".f:" in nm and nm.split(":")[-1].split("!")[0] in ("ref", "list", "dict", "set"): out.append(x < al)
            elif x.decl().kind() == z3.Z3_OP_SELECT and x.sort() == Int and not has_var(x) and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_SELECT and z3.is_const(x.arg(0).arg(0)):
                nm = x.arg(0).arg(0).decl().name()
                al = self.base_alloc.get(nm)
                if al is not None and (".elt:" in nm or ".dval:" in nm) and nm.split(":")[-1].split("!")[0] in ("ref", "list", "dict", "set"): out.append(x < al)
            todo.extend(x.children())
        return out
    def alloc_delta(self, a, b):
        d = z3.simplify(b - a)
        if z3.is_int_value(d): return d.as_long()
        raise Unsupported("symbolic number of allocations in a loop body")
    def used_after(self, s, v):
        """is local v read after (or, for enclosing loops, before) this loop inside the current function"""
        fn = self.frame.fn
        if fn is None: return False
        inner = {id(x) for x in ast.walk(s)}
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in inner: return True
        return False
    def carry(self, v, L, vals, cont, k, st0, subs):
        """classify a loop-carried local"""
        pre = self.coerce(st0, st0.env[v], L.T) if v in st0.env else None
        T = L.T
        if T[0] == "opt": Ls = [L.t[0], L.t[1].t]
        else: Ls = [L.t]
        if all(self.same_v(x, L) for x in vals):
            for a, b in zip(Ls, [pre.t[0], pre.t[1].t] if T[0] == "opt" else [pre.t]): subs.append((a, b))
            return {"name": v, "kind": "same", "terms": {}, "pre": pre, "T": T}
        if T[0] in ("int", "real"):
            deltas = []
            for x in vals:
                d = z3.simplify(x.t - L.t)
                if mentions(d, Ls): deltas = None; break
                deltas.append(d)
            if deltas is not None:
                if all(z3.is_int_value(d) for d in deltas) and len({d.as_long() for d in deltas}) == 1:
                    subs.append((L.t, pre.t + k * deltas[0]))
                    return {"name": v, "kind": "lin", "terms": {}, "pre": pre, "T": T, "c": deltas[0].as_long()}
                S = fresh("S_" + v, z3.ArraySort(Int, zsort(T)))
                # S must not be treated as per-iteration fresh
                self.shield(S)
                subs.append((L.t, z3.Select(S, k)))
                d = deltas[-1]
                for p, e in list(zip(cont, deltas))[-2::-1]: d = If(p["cond"], e, d)
                return {"name": v, "kind": "sum", "terms": {"d": d}, "pre": pre, "T": T, "S": S}
        if T[0] == "bool":
            # v = v and c   /   v = v or c
            e = vals[-1].t
            for p, x in list(zip(cont, vals))[-2::-1]: e = If(p["cond"], x.t, e)
            f, t = z3.simplify(z3.substitute(e, (L.t, z3.BoolVal(False)))), z3.simplify(z3.substitute(e, (L.t, z3.BoolVal(True))))
            if not any(mentions(p["cond"], Ls) for p in cont):
                if self.solver.valid([], Not(f)):
                    P = fresh("P_" + v, z3.ArraySort(Int, Bool)); self.shield(P)
                    subs.append((L.t, z3.Select(P, k)))
                    return {"name": v, "kind": "allof", "terms": {"c": t}, "pre": pre, "T": T, "P": P}
                if self.solver.valid([], t):
                    P = fresh("P_" + v, z3.ArraySort(Int, Bool)); self.shield(P)
                    subs.append((L.t, z3.Select(P, k)))
                    return {"name": v, "kind": "anyof", "terms": {"c": f}, "pre": pre, "T": T, "P": P}
        # last write
        ws, vs = [], []
        ok = True
        for p, x in zip(cont, vals):
            if self.same_v(x, L): continue
            xs = [x.t[0], x.t[1].t] if T[0] == "opt" else [x.t]
            if any(mentions(a, Ls) for a in xs): ok = False
        if not ok: raise Unsupported(f"loop-carried variable {v}")
        # value at the start of iteration k
        if T[0] == "opt":
            raise_ = [fresh("Wn_" + v, z3.ArraySort(Int, Bool)), fresh("W_" + v, z3.ArraySort(Int, zsort(T[1])))]
        else: raise_ = [fresh("W_" + v, z3.ArraySort(Int, zsort(T)))]
        for a in raise_: self.shield(a)
        for a, b in zip(Ls, raise_): subs.append((a, z3.Select(b, k)))
        terms = {}
        for i, (p, x) in enumerate(zip(cont, vals)):
            if self.same_v(x, L): continue
            terms[f"c{i}"] = p["cond"]
            if T[0] == "opt": terms[f"n{i}"] = x.t[0]; terms[f"v{i}"] = x.t[1].t
            else: terms[f"v{i}"] = x.t
        return {"name": v, "kind": "last", "terms": terms, "pre": pre, "T": T, "W": raise_}
    def apply_carried(self, y, carried, closed, k, m, st0):
        for c in carried:
            v, T, pre = c["name"], c["T"], c["pre"]
            if c["kind"] == "same": y.env[v] = pre
            elif c["kind"] == "lin": y.env[v] = V(T, pre.t + m * c["c"])
            elif c["kind"] == "sum":
                S, d = c["S"], closed[c["xi"]["d"]]
                y.fact(Sel(S, z3.IntVal(0)) == pre.t)
                y.fact(forall(k, Implies(And(0 <= k, k < m), z3.Select(S, k + 1) == z3.Select(S, k) + d), [z3.Select(S, k + 1)]))
                y.fact(forall(k, Implies(And(0 <= k, k < m), z3.Select(S, k + 1) == z3.Select(S, k) + d), [z3.Select(S, k)]))
                self.sum_lemmas(y, S, k, d, m, pre.t)
                self.sums[S.get_id()] = (S, m, k, d, pre.t)
                y.env[v] = V(T, Sel(S, m))
            elif c["kind"] in ("allof", "anyof"):
                P, cc = c["P"], closed[c["xi"]["c"]]
                i = z3.Int("i!p")
                ck = z3.substitute(cc, (k, i))
                if c["kind"] == "allof": q = lambda b: And(pre.t, forall(i, Implies(And(0 <= i, i < b), ck)))
                else: q = lambda b: Or(pre.t, exists(i, And(0 <= i, i < b, ck)))
                y.fact(forall(k, Implies(And(0 <= k, k <= m), z3.Select(P, k) == q(k)), [z3.Select(P, k)]))
                y.env[v] = VB(q(m))
            else:
                Ws = c["W"]
                idx = sorted(int(nm[1:]) for nm in c["terms"] if nm[0] == "c")
                pres = [pre.t[0], pre.t[1].t] if T[0] == "opt" else [pre.t]
                for a, pv in zip(Ws, pres): y.fact(Sel(a, z3.IntVal(0)) == pv)
                for a, pref in zip(Ws, (["n", "v"] if T[0] == "opt" else ["v"])):
                    e = z3.Select(a, k)
                    for i in idx: e = If(closed[c["xi"][f"c{i}"]], closed[c["xi"][f"{pref}{i}"]], e)
                    y.fact(forall(k, Implies(And(0 <= k, k < m), z3.Select(a, k + 1) == e), [z3.Select(a, k + 1)]))
                    # closed form: last writing iteration
                    w = fresh("lw", Int)
                    anyw = Or([closed[c["xi"][f"c{i}"]] for i in idx])
                    cur = Sel(a, m)
                    y.fact(Or(And(w == -1, cur == (pres[0] if pref == "n" or T[0] != "opt" else pres[1])),
                              And(0 <= w, w < m, Or([And(z3.substitute(closed[c["xi"][f"c{i}"]], (k, w)), cur == z3.substitute(closed[c["xi"][f"{pref}{i}"]], (k, w))) for i in idx]))))
                    y.fact(forall(k, Implies(And(0 <= k, k < m, anyw), w >= k)))
                y.env[v] = V(T, (Sel(Ws[0], m), V(T[1], Sel(Ws[1], m)))) if T[0] == "opt" else V(T, Sel(Ws[0], m))
    def sum_lemmas(self, y, S, k, d, m, pre):
        i, j = z3.Int("i!m"), z3.Int("j!m")
        # monotone when all summands are non-negative (valid by induction)
        y.fact(Implies(forall(k, Implies(And(0 <= k, k < m), d >= 0)),
                       forall([i, j], Implies(And(0 <= i, i <= j, j <= m), Sel2(S, i) <= Sel2(S, j)), [z3.MultiPattern(z3.Select(S, i), z3.Select(S, j))])))
        y.fact(Implies(forall(k, Implies(And(0 <= k, k < m), d == 0)), Sel2(S, m) == pre))
    def apply_lastval(self, y, v, lst, closed, k, m, st0):
        if any(val is None for _, val, _ in lst) or any(i is None for _, val, i in lst):
            y.env.pop(v, None); self.poison.add(v)
            if any(i is None and val is not None and val.T[0] == "py" for _, val, i in lst): return
            return
        T = lst[0][1].T
        for _, val, _ in lst[1:]:
            T = unify(T, val.T)
        if T[0] == "opt": y.env.pop(v, None); self.poison.add(v); return
        w = fresh("last_" + v, zsort(T))
        alts = [And(z3.substitute(closed[p["ci"]], (k, m - 1)), w == z3.substitute(closed[i], (k, m - 1))) for p, val, i in lst]
        y.fact(Implies(m > 0, Or(alts)))
        if v in st0.env and st0.env[v].T == T: y.fact(Implies(m == 0, w == st0.env[v].t))
        y.env[v] = V(T, w)
    def bind_target_after(self, s, seq, y, n, tgt):
        names = [t for t in tgt if self.used_after(s, t)]
        for t in tgt: 
            if t not in names and t in y.env: y.env.pop(t, None); self.poison.add(t)
        if not names: return
        try:
            e = seq.elem(n - 1, y)
            self.assign(s.target, e, y)
        except Unsupported:
            for t in names: y.env.pop(t, None); self.poison.add(t)
    def collect_writes(self, cont, modk, k, st0, presub, subs, nalloc):
        writes, exts = [], []
        for pi, p in enumerate(cont):
            per = {}
            fresh_lists = {}
            for w in p["wlog"]:
                if w[0] == "set":
                    key, idx, val = w[1:]
                    lst = per.setdefault(key, [])
                    lst[:] = [z for z in lst if not z[0].eq(idx)]
                    lst.append((idx, val))
                elif w[0] == "newlist":
                    _, tk, r, n_, A_ = w
                    per.setdefault("len:" + tk, []).append((r, n_)); per.setdefault("elt:" + tk, []).append((r, A_))
                elif w[0] == "ext":
                    _, tk, lref, m, seg = w
                    if lref.get_id() in {z[0].get_id() for z in per.get("len:" + tk, [])}:
                        # list created in this iteration: fold into its pointwise value
                        for q in ("len:", "elt:"):
                            l = per[q + tk]
                            for i, (r, old) in enumerate(l):
                                if r.eq(lref):
                                    L_, A_ = dict_of(per, tk, lref)
                                    break
                        self.fold_ext(per, tk, lref, m, seg, p["st"])
                    else: exts.append({"tk": tk, "ref": lref, "cond": p["cond"], "m": m, "seg": seg, "p": p})
            for key, lst in per.items():
                for idx, val in lst: writes.append({"key": key, "idx": idx, "val": val, "cond": p["cond"], "p": p})
        # pack: several exts of one list in one path are concatenated
        packed = {}
        for e in exts:
            packed.setdefault((e["tk"], e["ref"].get_id()), {"tk": e["tk"], "ref": e["ref"], "items": []})["items"].append(e)
        out = []
        for q in packed.values():
            if mentions(q["ref"], [k]): raise Unsupported("append to a different list in every iteration")
            for a, _ in presub + subs:
                if mentions(q["ref"], [a]): raise Unsupported("append target depends on loop effects")
            for e in q["items"]:
                n_in_path = sum(1 for z in q["items"] if z["p"] is e["p"])
                if n_in_path > 1: raise Unsupported("several appends to one list in one iteration")
            for e in q["items"]:
                kind, t = e["seg"]
                out.append({"tk": q["tk"], "ref": q["ref"], "cond": e["cond"], "m": e["m"], "segkind": kind, "seg": t})
        for w in writes:
            for e in out:
                if w["key"] in ("len:" + e["tk"], "elt:" + e["tk"]):
                    hyp = st0.conds() + [0 <= k] + [z3.substitute(f, *presub) if presub else f for f in w["p"]["facts"]]
                    if not self.valid_quick(hyp, w["idx"] != e["ref"]): raise Unsupported("list both appended to and modified in a loop")
        return writes, out
    def fold_ext(self, per, tk, lref, m, seg, st):
        for i, (r, n) in enumerate(per["len:" + tk]):
            if r.eq(lref): break
        for j, (r, A) in enumerate(per["elt:" + tk]):
            if r.eq(lref): break
        if seg[0] == "one": A2 = z3.Store(A, n, seg[1])
        else: A2 = self.concat_arr(st, n, A, m, seg[1])
        per["len:" + tk][i] = (r, z3.simplify(n + m)); per["elt:" + tk][j] = (r, A2)
    def check_independent(self, paths, G, presub, writes, exts, k, n, st, subs, itv):
        """every expression of the body must have the same value whether earlier iterations took place or not"""
        if not G: return
        gs = [g for g, _ in presub]
        exprs = []
        for p in paths:
            exprs += [p["cond"]] + p["facts"]
        for w in writes: exprs += [w["idx"], w["val"], w["cond"]]
        for e in exts: exprs += [e["m"], e["seg"], e["cond"]]
        for ob in []: pass
        need, seen = [], set()
        def pre(e): return z3.substitute(e, *presub)
        # collect maximal Select(G-map, idx) reads
        reads = {}
        def walk(e, bound):
            if (e.get_id()) in seen: return
            seen.add(e.get_id())
            if z3.is_quantifier(e): walk(e.body(), True); return
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT:
                for g in gs:
                    if e.arg(0).eq(g): reads.setdefault(g.get_id(), []).append((g, e.arg(1)))
            for c in e.children(): walk(c, bound)
        for e in exprs: walk(e, False)
        if not reads: return
        # targets written by earlier iterations (in terms of pre-loop heap), by key
        bygid = {g.get_id(): key for key, (g, m) in G.items()}
        j = fresh("j", Int)
        for gid, lst in reads.items():
            key = bygid[gid]
            tw = [w for w in writes if w["key"] == key]
            te = [e for e in exts if key in ("len:" + e["tk"], "elt:" + e["tk"])]
            for g, idx in lst:
                if has_var(idx):
                    # read under a quantifier: be conservative, require the index term to be provably different for every value
                    vs = max_var(idx) + 1
                    xs = [fresh("bv", Int) for _ in range(vs)]
                    idx = z3.substitute_vars(idx, *xs)
                i0 = pre(idx)
                if mentions(i0, gs): i0 = pre(i0)
                goals = []
                for w in tw:
                    c = z3.substitute(pre(w["cond"]), (k, j)); t = z3.substitute(pre(w["idx"]), (k, j))
                    goals.append(Not(And(0 <= j, j < k, c, t == i0)))
                for e in te: goals.append(pre(e["ref"]) != i0)
                if not goals: continue
                # typing facts of both indices
                hyp = st.conds() + [0 <= k, k < n] + self.base_bounds(i0)
                for p in paths:
                    pf = [pre(f) for f in p["facts"]]
                    hyp += [f for f in pf]
                    hyp += [z3.substitute(f, (k, j)) for f in pf]
                ok = True
                for g_ in goals:
                    if not self.valid_quick(hyp, g_): ok = False; break
                if not ok:
                    import os
                    if os.environ.get("PYVC_TRACE"): print("READ", key, i0, "AGAINST", g_)
                    raise Unsupported(f"loop body reads {key} at a place earlier iterations may have written")
    def valid_quick(self, hyp, goal):
        if any(c in self.catdefs for f in hyp + [goal] for c in consts_of(f)):
            h2 = [self.expand_cats(f) for f in hyp if not (z3.is_quantifier(f) and any(c in self.catdefs for c in consts_of(f)))]
            g2 = self.expand_cats(goal)
            if self.solver.valid(h2, g2, 1500) or check(h2, g2, 4000, 0, False)[0] == z3.unsat: return True
        return self.solver.valid(hyp, goal, 4000)
    def expand_cats(self, f):
        """read concatenated lists through their parts"""
        memo = {}
        def go(e):
            r = memo.get(e.get_id())
            if r is not None: return r[1]
            r = e
            if z3.is_quantifier(e):
                pass
            elif z3.is_app(e) and e.num_args():
                ch = [go(c) for c in e.children()]
                if e.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(ch[0]) and ch[0].decl().name() in self.catdefs:
                    n, A, B = self.catdefs[ch[0].decl().name()]
                    r = go(z3.If(ch[1] < n, z3.Select(A, ch[1]), z3.Select(B, ch[1] - n)))
                elif any(not a.eq(b) for a, b in zip(ch, e.children())): r = e.decl()(*ch)
            memo[e.get_id()] = (e, r)
            return r
        return go(f)
    def apply_writes(self, y, writes, closed, k, m):
        bykey = {}
        for w in writes: bykey.setdefault(w["key"], []).append(w)
        for key, ws in bykey.items():
            F = y.heap[key]
            F2 = self.newmap(key, F.sort().range(), y.alloc)
            # loop-invariant single unconditional location
            W = fresh("wk", z3.ArraySort(Int, Int))
            r = z3.Int("r!w")
            wr_ = z3.Select(W, r)
            alts = [And(wr_ == -1, z3.Select(F2, r) == Sel(F, r))]
            for w in ws:
                c, i, v = closed[w["ci"]], closed[w["ii"]], closed[w["vi"]]
                s_ = lambda e: z3.substitute(e, (k, wr_))
                alts.append(And(0 <= wr_, wr_ < m, s_(c), s_(i) == r, z3.Select(F2, r) == s_(v)))
            y.fact(forall(r, Or(alts), [z3.Select(F2, r)]))
            for w in ws:
                c, i = closed[w["ci"]], closed[w["ii"]]
                y.fact(forall(k, Implies(And(0 <= k, k < m, c), z3.Select(W, i) >= k)))
                # instantiate reads at every written location
            y.heap[key] = F2
            # effect log for enclosing loops: opaque
            y.wlog.append(("bulk", key))
    def canon(self, terms, k):
        """structural name of terms over k: maximal subterms without k (and without bound variables) become parameters"""
        import hashlib
        ps, idx, memo = [], {}, {}
        dep = {}
        def depends(e):
            i = e.get_id()
            if i not in dep:
                if e.eq(k) or z3.is_var(e): r = True
                elif z3.is_quantifier(e): r = depends(e.body())       # conservative: quantifiers keep their structure
                else: r = any([depends(c) for c in e.children()])
                dep[i] = r
            return dep[i]
        def go(e):
            i = e.get_id()
            if i in memo: return memo[i]
            if e.eq(k): r = "k"
            elif z3.is_var(e): r = f"v{z3.get_var_index(e)}"
            elif z3.is_quantifier(e):
                if not depends(e.body()): r = par(e)
                else: r = f"(Q{int(e.is_forall())}{int(e.is_lambda())} {[str(e.var_sort(j)) for j in range(e.num_vars())]} {go(e.body())})"
            elif not depends(e):
                r = e.sexpr() if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e) else par(e)
            else:
                d = e.decl()
                r = f"({d.name()}:{d.kind()}:{d.range()}{d.params() if d.kind() not in (z3.Z3_OP_UNINTERPRETED,) else ''} " + " ".join(go(c) for c in e.children()) + ")"
            memo[i] = r
            return r
        def par(e):
            i = e.get_id()
            if i not in idx: idx[i] = len(ps); ps.append(e)
            return f"p{idx[i]}:{e.sort()}"
        txt = " ; ".join(go(t) for t in terms)
        return hashlib.md5(txt.encode()).hexdigest()[:12], ps
    def apply_exts(self, y, exts, closed, k, m, st0, _):
        byl = {}
        for e in exts: byl.setdefault((e["tk"], e["ref"].get_id()), []).append(e)
        for (tk, _), es in byl.items():
            ref = es[0]["ref"]
            Lk, Ek = "len:" + tk, "elt:" + tk
            L, E = y.heap[Lk], y.heap[Ek]
            L0, A0 = z3.simplify(Sel(L, ref)), Sel(E, ref)
            i = z3.Int("i!e")
            allone = all(e["segkind"] == "one" for e in es)
            A = None if allone and z3.is_int_value(L0) and L0.as_long() == 0 else fresh("acc", A0.sort())
            if not (z3.is_int_value(L0) and L0.as_long() == 0):
                y.fact(forall(i, Implies(And(0 <= i, i < L0), z3.Select(A, i) == Sel(A0, i)), [z3.Select(A, i)]))
            conds = [closed[e["ci"]] for e in es]
            anyc = Or(conds)
            if allone:
                el = closed[es[-1]["si"]]
                for e in es[-2::-1]: el = If(closed[e["ci"]], closed[e["si"]], el)
                always = z3.is_true(anyc) or self.solver.valid(y.conds() + [0 <= k, k < m], anyc, 400)
                nm = None
                if A is None:
                    # the resulting list is a function of the comprehension's parameters (definitional extension): equal comprehensions are equal terms
                    nm, ps = self.canon([anyc if not always else z3.BoolVal(True), el], k)
                    A = fresh("acc", A0.sort()); y.fact(A == self.uf("acc." + nm, ps, A0.sort()))
                if always:
                    n2 = z3.simplify(L0 + m)
                    y.fact(forall(k, Implies(And(0 <= k, k < m), z3.Select(A, L0 + k) == el), [z3.Select(A, k)] if z3.is_int_value(L0) and L0.as_long() == 0 else None))
                    seglen, seg = n2, None
                else:
                    off, src = fresh("off", z3.ArraySort(Int, Int)), fresh("src", z3.ArraySort(Int, Int))
                    if nm is not None:
                        y.fact(off == self.uf("off." + nm, ps, z3.ArraySort(Int, Int))); y.fact(src == self.uf("src." + nm, ps, z3.ArraySort(Int, Int)))
                    y.fact(Sel(off, z3.IntVal(0)) == L0)
                    y.fact(forall(k, Implies(And(0 <= k, k < m), z3.Select(off, k + 1) == z3.Select(off, k) + If(anyc, z3.IntVal(1), z3.IntVal(0))), [z3.Select(off, k + 1)]))
                    n2 = Sel(off, m)
                    a, b = z3.Int("a!o"), z3.Int("b!o")
                    y.fact(forall([a, b], Implies(And(0 <= a, a <= b, b <= m), And(z3.Select(off, a) <= z3.Select(off, b), z3.Select(off, b) - z3.Select(off, a) <= b - a)), [z3.MultiPattern(z3.Select(off, a), z3.Select(off, b))]))
                    y.fact(And(L0 <= n2, n2 <= L0 + m))
                    sk = z3.Select(src, i)
                    f = lambda e: z3.substitute(e, (k, sk))
                    y.fact(forall(i, Implies(And(L0 <= i, i < n2), And(0 <= sk, sk < m, f(anyc), z3.Select(off, sk) == i, z3.Select(A, i) == f(el))), [z3.Select(A, i)]))
                    y.fact(forall([a, b], Implies(And(L0 <= a, a < b, b < n2), z3.Select(src, a) < z3.Select(src, b)), [z3.MultiPattern(z3.Select(src, a), z3.Select(src, b))]))
                    inv = And(L0 <= z3.Select(off, k), z3.Select(off, k) < n2, z3.Select(A, z3.Select(off, k)) == el, z3.Select(src, z3.Select(off, k)) == k)
                    y.fact(forall(k, Implies(And(0 <= k, k < m, anyc), inv)))
                if z3.is_int_value(L0) and L0.as_long() == 0:
                    self.register_comp(A, m, k, anyc if not always else z3.BoolVal(True), el)
                    self.complen[A.get_id()] = n2
            else:
                # general segments
                off, src = fresh("off", z3.ArraySort(Int, Int)), fresh("src", z3.ArraySort(Int, Int))
                ml = z3.IntVal(0)
                for e in es: ml = If(closed[e["ci"]], closed[e["mi"]], ml)
                y.fact(Sel(off, z3.IntVal(0)) == L0)
                y.fact(forall(k, Implies(And(0 <= k, k < m), And(ml >= 0, z3.Select(off, k + 1) == z3.Select(off, k) + ml)), [z3.Select(off, k + 1)]))
                y.fact(forall(k, Implies(And(0 <= k, k < m), z3.Select(off, k + 1) == z3.Select(off, k) + ml), [z3.Select(off, k)]))
                n2 = Sel(off, m)
                a, b = z3.Int("a!o"), z3.Int("b!o")
                y.fact(forall([a, b], Implies(And(0 <= a, a <= b, b <= m), z3.Select(off, a) <= z3.Select(off, b)), [z3.MultiPattern(z3.Select(off, a), z3.Select(off, b))]))
                y.fact(n2 >= L0)
                def segat(kk, ii):
                    r = None
                    for e in es:
                        t = z3.substitute(closed[e["si"]], (k, kk))
                        t = z3.Select(t, ii) if e["segkind"] == "arr" else t
                        r = t if r is None else If(z3.substitute(closed[e["ci"]], (k, kk)), t, r)
                    return r
                sk = z3.Select(src, i)
                y.fact(forall(i, Implies(And(L0 <= i, i < n2), And(0 <= sk, sk < m, z3.Select(off, sk) <= i, i < z3.Select(off, sk + 1), z3.Select(A, i) == segat(sk, i - z3.Select(off, sk)))), [z3.Select(A, i)]))
                y.fact(forall([k, i], Implies(And(0 <= k, k < m, 0 <= i, i < ml), z3.Select(A, z3.Select(off, k) + i) == segat(k, i))))
                self.segs = getattr(self, "segs", {})
                if z3.is_int_value(L0) and L0.as_long() == 0: self.segs[A.get_id()] = (A, m, k, ml, segat)
            y.heap[Lk] = z3.Store(y.heap[Lk], ref, n2)
            y.heap[Ek] = z3.Store(y.heap[Ek], ref, A)
            # as one extension for enclosing loops
            n2_ = n2
            if z3.is_int_value(L0) and L0.as_long() == 0: y.wlog.append(("ext", tk, ref, n2_, ("arr", A)))
            else:
                B = fresh("seg", A.sort())
                y.fact(forall(i, z3.Select(B, i) == z3.Select(A, i + L0), [z3.Select(B, i)]))
                y.wlog.append(("ext", tk, ref, z3.simplify(n2_ - L0), ("arr", B)))
    def _note_comps(self, k, mk):
        """comprehensions created inside a loop body are functions of the iteration after closure"""
        sub = getattr(self, "_lastsub", [])
        if not sub: return
        ids = {c.get_id(): a for c, a in sub}
        add = {}
        for aid, ent in list(self.comps.items()):
            if ent[0].get_id() in ids:
                A, n, kk, c, e = ent[:5]
                f = lambda x: z3.substitute(x, *sub)
                self.par_comps = getattr(self, "par_comps", [])
                self.par_comps.append((ids[ent[0].get_id()], k, f(n), kk, f(c), f(e)))
    def path_instance(self, p, k, w, mk, presub, subs, carried, y, st0, clsub):
        def f(e):
            if e is None: return None
            if presub: e = z3.substitute(e, *presub)
            if subs: e = z3.substitute(e, *subs)
            if clsub: e = z3.substitute(e, *clsub)
            return z3.substitute(e, (k, w))
        return f
    def replay_op(self, y, op, f):
        if op[0] == "set":
            y.heap[op[1]] = z3.Store(y.heap[op[1]], f(op[2]), f(op[3])); y.wlog.append(("set", op[1], f(op[2]), f(op[3])))
        elif op[0] == "newlist":
            _, tk, r, n, A = op
            r, n, A = f(r), f(n), f(A)
            y.heap["len:" + tk] = z3.Store(y.heap["len:" + tk], r, n); y.heap["elt:" + tk] = z3.Store(y.heap["elt:" + tk], r, A)
            y.wlog.append(("newlist", tk, r, n, A))
        elif op[0] == "ext":
            _, tk, r, m, seg = op
            r, m = f(r), f(m)
            L, E = y.heap["len:" + tk], y.heap["elt:" + tk]
            n, A = Sel(L, r), Sel(E, r)
            if seg[0] == "one": A2 = z3.Store(A, n, f(seg[1]))
            else: A2 = self.concat_arr(y, n, A, m, f(seg[1]))
            y.heap["len:" + tk] = z3.Store(L, r, n + m); y.heap["elt:" + tk] = z3.Store(E, r, A2)
            y.wlog.append(("ext", tk, r, m, (seg[0], f(seg[1]))))
        else: raise Unsupported("replay of " + op[0])
    # ------------------------------------------------------------ while
    def while_loop(self, s, st):
        c = self.contract_of(self.cur) if self.cur is not None else None
        if c is None or not (self.cur.is_gen or c.loops): raise Unsupported("while loop without an invariant")
        return self.inv_while(s, st)

def Sel2(S, i): return z3.Select(S, i)
def has_var(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return True
        if z3.is_quantifier(x): continue
        todo.extend(x.children())
    return False
def max_var(e):
    m = -1; todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_var(x): m = max(m, z3.get_var_index(x))
        todo.extend(x.children())
    return m
def dict_of(per, tk, lref):
    n = next(n for r, n in per["len:" + tk] if r.eq(lref)); A = next(a for r, a in per["elt:" + tk] if r.eq(lref))
    return n, A
def Obl_(ob, conds, goal):
    from .engine import Obl
    return Obl(ob.name, conds, goal, ob.fn, ob.kind, ob.info)

"""Functions whose contract is about the global random generators only (contract option opaque=True).

Statements that cannot touch the state of the generators through getstate/setstate/seed are executed as atomic blocks: they may change any field
(except those that no reachable function stores), may draw numbers when a reachable function draws, and may raise.  What a block can reach is
computed on every run from the sources: every function of the repository whose name is mentioned, transitively.
Generators: heap cells g:rng:int[0] (random) and [1] (numpy.random)."""
import ast, itertools, z3
from .core import *
from .types import *
from .front import Cls, Func, Mod
from .base import dotted

RNGKEY = "g:rng:int"
RNG = {"random.getstate": (0, "get"), "random.setstate": (0, "set"), "random.seed": (0, "seed"),
       "numpy.random.get_state": (1, "get"), "numpy.random.set_state": (1, "set"), "numpy.random.seed": (1, "seed")}
DRAW = ("random.", "numpy.random.", "scipy.", "secrets.")
DUNDERS = ("__eq__", "__hash__", "__len__", "__iter__", "__getitem__", "__contains__", "__lt__", "__bool__", "__call__", "__enter__", "__exit__", "__next__", "__getattr__", "__setattr__")
_ep = itertools.count(500000)

class Table:
    """module-level table (e.g. of heuristics): mentioning it reaches what it mentions"""
    def __init__(self, mod, name, e):
        self.mod, self.name, self.key = mod, name, f"{mod.path}::{name}"
        self.node = type("N", (), {"body": [e], "args": type("A", (), {"defaults": []})()})()

class Effects:
    """syntactic effect inference over the call graph by names"""
    def __init__(self, repo):
        self.repo, self.byname, self.cache = repo, {}, {}
        for m in repo.mods.values():
            if m.modname == "stubs__": continue
            for f in m.funcs.values(): self.byname.setdefault(f.name, []).append(f)
            for nm, e in m.assigns.items(): self.byname.setdefault(nm, []).append(Table(m, nm, e))
            for c in m.classes.values():
                for f in c.methods.values():
                    self.byname.setdefault(f.name, []).append(f)
                    if f.name in ("__init__", "__post_init__", "model_post_init") or any(isinstance(d, ast.Call) and "validator" in ast.unparse(d.func) for d in f.node.decorator_list):
                        for s in [c] + c.all_subs(): self.byname.setdefault("new:" + s.name, []).append(f)
        self.dund = [f for d in DUNDERS for f in self.byname.get(d, [])]
    def direct(self, mod, nodes):
        """(mentioned names, drawn externals, seeders, stored attributes)"""
        names, draws, seeds, stores = set(), set(), set(), set()
        todo = list(nodes)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Name, ast.Attribute)):
                d = dotted(mod, n)
                if d in RNG: seeds.add(d); continue
                if d is not None and (d + ".").startswith(DRAW) and d not in ("random", "numpy.random"):
                    draws.add(d); continue
            if isinstance(n, ast.Name): names.add(n.id)
            elif isinstance(n, ast.Attribute):
                names.add(n.attr)
                if isinstance(n.ctx, (ast.Store, ast.Del)): stores.add((n.attr, isinstance(n.value, ast.Name) and n.value.id == "self"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr", "exec", "eval", "getattr"):
                a = n.args[1] if len(n.args) > 1 else None
                if n.func.id != "getattr": stores.add((a.value if isinstance(a, ast.Constant) else "*", False))
            todo += list(ast.iter_child_nodes(n))
        for nm in list(names):
            i = mod.imports.get(nm)
            if i is not None and i[1] is not None and i[1] != nm: names.add(i[1])
        return names, draws, seeds, stores
    def of(self, f):
        r = self.cache.get(f.key)
        if r is None: r = self.cache[f.key] = self.direct(f.mod, f.node.body + f.node.args.defaults)
        return r
    def reach(self, mod, nodes, extra=(), barrier=()):
        """effects of executing nodes: functions reached and their summed effects"""
        names, draws, seeds, stores = (set(x) for x in self.direct(mod, nodes))
        todo, seen = list(extra) + [f for f in self.dund], set()
        def more(ns):
            for nm in ns:
                todo.extend(self.byname.get(nm, ())); todo.extend(self.byname.get("new:" + nm, ()))
        more(names)
        while todo:
            f = todo.pop()
            if f.key in seen or f.key in barrier: continue
            seen.add(f.key)
            n, d, s, w = self.of(f)
            draws |= d; seeds |= s
            stores |= {(a, own) for a, own in w if not (own and f.name == "__init__")}
            more(n)
        return seen, draws, seeds, {a for a, _ in stores}

class OpaqueMixin:
    RNGNAMES = RNG
    @property
    def opq(self):
        c = getattr(self, "_incontract", None)
        return c is not None and c.opaque and not self.spec
    def effects(self):
        e = self.__dict__.get("_eff")
        if e is None: e = self._eff = Effects(self.repo)
        return e
    def rng(self, st, i): return Sel(self.hmap(st, RNGKEY, Int), z3.IntVal(i))
    def rng_set(self, st, i, t): self.wr(st, RNGKEY, z3.IntVal(i), t)
    def rng_ext(self, name, args, kw, st):
        """random.getstate / setstate / seed and the numpy counterparts"""
        i, op = RNG[name]
        if kw: raise Unsupported(f"{name} with keyword arguments")
        self.trusted_used.add(name)
        if op == "get":
            if args: raise Unsupported(f"{name} with arguments")
            return [(VI(self.rng(st, i)), st)]
        if op == "set":
            if len(args) != 1 or args[0].T[0] != "int": raise Unsupported(f"{name} of {args[0].T}")
            self.rng_set(st, i, args[0].t)
            return [(NONEV, st)]
        if not args or args[0].T[0] in ("none", "opt", "any"):
            self.rng_set(st, i, fresh("osrandom", Int)); return [(NONEV, st)]
        s = self.num(st, args[0]).t
        if i == 1:
            bad = st.fork(); bad.branch(Not(And(s >= 0, s < 2 ** 32)))
            if self.feasible(bad): self.raise_(bad, "ValueError")
            st.branch(And(s >= 0, s < 2 ** 32))
            if not self.feasible(st): return []
        self.rng_set(st, i, self.uf(("seeded_py", "seeded_np")[i], [s], Int))
        return [(NONEV, st)]
    def derived(self, s, i, seed): return self.uf("derived_np" if i else "derived_py", [s, seed], Bool)
    # ---- specification functions
    def spec_rng_py(self, n, st): return [(VI(self.rng(st, 0)), st)]
    def spec_rng_np(self, n, st): return [(VI(self.rng(st, 1)), st)]
    def _spec_seeded(self, n, st, nm):
        v, x = self.ev1(n.args[0], st)
        return [(VI(self.uf(nm, [self.num(x, v).t], Int)), x)]
    def spec_seeded_py(self, n, st): return self._spec_seeded(n, st, "seeded_py")
    def spec_seeded_np(self, n, st): return self._spec_seeded(n, st, "seeded_np")
    def _spec_derived(self, n, st, i):
        a, x = self.ev1(n.args[0], st); b, x = self.ev1(n.args[1], x)
        s, a = self.num(x, b).t, a.t
        # a freshly seeded generator is derived from its seed
        x.fact(self.derived(self.uf(("seeded_py", "seeded_np")[i], [s], Int), i, s))
        return [(VB(self.derived(a, i, s)), x)]
    def spec_derived_py(self, n, st): return self._spec_derived(n, st, 0)
    def spec_derived_np(self, n, st): return self._spec_derived(n, st, 1)
    # ---- statements
    def opq_touch(self, nodes, depth=0):
        """may executing these nodes save, restore or seed a generator directly (through repository functions called by name)?"""
        fr = self.frame
        E = self.effects()
        for root in nodes:
            for n in ast.walk(root):
                if isinstance(n, (ast.Name, ast.Attribute)) and dotted(fr.mod, n) in RNG: return True
                if depth == 0 and isinstance(n, (ast.Yield, ast.YieldFrom)): return True
                if isinstance(n, ast.Call):
                    f = self.opq_callee(n)
                    if f is None: continue
                    if self.opq_contract(f): return True
                    if depth < 4:
                        self.frame = self.newframe(f, f.mod, f.cls)
                        try:
                            if self.opq_touch(f.node.body, depth + 1): return True
                        finally: self.frame = fr
                if isinstance(n, (ast.With,)) and any(self.opq_touch([i.context_expr], depth) for i in n.items): return True
        return False
    def opq_contract(self, f):
        c = self.contract_of(f)
        return c is not None and c.opaque
    def opq_callee(self, n):
        """repository function called by a plain name, a module attribute or self.method"""
        fr = self.frame
        f = n.func
        r = self.repo.resolve_expr(fr.mod, f)
        if isinstance(r, Func): return r
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "self" and fr.cls is not None: return fr.cls.find(f.attr)
            # attribute of a typed field of the receiver
            if isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id == "self" and fr.cls is not None:
                try: T = self.types.field(fr.cls, f.value.attr)
                except Exception: T = None
                if T is not None and T[0] == "ref":
                    ms = {c.find(f.attr) for c in T[1]}
                    if len(ms) == 1: return ms.pop()
        return None
    def opq_stmt(self, s, st):
        """returns None when the statement must be executed precisely"""
        if isinstance(s, (ast.Pass, ast.Return, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Raise, ast.FunctionDef)):
            if isinstance(s, ast.Return) and s.value is not None and not self.opq_touch([s.value]):
                return [(("ret", o[1], self.opq_any(o[1])) if o[0] == "norm" else o) for o in self.opq_block([s.value], st)]
            return None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): return None
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)): return None
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and not any(isinstance(n, ast.Call) for n in ast.walk(s)):
            y = st.fork(); sk, self.sink = self.sink, []
            try:
                m = getattr(self, "st_" + type(s).__name__)
                return m(s, y) + self.sink
            except Unsupported: pass
            finally: self.sink = sk
        if self.opq_touch([s]):
            if isinstance(s, ast.If) and not self.opq_touch([s.test]):
                outs = []
                vs = None
                if not any(isinstance(n, ast.Call) for n in ast.walk(s.test)) and not any(isinstance(n, ast.Name) and n.id not in st.env for n in ast.walk(s.test)):
                    try: vs = self.ev(s.test, st.fork())
                    except Unsupported: vs = None
                if vs is not None: return None
                for o in self.opq_block([s.test], st):
                    if o[0] != "norm": outs.append(o); continue
                    for b in (s.body, s.orelse): outs += self.exec_block(b, o[1].fork())
                return outs
            if isinstance(s, (ast.For, ast.While)): raise Unsupported("loop that touches the random generators")
            return None
        return self.opq_block([s], st)
    def opq_any(self, st): return V(ANY, fresh("opq", Int))
    def opq_block(self, nodes, st):
        """one atomic step with inferred effects"""
        fr = self.frame
        calls = [n for r in nodes for n in ast.walk(r) if isinstance(n, ast.Call)]
        extra = []
        for n in calls:
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value.func) == "super" and fr.cls is not None \
                    and not any(n.func.attr in b.methods for b in fr.cls.mro()[1:] if b.mod.modname != "stubs__"):
                # library code that runs the simulated processes
                extra += [f for m in self.repo.mods.values() if m.path.startswith(("prodsys/simulation/", "prodsys/control/", "prodsys/factories/"))
                          for f in list(m.funcs.values()) + [q for c in m.classes.values() for q in c.methods.values()]]
        barrier = {k for k, c in self.contracts.items() if c.opaque}
        barrier |= {f.key for b in list(barrier) for f in self.opq_managers(b)}
        if not calls and not any(isinstance(n, (ast.Attribute, ast.Subscript, ast.BinOp, ast.Compare)) for r in nodes for n in ast.walk(r)): seen, draws, seeds, stores = set(), set(), set(), set()
        else: seen, draws, seeds, stores = self.effects().reach(fr.mod, nodes, extra, barrier)
        if extra: stores.add("*")
        from .engine import Obl
        for nm, e in (self._incontract.gen or {}).get("at_draw", []):
            if draws:
                g, _ = self.spec_eval(e, st, dict(self.entry_env), self.cur, old=self.entry_old)
                self.obls.append(Obl(f"when drawing in `{ast.unparse(nodes[0])[:60]}`: {nm}", st.conds(), g, self.cur, "call"))
        for e in (self._incontract.gen or {}).get("touch", []):
            try: self.spec_val(e, st, dict(self.entry_env), self.cur, old=self.entry_old)
            except Unsupported: pass
        x = st.fork()
        oldr = [self.rng(st, 0), self.rng(st, 1)]
        keep = {k: m for k, m in st.heap.items() if k.startswith("f:") and "*" not in stores and k.split(":")[1].split("#")[0] not in stores or k.startswith("tb")}
        a2 = fresh("alloc", Int); x.fact(a2 >= st.alloc)
        # fields untouched so far keep their entry map too
        x.heap = {}
        x.epoch = (next(_ep), a2)
        x.alloc = a2
        r = z3.Int("r!o")
        for key, m in keep.items():
            m2 = self.hmap(x, key, m.sort().range())
            x.fact(forall(r, Implies(r < st.alloc, z3.Select(m2, r) == z3.Select(m, r)), [z3.Select(m2, r)]))
        new = []
        for i in (0, 1):
            if draws or seeds:
                t = fresh("drawn", Int)
                if not seeds:
                    q = z3.Int("s!d")
                    x.fact(forall(q, Implies(self.derived(oldr[i], i, q), self.derived(t, i, q)), [self.derived(t, i, q)]))
            else: t = oldr[i]
            self.rng_set(x, i, t)
        x.wlog.append(("bulk", "*"))
        for root in nodes:
            for n in ast.walk(root):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): x.env[n.id] = self.opq_any(x)
        outs = [("raise", x.fork(), "AnyBase")]
        st_ = nodes[0]
        if isinstance(st_, ast.stmt):
            own = list(ast.walk(st_))
            if any(isinstance(n, ast.Return) for n in own): outs.append(("ret", x.fork(), self.opq_any(x)))
            if not isinstance(st_, (ast.For, ast.While)) and any(isinstance(n, ast.Break) for n in own): outs.append(("brk", x.fork()))
            if not isinstance(st_, (ast.For, ast.While)) and any(isinstance(n, ast.Continue) for n in own): outs.append(("cont", x.fork()))
        self.assumed.add("effects of statements inferred from the names they mention: " + (", ".join(sorted(draws)) or "no draws"))
        return outs + [("norm", x)]
    def opq_managers(self, key):
        f = self.repo.func(key)
        out = []
        if f is None: return out
        for n in ast.walk(f.node):
            if isinstance(n, ast.With):
                for i in n.items:
                    if isinstance(i.context_expr, ast.Call):
                        g = self.repo.resolve_expr(f.mod, i.context_expr.func)
                        if isinstance(g, Func) and g.is_gen: out.append(g)
        return out
    # ---- a call of a function under an opaque contract
    def opq_call_contract(self, fn, c, env, st):
        if not self.opq: raise Unsupported(f"{fn.qual} changes everything")
        self.used_contracts.add(fn.key)
        from .engine import Obl
        for nm, e in c.requires:
            g, _ = self.spec_eval(e, st, env, fn)
            self.obls.append(Obl(f"precondition of {fn.qual}: {nm}", st.conds(), g, self.cur, "pre"))
        old = st.fork()
        def after(ens):
            x = st.fork()
            a2 = fresh("alloc", Int); x.fact(a2 >= st.alloc)
            x.heap = {}; x.epoch = (next(_ep), a2); x.alloc = a2
            for i in (0, 1): self.rng_set(x, i, fresh("hvrng", Int))
            for e in ens:
                g, _ = self.spec_eval(e, x, env, fn, old=old)
                x.fact(g)
            x.wlog.append(("bulk", "*"))
            return x
        for exc in c.may_raise: self.sink.append(("raise", after(c.exc_ensures), "AnyBase"))
        x = after([e for _, e in c.ensures])
        return [(self.opq_any(x), x)]
    # ---- @contextlib.contextmanager
    def is_ctxmgr(self, f): return f.is_gen and any(dotted(f.mod, d) in ("contextlib.contextmanager",) for d in f.node.decorator_list)
    def ctx_manager(self, cm, item, s, st):
        """the manager's body runs in its own frame; its yield executes the body of the with statement in the caller's"""
        _, fn, env = cm
        ys = [n for n in ast.walk(fn.node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if len(ys) != 1: raise Unsupported("context manager with several yields")
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.For, ast.While)) and any(y in list(ast.walk(n)) for y in ys): raise Unsupported("context manager yields in a loop")
        self.inlined.add(fn.key)
        caller = dict(st.env)
        x = st.fork(); x.env = {**env, "__caller__": PY(("env", caller))}
        cf, self.frame = self.frame, self.newframe(fn, fn.mod, fn.cls)
        stack = self.__dict__.setdefault("_cms", [])
        stack.append((self.frame, ys[0], item, s, cf))
        try: outs = self.exec_block(fn.node.body, x)
        finally: self.frame = cf; stack.pop()
        res = []
        for o in outs:
            y = o[1]
            cenv = y.env["__caller__"].t[1]; pend = y.env.get("__pend__"); seen = "__entered__" in y.env
            y.env = dict(cenv)
            if o[0] == "raise": res.append(("raise", y, o[2])); continue
            if not seen: raise Unsupported("context manager that does not yield")
            if o[0] not in ("norm", "ret"): raise Unsupported("context manager control flow")
            if pend is None: res.append(("norm", y))
            else: res.append((pend.t[1], y) + tuple(pend.t[2]))
        return res
    def cm_yield(self, node, st):
        """None unless node is the yield of the innermost context manager being inlined"""
        stack = self.__dict__.get("_cms") or []
        if not stack or stack[-1][1] is not node or stack[-1][0] is not self.frame: return None
        fr, _, item, s, cf = stack[-1]
        vals = [(NONEV, st)] if node.value is None else self.ev(node.value, st)
        res = []
        for v, x in vals:
            menv = dict(x.env)
            menv["__entered__"] = PY("entered")
            y = x; y.env = dict(menv["__caller__"].t[1])
            saved = stack.pop(); self.frame = cf
            try:
                ys = [y]
                if item.optional_vars is not None: ys = [z for z in self.assign(item.optional_vars, v, y)]
                outs = []
                for z in ys:
                    z = z[1] if isinstance(z, tuple) else z
                    outs += self.exec_block(s.body, z)
            finally: self.frame = fr; stack.append(saved)
            for o in outs:
                z = o[1]; e = dict(menv); e["__caller__"] = PY(("env", dict(z.env)))
                if o[0] in ("ret", "brk", "cont"): e["__pend__"] = PY(("pend", o[0], tuple(o[2:])))
                z.env = e
                res.append(("raise", z, o[2]) if o[0] == "raise" else ("norm", z))
        return res

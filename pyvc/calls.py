"""Calls: inlining, contracts, constructors, builtins, specification builtins."""
import re, ast, z3
from .core import *
from .types import *
from .front import Cls, Func, Mod

SLOTS = 10 ** 6     # references set aside for objects a callee under contract may allocate (at most that many per call: assumption)
class hp_st:
    def __init__(self, heap, alloc): self.heap, self.alloc = heap, alloc
class CallMixin:
    MAXDEPTH = 14
    def newframe(self, fn, mod, cls, depth=None):
        from .engine import Frame
        d = (self.frame.depth + 1 if self.frame is not None else 0) if depth is None else depth
        return Frame(fn, mod, cls, d)
    def contract_of(self, fn):
        return self.contracts.get(fn.key) if fn is not None else None
    LOGCALLS = ("logger.debug", "logger.info", "logger.warning", "logger.error", "warnings.warn", "logging.getLogger", "print", "time.sleep", "logging.basicConfig")
    def ev_Call(self, n, st):
        fs = ast.unparse(n.func)
        if fs == "map" and len(n.args) == 2 and isinstance(n.args[0], ast.Name) and isinstance(n.args[1], ast.List) and not any(isinstance(e, ast.Starred) for e in n.args[1].elts):
            if not hasattr(n, "_mapped"):      # map(f, [a, b]) is [f(a), f(b)]
                n._mapped = ast.fix_missing_locations(ast.copy_location(ast.List([ast.Call(n.args[0], [e], []) for e in n.args[1].elts], ast.Load()), n))
            return self.ev(n._mapped, st)
        if fs in self.LOGCALLS or fs in self.types.ignored_calls:
            # the log record itself is dropped; argument sub-expressions are evaluated when they call repository code
            self.dropped.add(f"{fs}(...) record")
            calls = []
            for a in list(n.args) + [kw.value for kw in n.keywords]:
                calls += self.effect_calls(a)
            live = [st]
            for c in calls:
                nx = []
                for x in live: nx += [y for _, y in self.ev(c, x)]
                live = nx
            return [(NONEV, x) for x in live]
        # specification forms that need unevaluated arguments
        if self.spec and isinstance(n.func, ast.Name):
            m = getattr(self, "spec_" + n.func.id, None)
            if m is not None and n.func.id not in st.env: return m(n, st)
            if n.func.id in self.specs and n.func.id not in st.env: return self.spec_fn(n, st)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and n.func.id not in st.env and len(n.args) == 1:
            a = n.args[0]
            if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                return self.anyall(n.func.id, a, st)
        if isinstance(n.func, ast.Name) and n.func.id == "next" and n.args and isinstance(n.args[0], ast.GeneratorExp):
            return self.next_gen(n, st)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            return [(PY(("super", st.env.get("self"), self.frame.cls)), st)]
        out = []
        if any(isinstance(a, ast.Starred) for a in n.args):
            raise Unsupported("star arguments")
        if any(kw.arg is None for kw in n.keywords): raise Unsupported("** arguments")
        for f, x in self.ev(n.func, st):
            for vs, y in self.evs(list(n.args) + [kw.value for kw in n.keywords], x):
                args, kw = vs[:len(n.args)], {k.arg: v for k, v in zip(n.keywords, vs[len(n.args):])}
                out += self.call(f, args, kw, y, n)
        return out
    def effect_calls(self, a):
        r = []
        if isinstance(a, ast.Call):
            f = ast.unparse(a.func)
            if f not in ("len", "str", "type", "repr", "list", "int", "round", "id", "float") and not f.endswith((".keys", ".values", ".items", ".format", ".join")): return [a]
        if isinstance(a, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.SetComp, ast.DictComp)): return r
        for c in ast.iter_child_nodes(a): r += self.effect_calls(c)
        return r
    def anyall(self, kind, ge, st):
        try:
            x = st.fork()
            s0 = len(self.sink)
            t = self.quantify(ge.generators, ge.elt, x, kind)
            if z3.is_quantifier(t) or True: return [(VB(t), x)]
        except Unsupported as e:
            if self.spec or "merge" not in str(e) and "normal outcome" not in str(e): raise
            raise
    def next_gen(self, n, st):
        ge = n.args[0]
        lc = getattr(ge, "_aslist", None)
        if lc is None: lc = ge._aslist = ast.copy_location(ast.ListComp(elt=ge.elt, generators=ge.generators), ge)
        out = []
        for v, x in self.comp_list(lc, st):
            ln = self.length(x, v)
            y = x.fork(); y.branch(ln == 0)
            if self.feasible(y):
                if len(n.args) > 1: out += self.ev(n.args[1], y)
                else: self.raise_(y, "StopIteration")
            x.branch(ln > 0)
            if self.feasible(x): out.append((self.elem(x, v, z3.IntVal(0)), x))
        return out
    # ---------------------------------------------------------------- generic call
    def call(self, f, args, kw, st, node=None):
        if f.T[0] != "py":
            key = self.types.callables.get(node.func.attr) if f.T[0] == "any" and node is not None and isinstance(getattr(node, "func", None), ast.Attribute) else None
            g = self.repo.func(key) if key else None
            if g is not None:
                self.assumed.add(f"the function held in {node.func.attr} keeps the contract of {key}")
                return self.call_func(g, args, kw, st)
            if f.T[0] == "any": raise Unsupported("call of a dynamically typed value")
            raise Unsupported(f"call of {f.T}")
        t = f.t
        if isinstance(t, Func): return self.call_func(t, args, kw, st)
        if isinstance(t, Cls): return self.construct(t, args, kw, st)
        if isinstance(t, tuple):
            k = t[0]
            if k == "bound": return self.call_method(t[1], t[2], args, kw, st)
            if k == "unbound":
                if t[2].is_static: return self.call_func(t[2], args, kw, st)
                if t[2].is_classmethod: return self.call_func(t[2], [PY(t[1])] + args, kw, st)
                return self.call_func(t[2], args, kw, st)
            if k == "copybound":
                if args or set(kw) - {"deep", "update"} or "update" in kw: raise Unsupported("model_copy with arguments")
                deep = "deep" in kw and not z3.is_false(z3.simplify(self.truth(st, kw["deep"])))
                return [(self.copy_obj(st, t[1], deep), st)]
            if k == "boundb":
                o = t[1]
                if o.T[0] == "list": return self.list_method(o, t[2], args, kw, st)
                if o.T[0] == "dict": return self.dict_method(o, t[2], args, kw, st)
                if o.T[0] == "set": return self.set_method(o, t[2], args, kw, st)
                if o.T[0] == "str": return self.str_method(o, t[2], args, kw, st)
                if o.T[0] in ("int", "real", "opt") and t[2] in ("item", "is_integer", "tolist"): return [(o, st)]
                raise Unsupported(f"method {t[2]} of {o.T}")
            if k == "builtin": return self.builtin(t[1], args, kw, st, node)
            if k == "lambda": return self.call_lambda(t, args, st)
            if k == "localfn": return self.call_local(t, args, kw, st)
            if k == "superm": return self.call_super(t, args, kw, st)
            if k == "exc": return [(PY(t[1]), st)]
            if k == "ext": return self.call_ext(t[1], args, kw, st)
            if k == "specfn": return self.spec_call(t[1], args, st)
            if k == "partial": return self.call(t[1], list(t[2]) + args, {**t[3], **kw}, st, node)
        if isinstance(t, str): return [(f, st)]
        raise Unsupported(f"call of {t}")
    def call_ext(self, name, args, kw, st):
        short = name.split(".")[-1]
        if name in self.RNGNAMES: return self.rng_ext(name, args, kw, st)
        if short == "partial":
            return [(PY(("partial", args[0], tuple(args[1:]), dict(kw))), st)]
        if short in ("deepcopy", "copy") and name.startswith("copy"):
            if len(args) == 1 and args[0].T[0] == "ref" and not args[0].T[2]:
                self.trusted_used.add(name)
                return [(self.copy_obj(st, args[0], short == "deepcopy"), st)]
            raise Unsupported("copy.deepcopy")
        if name == "hashlib.md5" and len(args) == 1 and args[0].T[0] == "str":
            self.trusted_used.add("hashlib.md5 (an uninterpreted function of the text)")
            return [(V(STR(), self.ufstr(st, "digest", [args[0].t])), st)]
        if name == "math.sqrt" or name in ("numpy.sqrt",):
            v = self.coerce(st, self.num(st, args[0]), REAL)
            r = self.uf("sqrt", [v.t], Real); st.fact(Implies(v.t >= 0, And(r >= 0, r * r == v.t))); return [(VR(r), st)]
        if short in EXCNAMES: return [(PY(short), st)]
        if name in ("numpy.array", "numpy.asarray") and len(args) == 1:
            if args[0].T[0] == "py" and isinstance(args[0].t, tuple) and args[0].t[0] == "vec": return [(args[0], st)]
            if args[0].T[0] == "opt" or nullable(args[0].T): raise Unsupported("array of None")
            if args[0].T[0] == "list" and args[0].T[1][0] in ("int", "real"): return [(self.vec(st, args[0]), st)]
            raise Unsupported("numpy.array of " + str(args[0].T))
        if name in ("numpy.abs", "numpy.sum", "numpy.linalg.norm", "numpy.absolute") and args and args[0].T[0] == "py" and isinstance(args[0].t, tuple) and args[0].t[0] == "vec":
            self.trusted_used.add(name)
            xs = args[0].t[1]
            if short in ("abs", "absolute"): return [(PY(("vec", [If(x >= 0, x, -x) for x in xs])), st)]
            if short == "sum": return [(VR(z3.Sum(xs) if xs else z3.RealVal(0)), st)]
            q = z3.Sum([x * x for x in xs]) if xs else z3.RealVal(0)
            r = self.uf("sqrt", [q], Real); st.fact(And(r >= 0, r * r == q)); return [(VR(r), st)]
        if name in ("numpy.log", "math.log", "numpy.exp", "math.exp") and len(args) == 1:
            self.trusted_used.add(name)
            return [(VR(self.uf(short, [self.coerce(st, self.num(st, args[0]), REAL).t], Real)), st)]
        if name in ("numpy.random.exponential", "numpy.random.normal", "numpy.random.lognormal") and len(args) == (2 if short == "exponential" else 3):
            # external draws: an arbitrary list of the requested length
            self.trusted_used.add(name)
            n = self.num(st, args[-1]).t
            v = self.wf(st, V(LIST(REAL), self.alloc(st)))
            st.fact(Implies(n >= 0, self.length(st, v) == n))
            return [(v, st)]
        if name == "numpy.random.choice" and len(args) == 2 and args[0].T[0] == "list" and z3.is_int_value(z3.simplify(args[1].t)) and z3.simplify(args[1].t).as_long() == 1:
            out = []
            for v, x in self.call_ext("random.choice", args[:1], {}, st): out.append((self.list_lit(x, [v], None), x))
            return out
        if name == "numpy.random.choice" and len(args) == 1 and args[0].T[0] == "list" and set(kw) == {"p"} and kw["p"].T[0] == "list" and kw["p"].T[1][0] in ("real", "int"):
            # trusted: one of the entries with positive probability; negative probabilities are refused
            n, m = self.length(st, args[0]), self.length(st, kw["p"]); pa = self.earr(st, kw["p"]); k = z3.Int("k!pc")
            if not self.bounds(st, Or(n != m, z3.Exists([k], And(0 <= k, k < m, z3.Select(pa, k) < 0))), "ValueError"): return []
            i = fresh("choice", Int); st.fact(And(0 <= i, i < n, z3.Select(pa, i) > 0))
            return [(self.elem(st, args[0], i), st)]
        if name in ("random.choice", "numpy.random.choice") and len(args) == 1 and args[0].T[0] == "list":
            self.trusted_used.add(name)
            n = self.length(st, args[0])
            if not self.bounds(st, n <= 0): return []
            i = fresh("choice", Int); st.fact(And(0 <= i, i < n))
            return [(self.elem(st, args[0], i), st)]
        if name in ("random.shuffle", "numpy.random.shuffle") and len(args) == 1 and args[0].T[0] == "list":
            self.trusted_used.add(name)
            l = args[0]
            if l.T[1][0] == "unk": return [(NONEV, st)]
            n, A = self.length(st, l), self.earr(st, l)
            B = fresh("shf", A.sort()); P = fresh("perm", z3.ArraySort(Int, Int)); Q = fresh("pinv", z3.ArraySort(Int, Int)); i = z3.Int("i!sh")
            rng = And(0 <= i, i < n)
            st.fact(forall(i, Implies(rng, And(0 <= z3.Select(P, i), z3.Select(P, i) < n, z3.Select(B, i) == z3.Select(A, z3.Select(P, i)), z3.Select(Q, z3.Select(P, i)) == i)), [z3.Select(B, i)]))
            st.fact(forall(i, Implies(rng, And(0 <= z3.Select(P, i), z3.Select(P, i) < n, z3.Select(B, i) == z3.Select(A, z3.Select(P, i)), z3.Select(Q, z3.Select(P, i)) == i)), [z3.Select(P, i)]))
            st.fact(forall(i, Implies(rng, And(0 <= z3.Select(Q, i), z3.Select(Q, i) < n, z3.Select(P, z3.Select(Q, i)) == i)), [z3.Select(Q, i)]))
            self.add_perm(st, A, B, n)
            self.list_replace(st, l, n, B)
            return [(NONEV, st)]
        if name in ("random.random",):
            self.trusted_used.add(name)
            r = fresh("rnd", Real); st.fact(And(0 <= r, r < 1)); return [(VR(r), st)]
        if name in ("random.uniform", "numpy.random.uniform") and len(args) == 2:
            self.trusted_used.add(name)
            a, b = (self.coerce(st, self.num(st, q), REAL).t for q in args)
            r = fresh("rnd", Real); st.fact(Or(And(a <= r, r <= b), And(b <= r, r <= a))); return [(VR(r), st)]
        if name == "random.randint" and len(args) == 2:
            self.trusted_used.add(name)
            a, b = (self.num(st, q).t for q in args)
            if not self.bounds(st, a > b, "ValueError"): return []
            r = fresh("rnd", Int); st.fact(And(a <= r, r <= b)); return [(VI(r), st)]
        raise Unsupported(f"external call {name}")
    def copy_obj(self, st, o, deep):
        """shallow copy of an object; a deep copy keeps plain values and (shallowly) rebuilt lists of plain values, everything else is an arbitrary new object"""
        self.assumed.add("pydantic model_copy / copy.copy copies every declared field (third party)")
        cls = self.classes_of(o.T)
        r = self.alloc(st)
        st.fact(self.CLS(r) == self.CLS(o.t))
        done = set()
        for c in cls:
            for f in list(c.all_fields()) + list(c.init_ann if hasattr(c, "init_ann") else []):
                T = self.types.field(c, f)
                if T is None: continue
                for key, srt in self.field_keys(c, f, T):
                    if key in done: continue
                    done.add(key)
                    m = self.hmap(st, key, srt)
                    v = Sel(m, o.t)
                    k = nonnull(T)[0]
                    if deep and k in ("ref", "list", "dict", "set", "any", "tuple"):
                        raise Unsupported("deep copy of structured fields")
                    self.wr(st, key, r, v)
        return V(("ref", o.T[1], False), r)
    def vec(self, st, v):
        """numpy array of a list whose length is provably a small constant"""
        n = self.length(st, v)
        for k in (2, 3, 1, 0):
            if self.solver.valid(st.conds(), n == k, 2000):
                return PY(("vec", [self.coerce(st, self.elem(st, v, z3.IntVal(i)), REAL).t for i in range(k)]))
        raise Unsupported("numpy array of unknown length")
    def call_lambda(self, t, args, st):
        _, node, env, frame = t
        names = [a.arg for a in node.args.args]
        d = node.args.defaults
        e = dict(env)
        for i, nm in enumerate(names):
            if i < len(args): e[nm] = args[i]
            else:
                e[nm] = self.ev1(d[i - (len(names) - len(d))], st)[0]
        saved_env, st.env = st.env, e
        fr, self.frame = self.frame, frame
        try: rs = self.ev(node.body, st)
        finally: self.frame = fr; st.env = saved_env
        for v, x in rs: x.env = dict(saved_env)
        return rs
    def call_local(self, t, args, kw, st):
        _, node, env, frame = t
        e = dict(env)
        e.update(self.bind(node, args, kw, st, frame.mod, frame.cls))
        return self.run_inline(node, e, self.newframe(frame.fn, frame.mod, frame.cls), st)
    def bind(self, node, args, kw, st, mod, cls):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        e = {}
        kw = dict(kw)
        if len(args) > len(names):
            if not a.vararg:
                raise TypeErrorCall(f"too many arguments for {node.name}")
            e[a.vararg.arg] = V(TUP(*[v.T for v in args[len(names):]]), args[len(names):]); args = args[:len(names)]
        for nm, v in zip(names, args): e[nm] = v
        nd = len(a.defaults)
        fr = self.frame
        self.frame = self.newframe(None, mod, cls)
        try:
            for i, nm in enumerate(names):
                if nm in e: continue
                if nm in kw: e[nm] = kw.pop(nm); continue
                j = i - (len(names) - nd)
                if j < 0: raise TypeErrorCall(f"missing argument {nm} for {node.name}")
                e[nm] = self.ev1(a.defaults[j], st)[0]
            for ka, dv in zip(a.kwonlyargs, a.kw_defaults):
                if ka.arg in kw: e[ka.arg] = kw.pop(ka.arg)
                elif dv is not None: e[ka.arg] = self.ev1(dv, st)[0]
                else: raise TypeErrorCall(f"missing argument {ka.arg}")
        finally: self.frame = fr
        if kw and not a.kwarg: raise TypeErrorCall(f"unexpected arguments {list(kw)} for {node.name}")
        return e
    def call_func(self, fn, args, kw, st, recv=None, noinline=False):
        if fn.is_abstract and not self.contract_of(fn): raise Unsupported(f"abstract method {fn.qual} without a contract")
        if fn.is_classmethod and (not args or not (args[0].T[0] == "py" and isinstance(args[0].t, Cls))): args = [PY(fn.cls)] + list(args)
        c = self.contract_of(fn)
        try: env = self.bind(fn.node, args, kw, st, fn.mod, fn.cls)
        except TypeErrorCall as e:
            if self.spec: raise Unsupported(str(e))
            self.raise_(st, "TypeError"); return []
        if c is not None and not c.inline and not (self.cur is not None and fn.key == self.cur.key and self.frame is not None and self.frame.fn is None):
            if c.opaque: return self.opq_call_contract(fn, c, env, st)
            return self.call_contract(fn, c, env, st)
        hk = self.call_hook(fn, env, st)
        if fn.is_gen:
            return self.hook_done(hk, fn, env, [(PY(("gen", fn, env)), st)])
        if self.frame is not None and self.frame.depth > self.MAXDEPTH: raise Unsupported("inlining depth")
        st_ = self.stackfns if hasattr(self, "stackfns") else []
        if st_.count(fn.key) >= 1: raise Unsupported(f"recursive call of {fn.qual} without a contract")
        # dynamic values: use the annotation
        for a in fn.node.args.args:
            v = env.get(a.arg)
            if v is not None and v.T[0] == "any" and a.annotation is not None:
                T = self.types.ann(a.annotation, fn.mod)
                if T[0] != "any": env[a.arg] = self.coerce(st, v, T)
        self.inlined.add(fn.key)
        self.stackfns = st_ + [fn.key]
        env0 = dict(env)
        try: rs = self.run_inline(fn.node, env, self.newframe(fn, fn.mod, fn.cls), st)
        finally: self.stackfns = st_
        return self.hook_done(hk, fn, env0, rs)
    # ghost code attached to calls (contract option gen/ghosts on_call): {"Class.method": dict(check=[(name, expr)], set=[(ghost, expr)])}
    def call_hook(self, fn, env, st):
        if self.spec or self.cur is None or self.frame is None: return None
        g = self.gopts().get("on_call")
        if not g: return None
        for k, h in g.items():
            cn, _, nm = k.rpartition(".")
            if nm != fn.name: continue
            if cn and (fn.cls is None or cn not in {c.name for c in fn.cls.mro()} | {c.name for c in fn.cls.all_subs()}): continue
            e = {**env, **{a[2:]: v for a, v in st.env.items() if a.startswith("g_")}, "me": self.entry_env.get("self"), **{"caller_" + a: v for a, v in self.entry_env.items()}}
            for name, x in h.get("check", []):
                from .engine import Obl
                t, _ = self.spec_eval(x, st, e, fn, old=self.entry_old)
                self.obls.append(Obl(f"at call of {fn.qual}: {name}", st.conds(), t, self.cur, "call"))
            return h, st.fork()
        return None
    def hook_done(self, hk, fn, env, rs):
        if hk is None: return rs
        h, pre = hk
        for v, x in rs:
            for ex in h.get("assume", []):
                e = {**env, **{a[2:]: w for a, w in x.env.items() if a.startswith("g_")}, "me": self.entry_env.get("self")}
                t, _ = self.spec_eval(ex, x, e, fn, old=pre, result=v)
                x.fact(t); self.assumed.add(f"{self.cur.qual}: after {fn.qual}: {ex}")
            for name, ex in h.get("set", []):
                e = {**env, **{a[2:]: w for a, w in x.env.items() if a.startswith("g_")}, "me": self.entry_env.get("self"), **{"caller_" + a: w for a, w in self.entry_env.items()}}
                w, _ = self.spec_val(ex, x, e, fn, old=pre, result=v)
                x.env["g_" + name] = self.coerce(x, w, x.env["g_" + name].T)
        return rs
    def run_inline(self, node, env, frame, st):
        caller_env = st.env
        n0 = len(st.pc)
        base = st
        x = st.fork(); x.env = {**env, **{k: v for k, v in caller_env.items() if k.startswith("g_")}}
        fr, self.frame = self.frame, frame
        try: outs = self.exec_block(node.body, x)
        finally: self.frame = fr
        res = []
        for o in outs:
            y = o[1]; y.env = {**caller_env, **{k: v for k, v in y.env.items() if k.startswith("g_")}}
            if o[0] == "norm": res.append((NONEV, y))
            elif o[0] == "ret": res.append((o[2], y))
            elif o[0] == "raise": 
                if not self.spec: self.sink.append(o)
            else: raise Unsupported("control flow")
        if len(res) > 1:
            res = self.merge(base, res, n0, strict=False)
        if self.spec and len(res) != 1: raise Unsupported(f"{getattr(node,'name','lambda')} has {len(res)} outcomes in a specification")
        return res
    def call_method(self, recv, name, args, kw, st):
        """virtual dispatch"""
        gs = {}
        for c in self.classes_of(recv.T):
            f = c.find(name)
            if f is not None: gs.setdefault(f.key, (f, []))[1].append(c)
            else: gs.setdefault("?", (None, []))[1].append(c)
        # a contract on a common base method covers all overrides (behavioural subtyping; each override is checked against it)
        keys = list(gs)
        if len(keys) > 1 and not self.spec:
            for k in list(keys):
                t = st.fork(); t.branch(self.has_cls(recv.t, gs[k][1]))
                if not self.feasible(t): del gs[k]
            keys = list(gs)
        if self.spec and "?" in gs and len(gs) > 1: del gs["?"]
        for k, (f, cl) in list(gs.items()):
            if f is None: continue
            if len(gs) == 1 and self.contract_of(f) is not None: continue
            b = self.virtual_contract(f, name, cl)
            if b is not None: gs[k] = (f, cl, b)
        byk = {}
        for k, g in list(gs.items()):
            if len(g) == 3:
                o = byk.setdefault(g[2][1].key, k)
                if o != k and [a.arg for a in gs[o][0].node.args.args] == [a.arg for a in g[0].node.args.args]:
                    gs[o] = (gs[o][0], gs[o][1] + g[1], g[2]); del gs[k]
        out = []
        multi = len(gs) > 1
        for k, g in gs.items():
            f, cl = g[0], g[1]
            x = st.fork() if multi else st
            if multi: x.branch(self.has_cls(recv.t, cl))
            if f is None:
                if self.spec: raise Unsupported(f"no method {name}")
                self.raise_(x, "AttributeError"); continue
            r = V(("ref", tuple(cl), False), recv.t)
            if len(g) == 3:
                try: env = self.bind(f.node, [r] + args, kw, x, f.mod, f.cls)
                except TypeErrorCall: self.raise_(x, "TypeError"); continue
                out += self.call_contract(g[2][0], g[2][1], env, x)
            elif f.is_static: out += self.call_func(f, args, kw, x)
            else: out += self.call_func(f, [r] + args, kw, x)
        if multi and len(out) > 1: return self.merge(st, out, len(st.pc), strict=self.spec > 0)
        return out
    def virtual_contract(self, f, name, cl):
        """contract declared for the method in a base class with virtual=True"""
        for c in cl:
            for b in c.mro():
                m = b.methods.get(name)
                if m is not None:
                    k = self.contract_of(m)
                    if k is not None and k.virtual: return (m, k)
        return None
    def call_super(self, t, args, kw, st):
        _, self_v, cls, name = t
        # next in the MRO of the defining class
        for b in cls.mro()[1:]:
            if name in b.methods: return self.call_func(b.methods[name], [self_v] + args, kw, st)
        for e in sorted(cls.ext_bases()):
            c = self.stub_cls(cls, e)
            if c is not None and c.find(name): return self.call_func(c.find(name), [self_v] + args, kw, st)
        if name == "__init__":
            self.dropped.add(f"super().__init__ of external base of {cls.name}")
            return [(NONEV, st)]
        raise Unsupported(f"super().{name}")
    def stub_cls(self, cls, ext):
        for k in cls.mro():
            for b, node in zip(k.bases, k.base_nodes):
                if b == ext:
                    e = self.repo.resolve_expr(k.mod, node)
                    nm = ext.split(".")[-1]
                    for d, s in (self.stubs or {}).items():
                        if isinstance(s, Cls) and s.name == nm: return s
        return None
    # ---------------------------------------------------------------- constructors
    def construct(self, cls, args, kw, st):
        if cls.is_enum: return [(args[0], st)]
        if any(str(b).split(".")[-1] in ("Exception", "ValueError", "RuntimeError") for b in cls.ext_bases()): return [(PY(cls.name), st)]
        r = self.alloc(st, cls)
        o = V(REF([cls]), r)
        init = cls.find("__init__")
        if init is not None:
            return [(o, x) for _, x in self.call_func(init, [o] + args, kw, st)]
        fields = cls.all_fields()
        names = list(fields)
        for nm, v in zip(names, args): kw.setdefault(nm, v)
        dec = {getattr(d, "id", getattr(getattr(d, "func", None), "id", "")) for c in cls.mro() for d in c.node.decorator_list}
        if not ({"BaseModel"} & {str(b).split(".")[-1] for b in cls.ext_bases()}) and "dataclass" not in dec:
            if not kw and not fields: return [(o, st)]
            raise Unsupported(f"constructor of {cls.name}")
        self.assumed.add("pydantic/dataclass construction assigns the given and default field values (validators and coercions of third-party pydantic not modelled)")
        fr = self.frame
        live = [st]
        for nm in names:
            T = self.types.field(cls, nm)
            if nm in kw: 
                v = kw[nm]
                for x in live: self.field_set(x, r, cls, nm, T, v) if T[0] != "any" or v.T[0] != "py" else None
                continue
            d = fields[nm][1]
            owner = next(c for c in cls.mro() if nm in c.fields)
            if d is None:
                if nm.startswith("_") or nullable(T): pass
                self.trackunset(st, nm)
                continue
            self.frame = self.newframe(None, owner.mod, None)
            try:
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("Field", "field", "PrivateAttr"):
                    dv = None
                    for kwd in d.keywords:
                        if kwd.arg == "default": dv = kwd.value
                        if kwd.arg == "default_factory":
                            fac = ast.unparse(kwd.value)
                            dv = {"list": ast.List(elts=[], ctx=ast.Load()), "dict": ast.Dict(keys=[], values=[])}.get(fac)
                            if dv is None:
                                if isinstance(kwd.value, ast.Lambda): dv = kwd.value.body
                                else: dv = ast.Call(func=kwd.value, args=[], keywords=[])
                    if dv is None and d.args and not (isinstance(d.args[0], ast.Constant) and d.args[0].value is Ellipsis): dv = d.args[0]
                    if dv is None: continue
                    d = dv
                nl = []
                for x in live:
                    if isinstance(d, ast.List) and not d.elts and T[0] == "list":
                        self.field_set(x, r, cls, nm, T, self.new_list(x, T[1], z3.IntVal(0), fresh("lst", z3.ArraySort(Int, self.esort(T[1])))) if T[1][0] != "unk" else None); nl.append(x); continue
                    if isinstance(d, ast.Dict) and not d.keys and T[0] == "dict":
                        self.field_set(x, r, cls, nm, T, self.new_dict(x, T[1], T[2])); nl.append(x); continue
                    for v, y in self.ev(d, x):
                        self.field_set(y, r, cls, nm, T, v); nl.append(y)
                live = nl
            finally: self.frame = fr
        for nm in kw:
            if nm not in fields:
                T = self.types.field(cls, nm)
                if T is not None:
                    for x in live: self.field_set(x, r, cls, nm, T, kw[nm])
                else: self.dropped.add(f"extra keyword {nm} of {cls.name}(...)")
        return [(o, x) for x in live]
    def trackunset(self, st, nm): pass
    # ---------------------------------------------------------------- call by contract
    def call_contract(self, fn, c, env, st):
        hk = self.call_hook(fn, env, st)
        if hk is None: return self.call_contract_(fn, c, env, st)
        env0 = dict(env)
        return self.hook_done(hk, fn, env0, self.call_contract_(fn, c, env, st))
    def call_contract_(self, fn, c, env, st):
        self.used_contracts.add(fn.key)
        if c.trusted: self.trusted_used.add(fn.key)
        caller_env = st.env
        pre = st.fork(); 
        for nm, T in c.param_types(self, fn).items():
            if nm in env and env[nm].T[0] != "py" and T[0] != "any": env[nm] = self.coerce(st, env[nm], T)
        if not self.spec:
            for nm, e in c.requires:
                g, x = self.spec_eval(e, st, env, fn)
                from .engine import Obl
                self.obls.append(Obl(f"precondition of {fn.qual} at call: {nm}", st.conds(), g, self.cur, "pre"))
        if fn.is_gen:       # creating a generator runs none of its body: its effects and exceptions belong to whoever resumes it
            st.env = caller_env
            return [(PY(("gen", fn, env)), st)]
        old = st.fork()
        out = []
        # exceptional outcomes
        nots = []
        gh = (c.gen or {}).get("ghost", {})
        for exc, cond, ens in c.raises:
            if any(g_ in gh for g_ in re.findall(r"\w+", cond)):        # stated over the callee's ghosts: it may happen at any time
                y = st.fork(); self.havoc(y, c, env, fn, old, exc=True); self.sink.append(("raise", y, exc)); continue
            g, _ = self.spec_eval(cond, st, env, fn)
            y = st.fork(); y.branch(g)
            if not self.spec: 
                if self.feasible(y): 
                    if ens is not None or c.exc_modifies or (c.exc_modifies is None and c.modifies):
                        self.havoc(y, c, env, fn, old, exc=True)
                        for e in ens or []:
                            h, _ = self.spec_eval(e, y, env, fn, old=old); y.fact(h)
                    self.sink.append(("raise", y, exc))
            nots.append(Not(g))
        for g in nots: st.branch(g)
        if not self.spec and nots and not self.feasible(st): return []
        for exc in c.may_raise:
            y = st.fork()
            self.havoc(y, c, env, fn, old)
            self.sink.append(("raise", y, exc))
        if c.modifies and self.spec: raise Unsupported(f"effectful {fn.qual} in a specification")
        from .core import mark as mark_
        mk = mark_(); p0 = len(st.pc); w0 = len(st.wlog)
        self.havoc(st, c, env, fn, old)
        RT = c.ret_type(self, fn)
        if RT[0] == "none": res = NONEV
        elif c.pure:
            ts = [t for nm in env for t in self.vterms(env[nm])]
            res = V(RT, self.uf(f"pure_{fn.qual}_{len(ts)}", ts, zsort(RT)))
        else: res = self.fresh_val(st, RT, "ret_" + fn.name)
        for nm, e in c.ensures:
            if not c.usable(nm): continue
            if any(g_ in (c.gen or {}).get("ghost", {}) for g_ in re.findall(r"\w+", e)): continue      # about the callee's ghosts only
            hp, al, wn, ep = dict(st.heap), st.alloc, len(st.wlog), st.epoch
            h, _ = self.spec_eval(e, st, env, fn, old=old, result=res)
            st.fact(h)
            if st.epoch == ep and st.wlog[wn:] and all(w[0] in ("set", "newlist", "ext") and (w[0] != "set" or self.scratch(w[2], hp_st(hp, al))) for w in st.wlog[wn:]):
                # collections built while evaluating the postcondition are not part of the program state
                st.heap = {k: hp[k] for k in st.heap if k in hp}; st.alloc = al; del st.wlog[wn:]
        res = self.inline_equalities(st, p0, w0, mk, res)
        st.env = caller_env
        out.append((res, st))
        return out
    def inline_equalities(self, st, p0, w0, mk, res):
        """postconditions of the shape  cell == term  define the havocked value: substitute it"""
        for _ in range(8):
            sub = None
            for t, e in st.pc[p0:]:
                for q in conjuncts(e):
                    if not (z3.is_app(q) and q.decl().kind() == z3.Z3_OP_EQ): continue
                    for a, b in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                        if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
                        nm = a.decl().name()
                        if not nm.startswith(("hv", "ret_")) or core_id(nm) < mk or mentions(b, [a]): continue
                        if z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED and core_id(b.decl().name()) >= mk: continue
                        sub = (a, b); break
                    if sub: break
                if sub: break
            if not sub: return res
            f = lambda e: z3.substitute(e, sub) if z3.is_expr(e) else e
            new = [(t, z3.simplify(f(e)) if mentions(e, [sub[0]]) else e) for t, e in st.pc[p0:]]
            st.pc[p0:] = [(t, e) for t, e in new if not z3.is_true(e)]
            for k_, m in list(st.heap.items()):
                if mentions(m, [sub[0]]): st.heap[k_] = f(m)
            st.wlog[w0:] = [tuple(f(x) if z3.is_expr(x) else x for x in w) for w in st.wlog[w0:]]
            res = self.map_v(res, f)
        return res
    def map_v(self, v, f):
        if v.T[0] == "opt": return V(v.T, (f(v.t[0]), self.map_v(v.t[1], f)))
        if v.T[0] == "tuple": return V(v.T, [self.map_v(x, f) for x in v.t])
        if v.T[0] in ("py", "none"): return v
        return V(v.T, f(v.t))
    def fresh_val(self, st, T, name):
        if T[0] == "opt": return V(T, (fresh(name + "_n", Bool), V(T[1], fresh(name, zsort(T[1])))))
        if T[0] == "tuple": return V(T, [self.fresh_val(st, t, name + str(i)) for i, t in enumerate(T[1])])
        v = V(T, fresh(name, zsort(T)))
        if c_isref(T):
            # may be a newly allocated object
            st.alloc = plus(st.alloc, SLOTS)
        return self.wf(st, v)
    def loc_targets(self, c, env, fn, st):
        """modifies entries -> list of (key, sort, predicate(ref)) evaluated in st"""
        out = []
        for ent in c.modifies:
            if isinstance(ent, tuple):        # (field-ish, var, condition)
                fld, var, cond = ent
                out.append(("set", fld, var, cond)); continue
            if ent.endswith("[]"):
                v, _ = self.spec_val(ent[:-2], st, env, fn)
                if v.T[0] == "list":
                    tk = tkey(v.T[1]); out.append(("cell", "len:" + tk, v.t, Int)); out.append(("cell", "elt:" + tk, v.t, z3.ArraySort(Int, self.esort(v.T[1]))))
                elif v.T[0] == "dict":
                    s = self.dkeys(v); ms = self.dmaps(st, v)
                    for nm, m in zip(("ddom:", "dval:", "dlen:", "dkey:", "dpos:"), ms): out.append(("cell", nm + s, v.t, m.sort().range()))
                elif v.T[0] == "set": out.append(("cell", "smem:" + tkey(v.T[1]), v.t, z3.ArraySort(zsort(v.T[1]), Bool)))
                continue
            base, f = ent.rsplit(".", 1)
            v, _ = self.spec_val(base, st, env, fn)
            if v.T[0] == "none": continue
            for cl in self.classes_of(v.T):
                T = self.types.field(cl, f)
                if T is None: continue
                for key, srt in self.field_keys(cl, f, T):
                    if not any(o[0] == "cell" and o[1] == key and o[2].eq(v.t) for o in out): out.append(("cell", key, v.t, srt))
        return out
    def field_keys(self, cl, f, T):
        k = self.fkey(cl, f, T)
        if T[0] == "opt": return [(k + "#n", Bool), (k, zsort(T[1]))]
        return [(k, Int if T[0] in ("tuple", "opttup") else zsort(T))]
    def setloc(self, ent, env, fn, st, r):
        """('field of C', var, cond): predicate for ref r, plus keys"""
        _, fld, var, cond = ent
        cname, f = fld.split(".")
        cl = self.repo.cls(cname)
        T = self.types.field(cl, f)
        e2 = dict(env); e2[var] = V(REF([cl]), r)
        p0 = len(st.pc)
        g, _ = self.spec_eval(cond, st, e2, fn)
        del st.pc[p0:]
        return self.field_keys(cl, f, T), g
    def may_allocate(self, c, mods):
        if c.allocates is not None: return c.allocates
        for ent in mods:
            if ent[0] == "cell":
                if ent[1].split(":")[-1].strip("o") in ("ref", "list", "dict", "set", "any", "ot") or ent[1].startswith(("elt:", "f:")) and ent[1].split(":")[-1].startswith(("ref", "list", "dict", "set", "any", "t(")): return True
            else:
                cname, f = ent[1].split(".")
                T = self.types.field(self.repo.cls(cname), f)
                if T[0] in ("ref", "list", "dict", "set", "any", "tuple", "opttup"): return True
        return False
    def havoc(self, st, c, env, fn, old, exc=False):
        mods = self.loc_targets(c, env, fn, old)
        if self.may_allocate(c, mods): st.alloc = plus(st.alloc, SLOTS)
        for ent in mods:
            if ent[0] == "cell":
                _, key, idx, srt = ent
                nv = fresh("hv", srt)
                self.wr(st, key, idx, nv)
                if srt == Int: 
                    # typing of havocked reference cells: bounded by current allocation
                    st.fact(nv < st.alloc) if key.split(":")[-1] in ("ref", "list", "dict", "set") else None
                    if key.startswith("len:"): st.fact(And(nv >= 0, nv <= 10**9))
                    if key.split(":")[-1] == "str": st.fact(nv >= -1)
                if key.startswith("elt:") and key.split(":")[1] in ("ref", "list", "dict", "str"):
                    pass
            else:
                r = z3.Int("r!h")
                keys, g = self.setloc(ent, env, fn, old, r)
                for key, srt in keys:
                    m = self.hmap(st, key, srt)
                    m2 = self.newmap(key, srt, st.alloc)
                    st.fact(forall(r, Implies(Not(g), z3.Select(m2, r) == z3.Select(m, r)), [z3.Select(m2, r)]))
                    st.heap[key] = m2
                    st.wlog.append(("bulk", key))
    # ---------------------------------------------------------------- builtins
    def builtin(self, name, args, kw, st, node):
        m = getattr(self, "b_" + name, None)
        if m is None: raise Unsupported(f"builtin {name}")
        r = m(args, kw, st, node)
        return r if isinstance(r, list) else [(r, st)]
    def aslist(self, st, v):
        if v.T[0] == "list": return v
        if v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "genexp":
            ge = v.t[1]
            lc = getattr(ge, "_aslist", None)
            if lc is None: lc = ge._aslist = ast.copy_location(ast.ListComp(elt=ge.elt, generators=ge.generators), ge)
            sv, fr = dict(st.env), self.frame
            st.env = {**v.t[2]}; self.frame = v.t[3]
            try: rs = self.comp_list(lc, st)
            finally: self.frame = fr
            if len(rs) != 1: raise Unsupported("generator with several outcomes")
            r, x = rs[0]
            st.pc[:] = x.pc; st.heap = x.heap; st.alloc = x.alloc; st.wlog = x.wlog; st.env = sv
            return r
        return self.materialize(st, self.toseq(st, v))
    def b_len(self, args, kw, st, node):
        v = args[0]
        if v.T[0] == "list":
            if not self.nonnull_use(v, st): return []
            return VI(self.length(st, v))
        if v.T[0] == "tuple": return VI(len(v.t))
        if v.T[0] == "dict": return VI(self.dlen(st, v))
        if v.T[0] == "set": return VI(self.set_len(st, v))
        if v.T[0] == "py" and isinstance(v.t, Seq): return VI(v.t.n)
        if v.T[0] == "str":
            t = self.uf("str_len", [v.t], Int); st.fact(t >= 0); st.fact((t == 0) == (v.t == 0)); return VI(t)
        if v.T[0] == "ref":
            f = self.classes_of(v.T)[0].find("__len__")
            if f: return self.call_func(f, [v], {}, st)
        if v.T[0] == "none": self.raise_(st, "TypeError"); return []
        raise Unsupported(f"len of {v.T}")
    def b_range(self, args, kw, st, node):
        xs = [self.num(st, a) for a in args]
        if len(xs) == 1: lo, hi = z3.IntVal(0), xs[0].t
        elif len(xs) == 2: lo, hi = xs[0].t, xs[1].t
        else:
            stp = z3.simplify(xs[2].t)
            if z3.is_int_value(stp) and stp.as_long() == -1:
                lo, hi = xs[0].t, xs[1].t
                return PY(Seq(z3.simplify(If(lo > hi, lo - hi, z3.IntVal(0))), lambda k, s: VI(lo - k)))
            raise Unsupported("range step")
        n = z3.simplify(If(hi > lo, hi - lo, z3.IntVal(0)))
        return PY(Seq(n, lambda k, s: VI(z3.simplify(lo + k) if z3.is_int_value(k) or z3.is_int_value(lo) else lo + k)))
    def b_next(self, args, kw, st, node):
        a = args[0]
        if a.T[0] == "ref" and len(args) == 1: return self.call_method(a, "__next__", [], {}, st)
        raise Unsupported("next of " + str(a.T))
    def b_iter(self, args, kw, st, node):
        a = args[0]
        if a.T[0] == "list" and a.T[1][0] in ("real", "int"):
            f = self.repo.mods["stubs__"].funcs["list_iter"]
            return self.call_func(f, [a], {}, st)
        raise Unsupported("iter of " + str(a.T))
    def b_enumerate(self, args, kw, st, node):
        s = self.toseq(st, args[0])
        start = args[1].t if len(args) > 1 else kw["start"].t if "start" in kw else z3.IntVal(0)
        def el(k, x):
            e = s.elem(k, x)
            return V(TUP(INT, e.T), [VI(z3.simplify(k + start)), e])
        return PY(Seq(s.n, el, s.src))
    def b_zip(self, args, kw, st, node):
        ss = [self.toseq(st, a) for a in args]
        n = ss[0].n
        for s in ss[1:]: n = n if n.eq(s.n) else If(s.n < n, s.n, n)
        def el(k, x):
            es = [s.elem(k, x) for s in ss]
            return V(TUP(*[e.T for e in es]), es)
        return PY(Seq(n, el))
    def b_reversed(self, args, kw, st, node): return PY(self.rev_seq(self.toseq(st, args[0])))
    def b_list(self, args, kw, st, node):
        if not args: return self.list_lit(st, [], node)
        v = args[0]
        if v.T[0] == "list":
            if v.T[1][0] == "unk": return v
            if not self.nonnull_use(v, st): return []
            return self.new_list(st, v.T[1], self.length(st, v), self.earr(st, v))
        if v.T[0] == "set": return self.set_list(st, v)
        return self.aslist(st, v)
    def b_tuple(self, args, kw, st, node):
        v = args[0]
        if v.T[0] == "tuple": return v
        if v.T[0] == "list" and z3.is_int_value(z3.simplify(self.length(st, v))) :
            items = [self.elem(st, v, z3.IntVal(i)) for i in range(z3.simplify(self.length(st, v)).as_long())]
            return V(TUP(*[i.T for i in items]), items)
        return self.b_list(args, kw, st, node)
    def b_set(self, args, kw, st, node):
        if not args:
            h = self.hints.get(id(node))
            return self.new_set(st, h, z3.K(zsort(h), z3.BoolVal(False))) if h else self.new_set(st, ("unk", id(node)), None)
        return self.set_of(st, args[0] if args[0].T[0] in ("list", "set") else self.aslist(st, args[0]), node)
    b_frozenset = b_set
    def b_dict(self, args, kw, st, node):
        if args or kw: raise Unsupported("dict(...)")
        return self.new_dict(st, *(self.hints.get(id(node)) or (("unk", id(node)), None)))
    def b_sum(self, args, kw, st, node):
        if args[0].T[0] == "py" and isinstance(args[0].t, tuple) and args[0].t[0] == "genexp" or args[0].T[0] in ("py", "list"): l = self.aslist(st, args[0])
        else: l = self.aslist(st, args[0])
        et = l.T[1]
        if et[0] == "unk": return VI(0)
        if et[0] == "bool": raise Unsupported("sum of bools")
        n, A = self.length(st, l), self.earr(st, l)
        if z3.is_int_value(n) and n.as_long() <= 8:
            t = z3.IntVal(0) if et[0] == "int" else z3.RealVal(0)
            for i in range(n.as_long()): t = t + Sel(A, z3.IntVal(i))
            return V(et, t)
        S = fresh("Sum", z3.ArraySort(Int, zsort(et))); k = z3.Int("k!sum")
        st.fact(S == self.uf("SumOf_" + et[0], [A], S.sort()))
        z = z3.IntVal(0) if et[0] == "int" else z3.RealVal(0)
        st.fact(Sel(S, z3.IntVal(0)) == z)
        st.fact(forall(k, Implies(And(0 <= k, k < n), z3.Select(S, k + 1) == z3.Select(S, k) + z3.Select(A, k)), [z3.Select(S, k + 1)]))
        st.fact(forall(k, Implies(And(0 <= k, k < n), z3.Select(S, k + 1) == z3.Select(S, k) + z3.Select(A, k)), [z3.Select(S, k)]))
        self.sum_lemmas(st, S, k, z3.Select(A, k), n, z)
        self.sums[S.get_id()] = (S, n, k, z3.Select(A, k), z)
        return V(et, Sel(S, n))
    def b_abs(self, args, kw, st, node):
        v = self.num(st, args[0]); return V(v.T, If(v.t >= 0, v.t, -v.t))
    def b_round(self, args, kw, st, node):
        v = self.num(st, args[0])
        if v.T == INT: return v
        if len(args) > 1: return VR(self.uf("round", [v.t, args[1].t], Real))
        r = self.uf("round0", [v.t], Int); st.fact(And(z3.ToReal(r) - v.t <= 0.5, v.t - z3.ToReal(r) <= 0.5)); return VI(r)
    def b_min(self, args, kw, st, node): return self.minmax(args, kw, st, True)
    def b_max(self, args, kw, st, node): return self.minmax(args, kw, st, False)
    def minmax(self, args, kw, st, mn):
        key = kw.get("key")
        if len(args) > 1 and key is None:
            vs = [self.num(st, a) for a in args]
            T = REAL if any(v.T == REAL for v in vs) else INT
            r = self.coerce(st, vs[0], T)
            for v in vs[1:]:
                w = self.coerce(st, v, T)
                r = V(T, If(w.t < r.t, w.t, r.t) if mn else If(w.t > r.t, w.t, r.t))
            return r
        if args[0].T[0] == "dict" and key is not None: l = self.materialize(st, self.dict_seq(st, args[0], "keys"))
        else: l = self.aslist(st, args[0])
        n = self.length(st, l)
        if "default" in kw:
            pass
        elif not self.bounds(st, n <= 0, "ValueError"): return []
        w = fresh("arg", Int); k = fresh("k", Int); mk = mark()
        def keyat(i):
            e = self.elem(st, l, i)
            if key is None: return e
            saved, self.sink = self.sink, []
            rs = self.call(key, [e], {}, st)
            self.sink, sk = saved, self.sink
            for o in sk: self.sink.append(o)
            if len(rs) > 1: rs = self.merge(st, rs, len(st.pc))
            v, x = rs[0]
            st.pc[:] = x.pc; st.heap = x.heap
            return v
        p0 = len(st.pc)
        kv = keyat(k)
        facts = st.pc[p0:]; del st.pc[p0:]
        wv = keyat(w)
        le = self.compare(ast.LtE() if mn else ast.GtE(), wv, kv, st)
        lt = self.compare(ast.Lt() if mn else ast.Gt(), wv, kv, st)
        fs = self.closure([e for _, e in facts] + [le, lt], k, mk)
        st.fact(And(0 <= w, Or(w < n, n <= 0)))
        st.fact(forall(k, Implies(And(0 <= k, k < n), And(fs[:-1]))))
        st.fact(forall(k, Implies(And(0 <= k, k < w), And(fs[:-2] + [fs[-1]]))))
        e = self.elem(st, l, w)
        if "default" in kw: return self.ite(st, n > 0, e, kw["default"])
        return e
    def b_isinstance(self, args, kw, st, node):
        v, c = args
        cs = c.t if c.T[0] == "tuple" else [c]
        cs = [x.t for x in cs]
        flat = []
        for x in cs:
            if isinstance(x, tuple) and x[0] == "typealias":
                T = self.types.ann(x[1].assigns[x[2]], x[1])
                if T[0] == "ref": flat += list(T[1]); continue
            flat.append(x)
        if v.T[0] == "none": return VB(False)
        prim = {"int": "int", "float": "real", "bool": "bool", "str": "str", "list": "list", "dict": "dict", "tuple": "tuple", "set": "set"}
        r = []
        for x in flat:
            if isinstance(x, tuple) and x[0] == "builtin":
                p = prim.get(x[1])
                if p is None: raise Unsupported("isinstance " + x[1])
                vt = v.T[1][0] if v.T[0] == "opt" else "tuple" if v.T[0] == "opttup" else v.T[0]
                if v.T[0] == "any": r.append(self.uf("is_" + p, [v.t], Bool)); continue
                r.append(And(Not(self.isnone(v)), z3.BoolVal(vt == p or (p == "int" and vt == "bool"))))
            elif isinstance(x, Cls):
                if v.T[0] == "ref":
                    cc = [k for k in self.concrete(x) if k in set(self.classes_of(v.T))] 
                    t = self.has_cls(v.t, cc) if set(cc) != set(self.classes_of(v.T)) else z3.BoolVal(True)
                    r.append(And(Not(self.isnone(v)), t) if v.T[2] else t)
                elif v.T[0] == "any": r.append(And(v.t != NONE, self.has_cls(v.t, self.concrete(x))))
                elif x.is_enum and v.T[0] == "str": r.append(self.uf("is_" + x.name, [v.t], Bool))
                else: r.append(z3.BoolVal(False))
            else: raise Unsupported(f"isinstance of {x}")
        return VB(Or(r))
    def b_hasattr(self, args, kw, st, node):
        v, a = args
        name = self.litname(a)
        if v.T[0] != "ref": raise Unsupported("hasattr on " + v.T[0])
        has = [c for c in self.classes_of(v.T) if c.find(name) or self.types.field(c, name) is not None or c.find_const(name)]
        if len(has) == len(self.classes_of(v.T)): return VB(Not(self.isnone(v)))
        return VB(And(Not(self.isnone(v)), self.has_cls(v.t, has)))
    def litname(self, a):
        for s, i in self.lits.items():
            if z3.is_int_value(a.t) and a.t.as_long() == i: return s
        raise Unsupported("attribute name is not a literal")
    def b_getattr(self, args, kw, st, node):
        if len(args) == 3:
            h = z3.simplify(self.b_hasattr(args[:2], {}, st, node).t)
            y, n = st.fork(), st.fork()
            y.branch(h); n.branch(Not(h))
            outs = list(self.getattr(args[0], self.litname(args[1]), y)) if self.feasible(y) else []
            if self.feasible(n): outs.append((args[2], n))
            return outs
        return self.getattr(args[0], self.litname(args[1]), st)
    def b_str(self, args, kw, st, node):
        v = args[0]
        if v.T[0] == "str": return v
        return self.fstr(st, "{}", [v])
    b_repr = b_str
    def b_int(self, args, kw, st, node):
        v = args[0]
        if v.T[0] == "int": return v
        if v.T[0] == "bool": return self.coerce(st, v, INT)
        if v.T[0] == "str": return VI(self.uf("int_of_str", [v.t], Int))
        v = self.num(st, v)
        r = fresh("trunc", Int)
        st.fact(And(Implies(v.t >= 0, And(z3.ToReal(r) <= v.t, v.t < z3.ToReal(r) + 1)), Implies(v.t < 0, And(z3.ToReal(r) >= v.t, v.t > z3.ToReal(r) - 1))))
        return VI(r)
    def b_float(self, args, kw, st, node):
        v = args[0]
        if v.T[0] == "str":
            if v.t.eq(self.lit("inf")): return V(REAL, self.INF)
            return VR(self.uf("float_of_str", [v.t], Real))
        return self.coerce(st, self.num(st, v), REAL)
    def b_bool(self, args, kw, st, node): return VB(self.truth(st, args[0]))
    def b_type(self, args, kw, st, node):
        if args[0].T[0] == "ref": return PY(("pytype", self.CLS(args[0].t)))
        raise Unsupported("type()")
    def b_id(self, args, kw, st, node): return VI(args[0].t)
    def b_any(self, args, kw, st, node):
        l = self.aslist(st, args[0]); return self._anyl(st, l, False)
    def b_all(self, args, kw, st, node):
        l = self.aslist(st, args[0]); return self._anyl(st, l, True)
    def _anyl(self, st, l, all_):
        if l.T[1][0] == "unk": return VB(all_)
        k = fresh("k", Int); p0 = len(st.pc)
        t = self.truth(st, self.elem(st, l, k)); n = self.length(st, l)
        self.close_facts(st, p0, k, And(0 <= k, k < n))
        return VB(forall(k, Implies(And(0 <= k, k < n), t)) if all_ else exists(k, And(0 <= k, k < n, t)))
    def b_sorted(self, args, kw, st, node):
        l = self.aslist(st, args[0]) if args[0].T[0] != "dict" else self.materialize(st, self.toseq(st, args[0]))
        if l.T[1][0] == "unk": return l
        r = self.new_list(st, l.T[1], self.length(st, l), self.earr(st, l))
        return [(r, x) for x in self.sort(st, r, kw)]
    def b_print(self, args, kw, st, node): return NONEV
    def b_filter(self, args, kw, st, node):
        l = self.aslist(st, args[1])
        k = ast.parse("[__e for __e in __l if __f(__e)]", mode="eval").body
        key = ("filter", id(node))
        cache = self.__dict__.setdefault("_fcache", {})
        k = cache.setdefault(key, k)
        for x in ast.walk(k): x.lineno = getattr(x, "lineno", 1)
        sv = dict(st.env); st.env.update({"__l": l, "__f": args[0]})
        rs = self.comp_list(k, st)
        for v, x in rs: x.env = dict(sv)
        return rs
    def b_map(self, args, kw, st, node):
        l = self.aslist(st, args[1])
        cache = self.__dict__.setdefault("_fcache", {})
        k = cache.setdefault(("map", id(node)), ast.parse("[__f(__e) for __e in __l]", mode="eval").body)
        sv = dict(st.env); st.env.update({"__l": l, "__f": args[0]})
        rs = self.comp_list(k, st)
        for v, x in rs: x.env = dict(sv)
        return rs
    # ---------------------------------------------------------------- list methods
    def sort(self, st, l, kw):
        """stable sort in place; returns states"""
        n, A = self.length(st, l), self.earr(st, l)
        B = fresh("srt", A.sort()); P = fresh("perm", z3.ArraySort(Int, Int)); Q = fresh("pinv", z3.ArraySort(Int, Int))
        i, j = z3.Int("i!st"), z3.Int("j!st")
        rev = "reverse" in kw and z3.is_true(z3.simplify(self.truth(st, kw["reverse"])))
        if "reverse" in kw and not rev and not z3.is_false(z3.simplify(self.truth(st, kw["reverse"]))): raise Unsupported("symbolic reverse=")
        key = kw.get("key")
        if key is not None and key.T[0] == "none": key = None
        # keys as functions of the element
        x = fresh("x", zsort(l.T[1])); mk = mark(); p0 = len(st.pc)
        def keyof(t):
            e = V(l.T[1], t) if l.T[1][0] != "tuple" else self.unbox(st, l.T[1], t)
            if l.T[1][0] == "ref": self.wf(st, e)
            if key is None: return e
            saved, self.sink = self.sink, []
            y = st.fork()
            rs = self.call(key, [e], {}, y)
            self.sink, sk = saved, self.sink
            if len(rs) > 1:
                for v_, z in rs:        # scratch collections built by the key are dropped when the key itself is a plain value
                    if not self.same_heap(st, z) and self.plain(v_.T) and all(w[0] in ("set", "newlist", "ext") and self.scratch(w[2], st) for w in z.wlog[len(st.wlog):]):
                        z.heap, z.alloc, z.epoch = dict(st.heap), st.alloc, st.epoch; del z.wlog[len(st.wlog):]
                rs = self.merge(y, rs, len(st.pc), strict=True)
            if not rs and sk:
                # the key function always raises
                kk = fresh("w", Int); z = st.fork()
                z.branch(And(n > 1 if False else n > 0)); self.raise_(z, sk[0][2])
                st.branch(n <= 0)
                return None
            for o in sk:
                z = st.fork(); kk = fresh("w", Int)
                z.pc += [("b", And(0 <= kk, kk < n, t == Sel(A, kk)))] + [("b", e_) for e_ in o[1].conds()[len(z.pc):]]
                self.raise_(z, o[2])
            v, z = rs[0]
            if not self.same_heap(st, z):
                # scratch collections built by the key are dropped when the key itself is a plain value
                if any(w[0] not in ("set", "newlist", "ext") or not self.scratch(w[2], st) for w in z.wlog[len(st.wlog):]) or not self.plain(v.T): raise Unsupported(f"sort key with effects {[(w, self.scratch(w[2], st) if w[0]=='set' else 0, st.alloc) for w in z.wlog[len(st.wlog):]]} {v.T}")
            st.pc[:] = z.pc
            return v
        kx = keyof(x)
        if kx is None: return [st]
        facts = [e for _, e in st.pc[p0:]]; del st.pc[p0:]
        mk_terms = fresh_consts(facts + self.vterms(kx), mk)
        sub = []
        for nm, c in mk_terms.items():
            g = fresh(nm.split("!")[0] + "_x", z3.ArraySort(x.sort(), c.sort())); sub.append((c, z3.Select(g, x)))
        f = lambda e: z3.substitute(e, *sub) if sub else e
        facts = [f(e) for e in facts]; kx = self.subst_v(kx, f)
        at = lambda t: self.subst_v(kx, lambda e: z3.substitute(e, (x, t)))
        st.fact(forall(i, Implies(And(0 <= i, i < n), And([z3.substitute(e, (x, z3.Select(A, i))) for e in facts]))))
        st.fact(forall(i, Implies(And(0 <= i, i < n), And(0 <= z3.Select(P, i), z3.Select(P, i) < n, z3.Select(B, i) == z3.Select(A, z3.Select(P, i)), z3.Select(Q, z3.Select(P, i)) == i)), [z3.Select(B, i)]))
        st.fact(forall(i, Implies(And(0 <= i, i < n), And(0 <= z3.Select(P, i), z3.Select(P, i) < n, z3.Select(B, i) == z3.Select(A, z3.Select(P, i)), z3.Select(Q, z3.Select(P, i)) == i)), [z3.Select(P, i)]))
        st.fact(forall(i, Implies(And(0 <= i, i < n), And(0 <= z3.Select(Q, i), z3.Select(Q, i) < n, z3.Select(P, z3.Select(Q, i)) == i)), [z3.Select(Q, i)]))
        ki, kj = at(z3.Select(B, i)), at(z3.Select(B, j))
        le = self.compare(ast.GtE() if rev else ast.LtE(), ki, kj, st)
        eqk = self.eq(st, ki, kj)
        st.fact(forall([i, j], Implies(And(0 <= i, i < j, j < n), And(le, Implies(eqk, z3.Select(P, i) < z3.Select(P, j)))), [z3.MultiPattern(z3.Select(B, i), z3.Select(B, j))]))
        st.fact(forall([i, j], Implies(And(0 <= i, i < j, j < n), And(le, Implies(eqk, z3.Select(P, i) < z3.Select(P, j)))), [z3.MultiPattern(z3.Select(P, i), z3.Select(P, j))]))
        self.add_perm(st, A, B, n)
        self.list_replace(st, l, n, B)
        return [st]
    def scratch(self, ref, st):
        a, b = z3.simplify(ref), z3.simplify(st.alloc)
        from .core import _lin
        x, y = _lin(a), _lin(b)
        return x[0] == y[0] and x[1] >= y[1]
    def plain(self, T):
        if T[0] == "tuple": return all(self.plain(t) for t in T[1])
        return T[0] in ("int", "real", "bool", "str") or T[0] == "opt" and self.plain(T[1])
    def vterms(self, v):
        if v.T[0] in ("none", "py"): return []
        if v.T[0] == "opt": return [v.t[0], v.t[1].t]
        if v.T[0] == "tuple": return [t for x in v.t for t in self.vterms(x)]
        return [v.t]
    def PERM(self, A, n, B, m):
        return self.uf("Perm", [A, n, B, m], Bool)
    def add_perm(self, st, A, B, n):
        st.fact(self.PERM(A, n, B, n)); st.fact(self.PERM(B, n, A, n))
        for X, Y, m in list(self.perms):
            if Y.eq(A) and z3.simplify(m).eq(z3.simplify(n)):
                st.fact(self.PERM(X, n, B, n)); st.fact(self.PERM(B, n, X, n)); self.perms.append((X, B, n))
        self.perms.append((A, B, n))
    def list_method(self, o, name, args, kw, st):
        if not self.nonnull_use(o, st, "AttributeError"): return []
        if name == "append": self.list_append(st, o, args[0]); return [(NONEV, st)]
        if name == "extend":
            v = args[0]
            if v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "genexp": v = self.aslist(st, v)
            if not self.nonnull_use(v, st) if v.T[0] == "list" else False: return []
            self.list_extend(st, o, v); return [(NONEV, st)]
        if name == "copy": return [(self.b_list([o], {}, st, None), st)]
        if o.T[1][0] == "unk":
            if name in ("clear", "sort", "reverse"): return [(NONEV, st)]
            if name == "pop": self.raise_(st, "IndexError"); return []
            if name == "remove": self.raise_(st, "ValueError"); return []
            if name == "insert": self.list_append(st, o, args[1]); return [(NONEV, st)]
        n, A = self.length(st, o), self.earr(st, o)
        i = z3.Int("i!lm")
        if name == "clear": self.list_replace(st, o, z3.IntVal(0), A); return [(NONEV, st)]
        if name == "sort": return [(NONEV, x) for x in self.sort(st, o, kw)]
        if name == "reverse":
            B = fresh("rev", A.sort())
            st.fact(forall(i, Implies(And(0 <= i, i < n), z3.Select(B, i) == z3.Select(A, n - 1 - i)), [z3.Select(B, i)]))
            self.add_perm(st, A, B, n)
            k = z3.Int("k!rv"); self.comps[B.get_id()] = (B, n, k, z3.BoolVal(True), z3.Select(A, n - 1 - k))
            self.list_replace(st, o, n, B); return [(NONEV, st)]
        if name == "pop":
            if not self.bounds(st, n <= 0): return []
            if not args:
                idx = plus(n, -1)
            else:
                it = z3.simplify(self.num(st, args[0]).t)
                if z3.is_int_value(it) and it.as_long() < 0: idx = plus(n, it.as_long()); bad = idx < 0
                elif z3.is_int_value(it): idx, bad = it, it >= n
                else: idx, bad = If(it < 0, it + n, it), Or(it >= n, it < -n)
                if not self.bounds(st, bad): return []
            v = self.elem(st, o, idx)
            self.list_replace(st, o, plus(n, -1), A if not args else self.removed_arr(st, A, n, idx))
            return [(v, st)]
        if name == "remove":
            p0 = len(st.pc)
            w = fresh("w", Int)
            mem = self.contains(st, o, args[0])
            if not self.bounds(st, Not(mem), "ValueError"): return []
            k = fresh("k", Int)
            p0 = len(st.pc)
            ek = self.eq(st, self.elem(st, o, k), args[0])
            self.close_facts(st, p0, k, And(0 <= k, k < n))
            st.fact(And(0 <= w, w < n, z3.substitute(ek, (k, w))))
            st.fact(forall(k, Implies(And(0 <= k, k < w), Not(ek))))
            self.list_replace(st, o, plus(n, -1), self.removed_arr(st, A, n, w))
            return [(NONEV, st)]
        if name == "insert":
            it = z3.simplify(self.num(st, args[0]).t)
            idx = If(it < 0, If(it + n < 0, z3.IntVal(0), it + n), If(it > n, n, it)) if not (z3.is_int_value(it) and it.as_long() == 0) else z3.IntVal(0)
            x = self.eterm(st, o.T[1], args[1])
            B = fresh("ins", A.sort())
            st.fact(forall(i, z3.Select(B, i) == If(i < idx, z3.Select(A, i), If(i == idx, x, z3.Select(A, i - 1))), [z3.Select(B, i)]))
            self.list_replace(st, o, plus(n, 1), B)
            return [(NONEV, st)]
        if name == "index":
            w = fresh("w", Int)
            mem = self.contains(st, o, args[0])
            if not self.bounds(st, Not(mem), "ValueError"): return []
            k = fresh("k", Int); p0 = len(st.pc)
            ek = self.eq(st, self.elem(st, o, k), args[0])
            self.close_facts(st, p0, k, And(0 <= k, k < n))
            st.fact(And(0 <= w, w < n, z3.substitute(ek, (k, w))))
            st.fact(forall(k, Implies(And(0 <= k, k < w), Not(ek))))
            return [(VI(w), st)]
        if name == "count":
            k = fresh("k", Int); p0 = len(st.pc)
            ek = self.eq(st, self.elem(st, o, k), args[0])
            self.close_facts(st, p0, k, And(0 <= k, k < n))
            S = fresh("Cnt", z3.ArraySort(Int, Int))
            d = If(ek, z3.IntVal(1), z3.IntVal(0))
            st.fact(Sel(S, z3.IntVal(0)) == 0)
            st.fact(forall(k, Implies(And(0 <= k, k < n), z3.Select(S, k + 1) == z3.Select(S, k) + d), [z3.Select(S, k + 1)]))
            self.sum_lemmas(st, S, k, d, n, z3.IntVal(0))
            self.sums[S.get_id()] = (S, n, k, d, z3.IntVal(0))
            return [(VI(Sel(S, n)), st)]
        raise Unsupported(f"list.{name}")
    def removed_arr(self, st, A, n, idx):
        B = fresh("rm", A.sort()); i = z3.Int("i!rm")
        st.fact(forall(i, z3.Select(B, i) == If(i < idx, z3.Select(A, i), z3.Select(A, i + 1)), [z3.Select(B, i)]))
        st.fact(forall(i, And(Implies(i < idx, z3.Select(B, i) == z3.Select(A, i)), Implies(i > idx, z3.Select(B, i - 1) == z3.Select(A, i))), [z3.Select(A, i)]))
        k = z3.Int("k!rm"); self.complen[B.get_id()] = plus(n, -1)
        if z3.is_int_value(idx) and idx.as_long() == 0: self.comps[B.get_id()] = (B, plus(n, -1), k, z3.BoolVal(True), z3.Select(A, k + 1))
        else: self.comps[B.get_id()] = (B, n, k, k != idx, z3.Select(A, k))
        return B
    def dict_method(self, d, name, args, kw, st):
        if name in ("keys", "values", "items"): return [(PY(self.dict_seq(st, d, name)), st)]
        if name == "get":
            if d.T[1][0] == "unk": return [(args[1] if len(args) > 1 else NONEV, st)]
            h = self.dict_has(st, d, args[0])
            v = self.dict_val(st, d, self.dkeyterm(st, d, args[0]))
            return [(self.ite(st, h, v, args[1] if len(args) > 1 else NONEV), st)]
        if name == "pop":
            if len(args) == 1: return self.dict_del(d, args[0], st)
            h = self.dict_has(st, d, args[0])
            y = st.fork(); y.branch(Not(h)); st.branch(h)
            out = []
            if self.feasible(y): out.append((args[1], y))
            if self.feasible(st): out += self.dict_del(d, args[0], st)
            return out
        if name == "update": raise Unsupported("dict.update")
        if name == "setdefault":
            h = self.dict_has(st, d, args[0])
            y = st.fork(); y.branch(Not(h)); st.branch(h)
            out = []
            if self.feasible(y): self.dict_set(y, d, args[0], args[1]); out.append((self.dict_val(y, d, self.dkeyterm(y, d, args[0])), y))
            if self.feasible(st): out.append((self.dict_val(st, d, self.dkeyterm(st, d, args[0])), st))
            return out
        raise Unsupported(f"dict.{name}")
    def set_method(self, s, name, args, kw, st):
        if name == "add":
            if s.T[1][0] == "unk": self.hint(s.T[1], args[0].T)
            self.wr(st, "smem:" + tkey(s.T[1]), s.t, z3.Store(self.smem(st, s), self.sterm(st, s.T[1], args[0]), z3.BoolVal(True)))
            return [(NONEV, st)]
        if name in ("issubset", "issuperset"):
            o = args[0] if args[0].T[0] == "set" else self.set_of(st, self.aslist(st, args[0]))
            return [(VB(self.compare(ast.LtE() if name == "issubset" else ast.GtE(), s, o, st)), st)]
        if name in ("union", "intersection", "difference"):
            o = args[0] if args[0].T[0] == "set" else self.set_of(st, self.aslist(st, args[0]))
            return [(self.set_op(st, {"union": ast.BitOr(), "intersection": ast.BitAnd(), "difference": ast.Sub()}[name], s, o), st)]
        raise Unsupported(f"set.{name}")
    def str_method(self, s, name, args, kw, st):
        if name in ("startswith", "endswith"): return [(VB(self.uf("str_" + name, [s.t, args[0].t], Bool)), st)]
        if name in ("lower", "upper", "strip"): return [(V(STR(), self.ufstr(st, "str_" + name, [s.t])), st)]
        if name in ("encode", "hexdigest"): return [(s, st)]
        if name == "join":
            l = self.aslist(st, args[0])
            n = z3.simplify(self.length(st, l))
            if z3.is_int_value(n) and n.as_long() <= 16 and l.T[1][0] == "str":
                a = self.earr(st, l)
                out = []
                for i in range(n.as_long()):
                    if i: out.append(s)
                    out.append(V(STR(), z3.simplify(a[i])))
                return [(self.strcat(st, out), st)]
            return [(V(STR(), self.ufstr(st, "str_join", [s.t, self.length(st, l), self.earr(st, l)])), st)]
        if name == "replace": return [(V(STR(), self.ufstr(st, "str_replace", [s.t, args[0].t, args[1].t])), st)]
        if name == "format": return [(V(STR(), self.ufstr(st, "str_format", [s.t])), st)]
        raise Unsupported(f"str.{name}")
    # ---------------------------------------------------------------- specification evaluation
    def parse_spec(self, e):
        cache = self.__dict__.setdefault("_pcache", {})
        if e not in cache: cache[e] = ast.parse(e.strip(), mode="eval").body
        return cache[e]
    def spec_val(self, e, st, env, fn, old=None, result=None):
        node = self.parse_spec(e) if isinstance(e, str) else e
        so, sr, sfr, senv, scl = self.old, self.result, self.frame, st.env, getattr(self, "_specenv", None)
        self.old, self.result = (old if old is not None else st), result
        self.frame = self.newframe(None, fn.mod if fn is not None else None, fn.cls if fn is not None else None, depth=0)
        st.env = dict(env)
        self._specenv = dict(env)
        self.spec += 1
        try:
            if fn is not None and self.truthctx(node): self.mark_boolctx(node)
            v, x = self.ev1(node, st)
        finally:
            self.spec -= 1
            self.old, self.result, self.frame, self._specenv = so, sr, sfr, scl
            st.env = senv
        if x is not st:
            st.pc = x.pc; st.heap = x.heap; st.alloc = x.alloc; st.wlog = x.wlog
        return v, st
    def truthctx(self, node): return True
    def spec_eval(self, e, st, env, fn, old=None, result=None):
        """boolean specification expression -> z3 Bool (facts are recorded in st)"""
        w = len(st.wlog)
        v, _ = self.spec_val(e, st, env, fn, old, result)
        t = self.truth(st, v)
        return t, st
    def spec_old(self, n, st):
        o = self.old
        asref, self._oldref = getattr(self, "_oldref", False), False
        tmp = o.fork()
        tmp.pc = st.pc
        tmp.env = st.env
        # allocations inside specifications come from the current state
        tmp.alloc = st.alloc
        v, x = self.ev1(n.args[0], tmp)
        st.pc = x.pc
        st.alloc = x.alloc
        if v.T[0] == "list" and v.T[1][0] != "unk" and not asref:
            # a list value denotes its content in the old state: give it a fresh reference holding that content
            ln, A = self.length(x, v), self.earr(x, v)
            null = v.T[2]
            r = self.new_list(st, v.T[1], ln, A)
            if null: raise Unsupported("old() of an optional list")
            r.T = v.T
            return [(r, st)]
        return [(v, st)]
    def spec_implies(self, n, st):
        # implies(a, b, c) : a and b -> c
        e = ast.BoolOp(op=ast.Or(), values=[ast.UnaryOp(op=ast.Not(), operand=a) for a in n.args[:-1]] + [n.args[-1]])
        c = n.__dict__.setdefault("_impl", ast.fix_missing_locations(ast.copy_location(e, n)))
        self.mark_boolctx(c)
        return self.ev(c, st)
    def spec_iff(self, n, st):
        out = []
        for a in n.args: self.mark_boolctx(a)
        for (a, b), x in self.evs(n.args, st): out.append((VB(self.truth(x, a) == self.truth(x, b)), x))
        return out
    def spec_forall(self, n, st): 
        # forall("Type", lambda x: body): quantification over all references of a class / ints / strings
        T = self.types.parse(n.args[0].value, self.frame.mod)
        lam = n.args[1]
        names = [a.arg for a in lam.args.args]
        mk = mark(); p0 = len(st.pc)
        vs = [fresh("v", zsort(T)) for _ in names]
        env = dict(st.env)
        wfs = []
        for nm, v in zip(names, vs):
            st.env[nm] = V(T, v)
            wfs.append(self.wf_term(T, v, self.old.alloc if self.old is not None else st.alloc))
            self.wf_lists_only(st, V(T, v))
        b, x = self.ev1(lam.body, st)
        if x is not st: st.pc = x.pc; st.heap = x.heap; st.alloc = x.alloc
        t = self.truth(st, b)
        st.env = env
        new = st.pc[p0:]; del st.pc[p0:]
        exprs = [t] + [e for _, e in new]
        fc = fresh_consts(exprs, mk)
        for v in vs: fc.pop(v.decl().name(), None)
        sub = []
        for nm, c in fc.items():
            srt = c.sort()
            for v in reversed(vs): srt = z3.ArraySort(v.sort(), srt)
            g = fresh(nm.split("!")[0] + "_q", srt); a = g
            for v in vs: a = z3.Select(a, v)
            sub.append((c, a))
        if sub: exprs = [z3.substitute(e, *sub) for e in exprs]
        rng = And(wfs)
        for e in exprs[1:]:
            st.fact(forall(vs, Implies(rng, e)) if mentions(e, vs) else e)
        return [(VB(forall(vs, Implies(rng, exprs[0]))), st)]
    def wf_lists_only(self, st, v): 
        if v.T[0] == "list": self.list_wf(st, v)
    def spec_distinct(self, n, st):
        (l,), x = self.evs(n.args, st)[0]
        l = self.aslist(x, l)
        if l.T[1][0] == "unk": return [(VB(True), x)]
        i, j = z3.Int("i!ds"), z3.Int("j!ds")
        A, m = self.earr(x, l), self.length(x, l)
        return [(VB(forall([i, j], Implies(And(0 <= i, i < j, j < m), z3.Select(A, i) != z3.Select(A, j)), [z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))])), x)]
    def spec_perm(self, n, st):
        (a, b), x = self.evs(n.args, st)[0]
        a, b = self.aslist(x, a), self.aslist(x, b)
        if a.T[1][0] == "unk": return [(VB(self.length(x, b) == 0), x)]
        if b.T[1][0] == "unk": return [(VB(self.length(x, a) == 0), x)]
        A, m, B, k = self.earr(x, a), self.length(x, a), self.earr(x, b), self.length(x, b)
        # equality of contents implies being a permutation
        q = fresh("q", Int)
        p = self.PERM(A, m, B, k)
        x.fact(Implies(And(m == k, forall(q, Implies(And(0 <= q, q < m), z3.Select(A, q) == z3.Select(B, q)))), p))
        for (C, D, nn) in self.perms:
            # transitivity through known permutations, up to content equality
            for (P_, Q_) in ((C, D), (D, C)):
                q1, q2 = fresh("q", Int), fresh("q", Int)
                x.fact(Implies(And(m == nn, k == nn, forall(q1, Implies(And(0 <= q1, q1 < nn), z3.Select(A, q1) == z3.Select(P_, q1))), forall(q2, Implies(And(0 <= q2, q2 < nn), z3.Select(B, q2) == z3.Select(Q_, q2)))), p))
        # what a known permutation gives
        i = z3.Int("i!pm")
        W = fresh("pw", z3.ArraySort(Int, Int)); W2 = fresh("pv", z3.ArraySort(Int, Int))
        x.fact(Implies(p, And(m == k, forall(i, Implies(And(0 <= i, i < m), And(0 <= z3.Select(W, i), z3.Select(W, i) < k, z3.Select(A, i) == z3.Select(B, z3.Select(W, i)), z3.Select(W2, z3.Select(W, i)) == i)), [z3.Select(A, i)]),
            forall(i, Implies(And(0 <= i, i < m), And(0 <= z3.Select(W2, i), z3.Select(W2, i) < k, z3.Select(B, i) == z3.Select(A, z3.Select(W2, i)), z3.Select(W, z3.Select(W2, i)) == i)), [z3.Select(B, i)]))))
        return [(VB(p), x)]
    def spec_fresh(self, n, st):
        (a,), x = self.evs(n.args, st)[0]
        return [(VB(And(a.t >= self.old.alloc, a.t < x.alloc)), x)]
    def spec_existed(self, n, st):
        (a,), x = self.evs(n.args, st)[0]
        return [(VB(And(a.t >= 1, a.t < self.old.alloc)), x)]
    def spec_ite(self, n, st):
        e = n.__dict__.setdefault("_ife", ast.fix_missing_locations(ast.copy_location(ast.IfExp(test=n.args[0], body=n.args[1], orelse=n.args[2]), n)))
        return self.ev(e, st)
    def spec_same(self, n, st):
        """identity"""
        vs, x = [], st
        for e in n.args:
            self._oldref = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "old"
            try: v, x = self.ev1(e, x)
            finally: self._oldref = False
            vs.append(v)
        a, b = vs
        return [(VB(self.eq(x, a, b, identity=True)), x)]
    def spec_unchanged(self, n, st):
        """unchanged(e): value of e equals its value in the old state (lists: content)"""
        a, x = self.ev1(n.args[0], st)
        [(b, y)] = self.spec_old(ast.Call(func=n.func, args=[n.args[0]], keywords=[]), x)
        return [(VB(self.eq(y, a, b)), y)]
    def spec_isinf(self, n, st):
        (a,), x = self.evs(n.args, st)[0]
        return [(VB(a.t == self.INF), x)]
    def spec_whole(self, n, st):
        (a,), x = self.evs(n.args, st)[0]
        # a fresh witness is sound in both polarities (it only weakens assumptions and strengthens goals)
        return [(VB(a.t == z3.ToReal(fresh("whole", Int)) if a.T[0] == "real" else z3.BoolVal(True)), x)]
    def spec_fn(self, n, st):
        """user specification function: inlined expression"""
        out = []
        for vs, x in self.evs(n.args, st): out += self.spec_call(n.func.id, vs, x)
        return out
    def spec_call(self, name, vs, x):
        f = self.specs[name]
        names = [a.arg for a in f.args.args]
        sv = x.env
        x.env = dict(zip(names, vs))
        d = self.__dict__.setdefault("_specdepth", 0)
        if d > 20: raise Unsupported("recursive specification function")
        self._specdepth = d + 1
        try: v, y = self.ev1(f.body[-1].value, x)
        finally: self._specdepth = d
        x.env = sv
        y.env = dict(sv)
        return [(v, y)]

def core_id(nm):
    from . import core
    return core._ids.get(nm, -1)
def conjuncts(e):
    if z3.is_and(e):
        for c in e.children(): yield from conjuncts(c)
    else: yield e
class TypeErrorCall(Exception): pass
EXCNAMES = {"HTTPException"}
def c_isref(T): return T[0] in ("ref", "list", "dict", "set", "any", "opttup")

"""PyVC symbolic executor: runs a real function body (parsed from /repo) to verification conditions."""
import ast, z3, itertools
from .core import *
from .front import Cls, Func, Mod

EXC_PARENTS = {"IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
    "RuntimeError": "Exception", "AttributeError": "Exception", "TypeError": "Exception", "NotImplementedError": "RuntimeError",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "AssertionError": "Exception", "StopIteration": "Exception",
    "Interrupt": "Exception", "HTTPException": "Exception", "Exception": "BaseException", "StopAsyncIteration": "Exception",
    "UnboundLocalError": "NameError", "NameError": "Exception", "OptimizationFinishedException": "Exception", "ValidationError": "ValueError",
    "AnyException": "Exception", "AnyBase": "BaseException"}
def exc_matches(name, handler):
    while name:
        if name == handler: return True
        name = EXC_PARENTS.get(name, "Exception" if name not in ("Exception", "BaseException") else None if name == "BaseException" else "BaseException")
    return False

class Obl:
    def __init__(self, name, conds, goal, fn, kind="post", info=None):
        self.name, self.conds, self.goal, self.fn, self.kind, self.info = name, conds, goal, fn, kind, info

class Frame:
    __slots__ = ("fn", "mod", "cls", "depth", "loops")
    def __init__(self, fn, mod, cls, depth): self.fn, self.mod, self.cls, self.depth, self.loops = fn, mod, cls, depth, 0

from .exprs import ExprMixin
from .loops import LoopMixin
from .calls import CallMixin
from .gens import GenMixin
from .opaque import OpaqueMixin

class Engine(ExprMixin, LoopMixin, CallMixin, GenMixin, OpaqueMixin):
    MAXPATHS = 4000
    def __init__(self, repo, types, contracts, specs=None, stubs=None):
        self.repo, self.types, self.contracts = repo, types, contracts
        self.specs = specs or {}
        self.stubs = stubs
        self.lits, self.clsids = {"": 0}, {}
        self.CLS = z3.Function("cls_of", Int, Int)
        self.INF = z3.Const("INF", Real)
        self.solver = Solver()
        self.hints = {}
        self.dropped, self.trusted_used, self.assumed = set(), set(), set()
        self.inlined, self.used_contracts = set(), set()
        self.catdefs = {}
        self.reset(None)
    def reset(self, fn):
        self.obls = []
        self.sink = []
        self.spec = 0
        self.frame = None
        self.base_alloc = {}
        MAPB.clear()
        self.alloc0 = z3.Const("alloc0", Int)
        self.comps, self.sums, self.complen = {}, {}, {}
        self.entry_env, self.entry_old = {}, None
        self.perms = []
        self.npaths = 0
        self.cur = fn
        self.poison = set()     # locals whose value the loop rules gave up on: reading them is unsupported, not unbound
        self.old = None
        self.result = None
        self.noprune = 0
        self.ufs = {}
    # ---------------------------------------------------------------- literals / classes
    def lit(self, s):
        if s not in self.lits: self.lits[s] = len(self.lits)
        return z3.IntVal(self.lits[s])
    def SLit(self, s): return V(STR(), self.lit(s))
    def cid(self, c):
        if c not in self.clsids: self.clsids[c] = len(self.clsids) + 1
        return self.clsids[c]
    def concrete(self, c):
        r = [x for x in [c] + c.all_subs() if not self.is_abstract(x)]
        return r or [c]
    def is_abstract(self, c):
        if c.name in self.types.abstract: return True
        for k in c.mro():
            for n, m in k.methods.items():
                if m.is_abstract and c.find(n) is m: return True
        return False
    def classes_of(self, T):
        out = []
        for c in T[1]:
            for x in self.concrete(c):
                if x not in out: out.append(x)
        return out
    def has_cls(self, t, classes):
        return Or([self.CLS(t) == self.cid(c) for c in classes])
    # ---------------------------------------------------------------- heap
    def hmap(self, st, key, rng):
        m = st.heap.get(key)
        if m is None:
            e, al = st.epoch
            nm = f"H{e}.{key}"
            m = z3.Const(nm, z3.ArraySort(Int, rng))
            self.base_alloc.setdefault(nm, al if al is not None else self.alloc0)
            note_map(nm, key, self.base_alloc[nm])
            st.heap[key] = m
        return m
    def newmap(self, key, rng, alloc):
        c = fresh("M." + key, z3.ArraySort(Int, rng))
        self.base_alloc[c.decl().name()] = alloc
        note_map(c.decl().name(), key, alloc)
        return c
    def bases(self, m):
        out, todo = [], [m]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE: todo.append(x.arg(0))
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: todo += [x.arg(1), x.arg(2)]
            else: out.append(x)
        return out
    def wr(self, st, key, idx, val):
        m = self.hmap(st, key, val.sort())
        st.heap[key] = z3.Store(m, idx, val)
        st.wlog.append(("set", key, idx, val))
    def alloc(self, st, cls=None):
        r = st.alloc
        st.alloc = plus(r, 1)
        if cls is not None: st.fact(self.CLS(r) == self.cid(cls))
        return r
    # ---- well-formedness of a value of static type T
    def wf_term(self, T, t, alloc):
        k = T[0]
        if k in ("ref", "list", "dict", "set"): note_bound(t, alloc)
        if k == "ref":
            c = And(t >= 1, t < alloc, self.has_cls(t, self.classes_of(T)))
            return Or(t == NONE, c) if T[2] else c
        if k in ("list", "dict", "set"):
            c = And(t >= 1, t < alloc)
            return Or(t == NONE, c) if nullable(T) else c
        if k == "str":
            return t >= -1 if T[1] else t >= 0
        return z3.BoolVal(True)
    def wf(self, st, v):
        if v.T[0] in ("ref", "list", "dict", "set", "str"):
            st.fact(self.wf_term(v.T, v.t, st.alloc))
            if v.T[0] == "list": self.list_wf(st, v)
            if v.T[0] == "dict": self.dict_wf(st, v)
        elif v.T[0] == "tuple":
            for x in v.t: self.wf(st, x)
        return v
    def list_wf(self, st, v):
        et = v.T[1]
        if et[0] == "unk": return
        L = self.hmap(st, "len:" + tkey(et), Int)
        n = Sel(L, v.t)
        st.fact(And(n >= 0, n <= 10 ** 9))
        for b in self.bases(L):
            if not b.eq(L): st.fact(And(z3.Select(b, v.t) >= 0, z3.Select(b, v.t) <= 10**9))
        # element typing of every base element map (quantified once per list reference)
        if et[0] in ("ref", "list", "str", "dict", "set"):
            E = self.hmap(st, "elt:" + tkey(et), z3.ArraySort(Int, Int))
            for b in self.bases(E):
                al = self.base_alloc.get(b.decl().name()) if z3.is_const(b) else None
                if al is None: continue
                i = z3.Int("i!wf")
                e = z3.Select(z3.Select(b, v.t), i)
                body = self.wf_term(et, e, al)
                # also element lists have non-negative length
                if et[0] == "list" and et[1][0] != "unk":
                    L2 = self.hmap(st, "len:" + tkey(et[1]), Int)
                    for b2 in self.bases(L2): body = And(body, z3.Select(b2, e) >= 0)
                f = forall(i, body, [e])
                st.fact(f)
    def rd(self, st, key, ref, T):
        """read one heap cell as a value of type T with typing facts"""
        if T[0] == "opt":
            n = Sel(self.hmap(st, key + "#n", Bool), ref)
            v = self.rd(st, key, ref, T[1])
            return V(T, (n, v))
        if T[0] == "tuple":
            # immutable box
            b = Sel(self.hmap(st, key, Int), ref)
            return self.unbox(st, T, b)
        if T[0] == "opttup":
            b = Sel(self.hmap(st, key, Int), ref)
            return V(T, b)
        m = self.hmap(st, key, zsort(T))
        v = V(T, Sel(m, ref))
        if T[0] in ("ref", "list", "dict", "set", "str"):
            for b in self.bases(m):
                al = self.base_alloc.get(b.decl().name()) if z3.is_const(b) else None
                if al is not None: st.fact(self.wf_term(T, z3.Select(b, ref), al))
            self.wf(st, v)
        return v
    def box(self, st, v):
        r = self.alloc(st)
        for i, x in enumerate(v.t):
            self.wr_val(st, f"tb{i}:{tkey(x.T)}", r, x)
        return r
    def unbox(self, st, T, b):
        st.fact(And(b >= 1, b < st.alloc))
        return V(T, [self.rd(st, f"tb{i}:{tkey(x)}", b, x) for i, x in enumerate(T[1])])
    def wr_val(self, st, key, ref, v):
        if v.T[0] == "opt":
            self.wr(st, key + "#n", ref, v.t[0]); self.wr(st, key, ref, v.t[1].t)
        elif v.T[0] == "tuple":
            self.wr(st, key, ref, self.box(st, v))
        elif v.T[0] == "py":
            raise Unsupported(f"storing python-level value {v.t} in the heap")
        elif v.T[0] == "none":
            self.wr(st, key, ref, NONE)
        else: self.wr(st, key, ref, v.t)
    def fkey(self, cls, name, T):
        # one map per (field name, type kind)
        return f"f:{name}:{tkey(T)}"
    def field_get(self, st, ref, cls, name, T):
        v = self.rd(st, self.fkey(cls, name, T), ref, T)
        if T[0] == "str":
            vals = self.types.field_values(cls, name)
            if vals and len(vals) <= 40: st.fact(self.member_of(v.t, vals))
        return v
    def member_of(self, t, vals):
        return Or([t == NONE] + [t == self.SLit(x).t for x in vals])
    def field_set(self, st, ref, cls, name, T, v):
        v = self.coerce(st, v, T)
        self.wr_val(st, self.fkey(cls, name, T), ref, v)
    # ---------------------------------------------------------------- coercion / ite / equality / truth
    def coerce(self, st, v, T):
        if v.T == T: return v
        k, s = T[0], v.T[0]
        if k == "any":
            if s == "py": raise Unsupported("python-level value where a heap value is needed")
            if s == "none": return V(T, NONE)
            if s == "opt" or s in ("real", "bool"): return V(T, self.uf("any_of_" + s, [v.t[1].t if s == "opt" else v.t], Int))
            if s == "tuple": return V(T, self.box(st, v))
            return V(T, v.t)
        if k == "real" and s == "int": return V(T, z3.ToReal(v.t) if not z3.is_int_value(v.t) else z3.RealVal(v.t.as_long()))
        if k == "real" and s == "bool": return V(T, If(v.t, z3.RealVal(1), z3.RealVal(0)))
        if k == "int" and s == "bool": return V(T, If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if k == "opt":
            if s == "none": return V(T, (z3.BoolVal(True), self.default(T[1])))
            if s == "opt":
                return V(T, (v.t[0], self.coerce(st, v.t[1], T[1])))
            return V(T, (z3.BoolVal(False), self.coerce(st, v, T[1])))
        if s == "opt": return self.coerce(st, v.t[1], T)       # narrowing: only reached after a None test
        if s == "none":
            if k in ("ref", "list", "str", "dict", "set", "opttup", "none"): return V(T, NONE) if k != "none" else v
            if self.spec: return self.default(T)
            raise Unsupported(f"None where {show(T)} expected")
        if k == "ref" and s == "ref": return V(T, v.t)
        if k == "str" and s == "str": return V(T, v.t)
        if k == "list" and s == "list":
            if v.T[1][0] == "unk": self.hint(v.T[1], T[1])
            if T[1][0] == "unk": return v
            if tkey(T[1]) != tkey(v.T[1]):
                if v.T[1][0] == "any" or T[1][0] == "any": raise Unsupported(f"list element types {show(v.T)} / {show(T)}")
                if T[1][0] == "real" and v.T[1][0] == "int": raise Unsupported("list[int] as list[float]")
                raise Unsupported(f"list element types {show(v.T)} / {show(T)}")
            return V(T, v.t)
        if k == "dict" and s == "dict":
            if v.T[1][0] == "unk": self.hint(v.T[1], T[1:3])
            return V(T, v.t)
        if k == "set" and s == "set":
            if v.T[1][0] == "unk": self.hint(v.T[1], T[1])
            return V(T, v.t)
        if k == "tuple" and s == "tuple" and len(T[1]) == len(v.t):
            return V(T, [self.coerce(st, x, t) for x, t in zip(v.t, T[1])])
        if k == "opttup" and s == "tuple": return V(T, self.box(st, self.coerce(st, v, T[1])))
        if k == "tuple" and s == "opttup": return self.unbox(st, T, v.t)
        if s == "any":
            self.assumed.add(f"dynamically typed value used as {show(T)}")
            if k in ("real", "bool"): return V(T, self.uf(f"any_to_{k}", [v.t], zsort(T)))
            if k == "tuple": return self.unbox(st, T, v.t)
            return self.wf(st, V(T, v.t))
        if k == "bool" : return VB(self.truth(st, v))
        if k == "list" and s == "py" and isinstance(v.t, Seq): return self.coerce(st, self.materialize(st, v.t), T)
        if k == "list" and s == "tuple": return self.coerce(st, self.list_lit(st, v.t, None, T[1]), T)
        if k == "int" and s == "real": raise Unsupported("float used as int")
        raise Unsupported(f"cannot use {show(v.T) if s != 'py' else 'py:' + str(v.t)} as {show(T)}")
    def hint(self, unk, T):
        cell = unk[1]
        old = self.hints.get(cell)
        if T == old or (isinstance(T, tuple) and T and T[0] == "unk"): raise Unsupported("type inference of list literal does not settle")
        if old is not None and isinstance(old[0], str): T = unify(old, T)
        self.hints[cell] = T
        raise Restart()
    def default(self, T):
        return V(T, {"int": z3.IntVal(0), "real": z3.RealVal(0), "bool": z3.BoolVal(False)}.get(T[0], NONE))
    def ite(self, st, c, a, b):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if a.T[0] == "py" and b.T[0] == "py":
            if a.t is b.t: return a
            raise Unsupported("conditional python-level value")
        if a.T[0] == "none" and b.T[0] == "none": return a
        T = unify(a.T, b.T)
        if a.T[0] == "list" and a.T[1][0] == "unk" and b.T[0] == "list" and b.T[1][0] != "unk": self.hint(a.T[1], b.T[1])
        if b.T[0] == "list" and b.T[1][0] == "unk" and a.T[0] == "list" and a.T[1][0] != "unk": self.hint(b.T[1], a.T[1])
        x, y = self.coerce(st, a, T), self.coerce(st, b, T)
        if T[0] == "opt": return V(T, (If(c, x.t[0], y.t[0]), V(T[1], If(c, x.t[1].t, y.t[1].t))))
        if T[0] == "tuple": return V(T, [self.ite(st, c, p, q) for p, q in zip(x.t, y.t)])
        return V(T, If(c, x.t, y.t))
    def isnone(self, v):
        if v.T[0] == "none": return z3.BoolVal(True)
        if v.T[0] == "opt": return v.t[0]
        if v.T[0] in ("any", "opttup") or nullable(v.T): return v.t == NONE
        return z3.BoolVal(False)
    def truth(self, st, v):
        k = v.T[0]
        if k == "bool": return v.t
        if k == "none": return z3.BoolVal(False)
        if k in ("int", "real"): return v.t != 0
        if k == "opt": return And(Not(v.t[0]), self.truth(st, v.t[1]))
        if k == "str": return And(v.t != 0, v.t != NONE) if v.T[1] else v.t != 0
        if k == "ref": return v.t != NONE if v.T[2] else z3.BoolVal(True)
        if k == "list":
            n = self.length(st, v)
            return And(v.t != NONE, n > 0) if v.T[2] else n > 0
        if k == "dict":
            n = self.dlen(st, v)
            return And(v.t != NONE, n > 0) if v.T[3] else n > 0
        if k == "set": return self.uf("nonempty", [self.smem(st, v)], Bool)
        if k == "tuple": return z3.BoolVal(len(v.t) > 0)
        if k == "any": return And(v.t != NONE, self.uf("any_true", [v.t], Bool))
        if k == "opttup": return v.t != NONE
        if k == "py":
            if isinstance(v.t, Seq): return v.t.n > 0
            return z3.BoolVal(True)
        raise Unsupported(f"truth of {v.T}")
    def uf(self, name, args, rng):
        key = (name, tuple(str(a.sort()) for a in args), str(rng))
        if key not in self.ufs: self.ufs[key] = z3.Function(name, *[a.sort() for a in args], rng)
        return self.ufs[key](*args)
    def eq(self, st, a, b, identity=False):
        ka, kb = a.T[0], b.T[0]
        if ka == "none" or kb == "none":
            return self.isnone(b if ka == "none" else a)
        if ka == "py" and kb == "py":
            if isinstance(a.t, Seq) or isinstance(b.t, Seq):
                return self.eq(st, self.materialize(st, a.t), self.materialize(st, b.t))
            return z3.BoolVal(a.t is b.t or a.t == b.t)
        if ka == "py" and isinstance(a.t, Seq): return self.eq(st, self.materialize(st, a.t), b)
        if kb == "py" and isinstance(b.t, Seq): return self.eq(st, a, self.materialize(st, b.t))
        if ka == "py" or kb == "py": return z3.BoolVal(False)
        if ka == "opt" and kb == "opt":
            return Or(And(a.t[0], b.t[0]), And(Not(a.t[0]), Not(b.t[0]), self.eq(st, a.t[1], b.t[1])))
        if ka == "opt": return And(Not(a.t[0]), self.eq(st, a.t[1], b))
        if kb == "opt": return And(Not(b.t[0]), self.eq(st, a, b.t[1]))
        num = ("int", "real", "bool")
        if ka in num and kb in num:
            if ka == kb: return a.t == b.t
            T = REAL if "real" in (ka, kb) else INT
            return self.coerce(st, a, T).t == self.coerce(st, b, T).t
        if ka == "tuple" and kb == "tuple":
            if len(a.t) != len(b.t): return z3.BoolVal(False)
            return And([self.eq(st, x, y, identity) for x, y in zip(a.t, b.t)])
        if ka == "tuple" and kb == "opttup": return And(b.t != NONE, self.eq(st, a, self.unbox(st, b.T[1], b.t)))
        if kb == "tuple" and ka == "opttup": return self.eq(st, b, a)
        if ka == "list" and kb == "list":
            if identity: return a.t == b.t
            return self.list_eq(st, a, b)
        if ka == "list" and kb == "tuple": return z3.BoolVal(False)
        if ka == "dict" and kb == "dict" and not identity: return self.dict_eq(st, a, b)
        if ka == "set" and kb == "set" and not identity: return self.smem(st, a) == self.smem(st, b)
        if ka == kb or "any" in (ka, kb):
            if ka in num or kb in num:
                x = self.coerce(st, a, ANY); y = self.coerce(st, b, ANY)
                return x.t == y.t
            if ka == "tuple" or kb == "tuple": raise Unsupported("tuple compared with dynamically typed value")
            return a.t == b.t
        return z3.BoolVal(False)      # values of unrelated types never compare equal
    # ---------------------------------------------------------------- statements
    def feasible(self, st):
        if self.spec: return True
        c = st.conds()
        if any(z3.is_false(x) for x in c): return False
        return self.solver.feasible(c)
    def raise_(self, st, exc):
        """register an exceptional outcome"""
        if self.spec: return
        if self.feasible(st): self.sink.append(("raise", st, exc))
    def exec_block(self, body, st):
        outs, live = [], [st]
        for s in body:
            nxt = []
            if len(live) > 1 and isinstance(s, (ast.While, ast.For)) and self.cur is not None and self.cur.is_gen and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)):
                j = self.join_states(live)
                if j is not None: live = [j]
            for x in live:
                for o in self.exec_stmt(s, x):
                    if o[0] == "norm": nxt.append(o[1])
                    else: outs.append(o)
            live = nxt
            self.npaths = max(self.npaths, len(live))
            if len(live) + len(outs) > self.MAXPATHS: raise Unsupported("too many paths")
            if not live: break
        return outs + [("norm", x) for x in live]
    def exec_stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None: raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")
        saved, self.sink = self.sink, []
        try:
            outs = self.opq_stmt(s, st) if self.opq else None
            if outs is None: outs = m(s, st)
            return outs + self.sink
        finally:
            self.sink = saved
    def st_Pass(self, s, st): return [("norm", st)]
    def st_Import(self, s, st): return [("norm", st)]
    def st_ImportFrom(self, s, st):
        """local import of names of the repository"""
        for a in s.names:
            m = self.repo.mods.get(s.module) if s.module and not s.level else None
            r = self.repo.resolve_name(m, a.name) if m is not None else None
            if isinstance(r, (Cls, Func)): st.env[a.asname or a.name] = PY(r)
        return [("norm", st)]
    st_Global = st_Nonlocal = st_Import
    def st_FunctionDef(self, s, st):
        st.env[s.name] = PY(("localfn", s, st.env, self.frame))
        return [("norm", st)]
    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant): return [("norm", st)]
        if isinstance(s.value, ast.Yield):
            r = self.cm_yield(s.value, st)
            if r is not None: return r
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)) or (isinstance(s.value, ast.Await)):
            return [("norm", x) for _, x in self.do_yield(s.value, st)]
        return [("norm", x) for _, x in self.ev(s.value, st)]
    def st_Return(self, s, st):
        if s.value is None: return [("ret", st, NONEV)]
        return [("ret", x, v) for v, x in self.ev(s.value, st)]
    def st_Break(self, s, st): return [("brk", st)]
    def st_Continue(self, s, st): return [("cont", st)]
    def st_Assert(self, s, st):
        outs = []
        for v, x in self.ev(s.test, st):
            t = self.truth(x, v)
            bad = x.fork(); bad.branch(Not(t)); self.raise_(bad, "AssertionError")
            x.branch(t)
            if self.feasible(x): outs.append(("norm", x))
        return outs
    def st_If(self, s, st):
        outs = []
        if ast.unparse(s.test) in ("TYPE_CHECKING", "typing.TYPE_CHECKING"): return [("norm", st)]
        for v, x in self.ev(s.test, st):
            c = z3.simplify(self.truth(x, v))
            for cond, body in ((c, s.body), (z3.simplify(Not(c)), s.orelse)):
                if z3.is_false(cond): continue
                y = x.fork()
                y.branch(cond)
                if not z3.is_true(cond) and not self.feasible(y): continue
                outs += self.exec_block(body, y)
        return outs
    def st_Assign(self, s, st):
        outs = []
        if isinstance(s.value, (ast.Yield, ast.YieldFrom, ast.Await)): res = self.do_yield(s.value, st)
        else: res = self.ev(s.value, st)
        for v, x in res:
            xs = [x]
            for t in s.targets:
                xs = [y for z in xs for y in self.assign(t, v, z)]
            outs += [("norm", y) for y in xs]
        return outs
    def st_AnnAssign(self, s, st):
        if s.value is None: return [("norm", st)]
        outs = []
        T = None
        try: T = self.types.ann(s.annotation, self.frame.mod)
        except Exception: T = None
        val = s.value
        if isinstance(val, (ast.Yield, ast.YieldFrom)): res = self.do_yield(val, st)
        else: res = self.ev(val, st)
        for v, x in res:
            if T and T[0] in ("list", "dict", "set") and v.T[0] == T[0] and v.T[1][0] == "unk" and "any" not in str(T): v = self.coerce(x, v, T)
            outs += [("norm", y) for y in self.assign(s.target, v, x)]
        return outs
    def st_AugAssign(self, s, st):
        outs = []
        load = ast.copy_location(self._as_load(s.target), s.target)
        if isinstance(s.target, ast.Name) or isinstance(s.target, ast.Attribute) or isinstance(s.target, ast.Subscript):
            for a, x in self.ev(load, st):
                for b, y in self.ev(s.value, x):
                    if a.T[0] == "list" and isinstance(s.op, ast.Add):       # in-place extend
                        self.list_extend(y, a, b)
                        outs += [("norm", y)]
                        continue
                    if a.T[0] == "set" and isinstance(s.op, ast.BitOr):
                        raise Unsupported("set |=")
                    for v, z in self.binop(s.op, a, b, y):
                        outs += [("norm", w) for w in self.assign(s.target, v, z)]
            return outs
        raise Unsupported("augmented assignment target")
    def _as_load(self, t):
        import copy
        c = copy.deepcopy(t)
        for n in ast.walk(c):
            if hasattr(n, "ctx"): n.ctx = ast.Load()
        # keep hint identity stable: nodes are re-created, no literals inside targets
        return c
    def assign(self, t, v, st):
        """returns list of states"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            outs = []
            for o, x in self.ev(t.value, st):
                outs += self.setattr(o, t.attr, v, x)
            return outs
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported("starred assignment")
            items = self.unpack(st, v, len(t.elts))
            xs = [st]
            for e, i in zip(t.elts, items):
                xs = [y for x in xs for y in self.assign(e, i, x)]
            return xs
        if isinstance(t, ast.Subscript):
            outs = []
            for o, x in self.ev(t.value, st):
                for i, y in self.ev(t.slice, x) if not isinstance(t.slice, ast.Slice) else [(None, x)]:
                    if i is None: raise Unsupported("slice assignment")
                    outs += self.setitem(o, i, v, y)
            return outs
        raise Unsupported("assignment target")
    def unpack(self, st, v, n):
        if v.T[0] == "opttup": v = self.unbox(st, v.T[1], v.t)
        if v.T[0] == "tuple":
            if len(v.t) != n: raise Unsupported("tuple arity")
            return v.t
        if v.T[0] == "list":
            ln = self.length(st, v)
            bad = st.fork(); bad.branch(ln != n); self.raise_(bad, "ValueError")
            st.branch(ln == n)
            return [self.elem(st, v, z3.IntVal(i)) for i in range(n)]
        raise Unsupported(f"unpacking {v.T}")
    def st_Delete(self, s, st):
        xs = [st]
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                nx = []
                for z in xs:
                    for o, x in self.ev(t.value, z):
                        for i, y in self.ev(t.slice, x):
                            nx += [w for _, w in self.delitem(o, i, y)]
                xs = nx
            elif isinstance(t, ast.Name):
                for z in xs: z.env.pop(t.id, None)
            else: raise Unsupported("del")
        return [("norm", x) for x in xs]
    def st_Raise(self, s, st):
        if s.exc is None:
            e = st.env.get("__exc__")
            return [("raise", st, e.t if e else "Exception")]
        e = s.exc
        name = None
        st2s = [st]
        if isinstance(e, ast.Call):
            name = ast.unparse(e.func).split(".")[-1]
            # arguments: evaluate only those containing repository calls (effects)
            for a in e.args:
                if self.has_repo_call(a): st2s = [y for x in st2s for _, y in self.ev(a, x)]
        elif isinstance(e, (ast.Name, ast.Attribute)):
            name = ast.unparse(e).split(".")[-1]
            if name in st.env and st.env[name].T[0] == "py" and isinstance(st.env[name].t, str): name = st.env[name].t
        elif isinstance(e, ast.Constant): name = "TypeError"
        else: name = "TypeError"
        return [("raise", x, name) for x in st2s]
    def has_repo_call(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                f = ast.unparse(x.func)
                if f in ("str", "len", "type", "repr", "list", "int", "round", "format", "float") or f.endswith((".join", ".format", ".keys", ".items", ".values")): continue
                return True
        return False
    def st_Try(self, s, st):
        outs = []
        inner = self.exec_block(s.body, st)
        handled = []
        for o in inner:
            if o[0] != "raise":
                if o[0] == "norm" and s.orelse: handled += self.exec_block(s.orelse, o[1])
                else: handled.append(o)
                continue
            for h in s.handlers:
                names = ["BaseException"] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(exc_matches(o[2], nm) for nm in names):
                    x = o[1]
                    prev = x.env.get("__exc__")
                    x.env["__exc__"] = PY(o[2])
                    if h.name: x.env[h.name] = PY(o[2])
                    for r in self.exec_block(h.body, x):
                        if prev is None: r[1].env.pop("__exc__", None)
                        else: r[1].env["__exc__"] = prev
                        handled.append(r)
                    break
            else: handled.append(o)
        if not s.finalbody: return handled
        for o in handled:
            for r in self.exec_block(s.finalbody, o[1]):
                if r[0] == "norm": outs.append((o[0], r[1]) + tuple(o[2:]))
                else: outs.append(r)
        return outs
    def st_With(self, s, st):
        live, outs = [st], []
        for it in s.items:
            nx = []
            for x in live:
                for v, y in self.ev(it.context_expr, x):
                    if v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "gen" and self.is_ctxmgr(v.t[1]):
                        if len(s.items) > 1: raise Unsupported("several context managers in one statement")
                        outs += self.ctx_manager(v.t, it, s, y); continue
                    self.dropped.add(f"context manager protocol of {ast.unparse(it.context_expr)}")
                    if it.optional_vars is not None: nx += self.assign(it.optional_vars, v, y)
                    else: nx.append(y)
            live = nx
        for x in live: outs += self.exec_block(s.body, x)
        return outs
    def st_For(self, s, st): return self.for_loop(s, st)
    def st_While(self, s, st): return self.while_loop(s, st)

"""Concrete layer: executes the real functions under /repo on generated heaps and evaluates the same contracts in Python.
Runs under the repository's interpreter.  Used to replay / search failing inputs; nothing here counts as proof."""
import ast, os, sys, random, importlib, math, types as _t, itertools, logging, warnings, traceback, inspect
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.base import Base, HERE
from pyvc.types import *
from pyvc.front import REPO, Cls

sys.path.insert(0, REPO)
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)

class ConcTypes(Types):
    def enum_type(self, c): return ("enum", c, False)
    def literal_type(self, args, mod):
        vals = []
        for a in args:
            if isinstance(a, ast.Constant): vals.append(("c", a.value))
            elif isinstance(a, ast.Attribute):
                r = self.repo.resolve_expr(mod, a.value)
                if isinstance(r, Cls): vals.append(("e", r, a.attr))
        return ("lit", tuple(vals), False)

import pyvc.types as PT
_unify, _opt, _nonnull, _nullable = PT.unify, PT.OPT, PT.nonnull, PT.nullable
def OPT2(t): return (t[0], t[1], True) if t[0] in ("enum", "lit") else _opt(t)
def nonnull2(t): return (t[0], t[1], False) if t[0] in ("enum", "lit") else _nonnull(t)
def nullable2(t): return t[2] if t[0] in ("enum", "lit") else _nullable(t)
def unify2(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] in ("enum", "lit") and y[0] not in ("none",):
            if x[0] == y[0] == "lit": return ("lit", x[1] + y[1], x[2] or y[2])
            return x
    return _unify(a, b)
PT.OPT, PT.nonnull, PT.nullable, PT.unify = OPT2, nonnull2, nullable2, unify2
OPT, nonnull, nullable, unify = OPT2, nonnull2, nullable2, unify2

class ConcBase(Base):
    TYPES = ConcTypes

class Reject(Exception): pass
class Skip(Exception): pass

W = None
def world():
    global W
    if W is None: W = ConcWorld()
    return W

STR_POOL = ["P1", "P10", "P", "A", "AB", "B", "P1_x"]
INTS = [0, 1, 1, 2, 2, 3, 4, 5]
REALS = [0.0, 1.0, 1.0, 2.0, 2.5, 3.0, 4.0, 0.5, 7.0, 10.0]
inf = float("inf")

class ConcWorld:
    def __init__(self):
        import simpy, simpy.events as se
        self.simpy = simpy
        self.base = ConcBase()
        self.types, self.reg, self.repo = self.base.types, self.base.reg, self.base.repo
        self.real = {}           # Cls -> python class
        self.back = {}           # python class -> Cls
        self.cur = None          # active Gen
        se.Condition.events = property(lambda s: list(s._events))
        se.Timeout.delay = property(lambda s: s._delay)
        if not hasattr(se.Process, "_orig_interrupt"):
            se.Process._orig_interrupt = se.Process.interrupt
            def interrupt(s, cause=None):
                s.interrupts = getattr(s, "interrupts", 0) + 1
                return se.Process._orig_interrupt(s, cause)
            se.Process.interrupt = interrupt
        self.spec_cache = {}
        self.classns = {}
        self.loaded = set()
    # ------------------------------------------------------------------ modules / classes
    def module(self, mod):
        if mod.modname in self.loaded: return sys.modules[mod.modname]
        m = importlib.import_module(mod.modname)
        self.loaded.add(mod.modname)
        for c in mod.classes.values():
            p = getattr(m, c.name, None)
            if isinstance(p, type) and p.__module__ == mod.modname: self.bind(c, p)
        return m
    def bind(self, c, p):
        self.real[c] = p; self.back[p] = c
        if c.is_enum: return
        orig = p.__dict__.get("__getattr__") or getattr(p, "__getattr__", None)
        if getattr(orig, "_lazy", False): return
        def lazy(s, name, orig=orig, W=self):
            G = W.cur
            if G is not None and not name.startswith("__"):
                ok, v = G.lazy(s, name)
                if ok: return v
            if orig is not None: return orig(s, name)
            raise AttributeError(f"{type(s).__name__} object has no attribute {name}")
        lazy._lazy = True
        p.__getattr__ = lazy
    def cls(self, c):
        if c not in self.real:
            if c.mod.modname == "stubs__": return None
            self.module(c.mod)
        return self.real.get(c)
    def cls_of(self, o):
        t = type(o)
        for k in t.__mro__:
            if k in self.back: return self.back[k]
            c = self.repo.mods.get(k.__module__)
            if c is not None and k.__name__ in c.classes:
                self.module(c); return self.back.get(k)
        return None
    def concrete(self, c):
        out = []
        for x in [c] + c.all_subs():
            if x.name in self.types.abstract: continue
            ab = any(m.is_abstract and x.find(n) is m for k in x.mro() for n, m in k.methods.items())
            if not ab and x not in out: out.append(x)
        return out or [c]
    def func(self, f):
        m = self.module(f.mod)
        if f.cls is None: return getattr(m, f.name)
        k = getattr(m, f.cls.name)
        return k.__dict__[f.name]
    # ------------------------------------------------------------------ specification evaluation
    def ns(self, fn):
        key = fn.mod.modname if fn is not None else ""
        if key in self.classns: return self.classns[key]
        d = {}
        for nm, cs in self.repo.classes.items():
            c = self.repo.cls(nm)
            d[nm] = ("cls", c)
        if fn is not None:
            m = self.module(fn.mod)
            for k, v in vars(m).items():
                if not k.startswith("__"): d[k] = v
        self.classns[key] = d
        return d
    def compile(self, e):
        if e not in self.spec_cache:
            node = Rewrite().visit(ast.parse(e.strip(), mode="eval"))
            ast.fix_missing_locations(node)
            self.spec_cache[e] = compile(node, f"<spec {e[:60]}>", "eval")
        return self.spec_cache[e]
    def specfns(self):
        if not hasattr(self, "_sf"):
            self._sf = {}
            for nm, n in self.reg.specs.items():
                n2 = ast.parse(ast.unparse(n)).body[0]
                n2.returns = None
                for a in n2.args.args: a.annotation = None
                n2 = Rewrite().visit(n2)
                m = ast.fix_missing_locations(ast.Module([n2], []))
                self._sf[nm] = compile(m, f"<spec {nm}>", "exec")
        return self._sf
    def env(self, fn, names, G, result=None):
        d = LazyNS(self, self.ns(fn))
        d.update({"implies": None, "same": same, "distinct": distinct, "perm": perm, "iff": lambda a, b: bool(a) == bool(b),
            "isinf": lambda x: x == inf, "whole": lambda x: x == inf or float(x).is_integer() if x != inf else False, "result": result, "ite": None,
            "__cmp": cmpf, "__old": G.old_eval, "fresh": G.fresh, "existed": lambda x: not G.fresh(x), "__unchanged": lambda f: cmpf("==", f(), G.old_eval(f)),
            "forall": G.forall_, "inf": inf, "exists": G.exists_})
        for nm, code in self.specfns().items():
            loc = {}
            exec(code, d, loc)
            d[nm] = loc[nm]
        d.update(names)
        d["result"] = result
        return d
    def ev(self, e, env): return eval(self.compile(e), env)

class LazyNS(dict):
    def __init__(self, w, base): self.w, self.base = w, base
    def __missing__(self, k):
        v = self.base.get(k, KeyError)
        if v is KeyError:
            if k in __builtins__ if isinstance(__builtins__, dict) else hasattr(__builtins__, k):
                return __builtins__[k] if isinstance(__builtins__, dict) else getattr(__builtins__, k)
            raise NameError(k)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "cls":
            v = self.w.cls(v[1])
            if v is None:
                v = stub_real(k)
        return v
def stub_real(k):
    import simpy, simpy.events as se, simpy.resources.store as ss, simpy.resources.resource as sr
    return {"SimEvent": se.Event, "SimTimeout": se.Timeout, "SimProcess": se.Process, "AllOf": se.AllOf, "AnyOf": se.AnyOf, "SimEnvironment": simpy.Environment,
            "FilterStore": ss.FilterStore, "SimResource": sr.Resource, "SimRequest": sr.Request, "StorePut": ss.StorePut, "FilterStoreGet": ss.FilterStoreGet}.get(k)

class Rewrite(ast.NodeTransformer):
    def visit_Call(self, n):
        f = n.func.id if isinstance(n.func, ast.Name) else None
        if f == "old": 
            self.generic_visit(n)
            return ast.Call(ast.Name("__old", ast.Load()), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.args[0])], [])
        if f == "unchanged":
            self.generic_visit(n)
            return ast.Call(ast.Name("__unchanged", ast.Load()), [ast.Lambda(ast.arguments([], [], None, [], [], None, []), n.args[0])], [])
        self.generic_visit(n)
        if f == "implies":
            return ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), a) for a in n.args[:-1]] + [n.args[-1]])
        if f == "ite": return ast.IfExp(n.args[0], n.args[1], n.args[2])
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if not any(isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops): return n
        parts, l = [], n.left
        sy = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
        for o, r in zip(n.ops, n.comparators):
            if type(o) in sy: parts.append(ast.Call(ast.Name("__cmp", ast.Load()), [ast.Constant(sy[type(o)]), l, r], []))
            else: parts.append(ast.Compare(l, [o], [r]))
            l = r
        return parts[0] if len(parts) == 1 else ast.BoolOp(ast.And(), parts)

def isnum(x): return isinstance(x, (int, float)) and not isinstance(x, bool) or hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0
def approx(a, b):
    if a == b: return True
    try: return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    except Exception: return False
def cmpf(op, a, b):
    if isnum(a) and isnum(b) and (isinstance(a, float) or isinstance(b, float) or hasattr(a, "dtype") or hasattr(b, "dtype")):
        if op == "==": return approx(a, b)
        if op == "!=": return not approx(a, b)
        if op in ("<=", ">=") and approx(a, b): return True
        if op in ("<", ">") and approx(a, b): return False
    if op == "==": return eqv(a, b)
    if op == "!=": return not eqv(a, b)
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
def eqv(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(cmpf("==", x, y) for x, y in zip(a, b))
    if isinstance(a, type({}.values())) or isinstance(a, type({}.keys())): a = list(a)
    if a is b: return True
    if world().cls_of(a) is not None and not world().cls_of(a).is_enum and world().cls_of(b) is not None:
        return type(a) == type(b) and (a == b)
    r = a == b
    try: return bool(r)
    except Exception: return False
class OldList(list): orig = None
def same(a, b):
    if a is b: return True
    if isinstance(a, OldList): a = a.orig
    if isinstance(b, OldList): b = b.orig
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, (int, float, str, bool, tuple)) and not isinstance(a, type(None)): return a == b
    return False
def distinct(l):
    l = list(l)
    return all(not same(l[i], l[j]) for i in range(len(l)) for j in range(i + 1, len(l)))
def perm(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b): return False
    for x in a:
        for i, y in enumerate(b):
            if same(x, y) or (isnum(x) and isnum(y) and approx(x, y)): del b[i]; break
        else: return False
    return True

SIMINTERNAL = {'put_queue', 'get_queue', '_queue', 'callbacks', '_target', '_generator', 'queue'}
PRIM = (int, float, str, bool, bytes, type(None))
class Gen:
    """one generated test case: lazily populated heap"""
    MAXOBJ = 60
    def __init__(self, w, seed, hints=None, size=3):
        self.w, self.seed, self.rnd, self.size = w, seed, random.Random(seed), size
        self.pool = {}
        self.objs = []
        self.ids = set()
        self.snap = None
        self.swapped = None
        self.hints = {**w.reg.gens, **(hints or {})}
        self.depth = 0
        self.made = 0
        self.keep = []
        # per-case bias
        self.reuse = self.rnd.choice([0.15, 0.5, 0.8])
        self.nullp = self.rnd.choice([0.1, 0.3, 0.6])
        self.env_ = None
    # -------------------------------------------------------- values
    def hint_value(self, e, obj, T):
        return eval(e, {"G": self, "rnd": self.rnd, "choice": self.rnd.choice, "inf": inf, "obj": obj, "T": T, "w": self.w,
                        "new": lambda n: self.value(self.w.types.parse(n)), "default": lambda: self.value(T, None, False),
                        "lst": lambda n, k: [self.value(self.w.types.parse(n)) for _ in range(k)]})
    def value(self, T, name=None, nul=True):
        k, r = T[0], self.rnd
        if nullable(T) and k != "any":
            if k == "none": return None
            if r.random() < self.nullp: return None
            T = nonnull(T); k = T[0]
        if k == "int": return r.choice(INTS)
        if k == "real": return r.choice(REALS)
        if k == "bool": return r.random() < 0.5
        if k == "str": return r.choice(STR_POOL)
        if k == "enum":
            p = self.w.cls(T[1]); return r.choice(list(p))
        if k == "lit":
            v = r.choice(T[1])
            if v[0] == "c": return v[1]
            return getattr(self.w.cls(v[1]), v[2])
        if k == "list": return [self.value(T[1]) for _ in range(self.length())]
        if k == "set": return {self.value(T[1]) for _ in range(self.length())}
        if k == "dict":
            return {self.value(T[1]): self.value(T[2]) for _ in range(self.length())}
        if k == "tuple": return tuple(self.value(t) for t in T[1])
        if k == "ref": return self.ref(T)
        if k == "any": return r.choice([None, 1, "A"]) if name is None else r.choice([None, 1, "A"])
        raise Reject(f"no value of type {T}")
    def length(self):
        if self.made > self.MAXOBJ: return 0
        return self.rnd.choice([0, 1, 1, 2, 2, 3, self.size])
    def ref(self, T):
        cl = [x for c in T[1] for x in (self.w.concrete(c) if c.mod.modname != "stubs__" or c.name in ("FilterStore", "SimEvent") else [c])]
        cl = [c for c in cl if c.mod.modname != "stubs__"] or cl
        if any(c.name == "SimEnvironment" or any(b.name == "SimEnvironment" for b in c.mro()) for c in cl): return self.env()
        known = [o for c in cl for o in self.pool.get(c, [])]
        if known and (self.rnd.random() < self.reuse or self.made > self.MAXOBJ): return self.rnd.choice(known)
        return self.new(self.rnd.choice(cl))
    def env(self):
        if self.env_ is None:
            from prodsys.simulation import sim
            self.env_ = e = sim.Environment(0)
            e._now = self.rnd.choice(REALS)
            self.note(e, None)
        return self.env_
    def note(self, o, c):
        self.made += 1
        self.objs.append(o); self.ids.add(id(o))
        if c is not None: self.pool.setdefault(c, []).append(o)
        for k in (c.mro() if c is not None else []):
            pass
        return o
    def event(self, trig=None):
        import simpy.events as se
        e = se.Event(self.env())
        if self.rnd.random() < 0.5 if trig is None else trig:
            e._ok = True; e._value = None
        return self.note(e, None)
    def process(self, alive=None):
        import simpy.events as se
        def g():
            yield self.env().event()
        p = se.Process(self.env(), g())
        p.interrupts = 0
        if not (self.rnd.random() < 0.7 if alive is None else alive):
            p._ok = True; p._value = None
        return self.note(p, None)
    def new(self, c, **over):
        r = self.rnd
        if c.mod.modname == "stubs__":
            if c.name == "SimProcess": return self.process()
            if c.name in ("SimEvent", "SimRequest"):
                known = self.pool.get(c, [])
                e = self.event(); self.pool.setdefault(c, []).append(e); return e
            if c.name == "SimTimeout": return self.note(self.env().timeout(r.choice([0, 1, 2])), c)
            if c.name == "FilterStore":
                import simpy.resources.store as ss
                return self.note(ss.FilterStore(self.env()), c)
            raise Reject(f"no builder for {c.name}")
        h = self.hints.get(c.name)
        if h is not None:
            o = self.hint_value(h, None, None)
            return o if o in self.objs else self.note(o, c)
        p = self.w.cls(c)
        if p is None: raise Reject(f"class {c.name} not importable")
        o = p.__new__(p)
        try:
            import pydantic
            if isinstance(o, pydantic.BaseModel):
                for nm, v in (("__pydantic_fields_set__", set()), ("__pydantic_extra__", None), ("__pydantic_private__", None)): object.__setattr__(o, nm, v)
        except ImportError: pass
        self.note(o, c)
        names = {b.name for b in c.mro()}
        if "FilterStore" in names:
            o.__dict__.update(_env=self.env(), put_queue=[], get_queue=[])
            hh = self.hints.get(c.name + ".capacity") or self.hints.get("FilterStore.capacity")
            o.__dict__['_capacity'] = self.hint_value(hh, o, None) if hh else r.choice([1, 2, 3, 5, inf])
        if "SimResource" in names:
            pq = []
            o.__dict__.update(_env=self.env(), put_queue=pq, get_queue=[], queue=pq, _capacity=r.choice([1, 1, 2, 3]),
                              users=[self.event() for _ in range(r.choice([0, 0, 1, 2, 3]))])
        for k, v in over.items(): self.setattr(o, k, v)
        return o
    def setattr(self, o, k, v):
        o.__dict__[k] = v
    def lazy(self, o, name):
        c = self.w.cls_of(o)
        if c is None: return False, None
        h = None
        for b in c.mro():
            h = self.hints.get(f"{b.name}.{name}")
            if h is not None: break
        T = self.w.types.field(c, name)
        if T is None and h is None: return False, None
        if getattr(self, "ctor", None) is o: return False, None
        if id(o) not in self.ids: return False, None      # objects made by the code under test are not completed
        if self.depth > 40: raise Reject("depth")
        self.depth += 1
        try:
            # generation must not see the swapped heap
            v = self.hint_value(h, o, T) if h is not None else self.value(T, name)
        finally: self.depth -= 1
        o.__dict__[name] = v
        self.keep.append(v)
        if self.snap is not None:
            e = self.snap.get(id(o))
            if e is not None: e[1][name] = v
            if self.swapped is not None and id(o) in self.swapped: self.swapped[id(o)][1][name] = v
            self.snapshot_value(v, self.snap)
        return True, v
    # -------------------------------------------------------- snapshots
    def children(self, o):
        if isinstance(o, (list, tuple, set, frozenset)): return list(o)
        if isinstance(o, dict): return list(o.keys()) + list(o.values())
        d = getattr(o, "__dict__", None)
        if not isinstance(d, dict): return []
        if type(o).__name__ == "Environment": return []
        return [v for k, v in d.items() if k not in SIMINTERNAL]
    def trackable(self, o):
        if isinstance(o, PRIM) or isinstance(o, (type, _t.FunctionType, _t.ModuleType, _t.MethodType, _t.BuiltinFunctionType, _t.GeneratorType)): return False
        if isinstance(o, (list, dict, set)): return True
        m = type(o).__module__
        return m.startswith(("prodsys", "app", "simpy")) and not m.startswith("simpy.core") or type(o).__name__ == "Environment"
    def snapshot_value(self, root, snap):
        todo = [root]
        while todo:
            o = todo.pop()
            if isinstance(o, tuple): todo += list(o); continue
            if not self.trackable(o) or id(o) in snap: continue
            c = self.w.cls_of(o)
            if c is not None and c.is_enum: continue
            if isinstance(o, list): snap[id(o)] = (o, list(o))
            elif isinstance(o, dict): snap[id(o)] = (o, dict(o))
            elif isinstance(o, set): snap[id(o)] = (o, set(o))
            elif hasattr(o, "__dict__"): snap[id(o)] = (o, dict(o.__dict__))
            else: continue
            todo += self.children(o)
    def snapshot(self, roots):
        self.snap = {}
        for r in list(roots) + list(self.objs): self.snapshot_value(r, self.snap)
    def put_state(self, s):
        for o, v in s.values():
            if isinstance(o, list): o[:] = v
            elif isinstance(o, dict): o.clear(); o.update(v)
            elif isinstance(o, set): o.clear(); o.update(v)
            else: o.__dict__.clear(); o.__dict__.update(v)
    def cur_state(self):
        s = {}
        for i, (o, _) in list(self.snap.items()):
            s[i] = (o, list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else set(o) if isinstance(o, set) else dict(o.__dict__))
        return s
    def old_eval(self, f):
        if self.snap is None or self.swapped is not None: return f()
        self.swapped = self.cur_state()
        try:
            self.put_state(self.snap)
            v = f()
            if isinstance(v, list):
                o = v; v = OldList(v); v.orig = o
            elif isinstance(v, dict): v = dict(v)
            elif isinstance(v, set): v = set(v)
            elif isinstance(v, (type({}.values()), type({}.keys()), type({}.items()), _t.GeneratorType)): v = list(v)
            return v
        finally:
            # cells created lazily while swapped are part of both states
            for i, ent in self.snap.items():
                if i not in self.swapped: self.swapped[i] = (ent[0], ent[1].copy())
            s, self.swapped = self.swapped, None
            self.put_state(s)
    def fresh(self, x): return not isinstance(x, PRIM) and id(x) not in self.snap
    def typed(self, tn):
        T = self.w.types.parse(tn)
        if T[0] == "ref":
            cl = {x for c in T[1] for x in self.w.concrete(c)}
            return [o for o, _ in self.snap.values() if not isinstance(o, (list, dict, set)) and self.w.cls_of(o) in cl]
        if T[0] == "str": return STR_POOL + [""]
        if T[0] == "int": return list(range(-1, 8))
        if T[0] == "real": return REALS
        raise Skip(f"quantifier over {tn}")
    def forall_(self, tn, f):
        n = f.__code__.co_argcount
        return all(f(*t) for t in itertools.islice(itertools.product(self.typed(tn), repeat=n), 3000))
    def exists_(self, tn, f):
        n = f.__code__.co_argcount
        return any(f(*t) for t in itertools.islice(itertools.product(self.typed(tn), repeat=n), 3000))


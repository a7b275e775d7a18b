"""Contract registry: loads the sidecar contracts in /verif/contracts/*.py (a small declarative DSL)."""
import ast, os, glob
from .types import *
from .front import Cls, Func, Mod

class Contract:
    def __init__(self, key, **kw):
        self.key = key
        self.props = kw.pop("props", [])
        def named(xs):
            out = []
            for i, x in enumerate(xs or []):
                out.append(x if isinstance(x, tuple) else (x, x))
            return out
        self.requires = named(kw.pop("requires", []))
        self.ensures = named(kw.pop("ensures", []))
        self.raises = [(r + (None,))[:3] for r in kw.pop("raises", [])]
        self.may_raise = kw.pop("may_raise", [])
        self.modifies = kw.pop("modifies", [])
        self.exc_modifies = kw.pop("exc_modifies", None)
        self.allocates = kw.pop("allocates", None)
        self.loops = kw.pop("loops", {})
        self.params = kw.pop("params", {})
        self.ret = kw.pop("ret", None)
        self.inline = kw.pop("inline", False)     # callers inline the body instead of using the contract
        self.virtual = kw.pop("virtual", False)   # overrides are checked against it, dynamic calls use it
        self.trusted = kw.pop("trusted", False)
        self.hide = set(kw.pop("hide", []))       # ensures not assumed by callers
        self.recv = kw.pop("recv", None)          # receiver classes to verify with
        self.locals = kw.pop("locals", {})
        self.noframe = kw.pop("noframe", False)
        self.gen = kw.pop("gen", None)            # generator options
        self.note = kw.pop("note", "")
        self.bounded = kw.pop("bounded", None)    # reason why only a bounded check decides this function
        self.tests = kw.pop("tests", None)        # concrete-layer generator name
        self.timeout = kw.pop("timeout", None)
        self.fuzz = kw.pop("fuzz", {})
        self.nofuzz = kw.pop("nofuzz", False)
        self.prune = kw.pop("prune", True)
        self.pure = kw.pop("pure", False)         # trusted/virtual: the result is a fixed function of the arguments
        self.opaque = kw.pop("opaque", False)     # only the random generators are tracked (see opaque.py)
        self.exc_ensures = kw.pop("exc_ensures", [])   # hold on every exceptional outcome
        if kw: raise TypeError(f"unknown contract options {list(kw)} for {key}")
    def usable(self, name): return name not in self.hide
    def param_types(self, eng, fn):
        k = id(eng)
        c = self.__dict__.setdefault("_pt", {})
        if k in c: return c[k]
        out = {}
        for a in fn.node.args.args:
            if a.arg in self.params: out[a.arg] = eng.types.parse(self.params[a.arg], fn.mod); continue
            if a.arg == "self" and fn.cls is not None:
                out["self"] = REF([fn.cls]) if self.recv is None else REF([eng.repo.cls(x) for x in self.recv]); continue
            T = eng.types.ann(a.annotation, fn.mod) if a.annotation is not None else ANY
            out[a.arg] = T
        nd = len(fn.node.args.defaults)
        for a, d in zip(fn.node.args.args[len(fn.node.args.args) - nd:], fn.node.args.defaults):
            if isinstance(d, ast.Constant) and d.value is None and a.arg not in self.params: out[a.arg] = OPT(out[a.arg])
        c[k] = out
        return out
    def ret_type(self, eng, fn):
        if self.ret is not None: return eng.types.parse(self.ret, fn.mod)
        if fn.node.returns is None: return NONE_T
        return eng.types.ann(fn.node.returns, fn.mod)

class Registry:
    def __init__(self):
        self.contracts, self.specs, self.field_over = {}, {}, {}
        self.abstract, self.open, self.ignored = set(), set(), set()
        self.spec_src = []
        self.lemmas = []
        self.drivers = {}
        self.gens = {}
        self.callables = {}     # attribute holding a function -> function whose contract stands for every value
    def load(self, d):
        for p in sorted(glob.glob(os.path.join(d, "*.py"))):
            if os.path.basename(p) in ("stubs.py",): continue
            g = {"fn": self.fn, "spec": self.spec, "field": self.field, "fields": self.fields, "abstract": self.abstract.update,
                 "open_class": self.open.update, "ignore": self.ignored.update, "lemma": self.lemma, "bounded": self.bounded, "gen": self.gen, "callable_field": self.callables.__setitem__}
            exec(compile(open(p).read(), p, "exec"), g)
        return self
    def fn(self, key, **kw):
        if key in self.contracts: raise KeyError(f"duplicate contract {key}")
        self.contracts[key] = Contract(key, **kw)
    def gen(self, cf, e):
        """concrete layer: python expression producing values of a field ('Class.f'), or of a class ('Class')"""
        self.gens[cf] = e
    def check(self, repo): pass
    def bounded(self, key, driver, props, reason, **kw):
        self.drivers.setdefault(driver, []).append((key, props, reason))
    def lemma(self, name, props, **kw):
        self.lemmas.append((name, props, kw))
    def spec(self, src):
        self.spec_src.append(src)
        for n in ast.parse(src).body:
            assert isinstance(n, ast.FunctionDef)
            if n.name in self.specs: raise KeyError(f"duplicate spec {n.name}")
            self.specs[n.name] = n
    def field(self, cf, t):
        c, f = cf.rsplit(".", 1)
        self.field_over[(c, f)] = t
    def fields(self, cls, **kw):
        for k, v in kw.items(): self.field_over[(cls, k)] = v

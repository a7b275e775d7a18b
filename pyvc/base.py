"""Loads the repository index, the stub environment and the contract registry (no solver needed)."""
import ast, os
from .front import Repo, Mod, Cls, Func
from .types import Types
from .contract import Registry

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBMAP = {"SimEvent": ["simpy.events.Event", "simpy.Event"], "SimTimeout": ["simpy.events.Timeout"], "SimProcess": ["simpy.events.Process"],
    "AllOf": ["simpy.events.AllOf"], "AnyOf": ["simpy.events.AnyOf"], "SimEnvironment": ["simpy.core.Environment", "simpy.Environment"],
    "FilterStore": ["simpy.resources.store.FilterStore"], "SimResource": ["simpy.resources.resource.Resource"],
    "SimRequest": ["simpy.resources.resource.Request"], "cycle": ["itertools.cycle"], "ValidationInfo": ["pydantic.ValidationInfo"]}

def dotted(mod, e):
    """dotted external name of an expression in mod, or None"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try: e = ast.parse(e.value, mode="eval").body
        except SyntaxError: return None
    if isinstance(e, ast.Name):
        i = mod.imports.get(e.id)
        if i is None: return None
        return i[0] if i[1] is None else i[0] + "." + i[1]
    if isinstance(e, ast.Attribute):
        b = dotted(mod, e.value)
        return b + "." + e.attr if b else None
    return None

class Base:
    TYPES = Types
    def __init__(self, root=None):
        self.repo = R = Repo(root)
        p = os.path.join(HERE, "contracts", "stubs.py")
        m = Mod("contracts/stubs.py", ast.parse(open(p).read()), "stubs__")
        R.mods["stubs__"] = m; R.bypath["contracts/stubs.py"] = m
        for c in m.classes.values():
            c.bases = [m.classes[b.id] for b in c.base_nodes]
            for b in c.bases: b.subs.append(c)
            R.classes.setdefault(c.name, []).append(c)
        self.stubs = {}
        for nm, ds in STUBMAP.items():
            for d in ds: self.stubs[d] = m.classes.get(nm) or m.funcs.get(nm)
        for mod in list(R.mods.values()):
            if mod is m: continue
            for c in mod.classes.values():
                for i, (b, node) in enumerate(zip(c.bases, c.base_nodes)):
                    if isinstance(b, str):
                        d = dotted(mod, node)
                        s = self.stubs.get(d)
                        if isinstance(s, Cls): c.bases[i] = s; s.subs.append(c)
        self.types = T = self.TYPES(R)
        T.stubs, T.dotted = self.stubs, dotted
        self.reg = G = Registry().load(os.path.join(HERE, "contracts"))
        T.field_over = G.field_over
        T.abstract = G.abstract
        T.ignored_calls = G.ignored
        T.open = G.open
        T.callables = G.callables
        G.check(R)
    def funcs_for(self, prop):
        """contracts (and overrides of virtual contracts) deciding a property"""
        out = []
        for k, c in self.reg.contracts.items():
            if c.trusted or (prop is not None and prop not in c.props): continue
            out.append((k, c))
            if c.virtual:
                f = self.repo.func(k)
                if f is None or f.cls is None: continue
                seen = {f.key}
                for s in f.cls.all_subs():
                    g = s.find(f.name)
                    if g is not None and g.key not in seen and g.key not in self.reg.contracts:
                        seen.add(g.key); out.append((g.key, c))
        return out


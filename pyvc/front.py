"""Front end: indexes the sources under /repo on every run (ast only, nothing is imported)."""
import ast, os, hashlib

REPO = os.environ.get("PYVC_REPO", "/repo")

class Func:
    def __init__(self, mod, cls, node, qual, parent=None):
        self.mod, self.cls, self.node, self.qual = mod, cls, node, qual
        self.name = node.name
        self.is_property = any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in node.decorator_list)
        self.is_static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list)
        self.is_classmethod = any((isinstance(d, ast.Name) and d.id == "classmethod") or
                                  (isinstance(d, ast.Call) and getattr(d.func, "id", "") in ("model_validator", "field_validator", "validator", "root_validator"))
                                  for d in node.decorator_list)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.is_abstract = any(getattr(d, "id", getattr(d, "attr", "")) == "abstractmethod" for d in node.decorator_list)
    @property
    def key(self):
        return f"{self.mod.path}::{self.qual}"
    def __repr__(self):
        return f"<Func {self.key}>"

def walk_own(node):
    """walk without descending into nested defs/lambdas"""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)

class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.fields, self.consts = {}, {}, {}   # fields: name -> (annotation, default node)
        self.base_nodes = node.bases
        self.bases = []       # Cls objects or strings for externals
        self.subs = []
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[n.name] = Func(mod, self, n, f"{node.name}.{n.name}")
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields[n.target.id] = (n.annotation, n.value)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
        # self.x: T = ... in methods
        self.init_ann = {}
        for m in self.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                    self.init_ann.setdefault(n.target.attr, n.annotation)
    def mro(self):
        out, seen = [], set()
        def go(c):
            if isinstance(c, str) or c in seen: return
            seen.add(c); out.append(c)
            for b in c.bases: go(b)
        go(self)
        # C3-lite: depth-first is adequate for the single/abc/mixin inheritance of this code base
        return out
    def ext_bases(self):
        r = set()
        for c in self.mro():
            r |= {b for b in c.bases if isinstance(b, str)}
        return r
    def all_subs(self):
        out = []
        for s in self.subs:
            out.append(s); out += s.all_subs()
        return list(dict.fromkeys(out))
    def find(self, name):
        for c in self.mro():
            if name in c.methods: return c.methods[name]
        return None
    def find_const(self, name):
        for c in self.mro():
            if name in c.consts: return c, c.consts[name]
        return None
    def find_field(self, name):
        for c in self.mro():
            if name in c.fields: return c.fields[name]
            if name in c.init_ann: return (c.init_ann[name], None)
        return None
    def all_fields(self):
        out = {}
        for c in reversed(self.mro()):
            for k, v in c.fields.items():
                if k != "model_config": out[k] = v
        return out
    @property
    def is_enum(self):
        return any(b in ("Enum",) or (isinstance(b, str) and b.endswith("Enum")) for b in self.ext_bases())
    def __repr__(self): return f"<Cls {self.name}>"

class Mod:
    def __init__(self, path, tree, modname):
        self.path, self.tree, self.modname = path, tree, modname
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        def scan(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.funcs[n.name] = Func(self, None, n, n.name)
                elif isinstance(n, ast.ClassDef):
                    self.classes[n.name] = Cls(self, n)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name): self.assigns[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    self.assigns[n.target.id] = n.value
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.imports[(a.asname or a.name.split(".")[0])] = (a.name if a.asname else a.name.split(".")[0], None)
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ""
                    if n.level:
                        pk = self.modname.split(".")
                        if not path.endswith("__init__.py"): pk = pk[:-1]
                        pk = pk[:len(pk) - (n.level - 1)]
                        base = ".".join(pk + ([n.module] if n.module else []))
                    for a in n.names:
                        self.imports[a.asname or a.name] = (base, a.name)
                elif isinstance(n, (ast.If, ast.Try)):
                    for f in ("body", "orelse", "finalbody"):
                        scan(getattr(n, f, []) or [])
        scan(tree.body)
    def __repr__(self): return f"<Mod {self.modname}>"

class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods, self.classes, self.bypath = {}, {}, {}
        self.hash = hashlib.sha256()
        for top in ("prodsys", "app"):
            for dp, dn, fn in os.walk(os.path.join(self.root, top)):
                dn[:] = sorted(d for d in dn if d not in ("__pycache__", "node_modules"))
                for f in sorted(fn):
                    if not f.endswith(".py"): continue
                    p = os.path.join(dp, f); rel = os.path.relpath(p, self.root)
                    src = open(p, encoding="utf8").read()
                    self.hash.update(rel.encode() + b"\0" + src.encode())
                    try: tree = ast.parse(src)
                    except SyntaxError: continue
                    mn = rel[:-3].replace("/", ".")
                    if mn.endswith(".__init__"): mn = mn[:-9]
                    m = Mod(rel, tree, mn)
                    self.mods[mn] = m; self.bypath[rel] = m
        for m in self.mods.values():
            for c in m.classes.values():
                c.bases = [self._resolve_base(m, b) for b in c.base_nodes]
                for b in c.bases:
                    if isinstance(b, Cls): b.subs.append(c)
        for m in self.mods.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, []).append(c)
    def _resolve_base(self, m, b):
        r = self.resolve_expr(m, b)
        if isinstance(r, Cls): return r
        return ast.unparse(b)
    def resolve_expr(self, m, e):
        """resolve a dotted name expression to Mod/Cls/Func/None"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try: e = ast.parse(e.value, mode="eval").body
            except SyntaxError: return None
        if isinstance(e, ast.Name): return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Mod): return self.member(b, e.attr)
        return None
    def member(self, mod, name, depth=0):
        if name in mod.classes: return mod.classes[name]
        if name in mod.funcs: return mod.funcs[name]
        if name in mod.imports and depth < 6: return self._imp(mod.imports[name], depth)
        sub = self.mods.get(mod.modname + "." + name)
        if sub: return sub
        if name in mod.assigns: return ("assign", mod, name)
        return None
    def _imp(self, imp, depth):
        base, name = imp
        if name is None:
            return self.mods.get(base)
        bm = self.mods.get(base)
        if bm is not None:
            return self.member(bm, name, depth + 1)
        return self.mods.get(base + "." + name)
    def resolve_name(self, m, name):
        if name in m.classes: return m.classes[name]
        if name in m.funcs: return m.funcs[name]
        if name in m.assigns: return ("assign", m, name)
        if name in m.imports:
            r = self._imp(m.imports[name], 0)
            if r is not None: return r
            return ("ext", m.imports[name])
        return None
    def func(self, key):
        """path::Qual"""
        path, q = key.split("::")
        m = self.bypath.get(path)
        if m is None: return None
        parts = q.split(".")
        if len(parts) == 1: return m.funcs.get(q)
        if len(parts) == 2 and parts[0] in m.classes: return m.classes[parts[0]].find(parts[1]) if parts[1] in m.classes[parts[0]].methods else None
        return None
    def cls(self, name, path=None):
        """class by bare name or 'path::Name'"""
        if "::" in name:
            p, n = name.split("::"); m = self.bypath.get(p); return m.classes.get(n) if m else None
        cs = self.classes.get(name, [])
        if path: cs = [c for c in cs if c.mod.path == path] or cs
        if len(cs) > 1:
            pri = [c for c in cs if "/simulation/" in c.mod.path] + [c for c in cs if "/models/" in c.mod.path] + cs
            return pri[0]
        return cs[0] if cs else None

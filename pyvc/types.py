"""Static types of the verified subset and annotation resolution."""
import ast
from .front import Cls, Func, Mod

INT, REAL, BOOL, NONE_T, ANY = ("int",), ("real",), ("bool",), ("none",), ("any",)
def STR(n=False): return ("str", n)
def REF(classes, n=False): return ("ref", tuple(sorted(set(classes), key=lambda c: (c.name, c.mod.path))), n)
def LIST(t, n=False): return ("list", t, n)
def SET(t, n=False): return ("set", t, n)
def DICT(k, v, n=False): return ("dict", k, v, n)
def TUP(*ts): return ("tuple", tuple(ts))
def OPT(t):
    """optional version of t"""
    k = t[0]
    if k in ("int", "real", "bool"): return ("opt", t)
    if k in ("opt", "none", "any"): return t
    if k == "str": return STR(True)
    if k == "ref": return ("ref", t[1], True)
    if k == "list": return LIST(t[1], True)
    if k == "set": return SET(t[1], True)
    if k == "dict": return DICT(t[1], t[2], True)
    if k == "tuple": return ("opttup", t)
    return t
def nonnull(t):
    k = t[0]
    if k == "opt": return t[1]
    if k == "opttup": return t[1]
    if k == "str": return STR(False)
    if k in ("ref",): return ("ref", t[1], False)
    if k in ("list", "set"): return (k, t[1], False)
    if k == "dict": return (k, t[1], t[2], False)
    return t
def nullable(t):
    k = t[0]
    return (k in ("opt", "none", "any", "opttup") or (k == "str" and t[1]) or (k in ("ref", "list", "set") and t[2]) or (k == "dict" and t[3]))

def tkey(t):
    """partition key of a type for list/dict/set heaps and field maps"""
    k = t[0]
    if k == "opt": return "o" + tkey(t[1])
    if k == "tuple": return "t(" + ",".join(tkey(x) for x in t[1]) + ")"
    if k == "opttup": return "ot"
    return k

def show(t):
    k = t[0]
    if k == "ref": return "|".join(c.name for c in t[1]) + ("?" if t[2] else "")
    if k in ("list", "set"): return f"{k}[{show(t[1])}]" + ("?" if t[2] else "")
    if k == "dict": return f"dict[{show(t[1])},{show(t[2])}]"
    if k == "tuple": return "(" + ",".join(show(x) for x in t[1]) + ")"
    if k == "opt": return show(t[1]) + "?"
    return k

def unify(a, b):
    if a == b: return a
    if a[0] == "none": return OPT(b)
    if b[0] == "none": return OPT(a)
    if a[0] == "any" : return b
    if b[0] == "any": return a
    n = nullable(a) or nullable(b)
    x, y = nonnull(a), nonnull(b)
    r = None
    num = {"int", "real", "bool"}
    if x[0] in num and y[0] in num:
        r = REAL if "real" in (x[0], y[0]) else (INT if "int" in (x[0], y[0]) else BOOL)
    elif x[0] == y[0] == "ref": r = REF(x[1] + y[1])
    elif x[0] == y[0] == "str": r = x
    elif x[0] == y[0] and x[0] in ("list", "set"): r = (x[0], unify(x[1], y[1]), False)
    elif x[0] == y[0] == "dict": r = ("dict", unify(x[1], y[1]), unify(x[2], y[2]), False)
    elif x[0] == y[0] == "tuple" and len(x[1]) == len(y[1]): r = TUP(*[unify(p, q) for p, q in zip(x[1], y[1])])
    if r is None: raise TypeError(f"cannot unify {show(a)} and {show(b)}")
    return OPT(r) if n else r

class Types:
    def __init__(self, repo):
        self.repo = repo
        self.field_over = {}     # (classname, field) -> type expr string
        self.cache = {}
        self.stubs, self.dotted = {}, None
        self.abstract, self.open, self.ignored_calls = set(), set(), set()
        self._immut = None
    def closed(self, classes):
        """is a missing attribute certainly an AttributeError"""
        return not any(c.name in self.open or c.mod.path.startswith("contracts/") for c in classes)
    def immutable_fields(self):
        """attribute names assigned only inside constructors anywhere in /repo/prodsys (recomputed from the sources on every run)"""
        if self._immut is None:
            stored, declared = set(), set()
            for m in self.repo.mods.values():
                for c in m.classes.values():
                    declared |= set(c.fields) | set(c.init_ann)
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name not in ("__init__", "post_init", "model_post_init"):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)): stored.add(x.attr)
            stored |= {"now", "triggered", "is_alive", "items"}
            self._immut = declared - stored
        return self._immut
    def ann(self, node, mod, depth=0):
        if node is None or depth > 12: return ANY
        R = self.repo
        if isinstance(node, ast.Constant):
            if node.value is None: return NONE_T
            if isinstance(node.value, str):
                try: return self.ann(ast.parse(node.value, mode="eval").body, mod, depth + 1)
                except SyntaxError: return ANY
            return ANY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self._union([self.ann(node.left, mod, depth + 1), self.ann(node.right, mod, depth + 1)])
        if isinstance(node, ast.Subscript):
            b = ast.unparse(node.value).split(".")[-1]
            sl = node.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if b in ("List", "list", "Sequence", "Iterable", "Deque", "conlist"): return LIST(self.ann(args[0], mod, depth + 1))
            if b in ("Set", "set"): return SET(self.ann(args[0], mod, depth + 1))
            if b in ("Dict", "dict", "DefaultDict"): return DICT(self.ann(args[0], mod, depth + 1), self.ann(args[1], mod, depth + 1))
            if b in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis: return LIST(self.ann(args[0], mod, depth + 1))
                return TUP(*[self.ann(a, mod, depth + 1) for a in args])
            if b == "Optional": return OPT(self.ann(args[0], mod, depth + 1))
            if b == "Union": return self._union([self.ann(a, mod, depth + 1) for a in args])
            if b == "Annotated": return self.ann(args[0], mod, depth + 1)
            if b == "Literal":
                return self.literal_type(args, mod)
            if b in ("Generator", "Callable", "Type"): return ANY
            return ANY
        if isinstance(node, (ast.Name, ast.Attribute)):
            nm = ast.unparse(node)
            base = {"int": INT, "float": REAL, "bool": BOOL, "str": STR(), "list": LIST(ANY), "List": LIST(ANY), "dict": DICT(STR(), ANY),
                    "None": NONE_T, "Any": ANY, "object": ANY, "positive_float": REAL}.get(nm)
            if base: return base
            if self.dotted is not None and mod is not None:
                d = self.dotted(mod, node)
                sc = self.stubs.get(d) if d else None
                if isinstance(sc, Cls): return REF([sc])
            r = R.resolve_expr(mod, node) if mod is not None else None
            if isinstance(r, Cls):
                if r.is_enum: return self.enum_type(r)
                return REF([r])
            if isinstance(r, tuple) and r[0] == "assign":
                return self.ann(r[1].assigns[r[2]], r[1], depth + 1)
            if isinstance(node, ast.Name):
                c = R.cls(node.id)
                if c is not None: return self.enum_type(c) if c.is_enum else REF([c])
                for m in R.mods.values():
                    if m.modname.startswith("prodsys.simulation") and node.id in m.assigns and node.id.endswith("UNION"):
                        return self.ann(m.assigns[node.id], m, depth + 1)
            elif isinstance(node, ast.Attribute):
                c = R.cls(node.attr)
                if c is not None and node.attr[0].isupper(): return self.enum_type(c) if c.is_enum else REF([c])
            return ANY
        return ANY
    def enum_type(self, c): return STR()
    def literal_type(self, args, mod): return self._union([self._lit(a, mod) for a in args])
    def _lit(self, a, mod):
        if isinstance(a, ast.Constant):
            v = a.value
            return BOOL if isinstance(v, bool) else INT if isinstance(v, int) else STR() if isinstance(v, str) else NONE_T if v is None else ANY
        return STR()
    def _union(self, ts):
        ts = [t for t in ts if t[0] != "any"]
        if not ts: return ANY
        r = ts[0]
        for t in ts[1:]:
            try: r = unify(r, t)
            except TypeError: return ANY
        return r
    def annotation_values(self, node, mod, depth=0):
        """the finite set of string values an annotation admits (enum classes, Literal), or None"""
        if node is None or depth > 6: return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try: return self.annotation_values(ast.parse(node.value, mode="eval").body, mod, depth + 1)
            except SyntaxError: return None
        if isinstance(node, ast.Subscript):
            b = ast.unparse(node.value).split(".")[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if b in ("Optional", "Annotated"): return self.annotation_values(args[0], mod, depth + 1)
            if b == "Literal":
                out = []
                for a in args:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str): out.append(a.value)
                    elif isinstance(a, ast.Attribute):
                        r = self.repo.resolve_expr(mod, a.value)
                        cc = r.find_const(a.attr) if isinstance(r, Cls) and r.is_enum else None
                        if cc is None or not isinstance(cc[1], ast.Constant): return None
                        out.append(str(cc[1].value))
                    else: return None
                return out
            return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(mod, node) if mod is not None else None
            if isinstance(r, Cls) and r.is_enum:
                vs = [v for v in r.consts.values()]
                if all(isinstance(v, ast.Constant) for v in vs) and vs: return [str(v.value) for v in vs]
        return None
    def field_values(self, cls, name):
        k = ("vals", cls, name)
        if k not in self.cache:
            r = None
            for c in cls.mro():
                if (c.name, name) in self.field_over: break
                if name in c.fields: r = self.annotation_values(c.fields[name][0], c.mod); break
                if name in c.init_ann: break
            self.cache[k] = r
        return self.cache[k]
    def parse(self, s, mod=None):
        """contract type string; trailing ? = optional"""
        if isinstance(s, tuple): return s
        s = s.strip()
        if s.endswith("?"): return OPT(self.parse(s[:-1], mod))
        e = ast.parse(s, mode="eval").body
        return self.ann(e, mod)
    def field(self, cls, name):
        k = (cls, name)
        if k in self.cache: return self.cache[k]
        r = None
        for c in cls.mro():
            o = self.field_over.get((c.name, name)) or self.field_over.get((c.mod.path + "::" + c.name, name))
            if o is not None: r = self.parse(o, c.mod); break
            if name in c.fields:
                r = self.ann(c.fields[name][0], c.mod)
                # pydantic: default None with a non-optional annotation means nullable at run time
                d = c.fields[name][1]
                if isinstance(d, ast.Call):
                    dv = [kw.value for kw in d.keywords if kw.arg == "default"] or (d.args[:1] if d.args else [])
                    if dv and isinstance(dv[0], ast.Constant) and dv[0].value is None: r = OPT(r)
                elif isinstance(d, ast.Constant) and d.value is None: r = OPT(r)
                break
            if name in c.init_ann: r = self.ann(c.init_ann[name], c.mod); break
        self.cache[k] = r
        return r

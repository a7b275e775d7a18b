"""Expression evaluation, lists, dicts, sets, sequences."""
import ast, z3
from .core import *
from .types import *
from .front import Cls, Func, Mod, walk_own

class Quant:
    """helper: evaluates `body` under bound index variables and closes the generated facts"""

class ExprMixin:
    def ev(self, n, st):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None: raise Unsupported(f"expression {type(n).__name__}: {ast.unparse(n)[:60]}")
        return m(n, st)
    def ev1(self, n, st):
        r = self.ev(n, st)
        if len(r) != 1: r = self.merge(st, r)
        return r[0]
    def evs(self, nodes, st):
        live = [([], st)]
        for n in nodes:
            live = [(vs + [v], y) for vs, x in live for v, y in self.ev(n, x)]
        return live
    def merge(self, base, results, n0=None, strict=True):
        """join several results of a pure expression into one value; base has len(n0) pc entries"""
        if len(results) == 1: return results
        if not results:
            raise Unsupported("expression has no normal outcome in specification")
        n0 = len(base.pc) if n0 is None else n0
        h0 = results[0][1]
        for _, x in results[1:]:
            if not self.same_heap(h0, x) or not self.same_env(h0, x): return results if not strict else self._merge_fail()
        try:
            conds, v = [], None
            out = h0.fork()
            out.pc = out.pc[:n0]
            facts = []
            for val, x in reversed(results):
                bs = And([e for k, e in x.pc[n0:] if k == "b"])
                fs = And([e for k, e in x.pc[n0:] if k == "f"])
                conds.append(bs)
                facts.append(Implies(bs, fs))
                v = val if v is None else self.ite(out, bs, val, v)
        except (Unsupported, TypeError):
            if strict: raise
            return results
        out.branch(Or(conds)) if not self.spec else None
        for f in facts: out.fact(f)
        return [(v, out)]
    def same_env(self, a, b):
        if a.env is b.env: return True
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y: continue
            if x is None or y is None or x.T != y.T: return False
            if x.t is y.t: continue
            if not (z3.is_expr(x.t) and z3.is_expr(y.t) and x.t.eq(y.t)): return False
        return True
    def _merge_fail(self): raise Unsupported("effects inside a merged expression")
    def same_heap(self, a, b):
        if a.epoch != b.epoch or not (a.alloc is b.alloc or a.alloc.eq(b.alloc)): return False
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None:
                z = x if x is not None else y
                if not (z3.is_const(z) and z.decl().name() == f"H{a.epoch[0]}.{k}"): return False
            elif not x.eq(y): return False
        return len(a.wlog) == len(b.wlog)
    # ---------------------------------------------------------------- atoms
    def ev_Constant(self, n, st):
        return [(self.const(n.value), st)]
    def const(self, c):
        if c is None: return NONEV
        if isinstance(c, bool): return VB(c)
        if isinstance(c, int): return VI(c)
        if isinstance(c, float):
            if c == float("inf"): return V(REAL, self.INF)
            return VR(repr(c))
        if isinstance(c, str): return self.SLit(c)
        raise Unsupported(f"constant {c!r}")
    def ev_Name(self, n, st):
        if n.id in st.env: return [(st.env[n.id], st)]
        if not self.spec and n.id not in self.poison and self.frame is not None and self.frame.fn is not None and n.id in self.own_locals(self.frame.fn):
            self.raise_(st, "UnboundLocalError"); return []
        return [(self.lookup(n.id, st), st)]
    def own_locals(self, f):
        r = f.__dict__.get("_locals")
        if r is None:
            r = set()
            for x in walk_own(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): r.add(x.id)
            for x in ast.walk(f.node):      # comprehension variables and lambda parameters live in scopes of their own
                if isinstance(x, ast.comprehension): r -= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                if isinstance(x, (ast.Global, ast.Nonlocal)): r -= set(x.names)
            f._locals = r
        return r
    BUILTINS = {"len", "range", "enumerate", "zip", "reversed", "list", "tuple", "set", "dict", "sum", "any", "all", "min", "max", "abs", "isinstance",
        "hasattr", "sorted", "print", "str", "int", "float", "bool", "round", "type", "getattr", "map", "filter", "iter", "next", "super", "id", "frozenset", "setattr", "repr", "hash", "callable", "object"}
    SPECB = {"old", "forall", "implies", "iff", "distinct", "perm", "fresh", "result", "ite", "idx", "same", "exc", "triggered", "ind", "sublist", "count", "isinf", "unchanged", "iff_", "existed", "sum_of", "strcat"}
    def lookup(self, name, st):
        if self.spec and name == "result" and self.result is not None: return self.result
        if self.spec and name in self.SPECB: return PY(("specb", name))
        if self.spec and name in self.specs: return PY(("specfn", name))
        fr = self.frame
        if fr is not None and fr.mod is not None:
            r = self.repo.resolve_name(fr.mod, name)
            if isinstance(r, tuple) and r[0] == "assign": return self.modconst(r[1], r[2], st)
            if isinstance(r, tuple) and r[0] == "ext": return self.ext(r[1])
            if r is not None: return PY(r)
        if name in self.BUILTINS: return PY(("builtin", name))
        if name in ("Exception", "ValueError", "RuntimeError", "KeyError", "IndexError", "TypeError", "NotImplementedError", "AttributeError", "StopIteration", "AssertionError", "ZeroDivisionError"):
            return PY(("exc", name))
        if self.spec:
            c = self.repo.cls(name)
            if c is None and name[:1].isupper():
                try: T = self.types.parse(name)
                except Exception: T = None
                if T is not None and T[0] == "ref" and len(self.classes_of(T)) == 1: c = self.classes_of(T)[0]
            if c is not None: return PY(c)
        raise Unsupported(f"name {name}")
    def ext(self, imp):
        base, nm = imp
        dotted = base if nm is None else base + "." + nm
        s = self.stubs.get(dotted) if self.stubs else None
        if s is not None: return PY(s)
        return PY(("ext", dotted))
    def modconst(self, mod, name, st):
        node = mod.assigns[name]
        g = self.types.field_over.get((mod.path, name))
        if g is not None:
            # a module-level object (contract `fields("<path>", name="Class")`): one fixed object that exists before the function is entered
            T = self.types.parse(g, mod)
            v = V(T, z3.Const("g_" + name, zsort(T)))
            st.fact(self.wf_term(T, v.t, self.alloc0))
            self.assumed.add(f"module object {mod.path}::{name} is a {g}, created at import and never replaced")
            return v
        if isinstance(node, ast.Constant): return self.const(node.value)
        if name == "logger": return PY(("ext", "logger"))
        if isinstance(node, (ast.Dict, ast.List, ast.Tuple, ast.Set, ast.UnaryOp, ast.BinOp)):
            return PY(("modlit", mod, name, node))
        if isinstance(node, ast.Subscript): return PY(("typealias", mod, name))
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(mod, node)
            if isinstance(r, (Cls, Func, Mod)): return PY(r)
        raise Unsupported(f"module constant {name}")
    # ---------------------------------------------------------------- operators
    def pure_eval(self, node, st, cond):
        """evaluate node under the additional condition; returns (value, state) when it has exactly one pure, non-raising outcome"""
        s2 = st.fork(); n0 = len(s2.pc)
        s2.branch(cond) if not z3.is_true(cond) else s2.pc.append(("b", z3.BoolVal(True)))
        nb = len(s2.pc)
        saved, self.sink = self.sink, []
        try: rs = self.ev(node, s2); sk = self.sink
        finally: self.sink = saved
        if len(rs) > 1: rs = self.merge(s2, rs, nb, strict=False)
        if len(rs) == 1 and not sk and self.same_heap(st, rs[0][1]) and self.same_env(st, rs[0][1]):
            return rs[0][0], rs[0][1].pc[n0 + 1:], None
        if self.spec and len(rs) == 1 and not sk and self.same_env(st, rs[0][1]):
            # specifications only allocate scratch collections: keep them unconditionally, their facts stay guarded
            y = rs[0][1]
            st.heap, st.alloc, st.wlog = y.heap, y.alloc, y.wlog
            return rs[0][0], y.pc[n0 + 1:], None
        return None, None, (rs, sk)
    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        res = self.ev(n.values[0], st)
        for nx in n.values[1:]:
            out = []
            for a, x in res:
                c = z3.simplify(self.truth(x, a))
                go = c if isand else z3.simplify(Not(c))         # condition under which nx is evaluated
                if z3.is_false(go): out.append((a, x)); continue
                if not self.spec and not z3.is_true(go):
                    t = x.fork(); t.branch(go)
                    if not self.feasible(t): x.branch(Not(go)); out.append((a, x)); continue
                v, extra, full = self.pure_eval(nx, x, go)
                if v is not None:
                    try:
                        if isand: r = VB(And(c, self.truth(x, v))) if (v.T == BOOL and a.T == BOOL) or self.boolctx(n) else self.ite(x, c, v, a)
                        else: r = VB(Or(c, self.truth(x, v))) if (v.T == BOOL and a.T == BOOL) or self.boolctx(n) else self.ite(x, c, a, v)
                        for k, e in extra:
                            if k == "b" and not self.spec: x.branch(Implies(go, e))
                            else: x.fact(Implies(go, e))
                        out.append((r, x)); continue
                    except (TypeError, Unsupported) as ex:
                        rs, sk = None, None
                        full = None
                if self.spec: raise Unsupported("impure operand in specification")
                # fork
                y = x.fork(); y.branch(Not(go))
                if not z3.is_true(go) and self.feasible(y): out.append((a, y))
                z = x.fork(); z.branch(go)
                out += self.ev(nx, z)
            res = out
        return res
    def boolctx(self, n):
        return getattr(n, "_boolctx", False)
    def mark_boolctx(self, e):
        if isinstance(e, ast.BoolOp):
            e._boolctx = True
            for v in e.values: self.mark_boolctx(v)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): self.mark_boolctx(e.operand)
    def ev_UnaryOp(self, n, st):
        out = []
        if isinstance(n.op, ast.Not): self.mark_boolctx(n.operand)
        for v, x in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not): out.append((VB(Not(self.truth(x, v))), x))
            elif isinstance(n.op, ast.USub):
                v = self.num(x, v); out.append((V(v.T, z3.simplify(-v.t)), x))
            elif isinstance(n.op, ast.UAdd): out.append((v, x))
            else: raise Unsupported("unary op")
        return out
    def num(self, st, v):
        if v.T[0] == "opt": return self.num(st, v.t[1])
        if v.T[0] == "bool": return self.coerce(st, v, INT)
        if v.T[0] in ("int", "real"): return v
        if v.T[0] == "any": return self.coerce(st, v, REAL)
        raise Unsupported(f"number expected, got {v}")
    def denone(self, v, st):
        """TypeError path for an optional number used in arithmetic"""
        if v.T[0] == "opt":
            if not self.spec and not z3.is_false(v.t[0]):
                bad = st.fork(); bad.branch(v.t[0]); self.raise_(bad, "TypeError")
                st.branch(Not(v.t[0]))
            return v.t[1]
        return v
    def ev_BinOp(self, n, st):
        out = []
        for (a, b), x in self.evs([n.left, n.right], st): out += self.binop(n.op, a, b, x)
        return out
    def binop(self, op, a, b, st):
        ka, kb = a.T[0], b.T[0]
        if ka == "py" and isinstance(a.t, Seq): a = self.materialize(st, a.t); ka = "list"
        if kb == "py" and isinstance(b.t, Seq): b = self.materialize(st, b.t); kb = "list"
        if isinstance(op, ast.Add) and ka == "list" and kb == "list": return [(self.list_concat(st, a, b), st)]
        if isinstance(op, ast.Add) and ka == "tuple" and kb == "tuple": return [(V(TUP(*[x.T for x in a.t + b.t]), a.t + b.t), st)]
        if isinstance(op, ast.Add) and ka == "str" and kb == "str": return [(self.strcat(st, [a, b]), st)]
        if isinstance(op, ast.Mult) and ka == "list" and kb == "int": return [(self.list_repeat(st, a, b), st)]
        if isinstance(op, ast.Mod) and ka == "str": return [(V(STR(), self.ufstr(st, "strmod", [a.t])), st)]
        if ka == "set" and kb == "set": return [(self.set_op(st, op, a, b), st)]
        isv = lambda v: v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "vec"
        if isv(a) or isv(b):
            # numpy arrays of known small length: elementwise
            n = len(a.t[1]) if isv(a) else len(b.t[1])
            xs = a.t[1] if isv(a) else [self.coerce(st, self.num(st, a), REAL).t] * n
            ys = b.t[1] if isv(b) else [self.coerce(st, self.num(st, b), REAL).t] * n
            if len(xs) != len(ys): raise Unsupported("numpy broadcast")
            f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y}.get(type(op))
            if f is None and not (isinstance(op, ast.Pow) and not isv(b)): raise Unsupported("numpy operator")
            if f is None:
                if z3.simplify(ys[0]).as_fraction() != 2: raise Unsupported("numpy power")
                f = lambda x, y: x * x
            return [(PY(("vec", [f(x, y) for x, y in zip(xs, ys)])), st)]
        a, b = self.denone(a, st), self.denone(b, st)
        a, b = self.num(st, a), self.num(st, b)
        if isinstance(op, ast.Div):
            x, y = self.coerce(st, a, REAL), self.coerce(st, b, REAL)
            self.zdiv(st, y.t == 0)
            return [(VR(x.t / y.t), st)]
        T = REAL if "real" in (a.T[0], b.T[0]) else INT
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if T == REAL: raise Unsupported("float floor division")
            self.zdiv(st, b.t == 0)
            # python floor semantics
            q = If(b.t > 0, a.t / b.t, (-a.t) / (-b.t))
            return [(VI(q if isinstance(op, ast.FloorDiv) else a.t - b.t * q), st)]
        x, y = self.coerce(st, a, T), self.coerce(st, b, T)
        if isinstance(op, ast.Add): t = plus(x.t, y.t.as_long()) if T == INT and z3.is_int_value(y.t) else x.t + y.t
        elif isinstance(op, ast.Sub): t = plus(x.t, -y.t.as_long()) if T == INT and z3.is_int_value(y.t) else x.t - y.t
        elif isinstance(op, ast.Mult): t = x.t * y.t
        elif isinstance(op, ast.Pow):
            if z3.is_int_value(y.t) or (z3.is_rational_value(y.t) and y.t.denominator_as_long() == 1):
                e = y.t.as_long() if z3.is_int_value(y.t) else y.t.numerator_as_long()
                xs = z3.simplify(x.t)
                if e >= 0 and (z3.is_int_value(xs) or z3.is_rational_value(xs)) and e <= 64:
                    t = z3.simplify(z3.IntVal(xs.as_long() ** e)) if z3.is_int_value(xs) else z3.simplify(z3.RealVal(xs.as_fraction() ** e))
                elif 0 <= e <= 4:
                    t = z3.RealVal(1) if T == REAL else z3.IntVal(1)
                    for _ in range(e): t = t * x.t
                else: t = self.uf("pow", [x.t, y.t], zsort(T))
            else: t = self.uf("pow", [x.t, y.t], zsort(T))
        else: raise Unsupported(f"operator {type(op).__name__}")
        return [(V(T, t), st)]
    def zdiv(self, st, c):
        if self.spec: return
        c = z3.simplify(c)
        if z3.is_false(c): return
        bad = st.fork(); bad.branch(c); self.raise_(bad, "ZeroDivisionError")
        st.branch(Not(c))
    def ev_Compare(self, n, st):
        out = []
        for vals, x in self.evs([n.left] + n.comparators, st):
            t = []
            for i, op in enumerate(n.ops):
                t.append(self.compare(op, vals[i], vals[i + 1], x))
            out.append((VB(And(t)), x))
        return out
    def compare(self, op, a, b, st):
        if isinstance(op, ast.Eq): return self.eq(st, a, b)
        if isinstance(op, ast.NotEq): return Not(self.eq(st, a, b))
        if isinstance(op, ast.Is): return self.eq(st, a, b, identity=True)
        if isinstance(op, ast.IsNot): return Not(self.eq(st, a, b, identity=True))
        if isinstance(op, ast.In): return self.contains(st, b, a)
        if isinstance(op, ast.NotIn): return Not(self.contains(st, b, a))
        if a.T[0] == "tuple" and b.T[0] == "tuple":
            return self.lexcmp(st, op, a.t, b.t)
        if a.T[0] == "set" and b.T[0] == "set":
            x = fresh("se", zsort(a.T[1])); 
            if isinstance(op, ast.GtE): a, b = b, a
            elif not isinstance(op, ast.LtE): raise Unsupported("set comparison")
            return forall(x, Implies(z3.Select(self.smem(st, a), x), z3.Select(self.smem(st, b), x)))
        a, b = self.denone(a, st), self.denone(b, st)
        if a.T[0] == "str" and b.T[0] == "str":
            lt = lambda p, q: self.uf("str_lt", [p, q], Bool)
            return {ast.Lt: lambda: lt(a.t, b.t), ast.Gt: lambda: lt(b.t, a.t), ast.LtE: lambda: Or(a.t == b.t, lt(a.t, b.t)), ast.GtE: lambda: Or(a.t == b.t, lt(b.t, a.t))}[type(op)]()
        a, b = self.num(st, a), self.num(st, b)
        T = REAL if "real" in (a.T[0], b.T[0]) else INT
        x, y = self.coerce(st, a, T).t, self.coerce(st, b, T).t
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
    def lexcmp(self, st, op, a, b):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        if isinstance(op, (ast.Gt, ast.GtE)): a, b = b, a
        t = z3.BoolVal(not strict)
        for x, y in reversed(list(zip(a, b))):
            t = Or(self.compare(ast.Lt(), x, y, st), And(self.eq(st, x, y), t))
        return t
    def ev_IfExp(self, n, st):
        out = []
        self.mark_boolctx(n.test)
        for c, x in self.ev(n.test, st):
            t = z3.simplify(self.truth(x, c))
            if z3.is_true(t): out += self.ev(n.body, x); continue
            if z3.is_false(t): out += self.ev(n.orelse, x); continue
            v1, e1, f1 = self.pure_eval(n.body, x, t)
            v2, e2, f2 = self.pure_eval(n.orelse, x, Not(t))
            if v1 is not None and v2 is not None:
                try:
                    r = self.ite(x, t, v1, v2)
                    for cnd, ex in ((t, e1), (Not(t), e2)):
                        for k, e in ex: x.fact(Implies(cnd, e)) if k == "f" or self.spec else x.branch(Implies(cnd, e))
                    out.append((r, x)); continue
                except (TypeError, Unsupported): pass
            if self.spec: raise Unsupported("conditional expression in specification")
            for cond, e in ((t, n.body), (Not(t), n.orelse)):
                y = x.fork(); y.branch(cond)
                if self.feasible(y): out += self.ev(e, y)
        return out
    def ev_NamedExpr(self, n, st):
        out = []
        for v, x in self.ev(n.value, st):
            x.env[n.target.id] = v; out.append((v, x))
        return out
    def ev_Lambda(self, n, st):
        return [(PY(("lambda", n, dict(st.env), self.frame)), st)]
    def ev_JoinedStr(self, n, st):
        parts = [p.value for p in n.values if isinstance(p, ast.FormattedValue)]
        tmpl = "".join("{}" if isinstance(p, ast.FormattedValue) else str(p.value) for p in n.values)
        out = []
        for vs, x in self.evs(parts, st):
            if vs and all(v.T[0] == "str" and not v.T[1] for v in vs) and not any(isinstance(p, ast.FormattedValue) and (p.conversion != -1 or p.format_spec) for p in n.values):
                it = iter(vs)
                out.append((self.strcat(x, [next(it) if isinstance(p, ast.FormattedValue) else self.SLit(str(p.value)) for p in n.values]), x)); continue
            out.append((self.fstr(x, tmpl, vs), x))
        return out
    def fstr(self, st, tmpl, vs):
        args = []
        for v in vs:
            if v.T[0] == "opt": args += [v.t[0], v.t[1].t]
            elif v.T[0] in ("py", "none"): args.append(self.lit("<py>"))
            elif v.T[0] == "tuple": args += [y.t for y in v.t if z3.is_expr(y.t)]
            else: args.append(v.t)
        if not args: return self.SLit(tmpl)
        t = self.ufstr(st, "fstr:" + tmpl, args)
        return V(STR(), t)
    def ufstr(self, st, name, args):
        t = self.uf(name, args, Int)
        st.fact(t >= 0)
        return t
    def strcat(self, st, parts):
        empty, flat = self.SLit("").t, []
        def add(t):
            if z3.is_app(t) and t.decl().name() == "str_concat" and t.num_args() == 2: add(t.arg(0)); add(t.arg(1))
            elif not t.eq(empty): flat.append(t)
        for p in parts: add(p.t)
        if not flat: return V(STR(), empty)
        t = flat[0]
        for p in flat[1:]: t = self.ufstr(st, "str_concat", [t, p])
        return V(STR(), t)
    # ---------------------------------------------------------------- attribute access
    def ev_Attribute(self, n, st):
        out = []
        for o, x in self.ev(n.value, st): out += self.getattr(o, n.attr, x)
        return out
    def groups(self, T, attr):
        """resolve attr for every possible dynamic class: list of (classes, kind, payload)"""
        g = {}
        for c in self.classes_of(T):
            f = c.find(attr)
            if f is not None:
                k = ("prop", f) if f.is_property else ("meth",)
            else:
                ft = self.types.field(c, attr)
                if ft is not None: k = ("field", tkey(ft))
                else:
                    cc = c.find_const(attr)
                    if cc is not None: k = ("const", cc[0], attr)
                    else: k = ("missing",)
            key = tuple(x if not isinstance(x, (Func, Cls)) else id(x) for x in k)
            if key in g: g[key][0].append(c)
            else: g[key] = ([c], k)
        return list(g.values())
    def getattr(self, o, attr, st):
        T = o.T
        if T[0] == "py": return self.py_getattr(o.t, attr, st)
        if T[0] == "str":
            if attr in ("value",): return [(o, st)]
            return [(PY(("boundb", o, attr)), st)]
        if T[0] in ("list", "dict", "set", "tuple", "int", "real", "opt", "bool"):
            return [(PY(("boundb", o, attr)), st)]
        if T[0] == "none":
            if self.spec: raise Unsupported(f"None.{attr} in specification")
            self.raise_(st, "AttributeError"); return []
        if T[0] == "any": raise Unsupported(f"attribute {attr} of a dynamically typed value")
        if T[0] != "ref": raise Unsupported(f"attribute {attr} of {T}")
        if T[2] and not self.spec:
            c = o.t == NONE
            bad = st.fork(); bad.branch(c)
            if self.feasible(bad): self.raise_(bad, "AttributeError")
            st.branch(Not(c))
            if not self.feasible(st): return []
        if attr in ("model_copy", "copy") and not any(c.find(attr) for c in self.classes_of(T)) and all(self.types.field(c, attr) is None for c in self.classes_of(T)) \
           and (attr == "model_copy" and all("BaseModel" in {str(b).split(".")[-1] for b in c.ext_bases()} for c in self.classes_of(T))):
            return [(PY(("copybound", V(("ref", T[1], False), o.t))), st)]
        gs = self.groups(T, attr)
        if len(gs) > 1 and not self.spec:
            keep = []
            for cl, k in gs:
                if k[0] == "missing" or len(gs) > 1:
                    t = st.fork(); t.branch(self.has_cls(o.t, cl))
                    if not self.feasible(t): continue
                keep.append((cl, k))
            gs = keep
        if self.spec:
            gs = [x for x in gs if x[1][0] != "missing"] or gs
            if len(gs) > 1:
                keep = []
                for cl, k in gs:
                    t = st.fork(); t.branch(self.has_cls(o.t, cl))
                    if self.solver.feasible(t.conds()): keep.append((cl, k))
                gs = keep or gs[:1]
        if not gs: return []
        # several field groups differing in representation -> fork; same representation -> one read
        out = []
        multi = len(gs) > 1
        for cl, k in gs:
            x = st.fork() if multi else st
            if multi: x.branch(self.has_cls(o.t, cl))
            recv = V(("ref", tuple(cl), False), o.t) if multi else V(("ref", T[1], False), o.t)
            if k[0] == "field":
                ft = None
                for c in cl:
                    t2 = self.types.field(c, attr)
                    ft = t2 if ft is None else unify(ft, t2)
                if ft[0] == "any" and "#any" not in attr: pass
                out.append((self.field_get(x, o.t, cl[0], attr, ft), x))
                per = {}
                for c in cl: per.setdefault(self.types.field(c, attr), []).append(c)
                if len(per) > 1 and ft[0] == "ref":      # the declared type of the field depends on the class of the object
                    v = out[-1][0]
                    for t2, cs in per.items():
                        if t2[0] == "ref": x.fact(Implies(self.has_cls(o.t, cs), self.wf_term(t2, v.t, x.alloc)))
            elif k[0] == "prop":
                out += self.call_func(k[1], [recv], {}, x, recv=recv)
            elif k[0] == "meth":
                out.append((PY(("bound", recv, attr)), x))
            elif k[0] == "const":
                out.append((self.ev_clsconst(k[1], k[2], x), x))
            else:
                if self.spec: raise Unsupported(f"no attribute {attr} on {show(T)}")
                if any(c.ext_bases() - {"ABC", "BaseModel", "object"} for c in cl) or not self.types.closed(cl):
                    raise Unsupported(f"no declared field {attr} on {[c.name for c in cl]}")
                self.raise_(x, "AttributeError")
        if multi and len(out) > 1:
            m = self.merge(st, out, len(st.pc), strict=False)
            if len(m) == 1 or not self.spec: return m
            raise Unsupported("merge of attribute alternatives")
        return out
    def ev_clsconst(self, c, name, st):
        node = c.find_const(name)[1]
        return self.ev1(node, st)[0]
    def py_getattr(self, t, attr, st):
        if isinstance(t, Mod):
            r = self.repo.member(t, attr)
            if isinstance(r, tuple) and r[0] == "assign": return [(self.modconst(r[1], r[2], st), st)]
            if isinstance(r, tuple) and r[0] == "ext": return [(self.ext(r[1]), st)]
            if r is None:
                if attr in t.imports: return [(self.ext(t.imports[attr]), st)]
                raise Unsupported(f"module member {t.modname}.{attr}")
            return [(PY(r), st)]
        if isinstance(t, Cls):
            cc = t.find_const(attr)
            if cc is not None:
                if t.is_enum:
                    node = cc[1]
                    v = node.value if isinstance(node, ast.Constant) else ast.unparse(node)
                    return [(self.SLit(str(v)), st)]
                return [(self.ev_clsconst(t, attr, st), st)]
            f = t.find(attr)
            if f is not None: return [(PY(("unbound", t, f)), st)]
            if attr == "__name__": return [(self.SLit(t.name), st)]
            raise Unsupported(f"class attribute {t.name}.{attr}")
        if isinstance(t, tuple) and t[0] == "ext":
            d = t[1] + "." + attr
            s = self.stubs.get(d) if self.stubs else None
            return [(PY(s) if s is not None else PY(("ext", d)), st)]
        if isinstance(t, tuple) and t[0] == "super": return [(PY(("superm", t[1], t[2], attr)), st)]
        if isinstance(t, Seq): return [(PY(("boundb", PY(t), attr)), st)]
        if isinstance(t, tuple) and t[0] == "modlit":
            return [(PY(("boundb", self.ev1(t[3], st)[0], attr)), st)]
        if isinstance(t, tuple) and t[0] == "bound" and attr == "__func__": return [(PY(t), st)]
        if isinstance(t, tuple) and t[0] == "pytype":
            if attr == "__name__": return [(V(STR(), self.uf("cls_name", [t[1]], Int)), st)]
        raise Unsupported(f"attribute {attr} of {t}")
    def setattr(self, o, attr, v, st):
        T = o.T
        if T[0] == "none":
            self.raise_(st, "AttributeError"); return []
        if T[0] != "ref": raise Unsupported(f"attribute store {attr} on {T[0]}")
        if T[2] and not self.spec:
            c = o.t == NONE
            bad = st.fork(); bad.branch(c); self.raise_(bad, "AttributeError")
            st.branch(Not(c))
            if not self.feasible(st): return []
        cl = self.classes_of(T)
        tys = {}
        for c in cl:
            ft = self.types.field(c, attr)
            if ft is None: 
                continue
            tys.setdefault(tkey(ft), []).append((c, ft))
        if not tys: raise Unsupported(f"no declared field {attr} on {show(T)}")
        outs = []
        for i, (k, cs) in enumerate(tys.items()):
            x = st if len(tys) == 1 else st.fork()
            if len(tys) > 1:
                x.branch(self.has_cls(o.t, [c for c, _ in cs]))
                if not self.feasible(x): continue
            ft = cs[0][1]
            for _, t2 in cs[1:]: ft = unify(ft, t2)
            if v.T[0] == "py" and ft[0] == "any":
                outs.append(x); self.dropped.add(f"store of function value into .{attr}"); continue
            self.field_set(x, o.t, cs[0][0], attr, ft, v)
            outs.append(x)
        return outs
    # ---------------------------------------------------------------- lists
    def length(self, st, v):
        et = v.T[1]
        if et[0] == "unk": return z3.IntVal(0)
        return Sel(self.hmap(st, "len:" + tkey(et), Int), v.t)
    def esort(self, et): return zsort(et[1] if et[0] == "opt" else et)
    def earr(self, st, v):
        et = v.T[1]
        return Sel(self.hmap(st, "elt:" + tkey(et), z3.ArraySort(Int, self.esort(et))), v.t)
    def elem(self, st, v, i):
        """element i (no bounds check)"""
        et = v.T[1]
        if et[0] == "unk": raise Unsupported("element of a list literal of unknown type")
        A = self.earr(st, v)
        return self.elem_of(st, et, A, i, v)
    def elem_of(self, st, et, A, i, v=None):
        t = Sel(A, i)
        if et[0] == "opt":
            An = Sel(self.hmap(st, "eltn:" + tkey(et), z3.ArraySort(Int, Bool)), v.t)
            return V(et, (Sel(An, i), V(et[1], t)))
        if et[0] == "tuple": return self.unbox(st, et, t)
        r = V(et, t)
        if et[0] == "ref": self.wf(st, r)
        elif et[0] in ("list", "dict", "str", "set"): self.wf(st, r)
        return r
    def eterm(self, st, et, v):
        v = self.coerce(st, v, et)
        if et[0] == "tuple": return self.box(st, v)
        if et[0] == "opt": raise Unsupported("list of optional numbers")
        return v.t
    def list_set(self, st, v, n, A):
        et = v.T[1]
        L, E = self.hmap(st, "len:" + tkey(et), Int), self.hmap(st, "elt:" + tkey(et), z3.ArraySort(Int, self.esort(et)))
        st.heap["len:" + tkey(et)] = z3.Store(L, v.t, n)
        st.heap["elt:" + tkey(et)] = z3.Store(E, v.t, A)
    def list_replace(self, st, v, n, A):
        et = v.T[1]
        self.list_set(st, v, n, A)
        st.wlog.append(("set", "len:" + tkey(et), v.t, n)); st.wlog.append(("set", "elt:" + tkey(et), v.t, A))
    def new_list(self, st, et, n, A):
        r = self.alloc(st)
        v = V(LIST(et), r)
        if et[0] == "unk":
            if not (z3.is_int_value(n) and n.as_long() == 0): raise Unsupported("list of unknown type")
            return v
        self.list_set(st, v, n, A)
        st.wlog.append(("newlist", tkey(et), r, n, A))
        return v
    def list_lit(self, st, vals, node=None, et=None):
        if et is None:
            if not vals:
                h = self.hints.get(id(node)) if node is not None else None
                et = h if h is not None else ("unk", id(node))
            else:
                if not self.spec:       # an optional number that cannot be missing here
                    vals = [v.t[1] if v.T[0] == "opt" and not self.feasible_with(st, v.t[0]) else v for v in vals]
                et = vals[0].T
                for v in vals[1:]: et = unify(et, v.T)
                if any(v.T[0] == "py" for v in vals): raise Unsupported("list of python-level values")
                if et[0] == "none": et = ANY
                h = self.hints.get(id(node)) if node is not None else None
                if h is not None: et = h
        if et[0] == "unk": return self.new_list(st, et, z3.IntVal(0), None)
        A = fresh("lst", z3.ArraySort(Int, self.esort(et))) if not vals else z3.K(Int, {"real": z3.RealVal(0), "bool": z3.BoolVal(False)}.get(et[0], z3.IntVal(0)))
        A = fresh("lst", z3.ArraySort(Int, self.esort(et)))
        for i, v in enumerate(vals): A = z3.Store(A, z3.IntVal(i), self.eterm(st, et, v))
        return self.new_list(st, et, z3.IntVal(len(vals)), A)
    def feasible_with(self, st, c):
        y = st.fork(); y.branch(c)
        return self.feasible(y)
    def list_append(self, st, v, x):
        et = v.T[1]
        if et[0] == "unk": self.hint(et, self.heapable(x.T))
        if tkey(et) != tkey(x.T) and (et[0] in ("int",) and x.T[0] == "real"): 
            raise Unsupported("float appended to list[int]")
        t = self.eterm(st, et, x)
        n, A = self.length(st, v), self.earr(st, v)
        self.list_set(st, v, plus(n, 1), z3.Store(A, n, t))
        st.wlog.append(("ext", tkey(et), v.t, z3.IntVal(1), ("one", t)))
    def heapable(self, T):
        if T[0] == "py": raise Unsupported("python-level value in list")
        return T
    def list_extend(self, st, v, o):
        if o.T[0] == "tuple":
            for x in o.t: self.list_append(st, v, x)
            return
        if o.T[0] == "py" and isinstance(o.t, Seq): o = self.materialize(st, o.t)
        if o.T[0] == "dict": o = self.materialize(st, self.dict_seq(st, o, "keys"))
        if o.T[0] != "list": raise Unsupported("extend by " + str(o.T))
        if o.T[1][0] == "unk" and v.T[1][0] != "unk": return
        if v.T[1][0] == "unk":
            if o.T[1][0] == "unk": return
            self.hint(v.T[1], o.T[1])
        o = self.coerce(st, o, V(v.T, None).T if not v.T[2] else LIST(v.T[1]))
        et = v.T[1]
        n, A, m, B = self.length(st, v), self.earr(st, v), self.length(st, o), self.earr(st, o)
        C = self.concat_arr(st, n, A, m, B)
        self.list_set(st, v, n + m, C)
        st.wlog.append(("ext", tkey(et), v.t, m, ("arr", B)))
    def concat_arr(self, st, n, A, m, B):
        C = fresh("cat", A.sort()); i = z3.Int("i!c")
        self.catdefs[C.decl().name()] = (n, A, B)
        st.fact(forall(i, Implies(And(0 <= i, i < n), Sel(C, i) == Sel(A, i)), [z3.Select(C, i)]))
        st.fact(forall(i, Implies(And(n <= i, i < n + m), z3.Select(C, i) == z3.Select(B, i - n)), [z3.Select(C, i)]))
        st.fact(forall(i, Implies(And(0 <= i, i < m), z3.Select(C, i + n) == z3.Select(B, i)), [z3.Select(B, i)]))
        return C
    def list_concat(self, st, a, b):
        if a.T[1][0] == "unk" and b.T[1][0] == "unk": return a
        if a.T[1][0] == "unk": self.hint(a.T[1], b.T[1])
        if b.T[1][0] == "unk": self.hint(b.T[1], a.T[1])
        et = unify(a.T[1], b.T[1])
        n, A, m, B = self.length(st, a), self.earr(st, a), self.length(st, b), self.earr(st, b)
        # small literals: plain stores
        if z3.is_int_value(m) and m.as_long() <= 4:
            C = A
            for i in range(m.as_long()): C = z3.Store(C, plus(n, i), Sel(B, z3.IntVal(i)))
            return self.new_list(st, et, plus(n, m.as_long()), C)
        return self.new_list(st, et, z3.simplify(n + m), self.concat_arr(st, n, A, m, B))
    def list_repeat(self, st, a, b):
        n = self.length(st, a)
        if not (z3.is_int_value(n) and n.as_long() == 1): raise Unsupported("list repetition")
        e = Sel(self.earr(st, a), z3.IntVal(0))
        return self.new_list(st, a.T[1], If(b.t > 0, b.t, z3.IntVal(0)), z3.K(Int, e))
    def materialize(self, st, seq):
        """lazy sequence -> fresh list"""
        if isinstance(seq, tuple): raise Unsupported("sequence")
        k = fresh("k", Int); mk = mark()
        n0 = len(st.pc)
        v = seq.elem(k, st)
        facts = st.pc[n0:]; del st.pc[n0:]
        n = z3.simplify(seq.n)
        et = v.T
        if et[0] == "py": raise Unsupported("sequence of python values")
        if et[0] == "tuple":
            # box per element: allocate n boxes
            base = st.alloc; st.alloc = base + n
            for i, x in enumerate(v.t):
                key = f"tb{i}:{tkey(x.T)}"
                if x.T[0] in ("opt", "tuple"): raise Unsupported("nested tuple sequence")
                m = self.hmap(st, key, zsort(x.T))
                m2 = self.newmap(key, zsort(x.T), st.alloc)
                r = z3.Int("r!b")
                st.fact(forall(r, Implies(Or(r < base, r >= st.alloc), z3.Select(m2, r) == z3.Select(m, r)), [z3.Select(m2, r)]))
                st.fact(forall(k, Implies(And(0 <= k, k < n, *[e for _, e in facts]), z3.Select(m2, base + k) == x.t)))
                st.heap[key] = m2
            A = fresh("seq", z3.ArraySort(Int, Int))
            st.fact(forall(k, z3.Select(A, k) == base + k, [z3.Select(A, k)]))
            return self.new_list(st, et, n, A)
        A = fresh("seq", z3.ArraySort(Int, self.esort(et)))
        body = z3.Select(A, k) == v.t
        fs = self.closure([e for _, e in facts] + [body], k, mk)
        st.fact(forall(k, Implies(And(0 <= k, k < n), And(fs)), [z3.Select(A, k)]))
        st.fact(n >= 0)
        self.register_comp(A, n, k, z3.BoolVal(True), v.t)
        return self.new_list(st, et, n, A)
    def closure(self, exprs, k, mk):
        """turn constants created since mk into functions (arrays) of k"""
        fc = fresh_consts(exprs, mk)
        fc.pop(k.decl().name(), None)
        sub = []
        for nm, c in fc.items():
            g = fresh(nm.split("!")[0] + "_k", z3.ArraySort(Int, c.sort()))
            sub.append((c, z3.Select(g, k)))
        self._lastsub = sub
        return [z3.substitute(e, *sub) for e in exprs] if sub else list(exprs)
    def ev_List(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            # [a, *b, c] is [a] + list(b) + [c]
            if not hasattr(n, "_parts"):
                ps = []
                for e in n.elts:
                    if isinstance(e, ast.Starred): ps.append(ast.Call(func=ast.Name("list", ast.Load()), args=[e.value], keywords=[]))
                    elif ps and isinstance(ps[-1], ast.List): ps[-1].elts.append(e)
                    else: ps.append(ast.List(elts=[e], ctx=ast.Load()))
                t = ps[0]
                for q in ps[1:]: t = ast.BinOp(left=t, op=ast.Add(), right=q)
                n._parts = ast.fix_missing_locations(ast.copy_location(t, n))
            return self.ev(n._parts, st)
        out = []
        for vs, x in self.evs(n.elts, st):
            try: out.append((self.list_lit(x, vs, n), x))
            except TypeError:
                # a list display of unrelated types is a record: modelled as a tuple (item assignment and append on it are then unsupported)
                out.append((V(("tuple", tuple(v.T for v in vs)), tuple(vs)), x))
        return out
    def ev_Tuple(self, n, st):
        return [(V(TUP(*[v.T for v in vs]), vs), x) for vs, x in self.evs(n.elts, st)]
    def bounds(self, st, bad, exc="IndexError"):
        if self.spec: return True
        bad = z3.simplify(bad)
        if z3.is_false(bad): return True
        b = st.fork(); b.branch(bad)
        self.raise_(b, exc)
        st.branch(Not(bad))
        return self.feasible(st)
    def ev_Subscript(self, n, st):
        out = []
        if isinstance(n.slice, ast.Slice):
            parts = [p if p is not None else ast.Constant(None) for p in (n.slice.lower, n.slice.upper, n.slice.step)]
            for (o, lo, hi, step), x in self.evs([n.value] + parts, st):
                out.append((self.slice(x, o, lo, hi, step), x))
            return out
        for (o, i), x in self.evs([n.value, n.slice], st): out += self.getitem(o, i, x)
        return out
    def getitem(self, o, i, st):
        if o.T[0] == "py" and isinstance(o.t, tuple) and o.t[0] == "modlit":
            return self.modlit_get(o.t, i, st)
        if o.T[0] == "opttup": o = self.unbox(st, o.T[1], o.t)
        if o.T[0] == "tuple":
            if not z3.is_int_value(z3.simplify(i.t)): raise Unsupported("symbolic tuple index")
            k = z3.simplify(i.t).as_long()
            if not -len(o.t) <= k < len(o.t): self.raise_(st, "IndexError"); return []
            return [(o.t[k], st)]
        if o.T[0] == "none": self.raise_(st, "TypeError"); return []
        if o.T[0] == "list":
            i = self.num(st, i)
            if not self.nonnull_use(o, st): return []
            n = self.length(st, o)
            it = z3.simplify(i.t)
            neg = z3.is_int_value(it) and it.as_long() < 0
            if z3.is_int_value(it) and not neg: bad, idx = it >= n, it
            elif neg: bad, idx = plus(n, it.as_long()) < 0, plus(n, it.as_long())
            else: bad, idx = Or(it >= n, it < -n), If(it < 0, it + n, it)
            if not self.spec and not (z3.is_int_value(it)):
                # avoid the ite when the sign is known
                if self.solver.valid(st.conds(), it >= 0, 400): bad, idx = it >= n, it
            elif self.spec and not z3.is_int_value(it): idx = it
            if not self.bounds(st, bad): return []
            return [(self.elem(st, o, idx), st)]
        if o.T[0] == "dict": return self.dict_get(o, i, st)
        if o.T[0] == "py" and isinstance(o.t, Seq):
            return [(o.t.elem(i.t, st), st)]
        if o.T[0] == "any": raise Unsupported("subscript of a dynamically typed value")
        raise Unsupported(f"subscript of {o.T}")
    def nonnull_use(self, o, st, exc="TypeError"):
        if self.spec or not nullable(o.T): return True
        b = st.fork(); b.branch(o.t == NONE); self.raise_(b, exc)
        st.branch(o.t != NONE)
        return self.feasible(st)
    def modlit_get(self, t, i, st):
        node = t[3]
        if not isinstance(node, ast.Dict): raise Unsupported("module level list")
        out = []
        fr, self.frame = self.frame, self.newframe(None, t[1], None)
        try:
            miss = st.fork()
            for kn, vn in zip(node.keys, node.values):
                kv = self.ev1(kn, st)[0]
                c = self.eq(st, i, kv)
                x = st.fork(); x.branch(c)
                miss.branch(Not(c))
                if self.feasible(x): out += self.ev(vn, x)
            self.raise_(miss, "KeyError")
        finally: self.frame = fr
        return out
    def slice(self, st, o, lo, hi, step):
        if step.T[0] != "none":
            if lo.T[0] == "none" and hi.T[0] == "none" and z3.is_int_value(z3.simplify(step.t)) and z3.simplify(step.t).as_long() == -1:
                return self.materialize(st, self.rev_seq(self.toseq(st, o)))
            raise Unsupported("slice step")
        if o.T[0] == "tuple":
            f = lambda v: None if v.T[0] == "none" else z3.simplify(v.t).as_long()
            items = o.t[slice(f(lo), f(hi))]
            return V(TUP(*[x.T for x in items]), items)
        if o.T[0] == "str": return V(STR(), self.ufstr(st, "str_slice", [o.t, lo.t if lo.T[0] == "int" else z3.IntVal(0), hi.t if hi.T[0] == "int" else NONE]))
        if o.T[0] == "py" and isinstance(o.t, Seq): o = self.materialize(st, o.t)
        if o.T[0] != "list": raise Unsupported("slice of " + str(o.T))
        if o.T[1][0] == "unk": return o
        n = self.length(st, o)
        def norm(v, d):
            if v.T[0] == "none": return d
            t = z3.simplify(self.num(st, v).t)
            if z3.is_int_value(t):
                c = t.as_long()
                return If(plus(n, c) < 0, z3.IntVal(0), plus(n, c)) if c < 0 else If(t > n, n, t) if c else t
            t2 = If(t < 0, t + n, t)
            return If(t2 < 0, z3.IntVal(0), If(t2 > n, n, t2))
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        ln = z3.simplify(If(b > a, b - a, z3.IntVal(0)))
        A = self.earr(st, o)
        if z3.is_int_value(z3.simplify(a)) and z3.simplify(a).as_long() == 0:
            return self.new_list(st, o.T[1], ln, A)
        B = fresh("slc", A.sort()); i = z3.Int("i!s")
        st.fact(forall(i, z3.Select(B, i) == z3.Select(A, i + a), [z3.Select(B, i)]))
        st.fact(forall(i, z3.Select(B, i - a) == z3.Select(A, i), [z3.Select(A, i)]))
        self.register_comp(B, ln, None, None, None)
        k = z3.Int("k!s"); self.comps[B.get_id()] = (B, ln, k, z3.BoolVal(True), Sel(A, k + a))
        return self.new_list(st, o.T[1], ln, B)
    def setitem(self, o, i, v, st):
        if o.T[0] == "list":
            n = self.length(st, o)
            if not self.nonnull_use(o, st): return []
            it = z3.simplify(self.num(st, i).t)
            if z3.is_int_value(it) and it.as_long() < 0: bad, idx = plus(n, it.as_long()) < 0, plus(n, it.as_long())
            elif z3.is_int_value(it): bad, idx = it >= n, it
            else: bad, idx = Or(it >= n, it < -n), If(it < 0, it + n, it)
            if not self.bounds(st, bad): return []
            A = self.earr(st, o)
            self.list_replace(st, o, n, z3.Store(A, idx, self.eterm(st, o.T[1], v)))
            return [st]
        if o.T[0] == "dict":
            self.dict_set(st, o, i, v); return [st]
        raise Unsupported("item assignment on " + str(o.T))
    def delitem(self, o, i, st):
        if o.T[0] == "dict": return self.dict_del(o, i, st)
        if o.T[0] == "list": return self.list_method(o, "pop", [i], {}, st)
        raise Unsupported("del item")
    def contains(self, st, c, x):
        if c.T[0] == "tuple": return Or([self.eq(st, x, y) for y in c.t])
        if c.T[0] == "none": raise Unsupported("in None")
        if c.T[0] == "list":
            if c.T[1][0] == "unk": return z3.BoolVal(False)
            n = self.length(st, c)
            A = self.earr(st, c)
            if z3.is_int_value(n) and n.as_long() <= 8:
                return Or([self.eq(st, x, self.elem(st, c, z3.IntVal(i))) for i in range(n.as_long())])
            k = fresh("m", Int)
            p0 = len(st.pc)
            e = self.elem(st, c, k)
            self.close_facts(st, p0, k, And(0 <= k, k < n))
            if x.T[0] in ("ref", "str", "any", "int") and e.T[0] in ("ref", "str", "any", "int") or (x.T[0] == "list" and e.T[0] == "list"):
                if x.T[0] == "list":
                    p0 = len(st.pc)
                    q = self.eq(st, e, x)
                    self.close_facts(st, p0, k, And(0 <= k, k < n))
                    return exists(k, And(0 <= k, k < n, q))
                return exists(k, And(0 <= k, k < n, self.eq(st, e, x)))
            return exists(k, And(0 <= k, k < n, self.eq(st, e, x)))
        if c.T[0] == "set": return z3.Select(self.smem(st, c), self.sterm(st, c.T[1], x))
        if c.T[0] == "dict": return self.dict_has(st, c, x)
        if c.T[0] == "str":
            t = self.uf("substr", [x.t, c.t], Bool)
            st.fact(self.uf("substr", [x.t, x.t], Bool))
            return t
        if c.T[0] == "py" and isinstance(c.t, Seq):
            return self.contains(st, self.materialize(st, c.t), x)
        if c.T[0] == "py" and isinstance(c.t, tuple) and c.t[0] == "modlit":
            node = c.t[3]
            fr, self.frame = self.frame, self.newframe(None, c.t[1], None)
            try: return Or([self.eq(st, x, self.ev1(e, st)[0]) for e in (node.keys if isinstance(node, ast.Dict) else node.elts)])
            finally: self.frame = fr
        raise Unsupported(f"membership in {c.T}")
    def close_facts(self, st, p0, k, rng, mk=None):
        """facts recorded since p0 mention the bound variable k: quantify them"""
        new = st.pc[p0:]; del st.pc[p0:]
        ks = k if isinstance(k, list) else [k]
        for kind, e in new:
            if mentions(e, ks): st.fact(forall(ks, Implies(rng, e)))
            else: st.fact(e)
    def list_eq(self, st, a, b):
        if a.T[1][0] == "unk" and b.T[1][0] == "unk": return z3.BoolVal(True)
        if a.T[1][0] == "unk": return self.length(st, b) == 0
        if b.T[1][0] == "unk": return self.length(st, a) == 0
        if tkey(a.T[1]) != tkey(b.T[1]) and not {a.T[1][0], b.T[1][0]} <= {"int", "real"}: 
            return And(self.length(st, a) == 0, self.length(st, b) == 0)
        n, m = self.length(st, a), self.length(st, b)
        A, B = self.earr(st, a), self.earr(st, b)
        if n.eq(m) and A.eq(B): return z3.BoolVal(True)
        if z3.is_int_value(n) and z3.is_int_value(m) and n.as_long() != m.as_long(): return z3.BoolVal(False)
        for u, w in ((n, m), (m, n)):
            if z3.is_int_value(u) and u.as_long() <= 6:
                p0 = len(st.pc)
                r = And([w == u] + [self.eq(st, self.elem(st, a, z3.IntVal(i)), self.elem(st, b, z3.IntVal(i))) for i in range(u.as_long())])
                return r
        k = fresh("q", Int)
        p0 = len(st.pc)
        x, y = self.elem(st, a, k), self.elem(st, b, k)
        q = self.eq(st, x, y)
        self.close_facts(st, p0, k, And(0 <= k, k < n))
        return And(n == m, forall(k, Implies(And(0 <= k, k < n), q)))
    # ---------------------------------------------------------------- sequences
    def toseq(self, st, v):
        T = v.T
        if T[0] == "py" and isinstance(v.t, Seq): return v.t
        if T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "modlit": return self.toseq(st, self.ev_modlit(v.t, st))
        if T[0] == "list":
            if T[1][0] == "unk": return Seq(z3.IntVal(0), lambda k, s: NONEV, v)
            n = self.length(st, v)
            et, A = T[1], self.earr(st, v)
            if et[0] == "opt": raise Unsupported("iteration over optional numbers")
            return Seq(n, lambda k, s: self.elem_of(s, et, A, k, v), v)
        if T[0] == "tuple":
            items = v.t
            return Seq(z3.IntVal(len(items)), lambda k, s: self._tuple_at(s, items, k), v)
        if T[0] == "dict": return self.dict_seq(st, v, "keys")
        if T[0] == "set": return self.toseq(st, self.set_list(st, v))
        raise Unsupported(f"iteration over {T}")
    def ev_modlit(self, t, st):
        fr, self.frame = self.frame, self.newframe(None, t[1], None)
        try: return self.ev1(t[3], st)[0]
        finally: self.frame = fr
    def _tuple_at(self, st, items, k):
        k = z3.simplify(k)
        if z3.is_int_value(k): return items[k.as_long()]
        v = items[-1]
        for i in range(len(items) - 2, -1, -1): v = self.ite(st, k == i, items[i], v)
        return v
    def rev_seq(self, s):
        return Seq(s.n, lambda k, st: s.elem(s.n - 1 - k, st), s.src)
    # ---------------------------------------------------------------- dicts
    def dkeys(self, d): return f"{tkey(d.T[1])}:{tkey(d.T[2])}"
    def dmaps(self, st, d):
        s = self.dkeys(d)
        if d.T[1][0] == "unk": raise Unsupported("dict literal of unknown type")
        ks, vs = zsort(d.T[1]), zsort(d.T[2])
        if d.T[1][0] in ("opt", "real", "bool") or d.T[2][0] in ("opt",): raise Unsupported("dict key/value type")
        return (self.hmap(st, "ddom:" + s, z3.ArraySort(ks, Bool)), self.hmap(st, "dval:" + s, z3.ArraySort(ks, vs)),
                self.hmap(st, "dlen:" + s, Int), self.hmap(st, "dkey:" + s, z3.ArraySort(Int, ks)), self.hmap(st, "dpos:" + s, z3.ArraySort(ks, Int)))
    def dict_wf(self, st, d):
        if d.T[1][0] == "unk": return
        try: dom, val, ln, key, pos = self.dmaps(st, d)
        except Unsupported: return
        D, N, K, P = Sel(dom, d.t), Sel(ln, d.t), Sel(key, d.t), Sel(pos, d.t)
        i = z3.Int("i!d"); k = z3.Const("k!d", zsort(d.T[1]))
        st.fact(N >= 0)
        st.fact(forall(i, Implies(And(0 <= i, i < N), And(z3.Select(D, z3.Select(K, i)), z3.Select(P, z3.Select(K, i)) == i)), [z3.Select(K, i)]))
        st.fact(forall(k, Implies(z3.Select(D, k), And(0 <= z3.Select(P, k), z3.Select(P, k) < N, z3.Select(K, z3.Select(P, k)) == k)), [z3.Select(D, k)]))
        vt = d.T[2]
        if vt[0] in ("ref", "list", "dict", "str", "set"):
            for b in self.bases(val):
                al = self.base_alloc.get(b.decl().name()) if z3.is_const(b) else None
                if al is None: continue
                e = z3.Select(z3.Select(b, d.t), k)
                body = self.wf_term(vt, e, al)
                if vt[0] == "list" and vt[1][0] != "unk":
                    for b2 in self.bases(self.hmap(st, "len:" + tkey(vt[1]), Int)): body = And(body, z3.Select(b2, e) >= 0)
                st.fact(forall(k, body, [e]))
    def dlen(self, st, d):
        if d.T[1][0] == "unk": return z3.IntVal(0)
        return Sel(self.dmaps(st, d)[2], d.t)
    def dkeyterm(self, st, d, x): 
        return self.coerce(st, x, d.T[1]).t if d.T[1][0] != "tuple" else self._tuplekey(st, d, x)
    def _tuplekey(self, st, d, x): raise Unsupported("tuple dict key")
    def dict_has(self, st, d, x):
        if d.T[1][0] == "unk": return z3.BoolVal(False)
        return Sel(Sel(self.dmaps(st, d)[0], d.t), self.dkeyterm(st, d, x))
    def dict_val(self, st, d, kt):
        v = Sel(Sel(self.dmaps(st, d)[1], d.t), kt)
        if d.T[2][0] == "tuple": return self.unbox(st, d.T[2], v)
        r = V(d.T[2], v)
        if d.T[2][0] in ("ref", "list", "dict", "set", "str"): self.wf(st, r)
        return r
    def dict_get(self, d, i, st):
        if d.T[1][0] == "unk": self.raise_(st, "KeyError"); return []
        kt = self.dkeyterm(st, d, i)
        if not self.bounds(st, Not(self.dict_has(st, d, i)), "KeyError"): return []
        return [(self.dict_val(st, d, kt), st)]
    def dict_write(self, st, d, maps):
        s = self.dkeys(d)
        for nm, v in zip(("ddom:", "dval:", "dlen:", "dkey:", "dpos:"), maps):
            if v is not None: self.wr(st, nm + s, d.t, v)
    def dict_set(self, st, d, i, v):
        if d.T[1][0] == "unk": self.hint(d.T[1], (self.heapable(i.T), self.heapable(v.T)))
        if v.T[0] == "list" and v.T[1][0] == "unk" and d.T[2][0] == "list": v = self.coerce(st, v, d.T[2])
        if d.T[2][0] == "list" and d.T[2][1][0] == "unk" and v.T[0] == "list" : raise Unsupported("dict of untyped lists")
        kt = self.dkeyterm(st, d, i)
        dom, val, ln, key, pos = self.dmaps(st, d)
        D, W, N, K, P = Sel(dom, d.t), Sel(val, d.t), Sel(ln, d.t), Sel(key, d.t), Sel(pos, d.t)
        had = Sel(D, kt)
        vt = self.coerce(st, v, d.T[2])
        vt = self.box(st, vt) if d.T[2][0] == "tuple" else vt.t
        self.dict_write(st, d, (z3.Store(D, kt, z3.BoolVal(True)), z3.Store(W, kt, vt), If(had, N, N + 1),
                                If(had, K, z3.Store(K, N, kt)), If(had, P, z3.Store(P, kt, N))))
    def dict_del(self, d, i, st):
        kt = self.dkeyterm(st, d, i)
        if not self.bounds(st, Not(self.dict_has(st, d, i)), "KeyError"): return []
        v = self.dict_val(st, d, kt)
        dom, val, ln, key, pos = self.dmaps(st, d)
        D, N, K, P = Sel(dom, d.t), Sel(ln, d.t), Sel(key, d.t), Sel(pos, d.t)
        K2, P2 = fresh("dk", K.sort()), fresh("dp", P.sort())
        j = z3.Int("j!d"); p = Sel(P, kt)
        st.fact(forall(j, z3.Select(K2, j) == If(j < p, z3.Select(K, j), z3.Select(K, j + 1)), [z3.Select(K2, j)]))
        q = z3.Const("q!d", zsort(d.T[1]))
        st.fact(forall(q, z3.Select(P2, q) == If(z3.Select(P, q) < p, z3.Select(P, q), z3.Select(P, q) - 1), [z3.Select(P2, q)]))
        self.dict_write(st, d, (z3.Store(D, kt, z3.BoolVal(False)), None, N - 1, K2, P2))
        return [(v, st)]
    def new_dict(self, st, kt, vt, cell=None):
        r = self.alloc(st)
        if kt[0] == "unk":
            return V(("dict", kt, kt, False), r)
        d = V(DICT(kt, vt), r)
        ks, vs = zsort(kt), zsort(vt)
        K = fresh("dk", z3.ArraySort(Int, ks)); P = fresh("dp", z3.ArraySort(ks, Int)); W = fresh("dv", z3.ArraySort(ks, vs))
        self.dict_write(st, d, (z3.K(ks, z3.BoolVal(False)), W, z3.IntVal(0), K, P))
        return d
    def ev_Dict(self, n, st):
        out = []
        ks = [k for k in n.keys]
        if any(k is None for k in ks): raise Unsupported("dict unpacking")
        for vs, x in self.evs(list(n.keys) + list(n.values), st):
            m = len(n.keys)
            h = self.hints.get(id(n))
            if h is None and m:
                kt, vt = vs[0].T, vs[m].T
                if any(v.T[0] == "py" for v in vs): raise Unsupported("dict of python-level values")
                for v in vs[1:m]: kt = unify(kt, v.T)
                for v in vs[m + 1:]: vt = unify(vt, v.T)
                h = (kt, vt)
            d = self.new_dict(x, *(h or (("unk", id(n)), None)))
            for k, v in zip(vs[:m], vs[m:]): self.dict_set(x, d, k, v)
            out.append((d, x))
        return out
    def dict_seq(self, st, d, what):
        if d.T[1][0] == "unk": return Seq(z3.IntVal(0), lambda k, s: NONEV)
        dom, val, ln, key, pos = self.dmaps(st, d)
        N, K, W = Sel(ln, d.t), Sel(key, d.t), Sel(val, d.t)
        T = d.T
        def kv(k, s):
            r = V(T[1], Sel(K, k)); self.wf(s, r); return r
        def vv(k, s):
            t = Sel(W, Sel(K, k))
            if T[2][0] == "tuple": return self.unbox(s, T[2], t)
            r = V(T[2], t)
            if T[2][0] in ("ref", "list", "dict", "set", "str"): self.wf(s, r)
            return r
        if what == "keys": return Seq(N, kv, d)
        if what == "values": return Seq(N, vv, d)
        def it(k, s):
            a, b = kv(k, s), vv(k, s)
            return V(TUP(a.T, b.T), [a, b])
        return Seq(N, it, d)
    def dict_eq(self, st, a, b):
        if a.T[1][0] == "unk" or b.T[1][0] == "unk":
            return And(self.dlen(st, a) == 0, self.dlen(st, b) == 0)
        k = fresh("dq", zsort(a.T[1]))
        A, B = self.dmaps(st, a), self.dmaps(st, b)
        DA, DB = Sel(A[0], a.t), Sel(B[0], b.t)
        return And(self.dlen(st, a) == self.dlen(st, b), forall(k, And(z3.Select(DA, k) == z3.Select(DB, k), Implies(z3.Select(DA, k), z3.Select(Sel(A[1], a.t), k) == z3.Select(Sel(B[1], b.t), k)))))
    # ---------------------------------------------------------------- sets
    def smem(self, st, s):
        if s.T[1][0] == "unk": return z3.K(Int, z3.BoolVal(False))
        return Sel(self.hmap(st, "smem:" + tkey(s.T[1]), z3.ArraySort(zsort(s.T[1]), Bool)), s.t)
    def sterm(self, st, et, x):
        if et[0] == "tuple": raise Unsupported("set of tuples")
        return self.coerce(st, x, et).t
    def new_set(self, st, et, mem):
        r = self.alloc(st)
        v = V(SET(et), r)
        if et[0] == "unk": return v
        self.wr(st, "smem:" + tkey(et), r, mem)
        return v
    def ev_Set(self, n, st):
        out = []
        for vs, x in self.evs(n.elts, st):
            et = vs[0].T
            for v in vs[1:]: et = unify(et, v.T)
            m = z3.K(zsort(et), z3.BoolVal(False))
            for v in vs: m = z3.Store(m, self.sterm(x, et, v), z3.BoolVal(True))
            out.append((self.new_set(x, et, m), x))
        return out
    def set_of(self, st, v, node=None):
        """set(iterable)"""
        if v.T[0] == "set": return self.new_set(st, v.T[1], self.smem(st, v))
        l = v if v.T[0] == "list" else self.materialize(st, self.toseq(st, v))
        et = l.T[1]
        if et[0] == "unk": return self.new_set(st, self.hints.get(id(node), ("unk", id(node))), None if id(node) not in self.hints else z3.K(zsort(self.hints[id(node)]), z3.BoolVal(False)))
        if et[0] in ("tuple", "opt", "list"): raise Unsupported(f"set of {show(et)}")
        n, A = self.length(st, l), self.earr(st, l)
        M = fresh("set", z3.ArraySort(zsort(et), Bool)); W = fresh("setw", z3.ArraySort(zsort(et), Int))
        k = z3.Int("k!set"); x = z3.Const("x!set", zsort(et))
        st.fact(forall(k, Implies(And(0 <= k, k < n), z3.Select(M, z3.Select(A, k))), [z3.Select(A, k)]))
        st.fact(forall(x, Implies(z3.Select(M, x), And(0 <= z3.Select(W, x), z3.Select(W, x) < n, z3.Select(A, z3.Select(W, x)) == x)), [z3.Select(M, x)]))
        r = self.new_set(st, et, M)
        self.setsrc = getattr(self, "setsrc", {}); self.setsrc[M.get_id()] = (M, n, A)
        return r
    def set_list(self, st, v):
        """the members in some order, once each"""
        et = v.T[1]
        if et[0] == "unk": return self.new_list(st, et, z3.IntVal(0), None)
        if self.spec: raise Unsupported("order of a set in a specification")
        M, n = self.smem(st, v), self.set_len(st, v)
        A = fresh("setl", z3.ArraySort(Int, self.esort(et))); W = fresh("setp", z3.ArraySort(zsort(et), Int))
        k = z3.Int("k!sl"); x = z3.Const("x!sl", zsort(et))
        st.fact(forall(k, Implies(And(0 <= k, k < n), And(z3.Select(M, z3.Select(A, k)), z3.Select(W, z3.Select(A, k)) == k)), [z3.Select(A, k)]))
        st.fact(forall(x, Implies(z3.Select(M, x), And(0 <= z3.Select(W, x), z3.Select(W, x) < n, z3.Select(A, z3.Select(W, x)) == x)), [z3.Select(M, x)]))
        return self.new_list(st, et, n, A)
    def set_len(self, st, s):
        M = self.smem(st, s)
        src = getattr(self, "setsrc", {}).get(M.get_id())
        if src is not None:
            _, n, A = src
            i, j = z3.Int("i!sl"), z3.Int("j!sl")
            c = fresh("card", Int)
            st.fact(And(0 <= c, c <= n, Implies(n > 0, c > 0)))
            st.fact((c == n) == forall([i, j], Implies(And(0 <= i, i < j, j < n), z3.Select(A, i) != z3.Select(A, j))))
            return c
        c = self.uf("card", [M], Int); st.fact(c >= 0)
        return c
    def set_op(self, st, op, a, b):
        if a.T[1][0] == "unk" or b.T[1][0] == "unk": raise Unsupported("untyped set")
        A, B = self.smem(st, a), self.smem(st, b)
        M = fresh("set", A.sort()); x = z3.Const("x!so", A.sort().domain())
        f = {ast.BitOr: lambda p, q: Or(p, q), ast.BitAnd: lambda p, q: And(p, q), ast.Sub: lambda p, q: And(p, Not(q))}.get(type(op))
        if f is None: raise Unsupported("set operator")
        st.fact(forall(x, z3.Select(M, x) == f(z3.Select(A, x), z3.Select(B, x)), [z3.Select(M, x)]))
        return self.new_set(st, a.T[1], M)
    # ---------------------------------------------------------------- comprehension / quantifiers
    def ev_ListComp(self, n, st): return self.comp_list(n, st)
    def ev_GeneratorExp(self, n, st): return [(PY(("genexp", n, dict(st.env), self.frame)), st)]
    def ev_SetComp(self, n, st):
        out = []
        for v, x in self.comp_list(n, st): out.append((self.set_of(x, v, n), x))
        return out
    def ev_DictComp(self, n, st): raise Unsupported("dict comprehension")
    def ev_Starred(self, n, st): raise Unsupported("starred expression")
    def quantify(self, gens, body, st, kind):
        """all/any over generators with a pure body; returns z3 Bool; facts are closed"""
        mk = mark()
        p0 = len(st.pc)
        env0 = dict(st.env)
        ks, conds, guards = [], [], []
        x = st
        for g in gens:
            v, x2 = self.ev1(g.iter, x)
            if x2 is not x: x.pc[:] = x2.pc; x.heap = x2.heap; x.alloc = x2.alloc; x.wlog = x2.wlog
            if v.T[0] == "py" and isinstance(v.t, tuple) and v.t[0] == "genexp": raise Unsupported("nested generator")
            s = self.toseq(x, v)
            k = fresh("k", Int); ks.append(k)
            conds.append(And(0 <= k, k < s.n)); x.branch(conds[-1]); guards.append(conds[-1])
            e = s.elem(k, x)
            self.assign(g.target, e, x)
            for c in g.ifs:
                self.mark_boolctx(c)
                cv, x2 = self.ev1(c, x)
                if x2 is not x: x.pc[:] = x2.pc
                conds.append(self.truth(x, cv)); x.branch(conds[-1]); guards.append(conds[-1])
        saved, self.sink = self.sink, []
        b, x2 = self.ev1(body, x)
        bad, self.sink = self.sink, saved
        if x2 is not x: x.pc[:] = x2.pc; x.heap = x2.heap; x.alloc = x2.alloc; x.wlog = x2.wlog
        t = self.truth(x, b)
        st.env.clear(); st.env.update(env0)
        new = [w for w in st.pc[p0:] if not any(w[1].eq(g) for g in guards)]; del st.pc[p0:]
        rng = And(conds)
        exprs = [rng, t] + [e for _, e in new]
        fc = fresh_consts(exprs, mk)
        for k in ks: fc.pop(k.decl().name(), None)
        if fc:
            sub = []
            for nm, c in fc.items():
                srt = c.sort()
                for _ in ks: srt = z3.ArraySort(Int, srt)
                g = fresh(nm.split("!")[0] + "_q", srt)
                a = g
                for k in ks: a = z3.Select(a, k)
                sub.append((c, a))
            exprs = [z3.substitute(e, *sub) for e in exprs]
        rng, t, facts = exprs[0], exprs[1], exprs[2:]
        for (kind_, _), e in zip(new, facts):
            if mentions(e, ks): st.fact(forall(ks, Implies(rng, e)))
            else: st.fact(e)
        for b_ in bad:    # possible exception for some index (over-approximation)
            y = st.fork()
            y.pc += [("b", e) for e in b_[1].conds()[p0:]]
            self.sink.append(("raise", y, b_[2]))
        if kind == "all": return forall(ks, Implies(rng, t))
        return exists(ks, And(rng, t))

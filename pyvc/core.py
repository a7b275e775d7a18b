"""PyVC core: values, state, heap model (Burstall maps), basic solver access."""
import z3, itertools
from .types import *
from .front import Cls, Func, Mod

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
NONE = z3.IntVal(-1)

class Unsupported(Exception):
    """construct outside the verified subset"""
class Restart(Exception):
    """a list/dict literal got its element type; re-run the function"""

class V:
    __slots__ = ("T", "t")
    def __init__(self, T, t): self.T, self.t = T, t
    def __repr__(self): return f"V<{show(self.T) if self.T[0] != 'py' else 'py'}:{self.t}>"

def PY(x): return V(("py",), x)
NONEV = V(NONE_T, None)
def VI(t): return V(INT, t if z3.is_expr(t) else z3.IntVal(t))
def VB(t): return V(BOOL, t if z3.is_expr(t) else z3.BoolVal(t))
def VR(t): return V(REAL, t if z3.is_expr(t) else z3.RealVal(t))

def zsort(T):
    k = T[0]
    if k == "int": return Int
    if k == "real": return Real
    if k == "bool": return Bool
    return Int

class Seq:
    """lazy sequence: length term, element function k->V (facts recorded on the state passed)"""
    def __init__(self, n, elem, src=None): self.n, self.elem, self.src = n, elem, src

_cnt = itertools.count(1)
_ids = {}          # const name -> id
def fresh(name, sort):
    i = next(_cnt)
    nm = f"{name}!{i}"
    c = z3.Const(nm, sort)
    _ids[nm] = i
    return c
def mark():
    return next(_cnt)
def fresh_consts(exprs, start):
    seen, out = set(), {}
    todo = [e for e in exprs if e is not None]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): todo.append(e.body()); continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if _ids.get(nm, -1) >= start: out[nm] = e
        else: todo.extend(e.children())
    return out
def mentions(e, consts):
    ids = {c.get_id() for c in consts}
    seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in ids: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body())
        else: todo.extend(x.children())
    return False

def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a) if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a): return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else a[0] if len(a) == 1 else z3.And(*a)
def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a) if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a): return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else a[0] if len(a) == 1 else z3.Or(*a)
def Not(a):
    if z3.is_true(a): return z3.BoolVal(False)
    if z3.is_false(a): return z3.BoolVal(True)
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return z3.BoolVal(True)
    return z3.Implies(a, b)
def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if a.sort() == Bool and z3.is_true(a) and z3.is_false(b): return c
    return z3.If(c, a, b)
def Sel(m, i):
    # syntactic read-over-write for identical / numerically distinct indices
    while z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
        j = m.arg(1)
        if j.eq(i): return m.arg(2)
        if definitely_distinct(i, j): m = m.arg(0)
        else: break
    return z3.Select(m, i)
def _lin(e):
    """(base id, offset) for base+const / const"""
    if z3.is_int_value(e): return (None, e.as_long())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        return (e.arg(0).get_id(), e.arg(1).as_long())
    return (e.get_id(), 0)
BOUNDS = {}       # term id -> (term, [alloc terms it is below])   (typing facts of the heap model)
def note_bound(t, alloc):
    e = BOUNDS.setdefault(t.get_id(), (t, []))
    if len(e[1]) < 6 and not any(a.eq(alloc) for a in e[1]): e[1].append(alloc)
MAPB = {}         # name of a base heap map -> (alloc term its references are below, levels of selection)
def note_map(name, key, alloc):
    if key.rsplit(":", 1)[-1] in ("ref", "list", "dict", "set"):
        if key.startswith("f:"): MAPB[name] = (alloc, 1)
        elif key.startswith("elt:"): MAPB[name] = (alloc, 2)
def _mapbelow(m, lv, b, d=4):
    """every reference held by the map m (after lv more selections) is below b, syntactically"""
    if d == 0 or not z3.is_app(m): return False
    k = m.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and m.num_args() == 0:
        e = MAPB.get(m.decl().name())
        if e is None or e[1] != lv: return False
        x, y = _lin(e[0]), _lin(b)
        return x[0] == y[0] and y[1] >= x[1]
    if k == z3.Z3_OP_STORE: return _mapbelow(m.arg(0), lv, b, d) and (_below(m.arg(2), b) if lv == 1 else _mapbelow(m.arg(2), lv - 1, b, d - 1))
    if k == z3.Z3_OP_SELECT: return _mapbelow(m.arg(0), lv + 1, b, d)
    if k == z3.Z3_OP_ITE: return _mapbelow(m.arg(1), lv, b, d - 1) and _mapbelow(m.arg(2), lv, b, d - 1)
    return False
def _below(t, b):
    """t < bound <= b syntactically"""
    e = BOUNDS.get(t.get_id())
    y = _lin(b)
    for al in (e[1] if e else ()):
        x = _lin(al)
        if x[0] == y[0] and y[1] >= x[1]: return True
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT: return _mapbelow(t.arg(0), 1, b)
    return False
def definitely_distinct(a, b):
    if a.sort() != Int: return False
    x, y = _lin(a), _lin(b)
    return (x[0] == y[0] and x[1] != y[1]) or _below(a, b) or _below(b, a)
def resel(e, memo):
    """re-apply read-over-write (also under binders): reads of an older object skip the writes to a newer one"""
    i = e.get_id()
    if i in memo: return memo[i][1]
    r = e
    if z3.is_quantifier(e):
        if not e.is_lambda():
            vs = [z3.FreshConst(e.var_sort(j), "q") for j in range(e.num_vars())]
            sub = lambda x: resel(z3.substitute_vars(x, *reversed(vs)), {})
            b0 = z3.substitute_vars(e.body(), *reversed(vs)); b = resel(b0, memo)
            if not b.eq(b0):
                ps = []
                for j in range(e.num_patterns()):
                    ts = [sub(t) for t in e.pattern(j).children()]
                    ps.append(ts[0] if len(ts) == 1 else z3.MultiPattern(*ts))
                try: r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, b, patterns=ps)
                except z3.Z3Exception: r = (z3.ForAll if e.is_forall() else z3.Exists)(vs, b)
    elif z3.is_app(e) and e.num_args():
        ch = [resel(c, memo) for c in e.children()]
        if e.decl().kind() == z3.Z3_OP_SELECT and len(ch) == 2: r = Sel(ch[0], ch[1])
        elif any(not x.eq(y) for x, y in zip(ch, e.children())): r = e.decl()(*ch)
    memo[i] = (e, r)
    return r
def plus(e, c):
    if z3.is_int_value(e) and isinstance(c, int): return z3.IntVal(e.as_long() + c)
    if isinstance(c, int):
        if c == 0: return e
        b, o = e, 0
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
            b, o = e.arg(0), e.arg(1).as_long()
        return b + z3.IntVal(o + c) if o + c else b
    return e + c
def forall(vs, body, pats=None):
    if z3.is_true(body): return body
    vs = vs if isinstance(vs, list) else [vs]
    if not pats: return z3.ForAll(vs, body)
    try: return z3.ForAll(vs, body, patterns=pats)
    except z3.Z3Exception: return z3.ForAll(vs, body)
def exists(vs, body):
    return z3.Exists(vs if isinstance(vs, list) else [vs], body)

class St:
    """symbolic state on one path"""
    __slots__ = ("heap", "env", "pc", "alloc", "wlog", "epoch", "ghost")
    def __init__(self):
        self.heap, self.env, self.pc, self.alloc, self.wlog, self.epoch, self.ghost = {}, {}, [], None, [], (0, None), {}
    def fork(self):
        s = St.__new__(St)
        s.heap, s.env, s.pc, s.alloc, s.wlog, s.epoch, s.ghost = dict(self.heap), dict(self.env), list(self.pc), self.alloc, list(self.wlog), self.epoch, dict(self.ghost)
        return s
    def fact(self, e):
        if not z3.is_true(e): self.pc.append(("f", e))
    def branch(self, e):
        if not z3.is_true(e): self.pc.append(("b", e))
    def conds(self): return [e for _, e in self.pc]

_hq = {}
def has_quant(e):
    r = _hq.get(e.get_id())
    if r is not None and r[0].eq(e): return r[1]
    todo, seen, v = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): v = True; break
        todo.extend(x.children())
    _hq[e.get_id()] = (e, v)
    return v

class Solver:
    """quick feasibility queries; every deciding query goes through discharge.py"""
    def __init__(self, timeout=70):
        self.timeout, self.n, self.secs = timeout, 0, 0.0
        self.cache = {}
    def feasible(self, conds, timeout=None):
        import time
        t0 = time.time()
        key = tuple(c.get_id() for c in conds)
        if key in self.cache: return self.cache[key][0]
        s = z3.Solver(); s.set("timeout", timeout or self.timeout)
        q = [c for c in conds if not has_quant(c)]
        self.n += 1
        s.add(*q)
        r = s.check()
        if r != z3.unsat and len(q) < len(conds):
            s = z3.Solver(); s.set("timeout", timeout or self.timeout)
            s.add(*conds)
            r = s.check()
        self.secs += time.time() - t0
        res = r != z3.unsat
        self.cache[key] = (res, list(conds))
        return res
    def valid(self, conds, goal, timeout=3000):
        import time
        if z3.is_true(goal): return True
        t0 = time.time()
        s = z3.Solver(); s.set("timeout", timeout)
        s.add(*conds); s.add(Not(goal))
        self.n += 1
        r = s.check()
        self.secs += time.time() - t0
        return r == z3.unsat

"""Contract-driven concrete testing of one function: random heaps satisfying `requires`, real execution, `ensures`/`raises`/frame evaluated."""
import time, sys, inspect, traceback, json, random, os, signal
from .world import *

HANG = 15
class HangErr(BaseException): pass
def _alarm(*a): raise HangErr()
signal.signal(signal.SIGALRM, _alarm)

class Violation(Exception):
    def __init__(self, clause, detail): self.clause, self.detail = clause, detail

ALIAS = {"capacity": {"capacity", "_capacity"}, "triggered": {"_value", "_ok", "callbacks", "_defused"}, "users": {"users"}}
IGNORE = {"_env", "queue", "put_queue", "get_queue", "_queue", "_eid", "_active_proc", "interrupts", "callbacks", "_defused", "_target", "_generator"}

def describe(o, depth=0, seen=None):
    seen = seen if seen is not None else {}
    if isinstance(o, PRIM): return o if not isinstance(o, bytes) else repr(o)
    if isinstance(o, float): return o
    if hasattr(o, "value") and type(o).__mro__[1].__name__ in ("Enum", "str"): return str(o)
    if isinstance(o, (list, tuple, set)): return [describe(x, depth + 1, seen) for x in list(o)[:8]]
    if isinstance(o, dict): return {str(describe(k, depth + 1, seen)): describe(v, depth + 1, seen) for k, v in list(o.items())[:8]}
    t = type(o).__name__
    if id(o) in seen: return f"<{t}#{seen[id(o)]}>"
    seen[id(o)] = len(seen)
    if depth > 4: return f"<{t}#{seen[id(o)]}>"
    if t in ("Event", "Timeout", "Process", "StorePut", "AllOf", "Condition"): return f"<{t}#{seen[id(o)]} triggered={o.triggered}>"
    d = getattr(o, "__dict__", None)
    if t == "Environment": return f"<Environment now={o.now}>"
    if isinstance(d, dict) and not callable(o):
        return {"#": f"{t}#{seen[id(o)]}", **{k: describe(v, depth + 1, seen) for k, v in list(d.items())[:14] if k not in ("env", "_env")}}
    return repr(o)[:80]

class FnFuzz:
    def __init__(self, w, key, c):
        self.w, self.key, self.c = w, key, c
        self.f = w.repo.func(key)
        if self.f is None: raise Reject("function missing")
        self.py = w.func(self.f)
        self.hints = dict(c.fuzz.get("hints", {}))
        self.skipped = set()
        f = self.f
        self.names = [a.arg for a in f.node.args.args]
        if f.node.args.vararg or f.node.args.kwarg: raise Reject("variadic")
        T = {}
        for a in f.node.args.args:
            if a.arg in c.params: T[a.arg] = w.types.parse(c.params[a.arg], f.mod)
            elif a.arg == "self" and f.cls is not None:
                cl = [w.repo.cls(x) for x in c.recv] if c.recv else [x for x in w.concrete(f.cls) if x.find(f.name) is f] or [f.cls]
                T["self"] = REF(cl)
            else: T[a.arg] = w.types.ann(a.annotation, f.mod) if a.annotation is not None else ANY
        nd = len(f.node.args.defaults)
        for a, d in zip(f.node.args.args[len(f.node.args.args) - nd:], f.node.args.defaults):
            if isinstance(d, ast.Constant) and d.value is None and a.arg not in c.params: T[a.arg] = OPT(T[a.arg])
        self.T = T
        self.accepted = self.tried = 0
        self.sizes = set()
    def call(self, G, args):
        f, py = self.f, self.py
        if f.is_property:
            return py.fget(args[self.names[0]])
        if isinstance(py, staticmethod): return py.__func__(**args)
        if isinstance(py, classmethod):
            a = dict(args); a.pop(self.names[0], None)
            return py.__func__(self.w.cls(f.cls), **a)
        py = getattr(py, "__func__", py)
        vals = [args[n] for n in self.names]
        return py(*vals)
    def one(self, seed):
        w, c, f = self.w, self.c, self.f
        G = Gen(w, seed, self.hints, size=3 + seed % 3)
        w.cur = G
        try:
            random.seed(seed)
            ctor = f.name == "__init__"
            args = {}
            setup = c.fuzz.get("args")
            for n in self.names:
                if f.is_classmethod and n == self.names[0]: continue
                if ctor and n == "self":
                    cl = self.T[n][1][0]
                    p = w.cls(cl); o = p.__new__(p)
                    G.ctor = o
                    try:
                        import pydantic
                        if isinstance(o, pydantic.BaseModel):
                            for nm, v in (("__pydantic_fields_set__", set()), ("__pydantic_extra__", None), ("__pydantic_private__", None)): object.__setattr__(o, nm, v)
                    except ImportError: pass
                    args[n] = G.note(o, cl); continue
                h = self.hints.get(n)
                args[n] = G.hint_value(h, args, self.T[n]) if h is not None else G.value(self.T[n], n)
            if c.fuzz.get("setup"):
                exec(c.fuzz["setup"], {**args, "G": G, "rnd": G.rnd, "choice": G.rnd.choice, "w": w, "inf": inf, "new": lambda n: G.value(w.types.parse(n))})
            env = w.env(f, args, G)
            for nm, e in c.requires:
                try: ok = w.ev(e, env)
                except Reject: raise
                except Exception as ex:
                    if isinstance(ex, (NameError,)): raise
                    raise Reject(f"requires not evaluable: {type(ex).__name__} {ex}")
                if not ok: raise Reject(nm)
            G.snapshot(args.values())
            conds = []
            for exc, cond, ens in c.raises:
                try: conds.append((exc, bool(w.ev(cond, env)), ens))
                except Reject: raise
                except Exception as ex: conds.append((exc, None, ens)); self.skipped.add(f"raises {exc}: {type(ex).__name__} {ex}")
            # everything evaluated so far may have completed the heap lazily; containers created meanwhile are in the snapshot
            desc = None
            st = random.getstate()
            raised, res = None, None
            try: res = self.call(G, args)
            except (Reject, Skip): raise
            except RecursionError: raise Reject("recursion")
            except Exception as ex: raised = ex
            import types as _ty
            if isinstance(res, _ty.GeneratorType): raise Reject("generator")
            self.accepted += 1
            if raised is not None:
                nms = {k.__name__ for k in type(raised).__mro__}
                ms = [x for x in conds if x[0] in nms]
                if not ms and any(m in nms for m in c.may_raise) : return G, args, None
                if ms and any(x[1] is None for x in ms): return G, args, None
                if not any(x[1] for x in ms):
                    tb = traceback.extract_tb(raised.__traceback__)
                    where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else ""
                    # failures inside the generator/spec machinery are not failures of the code
                    raise Violation(f"raises {type(raised).__name__} only when allowed", f"{type(raised).__name__}: {str(raised)[:200]} at {where}")
                for exc, _, ens in ms:
                    for e in ens or []: self.clause(w, G, f"on {exc}: {e}", e, args, None)
                if c.exc_modifies is not None: self.frame(w, G, args, c.exc_modifies)
                return G, args, None
            for exc, v, ens in conds:
                if v: raise Violation(f"raises {exc} when: {dict((a, b) for a, b, _ in c.raises)[exc]}", "returned normally")
            for nm, e in c.ensures: self.clause(w, G, nm, e, args, res)
            if not c.noframe and not f.is_gen: self.frame(w, G, args, c.modifies)
            return G, args, res
        finally: w.cur = None
    def clause(self, w, G, nm, e, args, res):
        try: ok = w.ev(e, w.env(self.f, args, G, res))
        except (Reject, Skip): self.skipped.add(nm); return
        except Exception as ex:
            self.skipped.add(f"{nm}: {type(ex).__name__} {str(ex)[:120]}"); return
        if not ok: raise Violation(nm, f"clause is false: {e}; result={describe(res)}")
    def frame(self, w, G, args, mods):
        allowed = set(); sets = []
        env = w.env(self.f, args, G)
        for m in mods:
            if isinstance(m, tuple): sets.append(m); continue
            try:
                if m.endswith("[]"):
                    ref = G.old_eval(lambda: Box(w.ev(m[:-2], env))).v
                    allowed.add((id(ref), None))
                else:
                    b, fl = m.rsplit(".", 1)
                    o = G.old_eval(lambda: Box(w.ev(b, env))).v
                    for a in ALIAS.get(fl, {fl}): allowed.add((id(o), a))
            except Exception as ex:
                if isinstance(ex, (Reject,)): raise
                continue
        for i, (o, s) in list(G.snap.items()):
            if isinstance(o, (list, dict, set)):
                if not isinstance(o, list): ch = o != s and not (len(o) == len(s) and eqd(o, s))
                else: ch = len(o) != len(s) or any(x is not y and not same(x, y) for x, y in zip(o, s))
                if ch and (i, None) not in allowed and not self.set_allowed(w, G, sets, o, None, env):
                    raise Violation("frame: contents", f"a {type(o).__name__} not listed as modified changed: {describe(s)} -> {describe(o)}")
                continue
            if type(o).__module__.startswith("simpy") or type(o).__name__ == "Environment":
                if "_value" in s and (s.get("_value") is not o.__dict__.get("_value")) and (i, "_value") not in allowed and not self.set_allowed(w, G, sets, o, "triggered", env):
                    raise Violation("frame: triggered", f"an event not listed as modified was triggered")
                continue
            d = o.__dict__
            for k in set(s) | set(d):
                if k in IGNORE or k.startswith("__"): continue
                a, b = s.get(k, KeyError), d.get(k, KeyError)
                if same(a, b) or (a is not KeyError and b is not KeyError and isnum(a) and isnum(b) and a == b): continue
                if (i, k) in allowed or self.set_allowed(w, G, sets, o, k, env): continue
                c = w.cls_of(o)
                raise Violation(f"frame: {k}", f"{type(o).__name__}.{k} changed from {describe(a)} to {describe(b)} but is not listed as modified")
    def set_allowed(self, w, G, sets, o, k, env):
        for fld, var, cond in sets:
            cn, fl = fld.split(".")
            if k is not None and k not in ALIAS.get(fl, {fl}): continue
            if k is None: continue
            c = w.repo.cls(cn)
            oc = w.cls_of(o)
            if oc is None:
                if not cn.startswith(("Sim",)): continue
            elif c not in oc.mro(): continue
            e2 = w.env(self.f, {**{n: env[n] for n in self.names if n in env}, var: o}, G)
            try:
                if G.old_eval(lambda: Box(bool(w.ev(cond, e2)))).v: return True
            except Exception: return True
        return False

class Box:
    def __init__(self, v): self.v = v
def eqd(a, b):
    if isinstance(a, dict): return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b

def fuzz_function(w, key, c, budget, seed0, nmax=100000):
    """returns dict(accepted, tried, violation|None, skipped)"""
    out = {"fn": key, "accepted": 0, "tried": 0, "violation": None, "skipped": [], "detail": ""}
    try: F = FnFuzz(w, key, c)
    except Reject as e: out["detail"] = str(e); return out
    except Exception as e: out["detail"] = f"{type(e).__name__}: {e}"; return out
    t0 = time.time(); i = 0; rej = {}
    while time.time() - t0 < budget and F.accepted < nmax and i < 200000:
        s = seed0 * 1000003 + i; i += 1
        try:
            signal.setitimer(signal.ITIMER_REAL, HANG)
            try: F.one(s)
            finally: signal.setitimer(signal.ITIMER_REAL, 0)
        except HangErr:
            out["violation"] = {"clause": "terminates", "detail": f"no answer within {HANG} s", "seed": s}
            break
        except Reject as e: rej[str(e)[:90]] = rej.get(str(e)[:90], 0) + 1
        except Violation as v:
            out["violation"] = {"clause": v.clause, "detail": v.detail, "seed": s}
            break
    out["accepted"], out["tried"] = F.accepted, i
    out["skipped"] = sorted(F.skipped)
    out["rejected"] = dict(sorted(rej.items(), key=lambda x: -x[1])[:4])
    out["secs"] = time.time() - t0
    return out

def input_of(w, key, c, seed):
    """regenerate the failing input for the replay file"""
    F = FnFuzz(w, key, c)
    keep = {}
    orig = F.call
    def call(G, args):
        keep["input"] = {k: describe(v) for k, v in args.items()}
        return orig(G, args)
    F.call = call
    try:
        signal.setitimer(signal.ITIMER_REAL, HANG)
        try: F.one(seed)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
        r = "held"
    except HangErr: r = {"clause": "terminates", "detail": "no answer in time"}
    except Violation as v: r = {"clause": v.clause, "detail": v.detail}
    except Reject as e: r = f"rejected {e}"
    return keep.get("input"), r

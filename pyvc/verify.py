"""Function verifier: contracts -> obligations -> discharge."""
import ast, os, sys, time, json, traceback, z3
from .front import Repo, Mod, Cls, Func, walk_own
from .types import *
from .core import *
from .engine import Engine, Obl, exc_matches, Frame
from .contract import Registry, Contract
from .base import Base, STUBMAP, dotted, HERE
from . import discharge

class World(Base):
    def __init__(self, root=None):
        super().__init__(root)
        self.engine = Engine(self.repo, self.types, self.reg.contracts, self.reg.specs, self.stubs)

def verify_function(world, key, c, escalate=True, timeout=None):
    t0 = time.time()
    res = {"fn": key, "contract": c.key, "status": None, "obligations": [], "detail": ""}
    f = world.repo.func(key)
    if f is None:
        res["status"] = "missing"; res["detail"] = "function not found in /repo"; return res
    if c.bounded:
        res["status"] = "bounded"; res["detail"] = c.bounded; return res
    E = world.engine
    tries = 0
    E.hints = {}
    while True:
        try:
            E.reset(f)
            E.trusted_used, E.used_contracts, E.inlined, E.dropped, E.assumed = set(), set(), set(), set(), set()
            E._incontract = c
            run_function(E, f, c)
            break
        except Restart:
            tries += 1
            if tries > 60: res["status"] = "unsupported"; res["detail"] = "type inference"; return res
        except Unsupported as e:
            res["status"] = "unsupported"; res["detail"] = str(e); res["secs"] = time.time() - t0
            if os.environ.get("PYVC_TRACE"): traceback.print_exc()
            return res
        except RecursionError as e:
            res["status"] = "unsupported"; res["detail"] = "recursion"; return res
        except (TypeError, AttributeError, KeyError, z3.Z3Exception, IndexError, StopIteration, AssertionError, ValueError) as e:
            res["status"] = "unsupported"; res["detail"] = f"engine: {type(e).__name__}: {e}"; res["secs"] = time.time() - t0
            if os.environ.get("PYVC_TRACE"): traceback.print_exc()
            return res
    res["gen_secs"] = time.time() - t0
    res["vacuous"] = E.vacuous
    discharge.discharge(E, res, timeout=timeout or c.timeout, escalate=escalate)
    res["trusted"] = sorted(E.trusted_used); res["used"] = sorted(E.used_contracts); res["inlined"] = sorted(E.inlined)
    res["dropped"] = sorted(E.dropped); res["assumed"] = sorted(E.assumed)
    bad = [o for o in res["obligations"] if not o["proved"]]
    res["status"] = "proved" if not bad and not E.vacuous and res["obligations"] else "vacuous" if E.vacuous or not res["obligations"] else "failed"
    res["secs"] = time.time() - t0
    return res

def run_function(E, f, c):
    st = St()
    st.alloc = E.alloc0
    st.fact(E.alloc0 >= 1)
    st.fact(E.INF > 10 ** 12)
    E.frame = None
    fr = Frame(f, f.mod, f.cls, 0)
    pt = dict(c.param_types(E, f))
    a = f.node.args
    if f.cls is not None and not f.is_static and not f.is_classmethod and c.recv is None:
        # exact receiver: classes inheriting this very method
        cl = [x for x in E.concrete(f.cls) if x.find(f.name) is f]
        if cl: pt["self"] = REF(cl)
    E.frame = fr
    for x in a.args:
        T = pt[x.arg]
        if f.is_classmethod and x is a.args[0]:
            st.env[x.arg] = PY(f.cls); continue
        if T[0] == "opt": v = V(T, (z3.Const(x.arg + "_n", Bool), V(T[1], z3.Const(x.arg, zsort(T[1])))))
        elif T[0] == "tuple": v = E.fresh_val(st, T, x.arg)
        else: v = V(T, z3.Const("p_" + x.arg, zsort(T)))
        st.env[x.arg] = E.wf(st, v)
    if a.vararg or a.kwarg: raise Unsupported("variadic function")
    env0 = dict(st.env)
    E.entry_env = env0
    for nm, e in c.requires:
        g, _ = E.spec_eval(e, st, env0, f)
        st.branch(g)
    E.vacuous = False
    s = z3.Solver(); s.set("timeout", 3000); s.add(*st.conds())
    if s.check() == z3.unsat: E.vacuous = True
    old = st.fork()
    E.entry_old = old
    E.old = old
    E.noutcomes = 0
    if f.is_gen or (c.gen or {}).get("ghost"): E.gen_init(st, f)
    st.wlog = []
    E.sink = []
    E.stackfns = [f.key]
    outs = E.exec_block(f.node.body, st)
    outs += E.sink
    E.sink = []
    RT = c.ret_type(E, f)
    E.stackfns = []
    allowed = None
    for o in outs:
        x = o[1]
        if not E.feasible(x): continue
        E.noutcomes += 1
        if o[0] in ("norm", "ret"):
            r = o[2] if o[0] == "ret" else NONEV
            if f.is_gen: r = NONEV
            elif RT[0] != "none" and not (RT[0] == "any" and r.T[0] == "py"): 
                try: r = E.coerce(x, r, RT)
                except Unsupported:
                    if r.T[0] == "none": E.obls.append(Obl("returns a value", x.conds(), z3.BoolVal(False), f, "post")); continue
                    raise
            genv = {**{k[2:]: v for k, v in x.env.items() if k.startswith("g_")}, **env0}
            y = x.fork()
            n0 = len(y.pc)
            for exc, cond, ens in c.raises:
                g, _ = E.spec_eval(cond, old_view(y, old), genv, f)
                E.obls.append(Obl(f"raises {exc} when: {cond}", y.conds(), Not(g), f, "raise"))
            for nm, e in c.ensures:
                z = y.fork()
                g, _ = E.spec_eval(e, z, genv, f, old=old, result=r)
                E.obls.append(Obl(nm, z.conds(), g, f, "post"))
            if not c.noframe and not f.is_gen: frame_obls(E, f, c, genv, old, y)
        elif o[0] == "raise":
            exc = o[2]
            genv = {**{k[2:]: v for k, v in x.env.items() if k.startswith("g_")}, **env0}
            for e in c.exc_ensures:
                z = x.fork()
                h, _ = E.spec_eval(e, z, genv, f, old=old)
                E.obls.append(Obl(f"also on {'failure' if exc.startswith('Any') else exc}: {e}", z.conds(), h, f, "post"))
            ms = [(e, cond, ens) for e, cond, ens in c.raises if exc_matches(exc, e) or exc == e]
            if not ms and (exc in c.may_raise or any(exc_matches(exc, m) for m in c.may_raise)):
                if c.exc_modifies is not None and not f.is_gen: frame_obls(E, f, c, env0, old, x, mods=c.exc_modifies)
                continue
            y = x.fork()
            g = Or([E.spec_eval(cond, old_view(y, old), genv, f)[0] for _, cond, _ in ms]) if ms else z3.BoolVal(False)
            E.obls.append(Obl(f"raises {exc} only when allowed" + (f": {ms[0][1]}" if ms else ""), y.conds(), g, f, "raise"))
            for _, _, ens in ms:
                for e in ens or []:
                    z = y.fork()
                    h, _ = E.spec_eval(e, z, env0, f, old=old)
                    E.obls.append(Obl(f"on {exc}: {e}", z.conds(), h, f, "post"))
            if c.exc_modifies is not None and ms:
                frame_obls(E, f, c, env0, old, y, mods=c.exc_modifies)
    E.frame = None

def old_view(y, old):
    z = old.fork(); z.pc = y.pc; z.alloc = y.alloc
    return z

def frame_obls(E, f, c, env0, old, x, mods=None):
    cc = c if mods is None else Contract("f", modifies=list(mods))
    tmp = old.fork(); tmp.pc = x.pc
    targets = E.loc_targets(cc, env0, f, tmp)
    z = x.fork()
    r = fresh("fr", Int); i = fresh("fi", Int)
    for key in sorted(x.heap):
        m1 = x.heap[key]; m0 = old.heap.get(key)
        if m0 is None:
            # first touched after entry: base constant is the entry map
            bs = [b for b in E.bases(m1) if z3.is_const(b) and b.decl().name() == f"H0.{key}"]
            if not bs:
                m0 = z3.Const(f"H0.{key}", m1.sort())
                if z3.is_const(m1) and m1.decl().name() == f"H0.{key}": continue
            else: m0 = bs[0]
        if m0.eq(m1): continue
        if key.startswith("tb"): continue
        ok = [r >= E.alloc0] 
        for ent in targets:
            if ent[0] == "cell" and ent[1] == key: ok.append(r == ent[2])
            elif ent[0] == "set":
                keys, g = E.setloc(ent, env0, f, tmp, r)
                if key in [k for k, _ in keys]: ok.append(g)
        a, b = Sel(m1, r), Sel(m0, r)
        if key.startswith("elt:"):
            ln = E.hmap(tmp, "len:" + key[4:], Int)
            same = Implies(And(0 <= i, i < Sel(ln, r)), z3.Select(a, i) == z3.Select(b, i))
        else: same = a == b
        g = Implies(And(r >= 1, Not(Or(ok))), same)
        E.obls.append(Obl(f"frame: {key}", z.conds(), g, f, "frame"))

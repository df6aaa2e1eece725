"""Units of proof: symbolic pre-state, call of the real function, postconditions; discharge; reporting."""
import os, sys, time, json, pickle, traceback, select, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from terms import *
import symex
from symex import *
from llir import compile_ir, Unsupported
import models, lia
from loops import WitInv

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or "/tmp/verif-build.%d" % os.getpid()
_mods = {}
SEGS = {"struct.bpak_header": [(0, 1544), (1544, 3464), (3464, 4096)]}

def module(rel):
    if rel not in _mods:
        _mods[rel] = compile_ir(os.path.join(REPO, rel), BUILD)
    return _mods[rel]

class Unit:
    def __init__(s, name, prop, fn, srcs, **opt):
        s.name = name; s.prop = prop; s.fn = fn; s.srcs = srcs; s.opt = opt

class Ctx:
    """what a unit's specification code sees"""
    def __init__(s, unit):
        s.unit = unit
        s.ex = Exec([module(r) for r in unit.srcs], quick_ms=unit.opt.get("quick_ms", 1500))
        s.ex.seg_types = SEGS
        models.install(s.ex)
        s.st = State()
        s.inputs = {}       # name -> (oid, size) for counterexamples
        s.vars = {}
        s.covers = []
        s.pre_n = 0
        s.assumptions = []
    def obj(s, name, size, kind="param", segs=None, init="sym"):
        oid = s.ex.new_obj(s.st, name, size, kind, segs=segs, init=init)
        s.inputs[name] = (oid, size)
        return mkptr(oid)
    def struct(s, sname, name, init="sym", mod=0):
        m = s.ex.mods[mod]
        t = ("named", "struct." + sname)
        segs = s.ex.segs_for(m, t)
        return s.obj(name, m.size(t), segs=segs, init=init)
    def var(s, name, w):
        v = Var("in." + name, w); s.vars[name] = v
        return v
    def pre(s, *cs):
        for c in cs:
            s.st.assume(c); s.pre_n += 1
    def get(s, p, off, n, ptr=False, st=None):
        """specification-level read (no obligation)"""
        ex = s.ex; m = ex.muted; ex.muted = True
        st = st or s.st
        p = asptr(p)
        if isinstance(off, int): off = C64(off)
        z = st.fork()
        v = ex.load(z, Ptr(tuple((c, o, Add(f, off)) for c, o, f in p.es)), n, isptr=ptr)
        ex.muted = m
        return v
    def set(s, p, off, n, v, st=None):
        ex = s.ex; m = ex.muted; ex.muted = True
        st = st or s.st
        if isinstance(v, int): v = K(v, 8 * n)
        if isinstance(off, int): off = C64(off)
        ex.store(st, Ptr(tuple((c, o, Add(f, off)) for c, o, f in asptr(p).es)), n, v)
        ex.muted = m
    def field(s, sname, path, mod=0):
        """(offset,size) of a struct field index path"""
        m = s.ex.mods[mod]; t = ("named", "struct." + sname); off = 0
        for i in path:
            t = m.resolve(t)
            if t[0] == "arr": off += i * m.size(t[2]); t = t[2]
            else:
                o, t = m.field(t, i); off += o
        return off, m.size(t)
    def snapshot(s):
        z = s.st.fork(); return z
    def fn(s, name):
        f = s.ex.fns.get(name)
        if f is None:
            for m in s.ex.mods:
                if name in m.funcs: return m.funcs[name]
            raise Unsupported("function %s not found in the sources" % name)
        return f
    def call(s, name, *args):
        f = s.fn(name)
        av = []
        for (ty, nm), a in zip(f.params, args):
            if isinstance(a, int):
                t = f.module.resolve(ty)
                a = NULL if t[0] == "ptr" else B(a & 1) if t[1] == 1 else K(a, t[1])
            av.append(a)
        s.ex.where.append("unit " + s.unit.name)
        r = s.ex.call(s.st, f, av)
        s.ex.where.pop()
        return r
    def ensure(s, desc, cond, st=None):
        st = st or s.st
        if st.dead: return
        z = st.fork()
        s.ex.where.append("ensures of " + s.unit.name)
        s.ex.oblige(z, cond, "ensures", desc)
        s.ex.where.pop()
    def lemma(s, desc, cond):
        """proved from the precondition, then available"""
        s.ex.where.append("lemma of " + s.unit.name)
        s.ex.oblige(s.st, cond, "lemma", desc)
        s.ex.where.pop()
    def cover(s, desc, cond=T, st=None):
        """non-vacuity: this situation must be reachable"""
        st = st or s.st
        s.covers.append((desc, st.pc if not st.dead else None, cond))
    def assume_note(s, txt): s.assumptions.append(txt)

# ------------------------------------------------------------------ discharge
def _solve_one(ob, secs, cfg):
    conds = pc_conds(ob.pc)
    goal = Not(ob.cond)
    t0 = time.time()
    # cone of influence first is left to the solver
    if cfg == 0:
        sol = z3.Solver()
    elif cfg == 1:
        sol = z3.Then("simplify", "solve-eqs", "bv1-blast" if False else "simplify", "smt").solver()
    else:
        sol = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "ackermannize_bv", "bit-blast", "sat").solver()
    sol.set("timeout", int(secs * 1000))
    for c in conds: sol.add(to_z3(c))
    sol.add(to_z3(goal))
    r = sol.check()
    m = sol.model() if r == z3.sat else None
    return str(r), m, time.time() - t0

def cone(pc, goal):
    """path conditions transitively sharing a variable with the goal"""
    conds = pc_conds(pc)
    fv = [(c, free_vars(c)) for c in conds]
    need = set(free_vars(goal)); used = set(); ch = True
    while ch:
        ch = False
        for i, (c, f) in enumerate(fv):
            if i not in used and (f & need or not f):
                used.add(i); need |= f; ch = True
    return [fv[i][0] for i in sorted(used)]

def _cvc5_one(ob, secs):
    import subprocess, tempfile
    sol = z3.Solver()
    for c in pc_conds(ob.pc): sol.add(to_z3(c))
    sol.add(to_z3(Not(ob.cond)))
    txt = "(set-logic ALL)\n" + sol.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2"); os.write(fd, txt.encode()); os.close(fd)
    t0 = time.time()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(secs * 1000), p], capture_output=True, text=True, timeout=secs + 10)
        out = r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except subprocess.TimeoutExpired: out = "unknown"
    finally: os.unlink(p)
    return (out if out in ("sat", "unsat") else "unknown"), time.time() - t0

def model_dump(ctx, m):
    """counterexample: values of the declared inputs"""
    out = {"vars": {}, "objects": {}}
    try:
        for n, v in ctx.vars.items():
            x = m.eval(to_z3(v), model_completion=True)
            out["vars"][n] = x.as_long() if v.w else bool(z3.is_true(x))
        for n, (oid, size) in ctx.inputs.items():
            if isinstance(size, int): sz = size
            else:
                x = m.eval(to_z3(size), model_completion=True); sz = x.as_long()
            sz = min(sz, 1 << 13)
            segs = ctx.ex.objs[oid].segs
            buf = bytearray(sz)
            for i, (a, b) in enumerate(segs):
                arr = z3arr("%s#%d.%d" % (n, oid, i))
                am = m.eval(arr, model_completion=True)
                b2 = sz if b is None else min(b, sz)
                for k in range(a, b2):
                    x = z3.simplify(z3.Select(am, z3.BitVecVal(k, 64)))
                    buf[k] = x.as_long() if z3.is_bv_value(x) else 0
            out["objects"][n] = bytes(buf).hex()
    except Exception as e:
        out["error"] = repr(e)
    return out

def discharge(ctx, obs, budget):
    """-> list of result dicts for obligations not discharged inline"""
    res = []
    t_end = time.time() + budget
    raced = {}
    if ctx.ex.racing and obs and budget > 10:
        ctx.ex.deadline = None
        for ob, r in zip(obs, ctx.ex.race([(ob.pc, Not(ob.cond)) for ob in obs], min(ctx.unit.opt.get("ob_secs", 60), budget / 2))): raced[id(ob)] = r
    for ob in obs:
        d = {"kind": ob.kind, "desc": ob.desc, "where": ob.where, "status": "unknown", "by": None, "t": 0.0}
        t0 = time.time()
        if raced.get(id(ob)) == "unsat":
            d["status"] = "proved"; d["by"] = "z3/cvc5"; res.append(d); continue
        try: r, m = lia.solve(pc_conds(ob.pc) + [Not(ob.cond)], 1000 * max(2, min(t_end - time.time(), ctx.unit.opt.get("ob_secs", 60) / 3)))
        except z3.Z3Exception: r = "unknown"
        if r == "unsat":
            d["status"] = "proved"; d["by"] = "z3-lia"; d["t"] = time.time() - t0; res.append(d); continue
        for cfg, frac in ((0, 0.35), (2, 0.35), (1, 0.15)):
            left = t_end - time.time()
            if left < 1: break
            secs = max(2, min(left, ctx.unit.opt.get("ob_secs", 60) * frac / 0.35))
            try: r, m, t = _solve_one(ob, secs, cfg)
            except z3.Z3Exception as e: r, m = "unknown", None
            if r == "unsat": d["status"] = "proved"; d["by"] = ("z3", "z3-smt", "z3-bitblast")[cfg]; break
            if r == "sat": d["status"] = "failed"; d["by"] = "z3"; d["model"] = model_dump(ctx, m); break
        else:
            left = t_end - time.time()
            if left > 2:
                r, t = _cvc5_one(ob, min(left, ctx.unit.opt.get("ob_secs", 60)))
                if r == "unsat": d["status"] = "proved"; d["by"] = "cvc5"
                elif r == "sat": d["status"] = "failed"; d["by"] = "cvc5"
        d["t"] = time.time() - t0
        res.append(d)
        if d["status"] == "failed" and ctx.unit.opt.get("stop_first", False): break
    return res

def run_unit(unit, budget):
    """a refutation that follows invariant candidates given up for lack of time is only believed when it
    survives a second run with more time"""
    t0 = time.time()
    r = run_unit1(unit, budget, 1)
    if r["failed"] and r.get("dropped"):
        left = budget - (time.time() - t0)
        r2 = run_unit1(unit, max(20, left), 4)
        r2["wall"] += r["wall"]; r2["retried"] = True
        if r2["status"] in ("undecided", "unsupported", "error") and not r2["failed"]: r2["error"] = "first run refuted an obligation with incomplete invariants; " + str(r2.get("error", ""))
        return r2
    return r

def run_unit1(unit, budget, scale):
    """execute one unit in this process -> result dict"""
    t0 = time.time()
    out = {"unit": unit.name, "status": "error", "proved": {}, "kinds": {}, "failed": [], "unknown": [], "fns": [], "contracts": [],
           "models": [], "solver_time": 0.0, "covers": [], "assumptions": [], "loops": {}}
    ctx = None
    try:
        ctx = Ctx(unit)
        ctx.ex.deadline = t0 + budget * 0.75; ctx.ex.scale = scale
        unit.fn(ctx)
        ex = ctx.ex
        ex.deadline = None
        for desc, pc, cond in ctx.covers:
            r = "unsat" if pc is None else ex.check(pc, cond, 20000)
            out["covers"].append((desc, r))
        obs = ex.obs
        res = discharge(ctx, obs, max(5, budget - (time.time() - t0)))
        by = dict(ex.counts)
        for d in res:
            if d["status"] == "proved": by[d["by"]] = by.get(d["by"], 0) + 1
            elif d["status"] == "failed": out["failed"].append(d)
            else: out["unknown"].append(d)
        out["proved"] = by
        out["kinds"] = ex.kinds
        out["status"] = "failed" if out["failed"] else "unknown" if out["unknown"] else "proved"
        if any(r == "unsat" for _, r in out["covers"]) and out["status"] == "proved": out["status"] = "vacuous"
    except Unsupported as e:
        out["status"] = "unsupported"; out["error"] = str(e)
    except Undecided as e:
        out["status"] = "undecided"; out["error"] = str(e)
    except Exception as e:
        out["status"] = "error"; out["error"] = traceback.format_exc()
    if ctx is not None:
        ex = ctx.ex
        out["fns"] = sorted(ex.inlined); out["contracts"] = sorted(ex.used_contracts); out["models"] = sorted(ex.used_models)
        out["solver_time"] = ex.solver_time; out["queries"] = ex.nq
        out["assumptions"] = ctx.assumptions; out["dropped"] = ex.dropped
        out["loops"] = {"%s:%s" % (k[1], k[2]): v for k, v in ex.loops_seen.items()}
        if out["status"] in ("unsupported", "undecided", "error"):
            # obligations already refuted inline still count as failures
            try:
                left = max(5, min(60, budget - (time.time() - t0)))
                for d in discharge(ctx, ex.obs[:8], left):
                    if d["status"] == "failed": out["failed"].append(d)
            except Exception: pass
    out["wall"] = time.time() - t0
    return out

def run_units(units, budget_each, jobs=8, total=None, verbose=False, stop_failed=2):
    """fork pool; once `stop_failed` units have refuted obligations the rest is not worth waiting for"""
    nfail = 0; t_stop = None
    t_end = time.time() + (total or 1e9)
    for u in units:
        for r in u.srcs: module(r)
    q = list(units); running = {}; results = {}
    while q or running:
        while q and len(running) < jobs:
            u = q.pop(0)
            left = t_end - time.time()
            b = min(u.opt.get("budget", budget_each), max(5, left))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    res = run_unit(u, b)
                    data = pickle.dumps(res)
                except BaseException as e:
                    data = pickle.dumps({"unit": u.name, "status": "error", "error": repr(e), "failed": [], "unknown": [], "proved": {}, "kinds": {}, "fns": [], "contracts": [], "models": [], "covers": [], "assumptions": [], "loops": {}, "solver_time": 0})
                with os.fdopen(w, "wb") as f: f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (pid, u, time.time(), b, bytearray())
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            d = os.read(fd, 1 << 16)
            if d: running[fd][4].extend(d)
            else:
                pid, u, t0, b, buf = running.pop(fd); os.close(fd)
                os.waitpid(pid, 0)
                try: results[u.name] = pickle.loads(bytes(buf))
                except Exception: results[u.name] = dead(u, "worker died (memory?)")
                if results[u.name]["failed"]: nfail += 1
                if stop_failed and nfail >= stop_failed and t_stop is None:
                    t_stop = time.time() + 10
                    for x in q: results[x.name] = dead(x, "skipped: other units failed")
                    q = []
                if verbose:
                    x = results[u.name]
                    print("  %-44s %-10s %6.1fs obl=%d" % (u.name, x["status"], x.get("wall", 0), sum(x["proved"].values())), file=sys.stderr)
        now = time.time()
        for fd in list(running):
            pid, u, t0, b, buf = running[fd]
            if now - t0 > b * 1.3 + 20 or (t_stop and now > t_stop):
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0); os.close(fd); running.pop(fd)
                results[u.name] = dead(u, "time limit")
                if verbose: print("  %-44s time limit" % u.name, file=sys.stderr)
    return [results[u.name] for u in units]

def dead(u, why):
    return {"unit": u.name, "status": "undecided", "error": why, "failed": [], "unknown": [], "proved": {}, "kinds": {}, "fns": [],
            "contracts": [], "models": [], "covers": [], "assumptions": [], "loops": {}, "solver_time": 0, "wall": 0}

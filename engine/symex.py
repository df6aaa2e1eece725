"""Deductive verification by forward symbolic execution with state merging over LLVM IR.

 * every function body comes from /repo's current sources (clang -O0 IR), nothing is dropped
 * loops: complete unrolling when every iteration decides an exit test, otherwise cut by an
   inductive invariant (Houdini over generated candidates + the contract's ghost invariants)
 * callees: inlined, or replaced by a contract (obligation: requires; assumption: ensures)
 * every memory access, signed operation, division, contract clause yields an obligation
"""
import time, sys, os, itertools, subprocess, tempfile
import z3
from terms import *
from llir import Unsupported
from lia import Lia, CModel, BVModel

sys.setrecursionlimit(20000)
C64 = lambda v: K(v, 64)

class Undecided(Exception): pass

# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ("es",)
    def __init__(s, es): s.es = es          # tuple of (cond, obj, off)
    def __repr__(s): return "Ptr(" + ", ".join("%s?%d+%s" % (show(c, 2), o, show(f, 3)) for c, o, f in s.es) + ")"
NULL = Ptr(((T, 0, C64(0)),))
def mkptr(obj, off=0): return Ptr(((T, obj, C64(off) if isinstance(off, int) else off),))

def isnull(p):
    return Or(*[And(c, Eq(f, C64(0))) for c, o, f in p.es if o == 0]) if any(o == 0 for c, o, f in p.es) else F

def pnorm(es):
    d = {}
    order = []
    for c, o, f in es:
        if c is F: continue
        k = (o, f.id)
        if k in d: d[k] = (Or(d[k][0], c), o, f)
        else: d[k] = (c, o, f); order.append(k)
    if not order: return NULL
    out = [d[k] for k in order]
    if len(out) == 1: out = [(T, out[0][1], out[0][2])]
    return Ptr(tuple(out))

def asptr(v):
    if isinstance(v, Ptr): return v
    if isc(v):
        if v.val == 0: return NULL
        return Ptr(((T, 0, v),))
    if v.op == "ite":
        return vite(v.args[0], asptr(v.args[1]), asptr(v.args[2]))
    raise Unsupported("symbolic integer used as a pointer: %s" % show(v, 3))

def vite(c, a, b):
    if a is b or c is T: return a
    if c is F: return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        a = asptr(a); b = asptr(b)
        return pnorm([(And(c, x), o, f) for x, o, f in a.es] + [(And(Not(c), x), o, f) for x, o, f in b.es])
    return Ite(c, a, b)

def veq(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        a = asptr(a); b = asptr(b)
        r = []
        for c, o, f in a.es:
            for c2, o2, f2 in b.es:
                if o == o2: r.append(And(c, c2, Eq(f, f2)))
        return Or(*r) if r else F
    return Eq(a, b)

# ------------------------------------------------------------------ memory
_bid = itertools.count(1)
class Base:
    __slots__ = ("k", "a", "id", "depth", "dep")
    def __init__(s, k, *a):
        s.k = k; s.a = a; s.id = next(_bid)
        s.depth = 0
        # reading through a conditional or a copied base consults the path condition
        s.dep = k in ("ite", "copy") or (k in ("wr", "fill", "over") and a[0].dep)
        if k in ("wr", "copy", "fill", "over"): s.depth = a[0].depth + 1
        if k == "ite": s.depth = max(a[1].depth, a[2].depth) + 1

class OS:
    """contents of one object: overlay of concrete-offset cells over per-segment bases"""
    __slots__ = ("ov", "bases", "freed", "big")
    def __init__(s, ov, bases, freed=F): s.ov = ov; s.bases = bases; s.freed = freed
    def copy(s): return OS(dict(s.ov), list(s.bases), s.freed)

class Obj:
    __slots__ = ("id", "name", "size", "kind", "segs", "tag", "ro")
    def __init__(s, id, name, size, kind, segs=None, tag=None, ro=False):
        s.id = id; s.name = name; s.size = size; s.kind = kind; s.tag = tag; s.ro = ro
        s.segs = segs or [(0, None)]

class PC:
    __slots__ = ("parent", "cond", "depth", "id")
    _n = itertools.count(1)
    def __init__(s, parent, cond):
        s.parent = parent; s.cond = cond; s.depth = parent.depth + 1 if parent else 0; s.id = next(PC._n)

def pc_has(pc, c):
    while pc is not None:
        if pc.cond is c: return True
        pc = pc.parent
    return False

def pc_conds(pc):
    out = []
    while pc is not None:
        if pc.cond is not T: out.append(pc.cond)
        pc = pc.parent
    out.reverse()
    return out

class State:
    __slots__ = ("pc", "mem", "own", "regs", "ghost", "prev", "dead")
    def __init__(s):
        s.pc = PC(None, T); s.mem = {}; s.own = set(); s.regs = {}; s.ghost = {}; s.prev = None; s.dead = False
    def fork(s):
        n = State.__new__(State)
        n.pc = s.pc; n.mem = dict(s.mem); n.own = set(); s.own = set(); n.regs = dict(s.regs)
        n.ghost = dict(s.ghost); n.prev = s.prev; n.dead = s.dead
        return n
    def assume(s, c):
        if c is T: return
        if c is F: s.dead = True
        if c.op == "and":
            for x in c.args: s.assume(x)
            return
        if pc_has(s.pc, c): return
        if pc_has(s.pc, Not(c)): s.dead = True
        s.pc = PC(s.pc, c)
    def w(s, oid):
        if oid not in s.own:
            s.mem[oid] = s.mem[oid].copy(); s.own.add(oid)
        return s.mem[oid]

class Ob:
    __slots__ = ("kind", "desc", "where", "pc", "cond", "status", "by", "model", "t", "unit")
    def __init__(s, kind, desc, where, pc, cond):
        s.kind = kind; s.desc = desc; s.where = where; s.pc = pc; s.cond = cond
        s.status = None; s.by = None; s.model = None; s.t = 0; s.unit = None

class Exec:
    def __init__(s, modules, quick_ms=400):
        s.mods = modules
        s.fns = {}
        for m in modules:
            for f in m.funcs.values():
                if not f.local: s.fns[f.name] = f
        s.objs = {0: Obj(0, "NULL", C64(0), "null")}
        s.nobj = 0
        s.globs = {}          # (module path or '', name) -> oid
        s.ginit = {}          # oid -> OS
        s.fnobj = {}
        s.contracts = {}      # name -> python contract
        s.models = {}
        s.obs = []            # open obligations
        s.counts = {}         # discharged inline, by back end
        s.kinds = {}
        s.muted = 0
        s.solver = None
        s.stack = []
        s.quick_ms = quick_ms
        s.solver_time = 0.0
        s.nq = 0
        s.memo_dec = {}
        s.depth = 0
        s.where = []
        s.trace_fns = set()
        s.inlined = set()
        s.used_contracts = set()
        s.used_models = set()
        s.loops_seen = {}
        s.access_hook = None  # f(st, oid, off, n, what) -> extra condition on an access, or None
        s.loop_cands = []     # user candidates: f(ex, st0, st) -> list of terms
        s.cell_cands = []     # f(ex, st0, st, celltype reader) -> [(key, term)]
        s.houdini_cache = {}
        s.mem_memo = {}
        s.prune_reads = False
        s.check_term = False; s.split_back = False; s.racing = 0; s.auto_locals = False; s.inv_log = {}; s.dry = 0; s.loop_axioms = []   # loop_axioms: definitional facts about the arbitrary head state
        s.unroll_max = 300
        s.lazy_branch = False  # explore both sides of a branch without asking the solver which are feasible
        s.force_inv = set()   # functions whose loops are cut by invariants without trying to unroll them
        s.assume_log = []
        s.deadline = None
        s.cur_exit_dec = None
        s.cmp_log = None
        s.arrnames = {}
        s.max_depth = 60
        s.nfold = 0
        s.pcidx = None
        s.focus_hop = lambda a, x: not isinstance(a, str) and len(s.atoms(x)) <= 6
        s.focus = None
        s.atom_memo = {}
        s.focus_memo = {}
        s.rw = None
        s.use_lia = True
        s.lia = None
        s.lia_ms = 1500
        s.last_by = None
        s.hints = None
        s.opaque = None
        s.last_cmp = {}
        s.cmodels = []; s.nhit = 0; s.focus_only = False
        s.ic_memo = {}
    # -------------------------------------------------------------- objects
    def new_obj(s, st, name, size, kind="param", segs=None, tag=None, init="sym", ro=False):
        s.nobj += 1
        oid = s.nobj
        if isinstance(size, int): size = C64(size)
        o = Obj(oid, name, size, kind, segs, tag, ro)
        s.objs[oid] = o
        bases = []
        for i, sg in enumerate(o.segs):
            if init == "sym":
                nm = "%s#%d.%d" % (name, oid, i)
                bases.append(Base("sym", nm))
            elif init == "zero": bases.append(Base("const", None, 0))
            else: bases.append(init)
        if st is not None:
            st.mem[oid] = OS({}, bases); st.own.add(oid)
        return oid
    def fn_obj(s, fn):
        name = fn if isinstance(fn, str) else fn.name
        key = name if isinstance(fn, str) else (fn.module.src, fn.name) if fn.local else fn.name
        if key not in s.fnobj:
            s.nobj += 1
            s.objs[s.nobj] = Obj(s.nobj, name, C64(0), "fn", tag=fn)
            s.fnobj[key] = s.nobj
        return s.fnobj[key]
    def global_ptr(s, mod, name):
        f = mod.funcs.get(name)
        if f is not None: return mkptr(s.fn_obj(f))
        g = mod.globals.get(name)
        if g is None or g["external"]:
            if name in s.fns: return mkptr(s.fn_obj(s.fns[name]))
            if name in mod.decls: return mkptr(s.fn_obj(name))
            for m in s.mods:
                g2 = m.globals.get(name)
                if g2 and not g2["external"] and not g2["local"]: mod = m; g = g2; break
            else:
                key = ("", name)
                if key not in s.globs:
                    oid = s.new_obj(None, name, 8 if g is None else mod.size(g["type"]), "global")
                    s.globs[key] = oid
                    s.ginit[oid] = OS({0: (8, s.extern_value(name))}, [Base("sym", name)])
                return mkptr(s.globs[key])
        key = (mod.src, name)
        if key in s.globs: return mkptr(s.globs[key])
        size = mod.size(g["type"])
        oid = s.new_obj(None, name, size, "global", ro=g["const"])
        s.globs[key] = oid
        buf = bytearray(size); ov = {}
        s._flat(mod, g["type"], g["init"], 0, buf, ov)
        s.ginit[oid] = OS(ov, [Base("const", bytes(buf), 0)])
        return mkptr(oid)
    def extern_value(s, name):
        s.nobj += 1
        s.objs[s.nobj] = Obj(s.nobj, "*" + name, C64(0), "opaque", tag=name)
        return mkptr(s.nobj)
    def _flat(s, mod, ty, v, off, buf, ov):
        t = mod.resolve(ty)
        k = v[0]
        if k in ("zero", "undef"): return
        if k == "bytes": buf[off:off + len(v[1])] = v[1]; return
        if k == "const":
            n = mod.size(t); buf[off:off + n] = (v[1] & ((1 << 8 * n) - 1)).to_bytes(n, "little"); return
        if k == "null": return
        if k == "agg":
            for i, (t2, x) in enumerate(v[1]):
                if t[0] == "arr": o = i * mod.size(t[2])
                else: o = mod.field(t, i)[0]
                s._flat(mod, t2, x, off + o, buf, ov)
            return
        if k in ("global", "cegep"):
            ov[off] = (8, s.operand(None, mod, v, ("ptr",))); return
        raise Unsupported("initialiser %r" % (v,))
    def getos(s, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = s.ginit.get(oid)
            if o is not None: st.mem[oid] = o
        return o
    # -------------------------------------------------------------- solver
    def _sync(s, pc):
        path = []
        p = pc
        while p is not None: path.append(p); p = p.parent
        path.reverse()
        if s.solver is None:
            s.solver = z3.Solver(); s.stack = []
        st = s.stack
        i = 0
        while i < len(st) and i < len(path) and st[i] is path[i]: i += 1
        if len(st) > i:
            s.solver.pop(len(st) - i); del st[i:]
        for p in path[i:]:
            s.solver.push()
            if p.cond is not T: s.solver.add(to_z3(p.cond))
            st.append(p)
    def check(s, pc, extra, ms, model=False):
        """satisfiability of pc /\\ extra -> 'sat'/'unsat'/'unknown'"""
        if extra is F: return "unsat"
        t0 = time.time()
        if s.deadline and t0 > s.deadline: raise Undecided("time budget exhausted")
        s.nq += 1
        if s.use_lia and not model:
            for i, cm in enumerate(s.cmodels):
                if cm.holds(pc) and cm.ev(extra):
                    if i: s.cmodels.insert(0, s.cmodels.pop(i))
                    s.solver_time += time.time() - t0; s.nhit += 1
                    s.last_by = "model"
                    return "sat"
            path = []
            p = pc
            while p is not None: path.append(p); p = p.parent
            path.reverse()
            if s.lia is None: s.lia = Lia()
            r = s.lia.check(path, extra, min(ms, s.lia_ms))
            if r in ("sat", "unsat"):
                if r == "sat":
                    s.cmodels.insert(0, CModel(s.lia.sol.model())); del s.cmodels[8:]
                s.solver_time += time.time() - t0
                s.last_by = "z3-lia"
                return r
            if r == "maybe":
                # the abstraction has a model: is it one of the real formula?
                try:
                    cm = CModel(s.lia.sol.model())
                    if cm.holds(pc) and cm.ev(extra):
                        s.cmodels.insert(0, cm); del s.cmodels[8:]
                        s.solver_time += time.time() - t0; s.last_by = "z3-lia"
                        return "sat"
                except z3.Z3Exception: pass
        s.last_by = "z3-bv"
        s._sync(pc)
        s.solver.set("timeout", int(ms))
        if extra is not T:
            s.solver.push(); s.solver.add(to_z3(extra))
        r = s.solver.check()
        m = None
        if model and r == z3.sat: m = s.solver.model()
        elif r == z3.sat: s.cmodels.insert(0, BVModel(s.solver.model())); del s.cmodels[8:]
        if extra is not T: s.solver.pop()
        s.solver_time += time.time() - t0
        if model: return str(r), m
        return str(r)
    def hard_check(s, pc, goal, secs):
        """one-shot query by bit-blasting; used for contract-level invariants only"""
        if s.deadline and time.time() > s.deadline: raise Undecided("time budget exhausted")
        t0 = time.time()
        sol = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "ackermannize_bv", "bit-blast", "sat").solver()
        sol.set("timeout", int(secs * 1000))
        for c in pc_conds(pc): sol.add(to_z3(c))
        sol.add(to_z3(goal))
        try: r = str(sol.check())
        except z3.Z3Exception: r = "unknown"
        s.solver_time += time.time() - t0; s.nq += 1; s.last_by = "z3-bitblast"
        return r
    def race(s, qs, secs, jobs=4):
        """the queries (pc, goal): pc /\ goal to z3 and cvc5 as separate processes, some at a time: the first answer counts"""
        if s.deadline and time.time() > s.deadline: raise Undecided("time budget exhausted")
        t0 = time.time(); res = ["unknown"] * len(qs); todo = list(range(len(qs))); run = []; tmp = []
        def stop(x):
            for by, q in x[2]:
                if q.poll() is None: q.kill()
                q.wait(); q.stdout.close()
        try:
            while todo or run:
                while todo and len(run) < jobs:
                    i = todo.pop(0); sol = z3.Solver(); sol.add(*[to_z3(c) for c in pc_conds(qs[i][0])]); sol.add(to_z3(qs[i][1]))
                    fd, p = tempfile.mkstemp(suffix=".smt2"); tmp.append(p); os.write(fd, ("(set-logic ALL)\n" + sol.to_smt2()).encode()); os.close(fd)
                    run.append((i, time.time(), [(by, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for by, cmd in
                                (("z3-bv", ["z3-new", "-T:%d" % int(secs), p]), ("cvc5", ["cvc5", "--tlimit=%d" % int(secs * 1000), p]))]))
                for x in list(run):
                    done = True
                    for by, q in x[2]:
                        if q.poll() is None: done = False; continue
                        if not q.stdout.closed and getattr(q, "ans", None) is None:
                            out = q.stdout.read().split(); q.ans = out[0] if out else "?"
                            if q.ans in ("sat", "unsat") and res[x[0]] == "unknown": res[x[0]] = q.ans; s.last_by = by
                    if done or res[x[0]] != "unknown" or time.time() > x[1] + secs + 5: stop(x); run.remove(x)
                time.sleep(0.01)
        finally:
            for x in run: stop(x)
            for p in tmp: os.unlink(p)
        s.solver_time += time.time() - t0; s.nq += len(qs)
        return res
    def decide(s, st, c, ms=None):
        if c is T: return True
        if c is F: return False
        pc = st.pc
        if pc_has(pc, c): return True
        if pc_has(pc, Not(c)): return False
        key = (pc.id, c.id)
        if key in s.memo_dec: return s.memo_dec[key]
        ms = ms or s.quick_ms
        r = None
        if s.focus is not None:
            f = s.focused(pc, c)
            if f is not None or s.focus_only:
                s.memo_dec[key] = f; return f
        a = s.check(pc, Not(c), ms)
        if a == "unsat": r = True
        else:
            b = s.check(pc, c, ms)
            if b == "unsat": r = False
        s.memo_dec[key] = r
        return r
    def atoms(s, n):
        r = s.atom_memo.get(n.id)
        if r is None:
            if n.op == "var": r = frozenset([n.val]) if n.val not in s.focus else frozenset()
            elif n.op == "select" and isc(n.args[0]): r = frozenset([n.id])
            elif not n.args: r = frozenset()
            else:
                r = frozenset().union(*[s.atoms(a) for a in n.args])
            s.atom_memo[n.id] = r
        return r
    def implied(s, pc, c):
        if s.focus is not None:
            if s.focused(pc, c, (True,)): return True
            if s.focus_only: return False
        return s.check(pc, Not(c), s.quick_ms) == "unsat"
    def pc_index(s, pc):
        if s.pcidx is not None and s.pcidx[0] is pc: return s.pcidx[1]
        idx = {}
        p = pc
        while p is not None:
            if p.cond is not T:
                for a in s.atoms(p.cond) or (None,): idx.setdefault(a, []).append(p.cond)
            p = p.parent
        s.pcidx = (pc, idx)
        return idx
    def focused(s, pc, c, which=(False, True)):
        """decide c from the path conditions over the same atoms only (sound: fewer assumptions)"""
        want = s.atoms(c)
        idx = s.pc_index(pc)
        for rnd in (0, 1):
            new = set(want)
            for a in want:
                for x in idx.get(a, ()):
                    if s.focus_hop(a, x): new |= s.atoms(x)
            want = frozenset(new)
        cd = {}
        for a in want:
            for x in idx.get(a, ()):
                if x.id not in cd and s.atoms(x) <= want: cd[x.id] = x
        for x in idx.get(None, ()): cd[x.id] = x
        ck = [cd[k] for k in sorted(cd)]
        t0 = time.time()
        r = None
        for v in which:
            g = Not(c) if v else c
            s.nq += 1
            k = (g.id, tuple(x.id for x in ck))
            q = s.focus_memo.get(k)
            if q is None:
                l = Lia()
                for x in ck: l._add(x)
                l._add(g); l.sol.set("timeout", 1000)
                q = str(l.sol.check())
                s.focus_memo[k] = q
            if q == "unsat": r = v; break
        s.solver_time += time.time() - t0
        return r
    def feasible(s, st):
        if st.dead: return False
        if s.focus_only: return True
        key = (st.pc.id, -1)
        if key in s.memo_dec: return s.memo_dec[key]
        r = s.check(st.pc, T, s.quick_ms) != "unsat"
        s.memo_dec[key] = r
        return r
    # -------------------------------------------------------------- obligations
    def oblige(s, st, cond, kind, desc):
        if not s.muted: s.kinds[kind] = s.kinds.get(kind, 0) + 1
        if cond is T or pc_has(st.pc, cond):
            if not s.muted: s.counts["simplifier"] = s.counts.get("simplifier", 0) + 1
            return
        if s.muted:
            st.assume(cond); return
        if s.focus is not None and s.focused(st.pc, cond, (True,)):
            r = "unsat"; s.last_by = "z3-lia"
        else: r = s.check(st.pc, Not(cond), s.quick_ms)
        if r == "unsat":
            s.counts[s.last_by or "z3-lia"] = s.counts.get(s.last_by or "z3-lia", 0) + 1
        else:
            s.obs.append(Ob(kind, desc, " < ".join(reversed(s.where[-4:])), st.pc, cond))
        st.assume(cond)
    # -------------------------------------------------------------- memory access
    def seg_of(s, st, oid, off, n, what):
        """segment index holding [off, off+n) (n Node64 or int)"""
        o = s.objs[oid]
        if len(o.segs) == 1: return 0
        nn = C64(n) if isinstance(n, int) else n
        if isc(off) and isc(nn):
            for i, (a, b) in enumerate(o.segs):
                if a <= off.val and off.val + nn.val <= b: return i
            return None
        r = rng(off); rn = rng(nn)
        for i, (a, b) in enumerate(o.segs):
            if r[0] >= a and r[1] + rn[1] <= b and r[1] < (1 << 40): return i
        cands = []
        if s.focus is not None:
            for i, (a, b) in sorted(enumerate(o.segs), key=lambda x: x[1][0] - x[1][1]):
                inside = And(Ule(C64(a), off), Ule(off, C64(b)), Ule(nn, Sub(C64(b), off)))
                if s.implied(st.pc, Or(inside, Eq(nn, C64(0)))): return i
                if r[0] >= a: break
        for i, (a, b) in enumerate(o.segs):
            inside = And(Ule(C64(a), off), Ule(off, C64(b)), Ule(nn, Sub(C64(b), off)))
            # nonempty overlap possible?
            if s.check(st.pc, And(inside, Ne(nn, C64(0))), s.quick_ms) != "unsat": cands.append((i, inside))
        if not cands:
            i = max(range(len(o.segs)), key=lambda j: o.segs[j][0] if o.segs[j][0] <= r[0] else -1)
            a, b = o.segs[i]
            cands = [(i, And(Ule(C64(a), off), Ule(off, C64(b)), Ule(nn, Sub(C64(b), off))))]
        for i, c in cands:
            if s.check(st.pc, Not(Or(c, Eq(nn, C64(0)))), s.quick_ms) == "unsat": return i
        # not confined to one declared field: the most populated candidate becomes an obligation
        best = max(cands, key=lambda x: o.segs[x[0]][1] - o.segs[x[0]][0])
        s.oblige(st, Or(best[1], Eq(nn, C64(0))), "bounds", "%s stays inside field [%d,%d) of %s" % (what, o.segs[best[0]][0], o.segs[best[0]][1], o.name))
        return best[0]
    def access(s, st, p, n, what):
        """bounds/null/liveness obligations for an n-byte access; -> feasible entries"""
        es = p.es
        if len(es) > 1:
            es = [e for e in es if not pc_has(st.pc, Not(e[0]))]
        nn = C64(n) if isinstance(n, int) else n
        conds = []
        good = []
        for c, oid, off in es:
            if oid == 0:
                conds.append(Or(Not(c), Eq(nn, C64(0)))); continue
            o = s.objs[oid]
            if o.kind in ("fn", "opaque"):
                conds.append(Not(c)); continue
            ost = s.getos(st, oid)
            if ost is None:
                conds.append(Or(Not(c))); continue
            ok = Or(And(Ule(nn, o.size), Ule(off, Sub(o.size, nn))), Eq(nn, C64(0)))
            if isinstance(n, int) and n and isc(o.size):
                ok = B(False) if o.size.val < n else Ule(off, C64(o.size.val - n))
            if ost.freed is not F: ok = And(ok, Not(ost.freed))
            if s.access_hook is not None:
                x = s.access_hook(st, oid, off, nn, what)
                if x is not None: ok = And(ok, Or(x, Eq(nn, C64(0))))
            conds.append(Implies(c, ok))
            good.append((c, oid, off))
        s.oblige(st, And(*conds), "memory", "%s: valid access of %s bytes" % (what, show(nn, 3)))
        if st.dead or not good:
            st.dead = True
            return []
        if len(good) > 1:
            good = [e for e in good if not pc_has(st.pc, Not(e[0]))]
        if len(good) == 1: good = [(T,) + good[0][1:]]
        return good
    def base_read(s, st, base, off):
        key = (base.id, off.id)
        if base.dep or (s.prune_reads and base.depth): key = (base.id, off.id, st.pc.id)
        r = s.mem_memo.get(key)
        if r is not None: return r
        r = s._base_read(st, base, off)
        s.mem_memo[key] = r
        return r
    def _dec(s, st, c, base):
        if c is T: return True
        if c is F: return False
        if s.prune_reads: return s.decide(st, c)
        return None
    def _base_read(s, st, base, off):
        while True:
            k = base.k
            if k == "sym": return Select(base.a[0], off)
            if k == "const":
                d, v = base.a
                if d is None: return K(v, 8) if isinstance(v, int) else v
                if isc(off): return K(d[off.val] if off.val < len(d) else 0, 8)
                return TableRead(d, 1, off)
            if k == "ite":
                c = base.a[0]
                if pc_has(st.pc, c): base = base.a[1]; continue
                if pc_has(st.pc, Not(c)): base = base.a[2]; continue
                def under(cc, b):
                    # segment choices inside a branch are made under its condition
                    if not b.dep: return s.base_read(st, b, off)
                    z = st.fork(); z.assume(cc)
                    return None if z.dead else s.base_read(z, b, off)
                x = under(c, base.a[1]); y = under(Not(c), base.a[2])
                if x is None or y is None: return y if x is None else x
                return Ite(c, x, y)
            if k == "over":
                prev, cells = base.a
                if isc(off):
                    b = s.cell_byte(cells, off.val)
                    if b is not None: return b
                    base = prev; continue
                return s.over_sym(st, cells, off, s.base_read(st, prev, off))
            if k == "wr":
                prev, woff, val, n = base.a
                d = Sub(off, woff)
                if isc(d):
                    if d.val < n: return Extract(val, 8 * d.val + 7, 8 * d.val)
                    base = prev; continue
                inr = Ult(d, C64(n))
                q = s._dec(st, inr, base)
                if q is False: base = prev; continue
                v = Extract(val, 7, 0)
                for j in range(1, n):
                    v = Ite(Eq(d, C64(j)), Extract(val, 8 * j + 7, 8 * j), v)
                if q is True: return v
                return Ite(inr, v, s.base_read(st, prev, off))
            if k == "fill":
                prev, dst, ln, val = base.a
                inr = Ult(Sub(off, dst), ln)
                q = s._dec(st, inr, base)
                if q is True: return val
                if q is False: base = prev; continue
                return Ite(inr, val, s.base_read(st, prev, off))
            if k == "copy":
                prev, dst, ln, sos, soid, soff = base.a
                d = Sub(off, dst)
                inr = Ult(d, ln)
                q = s._dec(st, inr, base)
                if q is False: base = prev; continue
                v = s.os_byte(st, sos, soid, Add(soff, d), hint=(soff, ln))
                if q is True: return v
                return Ite(inr, v, s.base_read(st, prev, off))
            raise Unsupported(k)
    def cell_byte(s, ov, o):
        for b in range(8):
            c = ov.get(o - b)
            if c is not None:
                if c[0] > b:
                    v = c[1]
                    if isinstance(v, Ptr):
                        if b == 0 or True: v = s.ptr_int(v)
                    return Extract(v, 8 * b + 7, 8 * b)
                return None
        return None
    def over_sym(s, st, cells, off, r):
        lo, hi = rng(off)
        for o in sorted(cells):
            n, v = cells[o]
            if o + n <= lo or o > hi: continue
            if isinstance(v, Ptr): v = s.ptr_int(v)
            for j in range(n):
                r = Ite(Eq(off, C64(o + j)), Extract(v, 8 * j + 7, 8 * j), r)
        return r
    def os_byte(s, st, os_, oid, off, hint=None):
        o = s.objs[oid]
        if isc(off):
            b = s.cell_byte(os_.ov, off.val)
            if b is not None: return b
            si = 0
            if len(o.segs) > 1:
                si = [i for i, (a, b) in enumerate(o.segs) if a <= off.val < b]
                si = si[0] if si else 0
            return s.base_read(st, os_.bases[si], off)
        if len(o.segs) == 1: si = 0
        else:
            if hint and isc(hint[0]) and isc(hint[1]):
                si = s.seg_of(st, oid, hint[0], hint[1], "read")
                if si is None: return s.byte_any(st, os_, oid, off, hint[0].val, hint[0].val + hint[1].val)
            else: si = s.seg_of(st, oid, *((hint[0], hint[1]) if hint else (off, 1)), "read")
            if si is None: si = s.seg_of(st, oid, off, 1, "read")
        r = s.base_read(st, os_.bases[si], off)
        if os_.ov:
            a, b = o.segs[si]
            cells = os_.ov if len(o.segs) == 1 else {k: v for k, v in os_.ov.items() if a <= k < b}
            if cells: r = s.over_sym(st, cells, off, r)
        return r
    def byte_any(s, st, os_, oid, off, lo=0, hi=1 << 62):
        """byte at a symbolic offset of a segmented object, any segment"""
        v = K(0, 8); o = s.objs[oid]
        for i, (a, b) in enumerate(o.segs):
            if b <= lo or a >= hi: continue
            x = s.base_read(st, os_.bases[i], off)
            cells = {k: q for k, q in os_.ov.items() if a <= k < b}
            if cells: x = s.over_sym(st, cells, off, x)
            v = Ite(And(Ule(C64(a), off), Ult(off, C64(b))), x, v)
        return v
    def read_int(s, st, os_, oid, off, n):
        """n-byte little endian integer from an object state"""
        if isc(off):
            c = os_.ov.get(off.val)
            if c is not None and c[0] == n: return c[1]
            if c is not None and c[0] > n and not isinstance(c[1], Ptr): return Extract(c[1], 8 * n - 1, 0)
            if c is None and len(s.objs[oid].segs) == 1 and os_.bases[0].k == "const" and os_.bases[0].a[0] is None and not os_.ov:
                v = os_.bases[0].a[1]
                if v == 0: return K(0, 8 * n)
        else:
            b0 = os_.bases[0]
            if b0.k == "const" and b0.a[0] is not None and not os_.ov and n > 1:
                cst, d = (off.val if off.op == "lin" else (0, ((off, 1),)))
                if cst % n == 0 and all(k % n == 0 for _, k in d):
                    return TableRead(b0.a[0], n, off)
        bs = [s.os_byte(st, os_, oid, Add(off, C64(i))) for i in range(n)]
        return FromBytes(bs)
    def load(s, st, p, n, isptr=False, what="load"):
        p = asptr(p)
        es = s.access(st, p, n, what)
        if st.dead: return K(0, 8 * n) if not isptr else NULL
        r = None
        for c, oid, off in reversed(es):
            v = s.ptr_cells(st, st.mem[oid], off) if isptr and not isc(off) else None
            if v is None: v = s.read_int(st, st.mem[oid], oid, off, n)
            if isptr and not isinstance(v, Ptr): v = s.int_ptr(v)
            r = v if r is None else vite(c, v, r)
        return r
    def ptr_cells(s, st, os_, off):
        """pointer at a symbolic offset that is known to be one of the pointer cells"""
        lo, hi = rng(off)
        cells = [(o, v) for o, (n, v) in sorted(os_.ov.items()) if n == 8 and isinstance(v, Ptr) and lo <= o <= hi]
        if not cells: return None
        if s.check(st.pc, And(*[Ne(off, C64(o)) for o, _ in cells]), 5000) != "unsat": return None
        r = None
        for o, v in reversed(cells): r = v if r is None else vite(Eq(off, C64(o)), v, r)
        return r
    def int_ptr(s, v):
        try: return asptr(v)
        except Unsupported:
            # an integer that was produced by ptr_int
            for oid, o in s.objs.items():
                if oid:
                    d = Sub(v, Var("&%d" % oid, 64))
                    if isc(d): return mkptr(oid, d)
            if v.op == "ite": return vite(v.args[0], s.int_ptr(v.args[1]), s.int_ptr(v.args[2]))
            raise
    def ptr_int(s, p):
        r = None
        for c, o, f in reversed(p.es):
            v = f if o == 0 else Add(Var("&%d" % o, 64), f)
            r = v if r is None else Ite(c, v, r)
        return r
    def put(s, st, oid, off, n, v):
        """store at a concrete offset"""
        os_ = st.w(oid); ov = os_.ov
        c = ov.get(off)
        if c is not None and c[0] == n:
            ov[off] = (n, v); return
        for o in range(off - 7, off + n):
            c = ov.get(o)
            if c is not None and o + c[0] > off:
                del ov[o]
                if o < off or o + c[0] > off + n:
                    x = c[1]
                    if isinstance(x, Ptr): x = s.ptr_int(x)
                    for j in range(c[0]):
                        if not (off <= o + j < off + n): ov[o + j] = (1, Extract(x, 8 * j + 7, 8 * j))
        ov[off] = (n, v)
    def freeze(s, st, oid, si):
        """push overlay cells of a segment into its base"""
        os_ = st.w(oid)
        o = s.objs[oid]
        if not os_.ov: return os_
        if len(o.segs) == 1: cells = os_.ov; os_.ov = {}
        else:
            a, b = o.segs[si]
            cells = {k: v for k, v in os_.ov.items() if a <= k < b}
            for k in cells: del os_.ov[k]
        if cells: os_.bases[si] = Base("over", os_.bases[si], cells)
        return os_
    def store(s, st, p, n, v, what="store"):
        p = asptr(p)
        es = s.access(st, p, n, what)
        if st.dead: return
        for c, oid, off in es:
            if s.objs[oid].ro: s.oblige(st, Not(c), "memory", "%s: write to constant %s" % (what, s.objs[oid].name))
            if st.dead: return
            val = v
            if c is not T:
                old = s.read_int(st, st.mem[oid], oid, off, n)
                val = vite(c, v, old)
            if isc(off): s.put(st, oid, off.val, n, val)
            else:
                if isinstance(val, Ptr): val = s.ptr_int(val)
                si = s.seg_of(st, oid, off, n, what)
                os_ = s.freeze(st, oid, si)
                os_.bases[si] = Base("wr", os_.bases[si], off, val, n)
    def memset(s, st, p, val, ln, what="memset"):
        p = asptr(p)
        if isc(ln) and ln.val == 0: return
        es = s.access(st, p, ln, what)
        if st.dead: return
        for c, oid, off in es:
            s._fill(st, c, oid, off, ln, val, what)
    def _fill(s, st, c, oid, off, ln, val, what):
        o = s.objs[oid]
        if isc(off) and isc(ln):
            a, b = off.val, off.val + ln.val
            os_ = st.w(oid)
            small = [k for k in os_.ov if a - 8 < k < b]
            if ln.val <= 64 or c is not T:
                if ln.val > 4096: raise Unsupported("guarded fill")
                # reuse existing cell layout
                k = a
                while k < b:
                    cell = os_.ov.get(k)
                    n = cell[0] if cell and k + cell[0] <= b else 1
                    nv = FromBytes([val] * n)
                    if c is not T: nv = vite(c, nv, s.read_int(st, os_, oid, C64(k), n))
                    s.put(st, oid, k, n, nv); k += n
                return
            for k in small:
                n, x = os_.ov[k]
                if a <= k and k + n <= b:
                    os_.ov[k] = (n, FromBytes([val] * n))
                elif k + n > a:
                    if isinstance(x, Ptr): x = s.ptr_int(x)
                    del os_.ov[k]
                    for j in range(n):
                        os_.ov[k + j] = (1, val if a <= k + j < b else Extract(x, 8 * j + 7, 8 * j))
            for si, (x, y) in enumerate(o.segs):
                y2 = y if y is not None else (o.size.val if isc(o.size) else None)
                lo = max(a, x); hi = b if y2 is None else min(b, y2)
                if lo < hi:
                    if y2 is not None and lo == x and hi == y2:
                        os_.bases[si] = Base("const", None, val.val if isc(val) else val)
                    else:
                        os_.bases[si] = Base("fill", os_.bases[si], C64(lo), C64(hi - lo), val)
            return
        si = s.seg_of(st, oid, off, ln, what)
        os_ = s.freeze(st, oid, si)
        b = Base("fill", os_.bases[si], off, ln, val)
        os_.bases[si] = b if c is T else Base("ite", c, b, os_.bases[si])
    def memcpy(s, st, d, p, ln, what="memcpy", overlap_ok=False):
        d = asptr(d); p = asptr(p)
        if isc(ln) and ln.val == 0: return
        es = s.access(st, p, ln, what + " source")
        if st.dead: return
        ed = s.access(st, d, ln, what + " destination")
        if st.dead: return
        if not overlap_ok:
            cs = []
            for c, oid, off in es:
                for c2, oid2, off2 in ed:
                    if oid == oid2:
                        cs.append(Or(Not(And(c, c2)), Eq(off, off2), Ule(Add(off, ln), off2), Ule(Add(off2, ln), off), Eq(ln, C64(0))))
            if cs: s.oblige(st, And(*cs), "memory", what + ": source and destination do not overlap")
        srcs = [(c, oid, off, st.mem[oid]) for c, oid, off in es]
        for c, oid, off, sos in srcs: st.own.discard(oid)
        for c2, oid2, off2 in ed:
            if s.objs[oid2].ro: s.oblige(st, Not(c2), "memory", what + ": write to constant"); 
            for c, oid, off, sos in srcs:
                cc = And(c, c2)
                if len(srcs) == 1: cc = c2
                s._copy(st, cc, oid2, off2, oid, off, sos, ln, what)
    def _copy(s, st, c, doid, doff, soid, soff, sos, ln, what):
        if isc(doff) and isc(soff) and isc(ln) and (ln.val <= 64 or (c is T and not s._bigsym(sos, soid, soff.val, ln.val))):
            a = soff.val; k = 0; n_ = ln.val
            dst0 = st.w(doid)
            while k < n_:
                cell = sos.ov.get(a + k)
                if cell and k + cell[0] <= n_: n = cell[0]
                else:
                    dcell = dst0.ov.get(doff.val + k)
                    n = 1
                    if dcell and k + dcell[0] <= n_ and not any((a + k + j) in sos.ov for j in range(1, dcell[0])) and s.cell_byte(sos.ov, a + k) is None: n = dcell[0]
                v = s.read_int(st, sos, soid, C64(a + k), n)
                if c is not T: v = vite(c, v, s.read_int(st, st.mem[doid], doid, C64(doff.val + k), n))
                s.put(st, doid, doff.val + k, n, v); k += n
            return
        if isc(doff) and isc(soff) and isc(ln) and c is T and len(s.objs[soid].segs) > 1 and len(s.objs[doid].segs) > 1 and \
           s.objs[soid].segs == s.objs[doid].segs and soff.val == 0 and doff.val == 0 and isc(s.objs[doid].size) and s.objs[doid].size.val == ln.val:
            os_ = st.w(doid)
            os_.ov = dict(sos.ov); os_.bases = list(sos.bases)
            return
        if isc(doff) and isc(soff) and isc(ln) and soff.val == 0 and c is T:
            # cells keep their exact values (pointers, typed fields); bulk goes through the base
            pass
        # split over destination segments when everything is concrete
        if isc(doff) and isc(ln) and len(s.objs[doid].segs) > 1:
            for si, (x, y) in enumerate(s.objs[doid].segs):
                lo = max(x, doff.val); hi = min(y, doff.val + ln.val)
                if lo < hi:
                    s._copy1(st, c, doid, si, C64(lo), soid, Add(soff, C64(lo - doff.val)), sos, C64(hi - lo))
            return
        si = s.seg_of(st, doid, doff, ln, what)
        s._copy1(st, c, doid, si, doff, soid, soff, sos, ln)
    def _bigsym(s, sos, soid, a, n):
        return True
    def _copy1(s, st, c, doid, si, doff, soid, soff, sos, ln):
        os_ = s.freeze(st, doid, si)
        if doid == soid: sos = sos  # snapshot taken before
        b = Base("copy", os_.bases[si], doff, ln, sos, soid, soff)
        os_.bases[si] = b if c is T else Base("ite", c, b, os_.bases[si])
    # -------------------------------------------------------------- merging
    def merge(s, sts):
        sts = [x for x in sts if x is not None and not x.dead]
        if not sts: return None
        # merge in an order that pairs deepest common ancestors first
        while len(sts) > 1:
            sts.sort(key=lambda x: -x.pc.depth)
            a = sts[0]
            best = None; bd = -1
            for b in sts[1:]:
                anc = s.ancestor(a.pc, b.pc)
                if anc.depth > bd: bd = anc.depth; best = b
            sts.remove(a); sts.remove(best)
            sts.append(s.merge2(a, best))
        return sts[0]
    def ancestor(s, p, q):
        while p is not q:
            if p.depth > q.depth: p = p.parent
            elif q.depth > p.depth: q = q.parent
            else: p = p.parent; q = q.parent
        return p
    def merge2(s, a, b):
        anc = s.ancestor(a.pc, b.pc)
        ca = []; p = a.pc
        while p is not anc: ca.append(p.cond); p = p.parent
        cb = []; p = b.pc
        while p is not anc: cb.append(p.cond); p = p.parent
        ca.reverse(); cb.reverse()
        r = State.__new__(State)
        r.dead = False; r.prev = None; r.own = set()
        a.own = set(); b.own = set()
        pc = anc
        if ca and cb and ca[0] is Not(cb[0]):
            c = ca[0]
            ra = And(*ca[1:]) if len(ca) > 1 else T
            rb = And(*cb[1:]) if len(cb) > 1 else T
            if ra is rb:
                if ra is not T:
                    for x in ca[1:]: pc = PC(pc, x)
            else:
                x = Implies(c, ra)
                if x is not T: pc = PC(pc, x)
                x = Implies(Not(c), rb)
                if x is not T: pc = PC(pc, x)
        else:
            c = And(*ca) if ca else T
            if not ca or not cb:
                # one is a prefix of the other: not exclusive, keep the stronger information out
                if not ca: c = Not(And(*cb)) if cb else T
            x = Or(And(*ca) if ca else T, And(*cb) if cb else T)
            if x is not T: pc = PC(pc, x)
        r.pc = pc
        # memory
        mem = {}
        ma, mb = a.mem, b.mem
        for oid, x in ma.items():
            y = mb.get(oid)
            if y is None or y is x: mem[oid] = x
            else: mem[oid] = s.merge_os(a, b, c, oid, x, y)
        for oid, y in mb.items():
            if oid not in ma: mem[oid] = y
        r.mem = mem
        ga, gb = a.ghost, b.ghost
        g = {}
        for k in ga:
            g[k] = vite(c, ga[k], gb[k]) if k in gb else ga[k]
        for k in gb:
            if k not in ga: g[k] = gb[k]
        r.ghost = g
        regs = {}
        for k, v in a.regs.items():
            w = b.regs.get(k)
            if w is None or w is v: regs[k] = v
            else: regs[k] = vite(c, v, w)
        for k, v in b.regs.items():
            if k not in regs: regs[k] = v
        r.regs = regs
        return r
    def merge_os(s, sa, sb, c, oid, x, y):
        nb = []
        for p, q in zip(x.bases, y.bases):
            nb.append(p if p is q else Base("ite", c, p, q))
        ov = {}
        if x.ov is not y.ov:
            done = set()
            for o, (n, v) in x.ov.items():
                c2 = y.ov.get(o)
                if c2 is not None and c2[0] == n: w = c2[1]
                elif c2 is None and not any((o + j) in y.ov for j in range(-7, n)): w = s.read_int(sb, y, oid, C64(o), n)
                else:
                    # differing cell layouts: go byte wise
                    vi = s.ptr_int(v) if isinstance(v, Ptr) else v
                    for j in range(n):
                        w = s.os_byte(sb, y, oid, C64(o + j))
                        ov[o + j] = (1, vite(c, Extract(vi, 8 * j + 7, 8 * j), w))
                    continue
                ov[o] = (n, s.vitep(c, v, w))
            for o, (n, w) in y.ov.items():
                if o in ov and ov[o][0] >= n: continue
                cov = [any(o + j - k in ov and ov[o + j - k][0] > k for k in range(8)) for j in range(n)]
                if not any(cov):
                    v = s.read_int(sa, x, oid, C64(o), n)
                    ov[o] = (n, s.vitep(c, v, w))
                else:
                    wi = s.ptr_int(w) if isinstance(w, Ptr) else w
                    for j in range(n):
                        if not cov[j]:
                            ov[o + j] = (1, vite(c, s.os_byte(sa, x, oid, C64(o + j)), Extract(wi, 8 * j + 7, 8 * j)))
        else: ov = dict(x.ov)
        fr = Ite(c, x.freed, y.freed)
        return OS(ov, nb, fr)
    def vitep(s, c, v, w):
        if v is w: return v
        if isinstance(v, Ptr) or isinstance(w, Ptr):
            v = s.aspoison(v); w = s.aspoison(w)
        return vite(c, v, w)
    def aspoison(s, v):
        """pointer, or an opaque (never dereferenceable) pointer for an unknown integer"""
        try: return s.int_ptr(v) if not isinstance(v, Ptr) else v
        except Unsupported: return mkptr(s.opaque_obj(), v)
    def opaque_obj(s):
        if s.opaque is None:
            s.nobj += 1
            s.objs[s.nobj] = Obj(s.nobj, "opaque", C64(0), "opaque", tag="opaque")
            s.opaque = s.nobj
        return s.opaque
    # -------------------------------------------------------------- operands
    def operand(s, st, mod, v, ty):
        k = v[0]
        if k == "reg": return st.regs[v[1]]
        if k == "const":
            t = mod.resolve(ty)
            w = t[1]
            if w == 1: return B(v[1] & 1)
            return K(v[1], w)
        if k == "null": return NULL
        if k == "global": return s.global_ptr(mod, v[1])
        if k == "undef":
            t = mod.resolve(ty)
            if t[0] == "ptr": return NULL
            return Fresh("undef", t[1])
        if k == "zero":
            t = mod.resolve(ty)
            return K(0, t[1]) if t[0] == "i" else NULL
        if k == "cegep":
            base = s.operand(st, mod, v[2], ("ptr",))
            return s.gep(st, mod, v[1], base, v[3])
        if k == "cecast":
            x = s.operand(st, mod, v[3], v[2])
            if v[1] == "inttoptr": return asptr(x)
            if v[1] == "ptrtoint": return s.ptr_int(x)
        raise Unsupported("operand %r" % (v,))
    def gep(s, st, mod, bt, base, idx):
        off = C64(0); ty = bt; first = True
        for it, iv in idx:
            x = s.operand(st, mod, iv, it)
            if first:
                sz = mod.size(ty)
                off = Add(off, MulC(SExt(x, 64), sz)); first = False
                continue
            t = mod.resolve(ty)
            if t[0] == "arr":
                ty = t[2]; off = Add(off, MulC(SExt(x, 64), mod.size(ty)))
            elif t[0] == "struct":
                o, ty = mod.field(t, x.val); off = Add(off, C64(o))
            else: raise Unsupported("gep")
        base = asptr(base)
        if isc(off) and off.val == 0: return base
        return Ptr(tuple([(c, o, Add(f, off)) for c, o, f in base.es]))
    # -------------------------------------------------------------- functions
    def call(s, st, fn, args, where=""):
        """execute a function body; returns value; st updated in place (st.dead if no return)"""
        if s.depth > s.max_depth: raise Unsupported("call depth / recursion at " + fn.name)
        s.depth += 1
        saved_regs, saved_prev = st.regs, st.prev
        st.regs = {}
        for (ty, nm), a in zip(fn.params, args): st.regs[nm] = a
        s.inlined.add(fn.name)
        info = s.loop_info(fn)
        frame = {"fn": fn, "info": info, "allocas": [], "rets": [], "saved": saved_regs}
        s.where.append(fn.name)
        st0 = st.fork()
        res = s.run_region(frame, None, fn.order[0], st0)
        s.where.pop()
        s.depth -= 1
        outs = res.get("RET", [])
        for o in outs:
            for a in frame["allocas"]: o.mem.pop(a, None)
        for o in outs:
            rv = o.regs.get("$ret"); o.regs = {"$ret": rv} if rv is not None else {}
        m = s.merge(outs)
        if m is None:
            st.dead = True
            st.regs, st.prev = saved_regs, saved_prev
            return None
        rv = m.regs.get("$ret")
        st.pc = m.pc; st.mem = m.mem; st.own = m.own; st.ghost = m.ghost; st.dead = m.dead
        st.regs, st.prev = saved_regs, saved_prev
        return rv
    def loop_info(s, fn):
        if hasattr(fn, "linfo"): return fn.linfo
        fn.linfo = {}
        return fn.linfo
    def sccs(s, fn, blocks, entry, cut):
        """SCC condensation (topological order) of the sub-CFG; edges into `cut` are dropped"""
        key = (frozenset(blocks) if blocks is not None else None, entry, cut)
        info = s.loop_info(fn)
        if key in info: return info[key]
        bl = set(fn.order) if blocks is None else blocks
        idx = {}; low = {}; stk = []; on = set(); out = []; n = [0]
        def succ(b): return [x for x in fn.succ[b] if x in bl and x != cut]
        work = [(entry, iter(succ(entry)))]
        idx[entry] = low[entry] = 0; n[0] = 1; stk.append(entry); on.add(entry)
        while work:
            b, it = work[-1]
            adv = False
            for x in it:
                if x not in idx:
                    idx[x] = low[x] = n[0]; n[0] += 1; stk.append(x); on.add(x)
                    work.append((x, iter(succ(x)))); adv = True; break
                elif x in on: low[b] = min(low[b], idx[x])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[b])
            if low[b] == idx[b]:
                comp = set()
                while True:
                    x = stk.pop(); on.discard(x); comp.add(x)
                    if x == b: break
                out.append(comp)
        out.reverse()
        info[key] = out
        return out
    def run_region(s, fr, blocks, entry, st, isloop=False):
        """execute an acyclic (after collapsing inner loops) region from entry.
        -> {target outside region / entry (back edge) / 'RET': [states]}"""
        fn = fr["fn"]
        comps = s.sccs(fn, blocks, entry, entry if isloop else None)
        inc = {entry: [st]}
        exits = {}
        bl = set(fn.order) if blocks is None else blocks
        for comp in comps:
            if len(comp) == 1 and not any(b in fn.succ[b] and not (isloop and b == entry) for b in comp):
                b = next(iter(comp))
                ss = inc.pop(b, [])
                cur = s.merge(ss)
                if cur is None: continue
                outs = s.run_block(fr, b, cur)
            else:
                heads = [b for b in comp if b in inc]
                if not heads: continue
                # entries of the component: blocks with predecessors outside
                if len(heads) > 1: raise Unsupported("irreducible loop in " + fn.name)
                h = heads[0]
                cur = s.merge(inc.pop(h))
                if cur is None: continue
                outs = s.run_loop(fr, frozenset(comp), h, cur)
            for t, x in outs:
                if x.dead: continue
                if t == "RET" or t not in bl or (isloop and t == entry): exits.setdefault(t, []).append(x)
                else: inc.setdefault(t, []).append(x)
        return exits
    def goto(s, fr, st, frm, to):
        """phi evaluation on the edge"""
        fn = fr["fn"]
        vals = None
        for ins in fn.blocks[to]:
            if ins[0] != "phi": break
            for v, b in ins[3]:
                if b == frm:
                    if vals is None: vals = []
                    vals.append((ins[1], s.operand(st, fn.module, v, ins[2]))); break
        if vals:
            for d, v in vals: st.regs[d] = v
        return st
    def run_block(s, fr, b, st):
        fn = fr["fn"]; mod = fn.module
        if s.deadline and time.time() > s.deadline: raise Undecided("time budget exhausted")
        for ins in fn.blocks[b]:
            op = ins[0]
            if op == "load":
                ty = mod.resolve(ins[2])
                p = s.operand(st, mod, ins[3], ("ptr",))
                s.where[-1] = "%s:%d" % (fn.name, ins[4])
                if ty[0] == "i":
                    v = s.load(st, p, mod.size(ty), what="load")
                    if isinstance(v, Ptr): v = s.ptr_int(v)
                    if ty[1] == 1: v = Ne(Extract(v, 0, 0), K(0, 1))
                    elif v.w != ty[1]: v = Extract(v, ty[1] - 1, 0)
                elif ty[0] == "ptr": v = s.load(st, p, 8, isptr=True, what="load")
                else: raise Unsupported("load type %r" % (ty,))
                st.regs[ins[1]] = v
            elif op == "store":
                ty = mod.resolve(ins[1])
                v = s.operand(st, mod, ins[2], ty); p = s.operand(st, mod, ins[3], ("ptr",))
                s.where[-1] = "%s:%d" % (fn.name, ins[4])
                if ty[0] == "i" and ty[1] == 1: v = Ite(v, K(1, 8), K(0, 8))
                elif s.rw is not None and not isinstance(v, Ptr): v = s.simp(st, v)
                s.store(st, p, mod.size(ty), v)
            elif op == "alloca":
                n = mod.size(ins[2])
                size = C64(n)
                if ins[3] is not None:
                    cnt = s.operand(st, mod, ins[3], ("i", 64))
                    size = MulC(ZExt(cnt, 64), n)
                segs = s.segs_for(mod, ins[2])
                oid = s.new_obj(st, "%s.%s" % (fn.name, ins[1]), size, "alloca", segs=segs)
                fr["allocas"].append(oid)
                st.regs[ins[1]] = mkptr(oid)
            elif op == "gep":
                st.regs[ins[1]] = s.gep(st, mod, ins[2], s.operand(st, mod, ins[3], ("ptr",)), ins[4])
            elif op == "bin":
                s.where[-1] = "%s:%d" % (fn.name, ins[7])
                st.regs[ins[1]] = s.binop(st, mod, ins)
            elif op == "icmp":
                ty = mod.resolve(ins[3])
                a = s.operand(st, mod, ins[4], ty); c = s.operand(st, mod, ins[5], ty)
                st.regs[ins[1]] = s.icmp(st, ins[2], a, c)
                if s.cmp_log is not None and not isinstance(a, Ptr) and not isinstance(c, Ptr): s.cmp_log.append((a, c))
                if s.cur_exit_dec is not None: s.last_cmp[ins[1]] = (a, c)
            elif op == "cast":
                v = s.operand(st, mod, ins[4], ins[3]); tt = mod.resolve(ins[5]); k = ins[2]
                if k == "zext":
                    v = Ite(v, K(1, tt[1]), K(0, tt[1])) if v.w == 0 else ZExt(v, tt[1])
                elif k == "sext":
                    v = Ite(v, K(-1, tt[1]), K(0, tt[1])) if v.w == 0 else SExt(v, tt[1])
                elif k == "trunc":
                    v = Ne(Extract(v, 0, 0), K(0, 1)) if tt[1] == 1 else Extract(v, tt[1] - 1, 0)
                elif k == "ptrtoint": 
                    v = s.ptr_int(v)
                    v = Extract(v, tt[1] - 1, 0) if tt[1] < 64 else v
                elif k == "inttoptr": v = s.int_ptr(v)
                if s.rw is not None and k in ("zext", "sext") and v.op in ("zext", "sext"): v = s.simp(st, v)
                st.regs[ins[1]] = v
            elif op == "select":
                c = s.operand(st, mod, ins[2], ("i", 1)); ty = mod.resolve(ins[3])
                st.regs[ins[1]] = vite(c, s.operand(st, mod, ins[4], ty), s.operand(st, mod, ins[5], ty))
            elif op == "phi": pass
            elif op == "extractvalue":
                # results of the overflow intrinsics: the flag above the value
                v = st.regs[ins[3][1]]; w = v.w - 1
                st.regs[ins[1]] = Extract(v, w - 1, 0) if ins[4] == 0 else Ne(Extract(v, w, w), K(0, 1))
            elif op == "call":
                s.where[-1] = "%s:%d" % (fn.name, ins[5])
                v = s.do_call(fr, st, mod, ins)
                if st.dead: return []
                if ins[1] is not None: st.regs[ins[1]] = v
            elif op == "br":
                return [(ins[1], s.goto(fr, st, b, ins[1]))]
            elif op == "cbr":
                c = s.operand(st, mod, ins[1], ("i", 1))
                s.where[-1] = "%s:%d" % (fn.name, ins[4])
                return s.branch(fr, st, b, c, ins[2], ins[3], ins)
            elif op == "switch":
                ty = mod.resolve(ins[1]); v = s.operand(st, mod, ins[2], ty)
                outs = []; rest = T
                tgt = {}
                for x, l in ins[4]:
                    c = Eq(v, K(x, ty[1])); tgt.setdefault(l, []).append(c); rest = And(rest, Not(c))
                tgt.setdefault(ins[3], []).append(rest)
                for l, cs in tgt.items():
                    c = Or(*cs)
                    if c is F or pc_has(st.pc, Not(c)): continue
                    d = s.decide(st, c)
                    if d is False: continue
                    n = st.fork(); n.assume(c)
                    if not n.dead: outs.append((l, s.goto(fr, n, b, l)))
                    if d is True: break
                return outs
            elif op == "ret":
                if ins[2] is not None: st.regs["$ret"] = s.operand(st, mod, ins[2], ins[1])
                return [("RET", st)]
            elif op == "unreachable": return []
            else: raise Unsupported("instruction %r" % (ins,))
            if st.dead: return []
        raise Unsupported("block without terminator")
    def segs_for(s, mod, ty):
        t = ty
        if t[0] == "named" and t[1] in s.seg_types:
            return list(s.seg_types[t[1]])
        return None
    seg_types = {}
    def branch(s, fr, st, b, c, l1, l2, ins):
        log = s.cur_exit_dec
        if c is T or c is F: d = c is T
        elif s.lazy_branch: d = True if pc_has(st.pc, c) else False if pc_has(st.pc, Not(c)) else None
        else: d = s.decide(st, c)
        if log is not None:
            body, rec = log[:2]
            if b in body and ((l1 in body) != (l2 in body) or b == log[2]):
                cmpv = s.last_cmp.get(ins[1][1]) if ins[1][0] == "reg" else None
                rec.append((b, d, cmpv, c))
        outs = []
        if d is not False:
            n = st.fork() if d is None else st
            n.assume(c)
            if not n.dead: outs.append((l1, s.goto(fr, n, b, l1)))
        if d is not True:
            st.assume(Not(c))
            if not st.dead: outs.append((l2, s.goto(fr, st, b, l2)))
        return outs
    def icmp(s, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred == "eq": return veq(a, b)
            if pred == "ne": return Not(veq(a, b))
            a = asptr(a); b = asptr(b)
            r = []
            f = {"ult": Ult, "ule": Ule, "ugt": Ugt, "uge": Uge}[pred]
            for c, o, x in a.es:
                for c2, o2, y in b.es:
                    cc = And(c, c2)
                    if cc is F: continue
                    if o != o2: raise Unsupported("relational comparison of unrelated pointers")
                    r.append(And(cc, f(x, y)))
            return Or(*r)
        if a.w == 0:
            r = Iff(a, b)
            return r if pred == "eq" else Not(r)
        return {"eq": Eq, "ne": Ne, "ult": Ult, "ule": Ule, "ugt": Ugt, "uge": Uge,
                "slt": Slt, "sle": Sle, "sgt": Sgt, "sge": Sge}[pred](a, b)
    def binop(s, st, mod, ins):
        _, dst, op, fl, ty, x, y, line = ins
        t = mod.resolve(ty)
        a = s.operand(st, mod, x, t); b = s.operand(st, mod, y, t)
        if isinstance(a, Ptr): a = s.ptr_int(a)
        if isinstance(b, Ptr): b = s.ptr_int(b)
        w = t[1]
        if w == 1:
            if op == "and": return And(a, b)
            if op == "or": return Or(a, b)
            if op == "xor": return Not(Iff(a, b))
            raise Unsupported("i1 " + op)
        if "nsw" in fl and op in ("add", "sub", "mul"):
            h = 1 << (w - 1)
            ra, rb = rng(a), rng(b)
            ok = None
            if op == "add" and ra[1] < h and rb[1] < h and ra[1] + rb[1] < h: ok = T
            elif op == "mul" and ra[1] * rb[1] < h and ra[1] < h and rb[1] < h: ok = T
            elif op == "sub" and ra[1] < h and rb[1] < h: ok = T
            elif op == "add" and isc(b) and b.val >= h and ra[1] < h: ok = T
            if ok is None:
                if op == "mul":
                    ok = Eq(Mul(SExt(a, 2 * w), SExt(b, 2 * w)), SExt(Mul(a, b), 2 * w))
                elif op == "add":
                    r = Add(a, b)
                    na, nb, nr = Slt(a, K(0, w)), Slt(b, K(0, w)), Slt(r, K(0, w))
                    ok = And(Or(na, nb, Not(nr)), Or(Not(na), Not(nb), nr))
                else:
                    r = Sub(a, b)
                    na, nb, nr = Slt(a, K(0, w)), Slt(b, K(0, w)), Slt(r, K(0, w))
                    ok = And(Or(na, Not(nb), Not(nr)), Or(Not(na), nb, nr))
            s.oblige(st, ok, "overflow", "signed %s does not overflow" % op)
        if op == "add": return Add(a, b)
        if op == "sub": return Sub(a, b)
        if op == "mul": return Mul(a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            s.oblige(st, Ne(b, K(0, w)), "division", "divisor is not zero")
            if op in ("sdiv", "srem"):
                s.oblige(st, Or(Ne(a, K(1 << (w - 1), w)), Ne(b, K(-1, w))), "overflow", "signed division does not overflow")
                h = 1 << (w - 1)
                if rng(a)[1] < h and rng(b)[1] < h: return UDiv(a, b) if op == "sdiv" else URem(a, b)
            return {"udiv": UDiv, "urem": URem, "sdiv": SDiv, "srem": SRem}[op](a, b)
        if op == "and": return BAnd(a, b)
        if op == "or": return BOr(a, b)
        if op == "xor": return BXor(a, b)
        s.oblige(st, Ult(b, K(w, w)), "overflow", "shift amount in range")
        if op == "shl": return Shl(a, b)
        if op == "lshr": return LShr(a, b)
        if op == "ashr": return AShr(a, b)
        raise Unsupported(op)
    def do_call(s, fr, st, mod, ins):
        _, dst, rt, callee, args, line = ins
        av = [s.operand(st, mod, v, ty) for ty, v in args]
        if callee[0] == "global":
            name = callee[1]
            f = mod.funcs.get(name) or s.fns.get(name)
            return s.call_named(st, name, f, av, mod.resolve(rt), mod)
        p = asptr(s.operand(st, mod, callee, ("ptr",)))
        return s.call_ptr(st, p, av, mod.resolve(rt), mod)
    def call_ptr(s, st, p, av, rt, mod):
        es = [e for e in p.es if not pc_has(st.pc, Not(e[0]))]
        bad = Or(*[c for c, o, f in es if s.objs[o].kind != "fn"]) if any(s.objs[o].kind != "fn" for c, o, f in es) else F
        s.oblige(st, Not(bad), "memory", "indirect call target is a function")
        if st.dead: return None
        es = [e for e in es if s.objs[e[1]].kind == "fn"]
        if not es: st.dead = True; return None
        if len(es) == 1:
            tag = s.objs[es[0][1]].tag
            f = None if isinstance(tag, str) else tag
            return s.call_named(st, tag if isinstance(tag, str) else tag.name, f or s.fns.get(tag if isinstance(tag, str) else tag.name), av, rt, mod)
        outs = []
        for c, o, f in es:
            n = st.fork(); n.assume(c)
            if n.dead or s.decide(n, T) is False: continue
            tag = s.objs[o].tag
            fn = None if isinstance(tag, str) else tag
            nm = tag if isinstance(tag, str) else tag.name
            v = s.call_named(n, nm, fn or s.fns.get(nm), av, rt, mod)
            if not n.dead:
                n.regs["$cv"] = v; outs.append(n)
        m = s.merge(outs)
        if m is None: st.dead = True; return None
        v = m.regs.pop("$cv", None)
        st.pc = m.pc; st.mem = m.mem; st.own = m.own; st.ghost = m.ghost; st.regs = m.regs
        return v
    def call_named(s, st, name, f, av, rt, mod):
        c = s.contracts.get(name)
        if c is not None:
            s.used_contracts.add(name)
            return c(s, st, av, rt)
        if f is not None: return s.call(st, f, av)
        m = s.models.get(name)
        if m is None and name.startswith("llvm."): m = s.models.get(".".join(name.split(".")[:2]))
        if m is None: raise Unsupported("call of %s: no body, no contract" % name)
        if not name.startswith("llvm."): s.used_models.add(name)
        return m(s, st, av, rt)
    # -------------------------------------------------------------- loops
    def run_loop(s, fr, body, h, st):
        fn = fr["fn"]
        key = (fn.module.src, fn.name, h)
        mode = "inv" if fn.name in s.force_inv else s.loops_seen.get(key)
        if mode != "inv":
            r = s.try_unroll(fr, body, h, st)
            if r is not None:
                if not s.muted: s.loops_seen.setdefault(key, "unroll")
                return r
        s.loops_seen[key] = "inv"
        from loops import run_inv
        return run_inv(s, fr, body, h, st)
    def set_rewrites(s, terms, samples):
        """cut candidates: a value the solver proves equal to one of `terms` is replaced by it.
        samples: [(env, arrs)] concrete valuations, used only to skip hopeless candidates"""
        s.rw_samples = samples; s.rw_memo = {}; s.rw = {}
        for t in terms:
            s.rw.setdefault(s._sig(t), []).append(t)
    def _sig(s, t):
        r = s.rw_memo.get(t.id)
        if r is None:
            r = tuple(evaluate(t, e, a) for e, a in s.rw_samples)
            s.rw_memo[t.id] = r
        return r
    def simp(s, st, v):
        if v.op in ("const", "var", "select") or v.w < 16: return v
        c = s.rw.get(s._sig(v))
        if not c: return v
        for h in c:
            hv = h if h.w == v.w else ZExt(h, v.w) if h.w < v.w else Extract(h, v.w - 1, 0)
            if hv is v: return v
            if s.implied(st.pc, Eq(v, hv)):
                if not s.muted: s.counts[s.last_by or "z3-lia"] = s.counts.get(s.last_by or "z3-lia", 0) + 1
                return hv
        return v
    def apply_hints(s, back, prev, n):
        """cut: a local provably equal to a hinted (simpler) term is replaced by that term"""
        hs = s.hints(n)
        if not hs: return
        for oid, os_ in list(back.mem.items()):
            if s.objs[oid].kind != "alloca": continue
            old = prev.get(oid)
            for off, (nb, v) in list(os_.ov.items()):
                if isinstance(v, Ptr) or isc(v) or v.op == "var": continue
                if old is not None and off in old and old[off][1] is v: continue
                for h in hs:
                    hv = h if h.w == v.w else ZExt(h, v.w) if h.w < v.w else Extract(h, v.w - 1, 0)
                    if hv is v: break
                    if s.implied(back.pc, Eq(v, hv)):
                        back.w(oid).ov[off] = (nb, hv)
                        if not s.muted: s.counts["z3-incremental"] = s.counts.get("z3-incremental", 0) + 1
                        break
    force_unroll = {}; scale = 1; dropped = 0
    def try_unroll(s, fr, body, h, st):
        nob = len(s.obs); counts = dict(s.counts); kinds = dict(s.kinds)
        cur = st.fork(); outs = []
        prevdec = {}
        saved = s.cur_exit_dec
        n = 0
        na = len(fr["allocas"])
        try:
            while True:
                rec = []
                snap = {o: dict(x.ov) for o, x in cur.mem.items() if s.objs[o].kind == "alloca"} if s.hints is not None else None
                s.cur_exit_dec = (body, rec, h)
                res = s.run_region(fr, body, h, cur, isloop=True)
                s.cur_exit_dec = saved
                for t, xs in res.items():
                    if t == h: continue
                    for x in xs: outs.append((t, x))
                back = s.merge(res.get(h, []))
                if back is None or not s.feasible(back): return outs
                n += 1
                if s.hints is not None: s.apply_hints(back, snap, n)
                ok = False
                for b, d, cmpv, c in rec:
                    if d is None: continue
                    old = prevdec.get(b)
                    nk = (id(cmpv[0]) if False else self_key(cmpv), c.id)
                    if old is None or old[0] != nk[0] : ok = True
                    prevdec[b] = nk
                if fr["fn"].name in s.force_unroll and n <= s.force_unroll[fr["fn"].name]: ok = True
                if not ok or n > s.unroll_max:
                    # give up: not a loop over a fixed range
                    del s.obs[nob:]; s.counts = counts; s.kinds = kinds
                    return None
                cur = back
        finally:
            s.cur_exit_dec = saved

def self_key(cmpv):
    if cmpv is None: return None
    out = []
    for x in cmpv:
        if isinstance(x, Ptr): out.append(tuple((c.id, o, f.id) for c, o, f in x.es))
        else: out.append(x.id)
    return tuple(out)

"""Loops that are not completely unrolled: cut by an inductive invariant.

The invariant is a conjunction of candidates (generated from the loop's own comparisons, linear relations
between the locations it modifies, and the contract's ghost invariants) filtered by Houdini: a candidate
stays only if it holds on entry and every iteration that starts in the conjunction re-establishes it.
Nothing about the loop is assumed: every location a trial iteration changes is havocked."""
import itertools
from terms import *
import symex
from symex import *
from llir import Unsupported

def subst(n, m, memo):
    """replace variables (dict var node id -> term)"""
    r = memo.get(n.id)
    if r is not None: return r
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo: stack.pop(); continue
        todo = [a for a in x.args if a.id not in memo]
        if todo: stack.extend(todo); continue
        stack.pop()
        if x.id in m: memo[x.id] = m[x.id]; continue
        a = [memo[y.id] for y in x.args]
        if all(p is q for p, q in zip(a, x.args)): memo[x.id] = x; continue
        memo[x.id] = rebuild(x, a)
    return memo[n.id]

def rebuild(x, a):
    op = x.op
    if op == "and": return And(*a)
    if op == "not": return Not(a[0])
    if op == "lin":
        c, ts = x.val
        r = K(c, x.w)
        for (t, k), b in zip(ts, a): r = Add(r, MulC(b, k))
        return r
    if op in ("zext", "sext"): return (ZExt if op == "zext" else SExt)(a[0], x.w)
    if op == "extract": return Extract(a[0], *x.val)
    if op == "select": return Select(x.val, a[0])
    if op == "uf": return UF(x.val, x.w, *a)
    if op == "tbl": return TableRead(x.val[0], x.val[1], a[0])
    f = {"iff": Iff, "eq": Eq, "ult": Ult, "slt": Slt, "ite": Ite, "mul": Mul, "udiv": UDiv, "urem": URem, "sdiv": SDiv, "srem": SRem,
         "bvand": BAnd, "bvor": BOr, "bvxor": BXor, "shl": Shl, "lshr": LShr, "ashr": AShr, "concat": Concat}[op]
    return f(*a)

def selects(n):
    out = set(); seen = set(); st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "select": out.add(x.val)
        st.extend(x.args)
    return out

def size_of(n, cap=60):
    seen = set(); st = [n]
    while st and len(seen) <= cap:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id); st.extend(x.args)
    return len(seen)

class WitInv:
    """candidate invariant: guard (over the loop's variables) implies a property read off the state"""
    def __init__(s, guard, prop): s.guard = guard; s.prop = prop; s.id = ("wit", guard.id, id(prop))

def at(c, m, memo, st):
    if isinstance(c, WitInv):
        g = subst(c.guard, m, memo)
        return T if g is F else Implies(g, c.prop(st))
    return subst(c, m, memo)

class Mods:
    def __init__(s): s.cells = {}; s.segs = set(); s.ghosts = set(); s.ptrs = {}
    def key(s): return (frozenset(s.cells.items()), frozenset(s.segs), frozenset(s.ghosts), frozenset((k, frozenset(v)) for k, v in s.ptrs.items()))

def seg_index(o, off):
    if len(o.segs) == 1: return 0
    for i, (a, b) in enumerate(o.segs):
        if a <= off and (b is None or off < b): return i
    return 0

def ptr_objs(v): return {o for c, o, f in v.es}

def cellval(ex, st, oid, off, n): return ex.read_int(st, st.mem[oid], oid, C64(off), n)

class Hav:
    """the arbitrary loop state and the correspondence of its variables to any other state"""
    dead = frozenset()
    def __init__(s): s.vars = []; s.oids = {}         # (var, name, width, reader(state) -> term)
    def mapping(s, ex, st): return {v.id: rd(st) for v, nm, w, rd in s.vars}

def havoc(ex, st, mods):
    h = Hav(); z = st.fork()
    arrs = set()
    for oid, si in sorted(mods.segs):
        o = ex.objs[oid]
        os_ = z.w(oid)
        lo, hi = o.segs[si] if len(o.segs) > 1 else (0, None)
        for k in [k for k in os_.ov if k >= lo and (hi is None or k < hi)]: del os_.ov[k]
        nm = FreshName("hv.%s.%d" % (o.name, si)); arrs.add(nm)
        os_.bases[si] = Base("sym", nm)
    for (oid, off), n in sorted(mods.cells.items()):
        o = ex.objs[oid]
        if (oid, seg_index(o, off)) in mods.segs: continue
        os0 = st.mem[oid]
        c0 = os0.ov.get(off)
        name = "%s+%d" % (o.name, off)
        if (oid, off) in mods.ptrs:
            tg = sorted(mods.ptrs[(oid, off)])
            es = []
            offs = {}
            for t in tg:
                if t == 0: offs[t] = C64(0); continue
                v = Fresh("hp.%s.%d" % (name, t), 64); offs[t] = v
                def rdo(x, oid=oid, off=off, t=t):
                    p = ex.aspoison(cellval(ex, x, oid, off, 8)); r = None
                    for c, oo, f in reversed(p.es):
                        if oo == t: r = f if r is None else Ite(c, f, r)
                    return r if r is not None else C64(0)
                h.oids[v.id] = oid; h.vars.append((v, "%s->%s" % (name, ex.objs[t].name), 64, rdo))
            if len(tg) == 1: p = Ptr(((T, tg[0], offs[tg[0]]),))
            else:
                prev = T
                for i, t in enumerate(tg):
                    if i == len(tg) - 1: c = prev
                    else:
                        b = Fresh("hs.%s.%d" % (name, t), 0)
                        def rdb(x, oid=oid, off=off, t=t):
                            p = ex.aspoison(cellval(ex, x, oid, off, 8))
                            return Or(*[c for c, oo, f in p.es if oo == t]) if any(oo == t for c, oo, f in p.es) else F
                        h.oids[b.id] = oid; h.vars.append((b, "%s@%s" % (name, ex.objs[t].name), 0, rdb))
                        c = And(prev, b); prev = And(prev, Not(b))
                    es.append((c, t, offs[t]))
                p = pnorm(es)
            ex.put(z, oid, off, 8, p)
            continue
        v = Fresh("h.%s" % name, 8 * n)
        def rd(x, oid=oid, off=off, n=n):
            r = cellval(ex, x, oid, off, n)
            return ex.ptr_int(r) if isinstance(r, Ptr) else r
        h.oids[v.id] = oid; h.vars.append((v, name, 8 * n, rd))
        ex.put(z, oid, off, n, v)
    for k in sorted(mods.ghosts, key=str):
        g0 = st.ghost[k]
        v = Fresh("hg.%s" % (k,), g0.w)
        h.vars.append((v, "ghost.%s" % (k,), g0.w, lambda x, k=k: x.ghost[k]))
        z.ghost[k] = v
    h.arrs = arrs
    for f in ex.loop_axioms:
        for t in f(ex, st, z, h): z.assume(t)
    return h, z

def diff(ex, a, b, mods, init):
    """locations of state b that differ from the loop-head state a -> grow mods"""
    for oid, y in b.mem.items():
        x = a.mem.get(oid)
        if x is None or x is y: continue
        if x.freed is not y.freed: raise Unsupported("object freed inside a loop: " + ex.objs[oid].name)
        o = ex.objs[oid]
        for si, (p, q) in enumerate(zip(x.bases, y.bases)):
            if p is not q: mods.segs.add((oid, si))
        for off, (n, v) in y.ov.items():
            if (oid, seg_index(o, off)) in mods.segs: continue
            c = x.ov.get(off)
            if c is not None and c[0] == n and c[1] is v: continue
            if c is None or c[0] != n:
                # layout change: does the value differ?
                if not isinstance(v, Ptr):
                    old = ex.read_int(a, x, oid, C64(off), n)
                    if old is v: continue
            grow(ex, mods, init, oid, off, n, v, c)
        for off, (n, v) in x.ov.items():
            if off in y.ov or (oid, seg_index(o, off)) in mods.segs: continue
            new = ex.read_int(b, y, oid, C64(off), n)
            if new is not v: grow(ex, mods, init, oid, off, n, new, (n, v))
    for k, v in b.ghost.items():
        if k in a.ghost and a.ghost[k] is not v:
            if isinstance(v, Ptr): raise Unsupported("pointer ghost in a loop")
            mods.ghosts.add(k)

def grow(ex, mods, init, oid, off, n, v, c):
    for (o2, f2), n2 in list(mods.cells.items()):
        if o2 == oid and (f2, n2) != (off, n) and f2 < off + n and off < f2 + n2:
            lo, hi = min(off, f2), max(off + n, f2 + n2)
            del mods.cells[(o2, f2)]; mods.ptrs.pop((o2, f2), None)
            off, n = lo, hi - lo
            if n not in (1, 2, 4, 8): 
                for k in range(lo, hi): mods.cells[(oid, k)] = 1
                return
            v = None
    mods.cells[(oid, off)] = n
    i0 = cellval(ex, init, oid, off, n)
    vals = [x for x in (v, i0, c[1] if c is not None else None) if isinstance(x, Ptr)]
    if vals and n == 8:
        s = mods.ptrs.setdefault((oid, off), set())
        for x in (v, i0):
            if x is None: continue
            p = ex.aspoison(x)
            for o in ptr_objs(p):
                if o and o not in init.mem and ex.objs[o].kind not in ("fn", "opaque") and o not in ex.ginit: raise Unsupported("loop-carried pointer to an object created in the loop: " + ex.objs[o].name)
                s.add(o)

def dead_allocas(ex, fr, h):
    """locals of the function that every path from the head of the loop writes before reading: their values
    at the head do not matter (a local whose address is used for anything but a plain access counts as read)"""
    fn = fr["fn"]
    lv = getattr(fn, "live_in", None)
    if lv is None:
        names = {i[1] for b in fn.blocks.values() for i in b if i[0] == "alloca"}
        escaped = set()
        def regs(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "reg":
                    if x[1] in names: escaped.add(x[1])
                else:
                    for y in x: regs(y)
            elif isinstance(x, list):
                for y in x: regs(y)
        gen = {}; kill = {}
        for b, ins in fn.blocks.items():
            g, k = set(), set()
            for i in ins:
                if i[0] == "load":
                    if i[3][0] == "reg" and i[3][1] in names:
                        if i[3][1] not in k: g.add(i[3][1])
                    else: regs(i[3])
                elif i[0] == "store":
                    regs(i[2])
                    if i[3][0] == "reg" and i[3][1] in names: k.add(i[3][1])
                    else: regs(i[3])
                else: regs(list(i[2:]))
            gen[b] = g; kill[b] = k
        # a partial write does not end the life of what it writes
        sizes = {i[1]: fn.module.size(i[2]) if i[3] is None else None for b in fn.blocks.values() for i in b if i[0] == "alloca"}
        for b, ins in fn.blocks.items():
            for i in ins:
                if i[0] == "store" and i[3][0] == "reg" and i[3][1] in names and fn.module.size(fn.module.resolve(i[1])) != sizes[i[3][1]]: escaped.add(i[3][1])
        lv = {b: set(gen[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                o = set()
                for t in fn.succ[b]: o |= lv.get(t, set())
                n = gen[b] | (o - kill[b])
                if n != lv[b]: lv[b] = n; ch = True
        lv = {b: v | escaped for b, v in lv.items()}; fn.live_in = lv; fn.alloca_names = names
    live = lv[h]
    pre = fn.name + "."
    return {o for o in fr["allocas"] if ex.objs[o].name.startswith(pre) and ex.objs[o].name[len(pre):] in fn.alloca_names and ex.objs[o].name[len(pre):] not in live}

def small_const(t):
    if not isc(t): return None
    v = t.val if t.val < (1 << (t.w - 1)) else t.val - (1 << t.w)
    return v if 0 < abs(v) <= 65536 else None

def candidates(ex, h, st, z, back, log, mark):
    init = h.mapping(ex, st)
    bk = h.mapping(ex, back) if back is not None else None
    out = []
    seen = set()
    def add(key, t):
        if t is T or t.id in seen: return
        seen.add(t.id); out.append((key, t))
    ints = [(v, nm, w) for v, nm, w, rd in h.vars if h.oids.get(v.id) not in h.dead and (not ex.auto_locals or v.id in h.oids and ex.objs[h.oids[v.id]].kind == "alloca")]
    for v, nm, w in ints:
        i = init[v.id]
        if w == 0:
            add(nm + "=init", Iff(v, i)); add(nm + "=F", Not(v)); add(nm + "=T", v); continue
        add(nm + "==init", Eq(v, i)); add(nm + "==0", Eq(v, K(0, w)))
        if w >= 8:
            add(nm + "<=init", Ule(v, i)); add(nm + ">=init", Ule(i, v))
            if w >= 32: add(nm + "s>=0", Sge(v, K(0, w))); add(nm + "s<=0", Sle(v, K(0, w))); add(nm + "s>=init", Sge(v, i)); add(nm + "s<=init", Sle(v, i))
    # linear relations between modified integers
    nums = [(v, nm, w) for v, nm, w in ints if w in (8, 16, 32, 64)]
    if len(nums) <= 24:
        for (v, nm, w), (u, um, w2) in itertools.combinations(nums, 2):
            if (w < 32 or w2 < 32) and w != w2: continue
            W = max(w, w2)
            a, b = ZExt(v, W), ZExt(u, W); ai, bi = ZExt(init[v.id], W), ZExt(init[u.id], W)
            add("%s-%s" % (nm, um), Eq(Sub(a, b), Sub(ai, bi)))
            add("%s+%s" % (nm, um), Eq(Add(a, b), Add(ai, bi)))
            if w != w2: continue
            add("%s<=%s" % (nm, um), Ule(a, b)); add("%s<=%s" % (um, nm), Ule(b, a))
            if bk is not None:
                dv, du = small_const(Sub(bk[v.id], v)), small_const(Sub(bk[u.id], u))
                if dv and du and abs(dv) != abs(du):
                    add("lin %s %s" % (nm, um), Eq(MulC(Sub(a, ai), du & mask(W)), MulC(Sub(b, bi), dv & mask(W))))
    if bk is not None:
        for v, nm, w in nums:
            d = small_const(Sub(bk[v.id], v))
            if d and abs(d) > 1 and abs(d) & (abs(d) - 1) == 0:
                k = abs(d).bit_length() - 1
                add(nm + " mod", Eq(Extract(v, k - 1, 0), Extract(init[v.id], k - 1, 0)))
    # from the comparisons the loop makes
    hv = {v.val for v, nm, w in ints}
    okv = lambda t: all(not ("!" in n and n not in hv and int(n.rsplit("!", 1)[1]) >= mark) for n in free_vars(t))
    n = 0
    for a, b in log:
        if a.w == 0 or n > 40: continue
        if size_of(a) > 40 or size_of(b) > 40: continue
        if not ({*free_vars(a)} | {*free_vars(b)}) & hv: continue
        if not (okv(a) and okv(b)): continue
        if (selects(a) | selects(b)) & h.arrs: continue
        n += 1
        add("g%d<=" % n, Ule(a, b)); add("g%d>=" % n, Ule(b, a)); add("g%d!=" % n, Ne(a, b)); add("g%d==" % n, Eq(a, b))
        if a.w >= 32: add("g%ds<=" % n, Sle(a, b)); add("g%ds>=" % n, Sle(b, a))
    ex.dead_cells = h.dead
    for f in ex.loop_cands:
        try: 
            for key, t in f(ex, st, z, h): add("*" + key, t)
        except KeyError: pass
    ex.dead_cells = frozenset()
    if getattr(ex, "cand_filter", None): out = [c for c in out if ex.cand_filter(c[0], h)]
    return out, init

def run_inv(ex, fr, body, h, st):
    saved = (ex.cur_exit_dec, ex.cmp_log, ex.muted)
    ex.cur_exit_dec = None
    try: return _run_inv(ex, fr, body, h, st)
    finally: ex.cur_exit_dec, ex.cmp_log, ex.muted = saved

def iterate(ex, fr, body, h, z, split=False):
    nal = len(fr["allocas"])
    res = ex.run_region(fr, body, h, z, isloop=True)
    heads = res.pop(h, [])
    ex.backs = [x for x in heads if not x.dead]
    back = ex.merge(heads) if not (ex.split_back and split and len(ex.backs) > 1) else ex.backs[0]
    outs = [(t, x) for t, xs in res.items() for x in xs]
    return back, outs

def _run_inv(ex, fr, body, h, st):
    was_muted = ex.muted
    # a loop whose head state is merged from several predecessors: work on a private copy
    st = st.fork()
    mods = Mods()
    ex.muted = 1
    dry0 = getattr(ex, "dry", 0)
    ex.dry = dry0 + 1
    mark = next(_freshc()); back = None; hv = None; z = st; log = []
    for rnd in range(12):
        k = mods.key()
        hv, z = havoc(ex, st, mods) if rnd else (Hav(), st.fork())
        z0 = z.fork()
        ex.cmp_log = log = []
        back, outs = iterate(ex, fr, body, h, z)
        z = z0
        if back is None: break
        diff(ex, z0, back, mods, st)
        if mods.key() == k: break
    else: raise Unsupported("the locations changed by a loop do not stabilise")
    ex.dry = dry0
    if back is None and not mods.key()[0] and not mods.segs and not mods.ghosts:
        # no iteration comes back to the head: straight-line code
        ex.muted = was_muted
        b, outs = iterate(ex, fr, body, h, st.fork())
        return outs
    if ex.dry:
        if back is None: return outs
        return outs
    fname = fr["fn"].name
    # candidates over an arbitrary head state
    hv, z = havoc(ex, st, mods)
    if not hasattr(hv, "arrs"): hv.arrs = set()
    hv.dead = dead_allocas(ex, fr, h)
    m2 = hv.mapping
    ex.cmp_log = log = []
    ex.dry += 1
    zz = z.fork()
    bk, _ = iterate(ex, fr, body, h, zz)
    ex.dry -= 1
    cl = log; ex.cmp_log = None
    cands, init = candidates(ex, hv, st, z, bk, cl, mark)
    cache = ex.houdini_cache.setdefault((fname, h, tuple(w.split(":")[0] for w in ex.where)), set())
    memo_i = {}
    hmemo = {}
    def head(t):
        if not isinstance(t, WitInv): return t
        if t.id not in hmemo: hmemo[t.id] = Implies(t.guard, t.prop(z))
        return hmemo[t.id]
    keep = []
    for key, t in cands:
        if key in cache: continue
        keep.append((key, t, at(t, init, memo_i, st)))
    nq0 = ex.nq
    keep = filter_true(ex, st.pc, keep, lambda c: c[2], None)
    keys_init = {c[0] for c in keep}
    for key, t in cands:
        if key not in keys_init: cache.add(key)
    for rnd in range(25):
        zz = z.fork()
        for c in keep: zz.assume(head(c[1]))
        if zz.dead:
            keep = []; break
        back, outs = iterate(ex, fr, body, h, zz, True)
        if back is None: break
        cur = ok = keep
        for back in (ex.backs if ex.split_back else [back]):
            # the iterations that come back from different places can be judged one by one
            bm = hv.mapping(ex, back); memo_b = {}
            ok = filter_true(ex, back.pc, [(key, t, at(t, bm, memo_b, back)) for key, t, _ in ok], lambda c: c[2], cache)
        if len(ok) == len(cur): break
        ks = {c[0] for c in ok}
        keep = [c for c in keep if c[0] in ks]
    else: raise Unsupported("Houdini does not converge")
    # final pass with obligations
    ex.muted = was_muted
    zz = z.fork()
    for c in keep: zz.assume(head(c[1]))
    back, outs = iterate(ex, fr, body, h, zz, True); backs = ex.backs if ex.split_back else [back]
    if not ex.muted:
        n = 2 * len(keep)
        ex.kinds["invariant"] = ex.kinds.get("invariant", 0) + n
        ex.counts["z3-houdini"] = ex.counts.get("z3-houdini", 0) + n
        ex.inv_log["%s:%s" % (fname, h)] = [c[0] for c in keep]
        if getattr(ex, "keep_inv", None) is not None: ex.keep_inv.append((fname, h, [(c[0], show(head(c[1]), 8)) for c in keep]))
    if back is not None and ex.check_term:
        for b in backs: termination(ex, fr, hv, zz, b, cl, mark, st)
    return outs

def _freshc():
    import terms
    return terms._fresh

def filter_true(ex, pc, cs, get, cache):
    """the candidates that the path condition implies"""
    ok = []
    todo = []
    for c in cs:
        t = get(c)
        if t is T: ok.append(c)
        elif t is F:
            if cache is not None: cache.add(c[0])
        else: todo.append(c)
    while todo:
        r = ex.check(pc, Not(And(*[get(c) for c in todo])), 3000 if ex.racing else 3000 * ex.scale)
        if r == "unsat": ok += todo; break
        n = len(todo)
        if r == "sat" and ex.cmodels:
            cm = ex.cmodels[0]
            if cm.holds(pc):
                good = []
                for c in todo:
                    if cm.ev(get(c)): good.append(c)
                    elif cache is not None: cache.add(c[0])
                todo = good
        if len(todo) == n:
            good = []; rs = []
            for c in todo: rs.append(ex.check(pc, Not(get(c)), 1000 if ex.racing and c[0][0] == "*" else 2000 * ex.scale))
            if ex.racing:
                un = [i for i, c in enumerate(todo) if rs[i] not in ("sat", "unsat") and c[0][0] == "*"]
                if un:
                    for i, r in zip(un, ex.race([(pc, Not(get(todo[i]))) for i in un], ex.racing)): rs[i] = r
            for c, r in zip(todo, rs):
                if r not in ("sat", "unsat") and c[0][0] == "*" and not ex.racing: r = ex.hard_check(pc, Not(get(c)), 5 * ex.scale)
                if r not in ("sat", "unsat"): ex.dropped += 1
                if r == "unsat": good.append(c)
                elif cache is not None: cache.add(c[0])
            ok += good
            break
    return ok

def termination(ex, fr, hv, z, back, log, mark, st):
    """some non-negative measure strictly decreases in every iteration"""
    bm = hv.mapping(ex, back)
    hvn = {v.val for v, nm, w, rd in hv.vars}
    okv = lambda t: all(not ("!" in n and n not in hvn and int(n.rsplit("!", 1)[1]) >= mark) for n in free_vars(t))
    ms = []
    memo = {}
    for a, b in log:
        if a.w == 0 or size_of(a) > 40 or size_of(b) > 40 or not (okv(a) and okv(b)): continue
        if not ({*free_vars(a)} | {*free_vars(b)}) & hvn: continue
        for m in (Sub(b, a), Sub(a, b), a, b): 
            if not isc(m): ms.append(m)
    for v, nm, w, rd in hv.vars:
        if w >= 8: ms += [v, BXor(v, K(mask(w), w))]
    for f in getattr(ex, "rank_cands", []): ms += f(ex, st, z, hv)
    seen = set(); first = None
    lasts = []
    for m in ms:
        if m.id in seen: continue
        seen.add(m.id)
        mb = subst(m, bm, memo)
        c = Ult(mb, m)
        if c is F: continue
        if first is None: first = c
        if ex.check(back.pc, Not(c), 1500) == "unsat":
            if not ex.muted:
                ex.kinds["termination"] = ex.kinds.get("termination", 0) + 1
                ex.counts[ex.last_by or "z3-lia"] = ex.counts.get(ex.last_by or "z3-lia", 0) + 1
            return
        lasts.append((m, mb, c))
    # lexicographic pairs
    for m, mb, c in lasts[:14]:
        if ex.check(back.pc, Ult(m, mb), 1000) == "unsat":      # m never grows
            for m2, mb2, c2 in lasts[:14]:
                if m2 is not m and ex.check(back.pc, Not(Or(c, c2)), 1000) == "unsat":
                    if not ex.muted:
                        ex.kinds["termination"] = ex.kinds.get("termination", 0) + 1
                        ex.counts[ex.last_by or "z3-lia"] = ex.counts.get(ex.last_by or "z3-lia", 0) + 1
                    return
    ex.oblige(back.fork(), first if first is not None else F, "termination", "loop at %s terminates: a measure decreases" % fr["fn"].name)

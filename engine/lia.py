"""Exact translation of bit-vector terms to integer arithmetic (second back end).

Every bit-vector term t of width w becomes an integer expression with value in [0, 2^w).  Wrap-around is
represented by explicit, range-bounded quotients, so both 'unsat' and (for terms marked exact) 'sat' carry
over.  Non-linear operators are abstracted by uninterpreted functions (then only 'unsat' is used)."""
import z3
from terms import *
from terms import Node, _eval

_t = {}       # node id -> (expr, side frozenset of node ids, exact)
_side = {}    # node id -> list of constraints
_f = {}
I = z3.IntVal

def _iv(name): return z3.Int(name)

def _func(name, n):
    k = (name, n)
    if k not in _f: _f[k] = z3.Function(name, *([z3.IntSort()] * (n + 1)))
    return _f[k]

EMPTY = frozenset()

def tr(n):
    r = _t.get(n.id)
    if r is not None: return r
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in _t: stack.pop(); continue
        todo = [a for a in x.args if a.id not in _t]
        if todo: stack.extend(todo); continue
        _t[x.id] = _tr(x)
        stack.pop()
    return _t[n.id]

_keep = []
def _divmod(x, e, d):
    """q, r with x = q*d + r"""
    key = ("dm", x.id, d)
    if key in _f: return _f[key]
    _keep.append(x)
    lo, hi = rng(x)
    q = _iv("q!%d!%d" % (x.id, d)); r = _iv("r!%d!%d" % (x.id, d))
    cs = [e == q * d + r, r >= 0, r < d, q >= lo // d, q <= hi // d]
    _f[key] = (q, r, cs)
    return _f[key]

def _bounded(n, e):
    lo, hi = rng(n)
    return [e >= lo, e <= hi]

def _tr(n):
    op = n.op; w = n.w
    ch = [_t[a.id] for a in n.args]
    a = [c[0] for c in ch]
    side = EMPTY
    for c in ch:
        if c[1]: side = side | c[1]
    ex = all(c[2] for c in ch)
    def own(cs):
        nonlocal side
        _side[n.id] = cs; side = side | {n.id}
    if op == "true": return (z3.BoolVal(True), side, ex)
    if op == "false": return (z3.BoolVal(False), side, ex)
    if op == "const": return (I(n.val), side, ex)
    if op == "var":
        if w == 0: return (z3.Bool(n.val), side, ex)
        v = _iv("v!%s!%d" % (n.val, w)); own(_bounded(n, v))
        return (v, side, ex)
    if op == "not": return (z3.Not(a[0]), side, ex)
    if op == "and": return (z3.And(*a), side, ex)
    if op in ("iff", "eq"): return (a[0] == a[1], side, ex)
    if op == "ult": return (a[0] < a[1], side, ex)
    if op == "slt":
        x = _signed(n.args[0], a[0]); y = _signed(n.args[1], a[1])
        return (x < y, side, ex)
    if op == "ite":
        return (z3.If(a[0], a[1], a[2]), side, ex)
    if op == "lin":
        c, ts = n.val
        M = 1 << w; half = M >> 1
        if c >= half: c -= M
        e = I(c); lo = hi = c
        for t, k in ts:
            kk = k if k < half else k - M
            r = rng(t)
            lo += min(r[0] * kk, r[1] * kk); hi += max(r[0] * kk, r[1] * kk)
            x = _t[t.id][0]
            e = e + (x if kk == 1 else -x if kk == -1 else x * kk)
        kl, kh = lo // M, hi // M
        if kl == kh:
            return (e if kl == 0 else e - kl * M, side, ex)
        k = _iv("k!%d" % n.id); v = _iv("l!%d" % n.id)
        own([k >= kl, k <= kh, v == e - k * M, v >= 0, v < M])
        return (v, side, ex)
    if op == "zext": return (a[0], side, ex)
    if op == "sext":
        aw = n.args[0].w
        if rng(n.args[0])[1] < (1 << (aw - 1)): return (a[0], side, ex)
        return (z3.If(a[0] >= (1 << (aw - 1)), a[0] + ((1 << w) - (1 << aw)), a[0]), side, ex)
    if op == "concat":
        return (a[0] * (1 << n.args[1].w) + a[1], side, ex)
    if op == "extract":
        hi, lo = n.val
        x = n.args[0]
        e = a[0]; xx = x
        r = rng(x)
        cs = []
        if lo:
            q, rr, c1 = _divmod(x, e, 1 << lo); cs += c1; e = q
            if (r[1] >> lo) >= (1 << (hi - lo + 1)):
                # q mod 2^(hi-lo+1)
                v = _iv("x!%d" % n.id); k = _iv("xk!%d" % n.id); M = 1 << (hi - lo + 1)
                cs += [e == k * M + v, v >= 0, v < M, k >= 0, k <= (r[1] >> lo) // M]
                e = v
        elif r[1] >= (1 << (hi + 1)):
            q, rr, c1 = _divmod(x, e, 1 << (hi + 1)); cs += c1; e = rr
        if cs: own(cs)
        return (e, side, ex)
    if op == "bvand":
        for i in (0, 1):
            m, x = n.args[i], n.args[1 - i]
            if isc(m):
                inv = mask(w) ^ m.val
                # clears the low k bits
                if inv and (inv & (inv + 1)) == 0:
                    q, rr, c1 = _divmod(x, a[1 - i], inv + 1); own(c1)
                    return (q * (inv + 1), side, ex)
                if m.val and (m.val & (m.val + 1)) == 0:
                    q, rr, c1 = _divmod(x, a[1 - i], m.val + 1); own(c1)
                    return (rr, side, ex)
    if op in ("udiv", "urem") and isc(n.args[1]) and n.args[1].val:
        q, rr, c1 = _divmod(n.args[0], a[0], n.args[1].val); own(c1)
        return (q if op == "udiv" else rr, side, ex)
    if op == "lshr" and isc(n.args[1]):
        q, rr, c1 = _divmod(n.args[0], a[0], 1 << n.args[1].val); own(c1)
        return (q, side, ex)
    if op == "select":
        e = _func("A!" + n.val, 1)(a[0]); own([e >= 0, e <= 255])
        return (e, side, ex)
    if op == "uf":
        bools = [x.w == 0 for x in n.args]
        args = [z3.If(x, I(1), I(0)) if b else x for x, b in zip(a, bools)]
        if w == 0:
            e = _func("F!" + n.val, len(a))(*args) == 1
            return (e, side, ex)
        e = _func("F!%s!%d" % (n.val, w), len(a))(*args) if a else _iv("F!%s!%d" % (n.val, w))
        own(_bounded(n, e))
        return (e, side, ex)
    # abstraction
    args = [z3.If(x, I(1), I(0)) if q.w == 0 else x for x, q in zip(a, n.args)]
    nm = "op!%s!%d" % (op, w) + ("!%x" % (hash(n.val) & 0xffffffff) if n.val is not None else "")
    e = _func(nm, len(args))(*args)
    cs = _bounded(n, e)
    if op == "bvand": cs += [e <= a[0], e <= a[1]]
    if op == "bvor": cs += [e >= a[0], e >= a[1], e <= a[0] + a[1]]
    if op in ("udiv",): cs += [z3.Implies(a[1] > 0, e <= a[0])]
    if op in ("urem",): cs += [z3.Implies(a[1] > 0, e < a[1]), e <= a[0]]
    if op == "lshr": cs += [e <= a[0]]
    own(cs)
    return (e, side, False)

def _signed(n, e):
    h = 1 << (n.w - 1)
    r = rng(n)
    if r[1] < h: return e
    if r[0] >= h: return e - (h << 1)
    if isc(n): return I(n.val - (h << 1))
    return z3.If(e >= h, e - (h << 1), e)

class Lia:
    """one fresh solver per query (measured much faster than an incremental one on our formulas)"""
    def __init__(s):
        s.new()
    def new(s):
        s.sol = z3.SimpleSolver(); s.sol.set('arith.solver', 2)
        s.have = set(); s.exact = True; s.cref = s.sol.ctx.ref()
    def _add(s, n):
        e, side, ex = tr(n)
        for i in side:
            if i not in s.have:
                s.have.add(i)
                for c in _side[i]: s._assert(c)
        s._assert(e)
        if not ex: s.exact = False
    def _assert(s, e):
        z3.Z3_solver_assert(s.cref, s.sol.solver, e.ast)
    def check(s, path, extra, ms):
        s.new()
        for p in path:
            if p.cond is not T: s._add(p.cond)
        if extra is not T: s._add(extra)
        s.sol.set("timeout", int(ms))
        r = str(s.sol.check())
        if r == "sat" and not s.exact: r = "maybe"
        return r

def solve(conds, ms):
    """one-shot -> (result, model)"""
    l = Lia()
    for c in conds: l._add(c)
    l.sol.set("timeout", int(ms))
    r = str(l.sol.check())
    if r == "sat" and not l.exact: return "maybe", None
    return r, (l.sol.model() if r == "sat" else None)


class CModel:
    """a concrete valuation taken from a solver model; used to answer 'sat' by evaluation alone"""
    def __init__(s, m):
        s.m = m; s.memo = {}; s.pcs = {}; s.fm = {}
        s.decls = {d.name(): d for d in m.decls()}
    def _val(s, e):
        v = s.m.eval(e)
        return v.as_long() if z3.is_int_value(v) else 0
    def get(s, name, default):
        raise KeyError
    def _var(s, n):
        if n.w == 0:
            d = s.decls.get(n.val)
            return bool(d is not None and z3.is_true(s.m[d]))
        d = s.decls.get("v!%s!%d" % (n.val, n.w))
        if d is None: return 0
        v = s.m[d]
        return v.as_long() & mask(n.w) if z3.is_int_value(v) else 0
    def _call(s, fname, args):
        k = (fname, args)
        r = s.fm.get(k)
        if r is None:
            d = s.decls.get(fname)
            r = 0 if d is None else s._val(d(*[I(x) for x in args]) if args else d())
            s.fm[k] = r
        return r
    def ev(s, n):
        memo = s.memo
        r = memo.get(n.id)
        if r is not None: return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo: st.pop(); continue
            todo = [a for a in x.args if a.id not in memo]
            if todo: st.extend(todo); continue
            st.pop()
            a = [memo[y.id] for y in x.args]
            if x.op == "var": v = s._var(x)
            elif x.op == "select": v = s._call("A!" + x.val, (a[0],)) & 255
            elif x.op == "uf":
                aa = tuple(int(q) for q in a)
                if x.w == 0: v = s._call("F!" + x.val, aa) == 1
                else: v = s._call("F!%s!%d" % (x.val, x.w), aa) & mask(x.w)
            else: v = _eval(x, a, None, None, None)
            memo[x.id] = v
        return memo[n.id]
    def holds(s, pc):
        chain = []
        p = pc; r = True
        while p is not None:
            q = s.pcs.get(p.id)
            if q is not None: r = q; break
            chain.append(p); p = p.parent
        for p in reversed(chain):
            if r: r = bool(s.ev(p.cond))
            s.pcs[p.id] = r
        return r


class BVModel:
    """the same for a model of the bit-vector formula"""
    def __init__(s, m): s.m = m; s.memo = {}; s.pcs = {}
    def ev(s, n):
        r = s.memo.get(n.id)
        if r is None:
            v = s.m.eval(to_z3(n), model_completion=True)
            r = s.memo[n.id] = bool(z3.is_true(v)) if n.w == 0 else (v.as_long() if z3.is_bv_value(v) else 0)
        return r
    holds = CModel.holds

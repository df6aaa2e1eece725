"""Hash-consed terms over booleans and bit-vectors, with a light simplifier.

w == 0: boolean.  Constants have op 'const' and the value in .val (unsigned).
Linear arithmetic is kept in a canonical form (op 'lin': val = (const, ((node, coef), ...))).
"""
import itertools

class Node:
    __slots__ = ("op", "args", "w", "val", "id", "_rng", "_z3", "_vars")
    def __repr__(self):
        return show(self)

_table = {}
_ids = itertools.count(1)

def mk(op, args, w, val=None):
    key = (op, tuple([a.id for a in args]), w, val if op != "lin" else tuple([(n.id, c) for n, c in val[1]]) + (val[0],))
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op; n.args = args; n.w = w; n.val = val; n.id = next(_ids)
        n._rng = None; n._z3 = None; n._vars = None
        _table[key] = n
    return n

T = mk("true", (), 0)
F = mk("false", (), 0)

def K(v, w):
    return mk("const", (), w, v & ((1 << w) - 1))

def B(b):
    return T if b else F

_fresh = itertools.count(1)
def Var(name, w):
    return mk("var", (), w, name)
def Fresh(name, w):
    return mk("var", (), w, "%s!%d" % (name, next(_fresh)))
def FreshName(name):
    return "%s!%d" % (name, next(_fresh))

def isc(n):
    return n.op == "const"

def mask(w):
    return (1 << w) - 1

def sval(n):
    v = n.val
    return v - (1 << n.w) if v >> (n.w - 1) else v

# ---------------------------------------------------------------- booleans
def Not(a):
    if a is T: return F
    if a is F: return T
    if a.op == "not": return a.args[0]
    return mk("not", (a,), 0)

def And(*xs):
    if len(xs) == 2:
        a, b = xs
        if a is T: return b
        if b is T: return a
        if a is F or b is F: return F
        if a is b: return a
    out = []; seen = set()
    def add(x):
        if x.op == "and":
            for y in x.args: 
                if add(y): return True
            return False
        if x is T or x.id in seen: return False
        if x is F: return True
        n = Not(x)
        if n.id in seen: return True
        seen.add(x.id); out.append(x)
        return False
    for x in xs:
        if add(x): return F
    if not out: return T
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), 0)

def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))

def Implies(a, b):
    return Or(Not(a), b)

def Iff(a, b):
    if a is b: return T
    if a is T: return b
    if b is T: return a
    if a is F: return Not(b)
    if b is F: return Not(a)
    if a is Not(b): return F
    if a.id > b.id: a, b = b, a
    return mk("iff", (a, b), 0)

# ---------------------------------------------------------------- ranges (unsigned)
def rng(n):
    r = n._rng
    if r is not None: return r
    r = _rng(n)
    n._rng = r
    return r

def _rng(n):
    m = mask(n.w)
    op = n.op
    if op == "const": return (n.val, n.val)
    if op == "zext": return rng(n.args[0])
    if op == "ite":
        a = rng(n.args[1]); b = rng(n.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == "bvand":
        return (0, min(rng(n.args[0])[1], rng(n.args[1])[1]))
    if op == "urem":
        b = rng(n.args[1])
        hi = rng(n.args[0])[1]
        if b[0] > 0: hi = min(hi, b[1] - 1)
        return (0, hi)
    if op == "udiv":
        b = rng(n.args[1])
        if b[0] > 0:
            a = rng(n.args[0])
            return (a[0] // b[1], a[1] // b[0])
        return (0, m)
    if op == "lshr" and isc(n.args[1]):
        a = rng(n.args[0]); s = n.args[1].val
        return (a[0] >> s, a[1] >> s)
    if op == "lin":
        c, ts = n.val
        lo = hi = c
        for t, k in ts:
            a = rng(t)
            kk = k if k < (1 << (n.w - 1)) else k - (1 << n.w)
            if kk >= 0:
                lo += a[0] * kk; hi += a[1] * kk
            else:
                lo += a[1] * kk; hi += a[0] * kk
        if lo >= 0 and hi <= m: return (lo, hi)
        # constant as negative
        if lo >= (1 << n.w) and hi < (2 << n.w): return (lo - (1 << n.w), hi - (1 << n.w))
        return (0, m)
    if op == "extract":
        hi_, lo_ = n.val
        if lo_ == 0:
            a = rng(n.args[0])
            if a[1] <= m: return a
        else:
            a = rng(n.args[0])
            if (a[1] >> lo_) <= m: return (a[0] >> lo_, a[1] >> lo_)
    return (0, m)

# ---------------------------------------------------------------- arithmetic
def _lin(n):
    """-> (const, {node: coef})"""
    if n.op == "const": return n.val, {}
    if n.op == "lin": return n.val[0], dict(n.val[1])
    return 0, {n: 1}

def _mklin(c, d, w):
    m = mask(w)
    c &= m
    items = []
    for n, k in d.items():
        k &= m
        if k: items.append((n, k))
    if not items: return K(c, w)
    if len(items) == 1 and c == 0 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda x: x[0].id)
    items = tuple(items)
    return mk("lin", tuple([n for n, k in items]), w, (c, items))

def Add(a, b):
    w = a.w
    if isc(a) and isc(b): return K(a.val + b.val, w)
    if isc(a) and a.val == 0: return b
    if isc(b) and b.val == 0: return a
    c, d = _lin(a)
    c2, d2 = _lin(b)
    for n, k in d2.items(): d[n] = d.get(n, 0) + k
    return _mklin(c + c2, d, w)

def Neg(a):
    c, d = _lin(a)
    return _mklin(-c, {n: -k for n, k in d.items()}, a.w)

def Sub(a, b):
    w = a.w
    if isc(a) and isc(b): return K(a.val - b.val, w)
    if a is b: return K(0, w)
    if isc(b) and b.val == 0: return a
    c, d = _lin(a)
    c2, d2 = _lin(b)
    for n, k in d2.items(): d[n] = d.get(n, 0) - k
    return _mklin(c - c2, d, w)

def MulC(a, k):
    c, d = _lin(a)
    return _mklin(c * k, {n: x * k for n, x in d.items()}, a.w)

def Mul(a, b):
    if isc(a): return MulC(b, a.val)
    if isc(b): return MulC(a, b.val)
    if a.id > b.id: a, b = b, a
    return mk("mul", (a, b), a.w)

def UDiv(a, b):
    if isc(b) and b.val:
        if isc(a): return K(a.val // b.val, a.w)
        if b.val & (b.val - 1) == 0: return LShr(a, K(b.val.bit_length() - 1, a.w))
    return mk("udiv", (a, b), a.w)

def URem(a, b):
    if isc(b) and b.val:
        if isc(a): return K(a.val % b.val, a.w)
        if b.val & (b.val - 1) == 0: return BAnd(a, K(b.val - 1, a.w))
    return mk("urem", (a, b), a.w)

def SDiv(a, b):
    if isc(a) and isc(b) and b.val:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return K(q if (x < 0) == (y < 0) else -q, a.w)
    return mk("sdiv", (a, b), a.w)

def SRem(a, b):
    if isc(a) and isc(b) and b.val:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return K(r if x >= 0 else -r, a.w)
    return mk("srem", (a, b), a.w)

def BAnd(a, b):
    if isc(a) and isc(b): return K(a.val & b.val, a.w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.val == 0: return b
        if b.val == mask(a.w): return a
        v = b.val
        if v & (v + 1) == 0:          # low mask
            k = v.bit_length()
            return ZExt(Extract(a, k - 1, 0), a.w)
        if a.op == "bvand" and isc(a.args[1]): return BAnd(a.args[0], K(a.args[1].val & v, a.w))
        # high mask: ~(2^k-1) : a - (a mod 2^k)
        inv = (~v) & mask(a.w)
        if inv & (inv + 1) == 0:
            k = inv.bit_length()
            if rng(a)[1] < (1 << k): return K(0, a.w)
            return Concat(Extract(a, a.w - 1, k), K(0, k))
        if v & (v - 1) == 0:          # single bit
            k = v.bit_length() - 1
            return _shiftin(Extract(a, k, k), k, a.w)
    if a is b: return a
    if a.id > b.id and not isc(b): a, b = b, a
    return mk("bvand", (a, b), a.w)

def _shiftin(x, k, w):
    r = x if k == 0 else Concat(x, K(0, k))
    return ZExt(r, w)

def BOr(a, b):
    if isc(a) and isc(b): return K(a.val | b.val, a.w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.val == 0: return a
        if b.val == mask(a.w): return b
    if a is b: return a
    if a.id > b.id and not isc(b): a, b = b, a
    return mk("bvor", (a, b), a.w)

def BXor(a, b):
    if isc(a) and isc(b): return K(a.val ^ b.val, a.w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.val == 0: return a
        if b.val == mask(a.w): return Sub(K(mask(a.w), a.w), a)   # ~a == -1-a
    if a is b: return K(0, a.w)
    if a.id > b.id and not isc(b): a, b = b, a
    return mk("bvxor", (a, b), a.w)

def Shl(a, b):
    if isc(b):
        if b.val >= a.w: return K(0, a.w)
        return MulC(a, 1 << b.val)
    return mk("shl", (a, b), a.w)

def LShr(a, b):
    if isc(b):
        if b.val >= a.w: return K(0, a.w)
        if b.val == 0: return a
        if isc(a): return K(a.val >> b.val, a.w)
        return ZExt(Extract(a, a.w - 1, b.val), a.w)
    return mk("lshr", (a, b), a.w)

def AShr(a, b):
    if isc(b):
        if isc(a): return K(sval(a) >> min(b.val, a.w - 1), a.w)
        if b.val == 0: return a
        if rng(a)[1] < (1 << (a.w - 1)): return LShr(a, b)
    return mk("ashr", (a, b), a.w)

def ZExt(a, w):
    if a.w == w: return a
    if a.w == 0: return Ite(a, K(1, w), K(0, w))
    if isc(a): return K(a.val, w)
    if a.op == "zext": return ZExt(a.args[0], w)
    if a.op == "ite" and (isc(a.args[1]) and isc(a.args[2])):
        return Ite(a.args[0], ZExt(a.args[1], w), ZExt(a.args[2], w))
    if a.op == "lin":
        # push through when no wrap-around is possible (ranges)
        c, ts = a.val
        lo, hi = c, c
        ok = True
        for t, k in ts:
            r = rng(t)
            if k < (1 << (a.w - 1)): hi += r[1] * k
            else: ok = False; break
        if ok and hi <= mask(a.w):
            return _mklin(c, {ZExt(t, w): k for t, k in ts}, w)
    return mk("zext", (a,), w)

def SExt(a, w):
    if a.w == w: return a
    if isc(a): return K(sval(a), w)
    if rng(a)[1] < (1 << (a.w - 1)): return ZExt(a, w)
    if a.op == "sext": return SExt(a.args[0], w)
    if a.op == "ite" and (isc(a.args[1]) and isc(a.args[2])):
        return Ite(a.args[0], SExt(a.args[1], w), SExt(a.args[2], w))
    return mk("sext", (a,), w)

def Concat(a, b):
    if isc(a) and isc(b): return K((a.val << b.w) | b.val, a.w + b.w)
    if isc(a) and a.val == 0: return ZExt(b, a.w + b.w)
    if a.op == "zext" and b.w + a.args[0].w < a.w + b.w:
        return ZExt(Concat(a.args[0], b), a.w + b.w)
    if a.op == "extract" and b.op == "extract" and a.args[0] is b.args[0] and a.val[1] == b.val[0] + 1:
        return Extract(a.args[0], a.val[0], b.val[1])
    # (x[h:l] . (x[l-1:m] . rest))
    if b.op == "concat" and b.args[0].op == "extract" and a.op == "extract" and \
       a.args[0] is b.args[0].args[0] and a.val[1] == b.args[0].val[0] + 1:
        return Concat(Extract(a.args[0], a.val[0], b.args[0].val[1]), b.args[1])
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return Ite(a.args[0], Concat(a.args[1], b.args[1]), Concat(a.args[2], b.args[2]))
    if isc(b) and a.op == "concat" and isc(a.args[1]):
        return Concat(a.args[0], K((a.args[1].val << b.w) | b.val, a.args[1].w + b.w))
    return mk("concat", (a, b), a.w + b.w)

def Extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    if isc(a): return K(a.val >> lo, w)
    if rng(a)[1] >> lo == 0: return K(0, w)
    if a.op == "extract": return Extract(a.args[0], hi + a.val[1], lo + a.val[1])
    if a.op == "zext":
        x = a.args[0]
        if lo >= x.w: return K(0, w)
        if hi < x.w: return Extract(x, hi, lo)
        return ZExt(Extract(x, x.w - 1, lo), w)
    if a.op == "sext":
        x = a.args[0]
        if hi < x.w: return Extract(x, hi, lo)
        if lo == 0: return SExt(x, w)
    if a.op == "concat":
        x, y = a.args
        if lo >= y.w: return Extract(x, hi - y.w, lo - y.w)
        if hi < y.w: return Extract(y, hi, lo)
        return Concat(Extract(x, hi - y.w, 0), Extract(y, y.w - 1, lo))
    if a.op == "ite":
        if a.args[1].op in ("const", "zext", "concat", "extract") or a.args[2].op in ("const", "zext", "concat", "extract"):
            return Ite(a.args[0], Extract(a.args[1], hi, lo), Extract(a.args[2], hi, lo))
    if lo == 0 and a.op == "lin":
        c, ts = a.val
        d = {}
        for t, k in ts:
            e = Extract(t, hi, 0)
            ec, ed = _lin(e)
            c += ec * k
            for n, x in ed.items(): d[n] = d.get(n, 0) + x * k
        return _mklin(c, d, w)
    if lo == 0 and a.op in ("bvand", "bvor", "bvxor"):
        f = {"bvand": BAnd, "bvor": BOr, "bvxor": BXor}[a.op]
        return f(Extract(a.args[0], hi, 0), Extract(a.args[1], hi, 0))
    if a.op in ("bvand", "bvor", "bvxor") and lo > 0:
        f = {"bvand": BAnd, "bvor": BOr, "bvxor": BXor}[a.op]
        return f(Extract(a.args[0], hi, lo), Extract(a.args[1], hi, lo))
    return mk("extract", (a,), w, (hi, lo))

FACTOR = False      # Ite(c, L+a, L+b) = L + Ite(c, a, b); set by units whose sums are built by merging branches
def _factor(c, a, b):
    w = a.w
    c1, d1 = _lin(a); c2, d2 = _lin(b)
    com = {n: k for n, k in d1.items() if d2.get(n) == k}
    cc = c1 if c1 == c2 else 0
    if not com and not cc: return None
    r1 = _mklin(c1 - cc, {n: k for n, k in d1.items() if n not in com}, w)
    r2 = _mklin(c2 - cc, {n: k for n, k in d2.items() if n not in com}, w)
    return Add(_mklin(cc, com, w), Ite(c, r1, r2))

def Ite(c, a, b):
    if c is T: return a
    if c is F: return b
    if a is b: return a
    if FACTOR and a.w == 64 and not (isc(a) and isc(b)):
        r = _factor(c, a, b)
        if r is not None: return r
    if a.w == 0:
        if a is T and b is F: return c
        if a is F and b is T: return Not(c)
        if a is T: return Or(c, b)
        if a is F: return And(Not(c), b)
        if b is T: return Or(Not(c), a)
        if b is F: return And(c, a)
    if c.op == "not": return Ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.op == "ite" and b.args[1] is a: return Ite(Or(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a: return Ite(And(Not(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[2] is b: return Ite(And(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b: return Ite(And(c, Not(a.args[0])), a.args[2], b)
    return mk("ite", (c, a, b), a.w)

# ---------------------------------------------------------------- predicates
def Eq(a, b):
    if a is b: return T
    if a.w == 0: return Iff(a, b)
    if isc(a) and isc(b): return F
    if isc(a): a, b = b, a
    if isc(b):
        v = b.val
        r = rng(a)
        if v < r[0] or v > r[1]: return F
        if a.op == "zext": return Eq(a.args[0], K(v, a.args[0].w))
        if a.op == "sext":
            x = a.args[0]
            lowv = K(v, x.w)
            if SExt(lowv, a.w).val != v: return F
            return Eq(x, lowv)
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            ex, ey = (None, None)
            if isc(x): ex = B(x.val == v)
            if isc(y): ey = B(y.val == v)
            if ex is not None or ey is not None:
                if ex is None: ex = Eq(x, b)
                if ey is None: ey = Eq(y, b)
                return Ite(a.args[0], ex, ey)
        if a.op == "lin" and a.val[0]:
            c, ts = a.val
            return Eq(_mklin(0, dict(ts), a.w), K(v - c, a.w))
        if a.op == "lin" and len(a.val[1]) == 1 and a.val[0] == 0:
            n, k = a.val[1][0]
            if k == mask(a.w): return Eq(n, K(-v, a.w))
            if k & 1:
                return Eq(n, K(v * pow(k, -1, 1 << a.w), a.w))
            tz = (k & -k).bit_length() - 1
            if v & ((1 << tz) - 1): return F
            if rng(n)[1] * k <= mask(a.w):
                if v % k: return F
                return Eq(n, K(v // k, a.w))
        if a.op == "concat":
            x, y = a.args
            return And(Eq(x, K(v >> y.w, x.w)), Eq(y, K(v, y.w)))
        return mk("eq", (a, b), 0)
    # both symbolic
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0] or rb[1] < ra[0]: return F
    if a.op == "lin" or b.op == "lin":
        d = Sub(a, b)
        if isc(d): return B(d.val == 0)
        c, dd = _lin(d)
        # move to canonical: positive part == negative part
        if len(dd) == 1: return Eq(d, K(0, a.w))
        half = 1 << (a.w - 1)
        pos = {n: k for n, k in dd.items() if k < half}
        neg = {n: -k for n, k in dd.items() if k >= half}
        l = _mklin(c, pos, a.w); r = _mklin(0, neg, a.w)
        if not (isc(l) or isc(r)):
            if l.id > r.id: l, r = r, l
            return mk("eq", (l, r), 0)
        return mk("eq", (d, K(0, a.w)), 0)
    if a.op == "zext" and b.op == "zext":
        x, y = a.args[0], b.args[0]
        w = max(x.w, y.w)
        return Eq(ZExt(x, w), ZExt(y, w)) if w < a.w else mk("eq", (a, b) if a.id < b.id else (b, a), 0)
    if a.op == "concat" and b.op == "concat" and a.args[0].w == b.args[0].w:
        return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
    if a.id > b.id: a, b = b, a
    return mk("eq", (a, b), 0)

def Ne(a, b): return Not(Eq(a, b))

def Ult(a, b):
    if a is b: return F
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0]: return T
    if ra[0] >= rb[1]: return F
    if isc(b) and b.val == 1: return Eq(a, K(0, a.w))
    if isc(a) and a.val == 0: return Ne(b, a)
    if a.op == "zext" and b.op == "zext":
        w = max(a.args[0].w, b.args[0].w)
        if w < a.w: return Ult(ZExt(a.args[0], w), ZExt(b.args[0], w))
    if a.op == "zext" and isc(b) and b.val <= mask(a.args[0].w): return Ult(a.args[0], K(b.val, a.args[0].w))
    if b.op == "zext" and isc(a): return Ult(K(a.val, b.args[0].w), b.args[0])
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]) and isc(b):
        return Ite(a.args[0], B(a.args[1].val < b.val), B(a.args[2].val < b.val))
    return mk("ult", (a, b), 0)

def Ule(a, b): return Not(Ult(b, a))
def Ugt(a, b): return Ult(b, a)
def Uge(a, b): return Not(Ult(a, b))

def Slt(a, b):
    if a is b: return F
    if isc(a) and isc(b): return B(sval(a) < sval(b))
    h = 1 << (a.w - 1)
    ra, rb = rng(a), rng(b)
    if ra[1] < h and rb[1] < h: return Ult(a, b)
    if ra[0] >= h and rb[0] >= h: return Ult(a, b)
    if ra[0] >= h and rb[1] < h: return T
    if ra[1] < h and rb[0] >= h: return F
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]) and isc(b):
        return Ite(a.args[0], Slt(a.args[1], b), Slt(a.args[2], b))
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return Slt(a.args[0], b.args[0])
    if a.op == "ite" and isc(b) and (isc(a.args[1]) or isc(a.args[2])):
        return Ite(a.args[0], Slt(a.args[1], b), Slt(a.args[2], b))
    return mk("slt", (a, b), 0)

def Sle(a, b): return Not(Slt(b, a))
def Sgt(a, b): return Slt(b, a)
def Sge(a, b): return Not(Slt(a, b))

# ---------------------------------------------------------------- memory / functions
def Select(arr, off):
    """byte `off` (64 bit) of the symbolic byte array named arr"""
    return mk("select", (off,), 8, arr)

def UF(name, w, *args):
    return mk("uf", tuple(args), w, name)

def TableRead(data, n, off):
    """n-byte little endian read from the constant bytes `data` at an n-aligned symbolic offset"""
    return mk("tbl", (off,), 8 * n, (data, n))

def Min(a, b): return Ite(Ult(a, b), a, b)

def Bytes(v, n):
    """little-endian list of the n bytes of v"""
    return [Extract(v, 8 * i + 7, 8 * i) for i in range(n)]

def FromBytes(bs):
    v = bs[0]
    for x in bs[1:]:
        v = Concat(x, v)
    return v

# ---------------------------------------------------------------- printing
def show(n, depth=6):
    if n.op == "true": return "true"
    if n.op == "false": return "false"
    if n.op == "const": return ("%d" % n.val) if n.val < 4096 else hex(n.val)
    if n.op == "var": return n.val
    if depth == 0: return "..."
    if n.op == "lin":
        c, ts = n.val
        s = " + ".join((show(t, depth - 1) if k == 1 else "%d*%s" % (k if k < 1 << (n.w - 1) else k - (1 << n.w), show(t, depth - 1))) for t, k in ts)
        if c: s += " + %d" % (c if c < 1 << (n.w - 1) else c - (1 << n.w))
        return "(" + s + ")"
    if n.op == "select": return "%s[%s]" % (n.val, show(n.args[0], depth - 1))
    if n.op == "extract": return "%s[%d:%d]" % (show(n.args[0], depth - 1), n.val[0], n.val[1])
    if n.op == "tbl": return "tbl[%s]" % show(n.args[0], depth - 1)
    if n.op == "uf": return "%s(%s)" % (n.val, ", ".join(show(a, depth - 1) for a in n.args))
    return "%s(%s)" % (n.op, ", ".join(show(a, depth - 1) for a in n.args))

# ---------------------------------------------------------------- z3
import z3
_BV = z3.BitVecVal
_arrs = {}
_ufs = {}
def z3arr(name):
    a = _arrs.get(name)
    if a is None:
        a = _arrs[name] = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))
    return a

def to_z3(n):
    if n._z3 is not None: return n._z3
    stack = [n]
    while stack:
        x = stack[-1]
        if x._z3 is not None:
            stack.pop(); continue
        todo = [a for a in x.args if a._z3 is None]
        if todo:
            stack.extend(todo); continue
        x._z3 = _z3(x)
        stack.pop()
    return n._z3

def _z3(n):
    op = n.op
    a = [x._z3 for x in n.args]
    if op == "true": return z3.BoolVal(True)
    if op == "false": return z3.BoolVal(False)
    if op == "const": return _BV(n.val, n.w)
    if op == "var": return z3.Bool(n.val) if n.w == 0 else z3.BitVec(n.val, n.w)
    if op == "not": return z3.Not(a[0])
    if op == "and": return z3.And(*a)
    if op == "iff": return a[0] == a[1]
    if op == "eq": return a[0] == a[1]
    if op == "ult": return z3.ULT(a[0], a[1])
    if op == "slt": return a[0] < a[1]
    if op == "ite": return z3.If(a[0], a[1], a[2])
    if op == "lin":
        c, ts = n.val
        r = None
        half = 1 << (n.w - 1)
        for t, k in ts:
            if k == 1: e = t._z3
            elif k < half: e = t._z3 * k
            elif k == mask(n.w):
                e = None
                r = (r - t._z3) if r is not None else -t._z3
            else:
                e = None
                y = t._z3 * ((1 << n.w) - k)
                r = (r - y) if r is not None else -y
            if e is not None: r = e if r is None else r + e
        if c: r = r + _BV(c, n.w)
        return r
    if op == "mul": return a[0] * a[1]
    if op == "udiv": return z3.UDiv(a[0], a[1])
    if op == "urem": return z3.URem(a[0], a[1])
    if op == "sdiv": return a[0] / a[1]
    if op == "srem": return z3.SRem(a[0], a[1])
    if op == "bvand": return a[0] & a[1]
    if op == "bvor": return a[0] | a[1]
    if op == "bvxor": return a[0] ^ a[1]
    if op == "shl": return a[0] << a[1]
    if op == "lshr": return z3.LShR(a[0], a[1])
    if op == "ashr": return a[0] >> a[1]
    if op == "zext": return z3.ZeroExt(n.w - n.args[0].w, a[0])
    if op == "sext": return z3.SignExt(n.w - n.args[0].w, a[0])
    if op == "concat": return z3.Concat(a[0], a[1])
    if op == "extract": return z3.Extract(n.val[0], n.val[1], a[0])
    if op == "select": return z3.Select(z3arr(n.val), a[0])
    if op == "uf":
        key = (n.val, tuple(x.w for x in n.args), n.w)
        f = _ufs.get(key)
        if f is None:
            srt = lambda w: z3.BoolSort() if w == 0 else z3.BitVecSort(w)
            f = _ufs[key] = z3.Function(n.val, *([srt(x.w) for x in n.args] + [srt(n.w)]))
        return f(*a)
    if op == "tbl":
        data, k = n.val
        idx = n.args[0]
        vals = [int.from_bytes(data[i:i + k], "little") for i in range(0, len(data) - k + 1, k)]
        # balanced ite tree over the index bits
        nb = max(1, (len(vals) - 1).bit_length())
        sh = (k.bit_length() - 1)
        bits = [z3.Extract(i + sh, i + sh, a[0]) == 1 for i in range(nb)]
        def build(lo, bit):
            if bit < 0:
                return _BV(vals[lo] if lo < len(vals) else 0, n.w)
            if lo >= len(vals): return _BV(0, n.w)
            l = build(lo, bit - 1); r = build(lo + (1 << bit), bit - 1)
            return z3.If(bits[bit], r, l)
        return build(0, nb - 1)
    raise Exception("z3: " + op)

def free_vars(n):
    out = {}; seen = set(); st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.op == "var": out[x.val] = x
        st.extend(x.args)
    return out

# ---------------------------------------------------------------- concrete evaluation
def evaluate(n, env, arrs=None, ufs=None):
    """env: var name -> int/bool; arrs: name -> function(off)->byte; ufs: name -> function"""
    memo = {}
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo: st.pop(); continue
        todo = [a for a in x.args if a.id not in memo]
        if todo: st.extend(todo); continue
        st.pop()
        a = [memo[y.id] for y in x.args]
        memo[x.id] = _eval(x, a, env, arrs, ufs)
    return memo[n.id]

def _sx(v, w): return v - (1 << w) if v >> (w - 1) else v
def _eval(n, a, env, arrs, ufs):
    op = n.op; m = mask(n.w) if n.w else 1
    if op == "true": return True
    if op == "false": return False
    if op == "const": return n.val
    if op == "var": return env.get(n.val, False if n.w == 0 else 0)
    if op == "not": return not a[0]
    if op == "and": return all(a)
    if op in ("iff", "eq"): return a[0] == a[1]
    if op == "ult": return a[0] < a[1]
    if op == "slt": w = n.args[0].w; return _sx(a[0], w) < _sx(a[1], w)
    if op == "ite": return a[1] if a[0] else a[2]
    if op == "lin": return (n.val[0] + sum(x * k for x, (t, k) in zip(a, n.val[1]))) & m
    if op == "mul": return a[0] * a[1] & m
    if op == "udiv": return a[0] // a[1] if a[1] else m
    if op == "urem": return a[0] % a[1] if a[1] else a[0]
    if op in ("sdiv", "srem"):
        x, y = _sx(a[0], n.w), _sx(a[1], n.w)
        if y == 0: return 0
        q = abs(x) // abs(y); r = abs(x) % abs(y)
        return ((q if (x < 0) == (y < 0) else -q) if op == "sdiv" else (r if x >= 0 else -r)) & m
    if op == "bvand": return a[0] & a[1]
    if op == "bvor": return a[0] | a[1]
    if op == "bvxor": return a[0] ^ a[1]
    if op == "shl": return (a[0] << a[1]) & m if a[1] < n.w else 0
    if op == "lshr": return a[0] >> a[1] if a[1] < n.w else 0
    if op == "ashr": return (_sx(a[0], n.w) >> min(a[1], n.w - 1)) & m
    if op == "zext": return a[0]
    if op == "sext": return _sx(a[0], n.args[0].w) & m
    if op == "concat": return (a[0] << n.args[1].w) | a[1]
    if op == "extract": return (a[0] >> n.val[1]) & m
    if op == "select": return arrs[n.val](a[0]) if arrs and n.val in arrs else 0
    if op == "uf": return ufs[n.val](*a) & m if ufs and n.val in ufs else 0
    if op == "tbl":
        data, k = n.val
        return int.from_bytes(data[a[0]:a[0] + k].ljust(k, b"\0"), "little")
    raise Exception("eval " + op)

"""Specification vocabulary for the BPAK header (written from docs and bpak.h, independent of bpak.c)."""
from verify import *

# layout, from include/bpak/bpak.h
MAGIC = 0x42504132
NM = NP = 32
META0, METASZ, PART0, PARTSZ, DATA0, DATASZ = 8, 16, 520, 32, 1544, 1920
OFF_HASH, OFF_SIG, OFF_ALIGN, OFF_PHASH, OFF_KEY, OFF_KEYSTORE, OFF_SIGN, OFF_SIGSZ = 3464, 3465, 3466, 3468, 3532, 3536, 3582, 4094
OK = 0
CONTRACT_INFO = {}
E64 = lambda v: C64(v)

class Hdr:
    """header fields at a given state"""
    def __init__(s, c, p, st=None):
        s.c = c; s.p = p; s.st = st or c.snapshot()
    def u(s, off, n): return s.c.get(s.p, off, n, st=s.st)
    def m_id(s, i): return s.u(META0 + 16 * i, 4)
    def m_size(s, i): return s.u(META0 + 16 * i + 4, 2)
    def m_off(s, i): return s.u(META0 + 16 * i + 6, 2)
    def m_ref(s, i): return s.u(META0 + 16 * i + 8, 4)
    def m_pad(s, i): return s.u(META0 + 16 * i + 12, 4)
    def p_id(s, i): return s.u(PART0 + 32 * i, 4)
    def p_size(s, i): return s.u(PART0 + 32 * i + 4, 8)
    def p_off(s, i): return s.u(PART0 + 32 * i + 12, 8)
    def p_tsize(s, i): return s.u(PART0 + 32 * i + 20, 8)
    def p_pad(s, i): return s.u(PART0 + 32 * i + 28, 2)
    def p_flags(s, i): return s.u(PART0 + 32 * i + 30, 1)
    def magic(s): return s.u(0, 4)
    def align(s): return s.u(OFF_ALIGN, 2)
    def data(s, k): return s.u(Add(C64(DATA0), k) if not isinstance(k, int) else DATA0 + k, 1)

Z32, Z64 = K(0, 32), K(0, 64)
def eqi(v, x): return Eq(v, K(x, v.w))

def spec_valid(h):
    """C01: magic; used parts padded to the alignment; used metadata inside the area; hash kind set"""
    cs = [Eq(h.magic(), K(MAGIC, 32)), Ne(h.u(OFF_HASH, 1), K(0, 8))]
    for i in range(NP):
        tot = Add(h.p_size(i), ZExt(h.p_pad(i), 64))
        cs.append(Or(eqi(h.p_id(i), 0), Eq(Extract(tot, 8, 0), K(0, 9))))
    for i in range(NM):
        end = Add(ZExt(h.m_off(i), 64), ZExt(h.m_size(i), 64))
        cs.append(Or(eqi(h.m_id(i), 0), Ule(end, C64(DATASZ))))
    return And(*cs)

def mem_equal(c, pa, sta, pb, stb, n, except_=()):
    """all n bytes of two object states agree outside the given [a,b) ranges: universally quantified
    through an arbitrary witness offset"""
    w = Fresh("wit", 64)
    inr = [Ult(w, C64(n))] + [Or(Ult(w, a if not isinstance(a, int) else C64(a)), Uge(w, b if not isinstance(b, int) else C64(b))) for a, b in except_]
    return Implies(And(*inr), Eq(byte_at(c, pa, sta, w), byte_at(c, pb, stb, w)))

def byte_at(c, p, st, off):
    """byte of an object at a symbolic offset, over all fields (no obligation, no segment restriction)"""
    ex = c.ex
    r = None
    for cc, o, f in asptr(p).es:
        ob = ex.objs[o]; os_ = st.mem[o]; a = Add(f, off)
        v = K(0, 8)
        for i, (lo, hi) in enumerate(ob.segs):
            x = ex.base_read(st, os_.bases[i], a)
            if os_.ov:
                cells = os_.ov if len(ob.segs) == 1 else {k: q for k, q in os_.ov.items() if lo <= k < hi}
                if cells: x = ex.over_sym(st, cells, a, x)
            v = x if len(ob.segs) == 1 else (Ite(And(Ule(C64(lo), a), Ult(a, C64(hi))), x, v))
        r = v if r is None else Ite(cc, v, r)
    return r

def unchanged(c, p, st0, n, except_=(), desc="every other byte is unchanged"):
    """per-segment frame condition"""
    ex = c.ex
    o = asptr(p).es[0][1]
    x, y = st0.mem[o], c.st.mem[o]
    return mem_equal(c, p, st0, p, c.st, n, except_)

def mem_ident(c, p, st0):
    """whole object bit-identical"""
    o = asptr(p).es[0][1]
    x, y = st0.mem[o], c.st.mem[o]
    if x is y: return T
    return mem_equal(c, p, st0, p, c.st, c.ex.objs[o].size.val)

def frame(c, desc, p, st0, allowed, st=None):
    """every byte of the object outside `allowed(offset)` keeps its value (witness per declared field)"""
    ex = c.ex; st = st or c.st
    if st.dead: return
    o = asptr(p).es[0][1]
    x, y = st0.mem[o], st.mem[o]
    ob = ex.objs[o]
    segs = ob.segs if len(ob.segs) > 1 else [(0, ob.size)]
    for i, (lo, hi) in enumerate(segs):
        hi = hi if isinstance(hi, Node) else C64(hi)
        xs = {k: v for k, v in x.ov.items() if len(ob.segs) == 1 or (lo <= k < hi.val)}
        ys = {k: v for k, v in y.ov.items() if len(ob.segs) == 1 or (lo <= k < hi.val)}
        if x.bases[i] is y.bases[i]:
            # only overlay cells differ: finitely many concrete cells
            for k in sorted(set(xs) | set(ys)):
                if k in xs and k in ys and xs[k][0] == ys[k][0] and xs[k][1] is ys[k][1]: continue
                n = (ys.get(k) or xs.get(k))[0]
                same = T
                for j in range(n):
                    u, v = ex.os_byte(st0, x, o, C64(k + j)), ex.os_byte(st, y, o, C64(k + j))
                    if u is not v: same = And(same, Or(allowed(C64(k + j)), Eq(u, v)))
                c.ensure("%s (offset %d)" % (desc, k), same, st=st)
            continue
        w = Fresh("wit", 64)
        c.vars["wit"] = w
        al = allowed(w); inr = And(Ule(C64(lo), w), Ult(w, hi))
        z = st.fork(); z.assume(inr)
        if z.dead or ex.decide(z, al) is True:
            c.ensure("%s (field [%s,%s): all of it may change)" % (desc, lo, show(hi, 2)), T, st=st); continue
        def rdb(s0, os_):
            r = ex.base_read(s0, os_.bases[i], w)
            return r
        u = rdb(st0, x); v = rdb(st, y)
        if xs: u = ex.over_sym(st0, xs, w, u)
        if ys: v = ex.over_sym(st, ys, w, v)
        c.ensure("%s (field [%s,%s))" % (desc, lo, show(hi, 2)), Implies(And(Ule(C64(lo), w), Ult(w, hi), Not(allowed(w))), Eq(u, v)), st=st)

import random
from spec import *
from C02 import slot_ptr, align8
SRC = ["lib/bpak.c"]

def del_meta(i, n):
    """table with n entries laid out as bpak_add_meta does, entry i deleted"""
    def f(c):
        ex = c.ex; ex.prune_reads = True; ex.focus_only = True
        hdr = c.struct("bpak_header", "hdr")
        h0 = Hdr(c, hdr)
        # canonical layout, as bpak_add_meta produces it: entry j starts at 8 P_j and P_{j+1} = P_j + ceil(size_j / 8)
        P = [K(0, 8)] + [Var("P%d" % j, 8) for j in range(1, n + 1)]
        size = []
        for j in range(n):
            sz = h0.m_size(j); size.append(sz)
            c.pre(Ne(h0.m_id(j), Z32), Ule(P[j], P[j + 1]), Ule(P[j + 1], K(240, 8)))
            d = MulC(Sub(ZExt(P[j + 1], 32), ZExt(P[j], 32)), 8)
            c.pre(Ule(ZExt(sz, 32), d), Ule(d, Add(ZExt(sz, 32), K(7, 32))))
            c.set(hdr, META0 + 16 * j + 6, 2, MulC(ZExt(P[j], 16), 8))
        for j in range(n, NM):
            for o, w in ((0, 4), (4, 2), (6, 2), (8, 4), (12, 4)): c.set(hdr, META0 + 16 * j + o, w, K(0, 8 * w))
        off = [MulC(ZExt(P[j], 64), 8) for j in range(n + 1)]
        sz64 = [ZExt(x, 64) for x in size]
        # D: aligned size of the deleted entry, N_j: new position of entry j
        D = Var("D", 8); N = {j: Var("N%d" % j, 8) for j in range(i + 1, n + 1)}
        c.pre(Eq(D, Sub(P[i + 1], P[i])))
        for j in N:
            c.pre(Eq(N[j], Sub(P[j], D)))
        # consequences of the chain P_0 <= P_1 <= ... (proved once by the unit "order lemmas")
        for a in range(n + 1):
            for b in range(a + 2, n + 1): c.pre(Ule(P[a], P[b]))
        for a in N:
            c.pre(Ule(N[a], P[a]), Ule(D, P[a]))
            for b in range(i + 1): c.pre(Ule(P[b], N[a]))
            for b in N:
                if a < b: c.pre(Ule(N[a], N[b]))
        ex.focus = {"D"}; 
        ex.focus_hop = lambda a, x: len(ex.atoms(x)) <= 6 and (not isinstance(a, str) or a == "in.k" or (a[0] == "N" and x.op == "eq"))
        b8 = lambda v: MulC(ZExt(v, 64), 8)
        rnd = random.Random(7); samples = []
        for _ in range(4):
            env = {}; raw = {}; pos = 0
            for j in range(n):
                x = rnd.randint(0, (240 - pos) * 8 // max(1, n - j)); 
                raw[META0 + 16 * j + 4] = x & 255; raw[META0 + 16 * j + 5] = x >> 8; raw[META0 + 16 * j] = 1 + j
                pos += (x + 7) // 8; env["P%d" % (j + 1)] = pos
            pv = lambda j: env["P%d" % j] if j else 0
            env["D"] = pv(i + 1) - pv(i)
            for j in N: env["N%d" % j] = pv(j) - env["D"]
            samples.append((env, {"hdr#1.0": lambda o, raw=raw: raw.get(o, 0)}))
        ex.set_rewrites([b8(D)] + [b8(p) for p in P] + [b8(N[j]) for j in N], samples)
        st0 = c.snapshot()
        c.call("bpak_del_meta", hdr, slot_ptr(hdr, META0, METASZ, C64(i)))
        ex.rw = None
        for j in range(NM):
            src = j if j < i else j + 1
            for o, w in ((0, 4), (4, 2), (8, 4), (12, 4)):
                old = c.get(hdr, META0 + 16 * src + o, w, st=st0) if src < NM else K(0, 8 * w)
                c.ensure("slot %d keeps id, size and reference of entry %d" % (j, src), Eq(c.get(hdr, META0 + 16 * j + o, w), old))
            noff = ZExt(c.get(hdr, META0 + 16 * j + 6, 2), 64)
            if j < i: want = off[j]
            elif j < n - 1: want = b8(N[j + 1])
            else: want = C64(0)
            c.ensure("slot %d: entries stay packed" % j, Eq(noff, want))
        # data bytes: arbitrary byte k of every surviving entry
        k = c.var("k", 64)
        for j in list(range(i)) + list(range(i + 1, n)):
            st = c.st.fork(); st.assume(Ult(k, sz64[j]))
            if st.dead: continue
            new = off[j] if j < i else b8(N[j])
            a = ex.os_byte(st0, st0.mem[1], 1, C64(0)) if False else rd1(c, hdr, st0, st, Add(C64(DATA0), Add(off[j], k)))
            b = rd1(c, hdr, c.st, st, Add(C64(DATA0), Add(new, k)))
            c.ensure("data of entry %d is intact" % j, Eq(a, b), st=st)
        # freed space
        st = c.st.fork()
        newend = b8(N[n]) 
        lastend = Add(off[n - 1], sz64[n - 1])
        st.assume(And(Ule(newend, k), Ult(k, lastend)))
        if n and not st.dead:
            c.ensure("the freed space is zero", Eq(rd1(c, hdr, c.st, st, Add(C64(DATA0), k)), K(0, 8)), st=st)
        st = c.st.fork(); st.assume(And(Ule(off[n], k), Ult(k, C64(DATASZ))))
        if not st.dead:
            c.ensure("bytes behind the last entry are unchanged", Eq(rd1(c, hdr, c.st, st, Add(C64(DATA0), k)), rd1(c, hdr, st0, st, Add(C64(DATA0), k))), st=st)
        frame(c, "nothing outside metadata table and area changes", hdr, st0, lambda x: Or(And(Ule(C64(META0), x), Ult(x, C64(PART0))), And(Ule(C64(DATA0), x), Ult(x, C64(DATA0 + DATASZ)))))
        c.cover("reachable")
    return f

def order(c):
    P = [K(0, 8)] + [Var("P%d" % j, 8) for j in range(1, NM + 1)]
    for j in range(NM): c.pre(Ule(P[j], P[j + 1]))
    for a in range(NM + 1):
        for b in range(a + 2, NM + 1): c.lemma("P%d <= P%d" % (a, b), Ule(P[a], P[b]))
    i, x, y, D, N, M = (Var(v, 8) for v in ("Pi", "Pi1", "Pa", "D", "N", "Pb"))
    # D = P_{i+1} - P_i, N_a = P_a - D, P_i <= P_{i+1} <= P_a <= P_b
    c.pre(Ule(i, x), Ule(x, y), Ule(y, M), Eq(D, Sub(x, i)), Eq(N, Sub(y, D)))
    c.lemma("N_a <= P_a", Ule(N, y)); c.lemma("D <= P_a", Ule(D, y)); c.lemma("P_b <= N_a for b <= i", Ule(i, N))
    c.lemma("N_a <= N_b", Ule(N, Sub(M, D)))

def rd1(c, p, mem_st, pc_st, off):
    ex = c.ex; o = asptr(p).es[0][1]; os_ = mem_st.mem[o]
    # all offsets used here are inside the metadata area
    return ex.base_read(pc_st, os_.bases[1], off)

def safe(c):
    """any header that validation accepts: no access outside the header (obligations of the body)"""
    hdr = c.struct("bpak_header", "hdr")
    h = Hdr(c, hdr)
    for i in range(NM):
        c.pre(Or(eqi(h.m_id(i), 0), Ule(Add(ZExt(h.m_off(i), 64), ZExt(h.m_size(i), 64)), C64(DATASZ))))
    w = c.var("slot", 64)
    return hdr, h

def del_safe(i):
    def f(c):
        hdr, h = safe(c)
        c.ex.focus = set(); c.ex.focus_only = True
        deleted = c.ex.atoms(h.m_size(i))
        c.ex.focus_hop = lambda a, x: a not in deleted
        c.pre(Ne(h.m_id(i), Z32))
        st0 = c.snapshot()
        c.call("bpak_del_meta", hdr, slot_ptr(hdr, META0, METASZ, C64(i)))
        frame(c, "nothing outside metadata table and area changes", hdr, st0, lambda x: Or(And(Ule(C64(META0), x), Ult(x, C64(PART0))), And(Ule(C64(DATA0), x), Ult(x, C64(DATA0 + DATASZ)))))
        c.cover("returns")
    return f

QUICK_N = (1, 2, 3, 8, 31, 32)          # table fill levels proved on every change; all of them in the thorough tier
QUICK_S = (0, 8, 16, 24, 29, 30, 31)
UNITS = [Unit("order lemmas", "C03", order, SRC)] + \
        [Unit("bpak_del_meta safety[%d]" % i, "C03", del_safe(i), SRC, thorough=i not in QUICK_S) for i in range(NM)] + \
        [Unit("bpak_del_meta[%d of %d]" % (i, n), "C03", del_meta(i, n), SRC, thorough=n not in QUICK_N) for n in [1, 2, 3] + list(range(NM, 3, -1)) for i in range(n)]

from spec import *
SRC = ["lib/bpak.c"]

def find(h, n, id_, ref=None, kind="m"):
    """index of the first matching slot, NM when none"""
    r = C64(n)
    for i in reversed(range(n)):
        m = Eq(h.m_id(i) if kind == "m" else h.p_id(i), id_)
        if ref is not None: m = And(m, Eq(h.m_ref(i), ref))
        r = Ite(m, C64(i), r)
    return r

def slot_ptr(p, base, sz, i):
    return Ptr(tuple((c, o, Add(f, Add(C64(base), MulC(i, sz)))) for c, o, f in p.es))

def lookup(fn, withref):
    def f(c):
        hdr = c.struct("bpak_header", "hdr")
        out = c.obj("out", 8)
        id_, ref = c.var("id", 32), c.var("ref", 32)
        st0 = c.snapshot(); h = Hdr(c, hdr)
        rv = c.call(fn, hdr, id_, ref, out) if withref else c.call(fn, hdr, id_, out)
        w = find(h, NM, id_, ref if withref else None)
        got = c.get(out, 0, 8, ptr=True)
        found = Ult(w, C64(NM))
        c.ensure("found exactly when some slot matches", Iff(eqi(rv, 0), found))
        c.ensure("the first matching slot is returned", Implies(found, veq(got, slot_ptr(hdr, META0, METASZ, w))))
        c.ensure("no entry is returned otherwise", Implies(Not(found), isnull(got)))
        c.ensure("the header is only read", mem_ident(c, hdr, st0))
        c.cover("found", found); c.cover("absent", Not(found))
    return f

def align8(v): return BAnd(Add(v, K(7, v.w)), K(~7 & mask(v.w), v.w))

def add_meta(n):
    """header built by these operations with n entries: entry j starts at 8 P_j and P_{j+1} = P_j + ceil(size_j / 8)"""
    def f(c):
        c.ex.focus = set(); c.ex.focus_only = True
        c.ex.focus_hop = lambda a, x: len(c.ex.atoms(x)) <= 6
        hdr = c.struct("bpak_header", "hdr")
        out = c.obj("out", 8)
        id_, ref, size = c.var("id", 32), c.var("ref", 32), c.var("size", 16)
        c.pre(Ne(id_, Z32))
        h = Hdr(c, hdr)
        P = [K(0, 8)] + [Var("P%d" % j, 8) for j in range(1, n + 1)]
        for j in range(n):
            sz = h.m_size(j)
            c.pre(Ne(h.m_id(j), Z32), Ule(P[j], P[j + 1]), Ule(P[j + 1], K(240, 8)), Ule(P[j], P[n]), Ule(P[j + 1], P[n]))
            d = MulC(Sub(ZExt(P[j + 1], 32), ZExt(P[j], 32)), 8)
            c.pre(Ule(ZExt(sz, 32), d), Ule(d, Add(ZExt(sz, 32), K(7, 32))))
            c.set(hdr, META0 + 16 * j + 6, 2, MulC(ZExt(P[j], 16), 8))
        for j in range(n, NM):
            for o, w in ((0, 4), (4, 2), (6, 2), (8, 4), (12, 4)): c.set(hdr, META0 + 16 * j + o, w, K(0, 8 * w))
        b8 = lambda v, w=16: MulC(ZExt(v, w), 8)
        c.ex.hints = lambda k: [b8(P[min(k, n)])]
        h = Hdr(c, hdr)
        st0 = c.snapshot()
        rv = c.call("bpak_add_meta", hdr, id_, ref, size, out)
        ok = eqi(rv, 0)
        exists = Or(*[And(Eq(h.m_id(j), id_), Eq(h.m_ref(j), ref)) for j in range(n)]) if n else F
        off = b8(P[n], 64)
        fits = Ule(Add(off, ZExt(size, 64)), C64(DATASZ)) if n < NM else F
        c.ensure("added exactly when new and there is room", Iff(ok, And(Not(exists), fits)))
        a = META0 + 16 * n
        if n < NM:
            got = vite(ok, c.get(out, 0, 8, ptr=True), NULL) if n else c.get(out, 0, 8, ptr=True)
            c.ensure("the first free slot is returned", Implies(ok, veq(got, slot_ptr(hdr, a, 1, C64(0)))))
            h1 = Hdr(c, hdr)
            c.ensure("the slot records id, reference, size and the aligned end offset",
                     Implies(ok, And(Eq(h1.m_id(n), id_), Eq(h1.m_ref(n), ref), Eq(h1.m_size(n), size), Eq(ZExt(h1.m_off(n), 64), off))))
            c.ensure("the new region is inside the metadata area", Implies(ok, Ule(Add(ZExt(h1.m_off(n), 64), ZExt(size, 64)), C64(DATASZ))))
        for j in range(n):
            end = Add(b8(P[j], 64), ZExt(h.m_size(j), 64))
            c.ensure("the new region starts behind entry %d" % j, Ule(end, off))
        frame(c, "no other byte changes", hdr, st0, lambda k: And(ok, Ule(C64(a), k), Ult(k, C64(a + 12))) if n < NM else F)
        c.cover("refused", Not(ok)) if n else None
        if n < NM: c.cover("added", ok)
    return f

def add_transport_meta(c):
    """contract of bpak_add_meta used at its call site"""
    hdr = c.struct("bpak_header", "hdr")
    pid, enc, dec = c.var("part_id", 32), c.var("enc", 32), c.var("dec", 32)
    st0 = c.snapshot()
    seen = {}
    def add_meta_contract(ex, st, a, rt):
        ex.oblige(st, And(Eq(a[1], K(0x2d44bbfb, 32)), Eq(a[2], pid), veq(a[0], hdr)), "requires", "bpak_add_meta is asked for (bpak-transport, part id)")
        ex.oblige(st, Ule(C64(32), ZExt(a[3], 64)), "requires", "the region holds a struct bpak_transport_meta (32 bytes)")
        rc = Fresh("rc", 32); slot = Fresh("slot", 64); off = Fresh("off", 16)
        st.assume(Implies(eqi(rc, 0), And(Ult(slot, C64(NM)), Ule(Add(ZExt(off, 64), ZExt(a[3], 64)), C64(DATASZ)))))
        m = ex.muted; ex.muted = True
        ok = st.fork(); ok.assume(eqi(rc, 0))
        sp = slot_ptr(hdr, META0, METASZ, slot)
        for o, n, v in ((0, 4, a[1]), (4, 2, a[3]), (6, 2, off), (8, 4, a[2])):
            ex.store(ok, Ptr(tuple((cc, oo, Add(f, C64(o))) for cc, oo, f in sp.es)), n, v)
        ex.store(ok, a[4], 8, sp)
        bad = st.fork(); bad.assume(Not(eqi(rc, 0)))
        r = ex.merge([ok, bad])
        st.pc = r.pc; st.mem = r.mem; st.own = r.own; st.ghost = r.ghost
        ex.muted = m
        seen.update(rc=rc, slot=slot, off=off)
        return rc
    c.ex.contracts["bpak_add_meta"] = add_meta_contract
    rv = c.call("bpak_add_transport_meta", hdr, pid, enc, dec)
    if "rc" not in seen:
        c.ensure("the entry is added through bpak_add_meta", F); return
    c.ensure("returns the outcome of the add", Eq(rv, seen["rc"]))
    ok = eqi(rv, 0)
    d = Add(C64(DATA0), ZExt(seen["off"], 64))
    b = lambda k: byte_at(c, hdr, c.st, Add(d, C64(k)))
    c.ensure("encoder and decoder ids recorded in the reserved region", Implies(ok, And(
        Eq(FromBytes([b(k) for k in range(4)]), enc), Eq(FromBytes([b(k) for k in range(4, 8)]), dec))))
    a = Add(C64(META0), MulC(seen["slot"], METASZ))
    frame(c, "nothing outside the new entry changes", hdr, st0, lambda k: And(ok, Or(And(Ule(a, k), Ult(k, Add(a, C64(12)))), And(Ule(d, k), Ult(k, Add(d, C64(32)))))))

UNITS = [Unit("bpak_get_meta", "C02", lookup("bpak_get_meta", True), SRC),
         Unit("bpak_get_meta_anyref", "C02", lookup("bpak_get_meta_anyref", False), SRC),
         Unit("bpak_add_transport_meta", "C02", add_transport_meta, SRC)] + \
        [Unit("bpak_add_meta[%d]" % n, "C02", add_meta(n), SRC) for n in range(NM, -1, -1)]

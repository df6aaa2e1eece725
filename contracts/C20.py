from spec import *
UT = ["lib/utils.c"]; UU = ["lib/utils.c", "ext/uuid/unparse.c", "ext/uuid/unpack.c"]
CONTRACT_INFO = {"bpak_bin2hex": "proved by unit bpak_bin2hex", "bpak_uuid_to_string": "proved by unit bpak_uuid_to_string",
                 "uuid_unparse": "proved by unit bpak_uuid_to_string (inlined there)"}

def digit(v4):
    v = ZExt(v4, 8)
    return Ite(Ult(K(9, 8), v), Add(v, K(ord('a') - 10, 8)), Add(v, K(ord('0'), 8)))
def byte(ex, st, p, off):
    c, o, f = asptr(p).es[0]
    m = ex.muted; ex.muted = 1
    v = ex.os_byte(st.fork(), st.mem[o], o, Add(f, off))
    ex.muted = m
    return v

def bin2hex(c):
    ex = c.ex
    n = c.var("n", 64); bs = c.var("buf_sz", 64); W = c.var("wit", 64)
    c.pre(Ule(n, C64(1 << 40)), Ule(bs, C64(1 << 42)))
    data = c.obj("data", n); buf = c.obj("buf", bs)
    st0 = c.snapshot()
    src = byte(ex, st0, data, W)
    good = lambda st: And(Eq(byte(ex, st, buf, MulC(W, 2)), digit(Extract(src, 7, 4))), Eq(byte(ex, st, buf, Add(MulC(W, 2), C64(1))), digit(Extract(src, 3, 0))))
    def cands(ex, st, z, h):
        # every byte before the current position has its two digits
        for v, nm, w, rd in h.vars:
            if w == 64:
                yield ("done(%s)" % nm, WitInv(Ult(W, v), good))
                yield ("done2(%s)" % nm, WitInv(Ult(MulC(W, 2), v), good))
    ex.loop_cands.append(cands); ex.check_term = True
    rv = c.call("bpak_bin2hex", data, n, buf, bs)
    ok = eqi(rv, 0)
    c.ensure("accepted exactly when the digits and the terminator fit", Iff(ok, Ule(Add(MulC(n, 2), C64(1)), bs)))
    z = c.st.fork(); z.assume(And(ok, Ult(W, n)))
    if not z.dead: c.ensure("two lower case digits per byte, most significant first", good(z), st=z)
    z = c.st.fork(); z.assume(ok)
    if not z.dead: c.ensure("terminated behind the last digit", Eq(byte(ex, z, buf, MulC(n, 2)), K(0, 8)), st=z)
    c.ensure("the data is only read", T if c.st.mem[data.es[0][1]] is st0.mem[data.es[0][1]] else F)
    c.cover("accepted", ok); c.cover("refused", Not(ok))

def uuid(c):
    ex = c.ex; bs = c.var("buf_sz", 64); c.pre(Ule(bs, C64(1 << 40)))
    data = c.obj("data", 16); buf = c.obj("buf", bs)
    st0 = c.snapshot()
    rv = c.call("bpak_uuid_to_string", data, buf, bs)
    c.ensure("accepted exactly when 36 characters and the terminator fit", Iff(eqi(rv, 0), Ule(C64(37), bs)))
    z = c.st.fork(); z.assume(eqi(rv, 0))
    if not z.dead: c.ensure("terminated behind 36 characters", Eq(byte(ex, z, buf, C64(36)), K(0, 8)), st=z)
    c.ensure("the data is only read", T if c.st.mem[data.es[0][1]] is st0.mem[data.es[0][1]] else F)
    c.cover("accepted", eqi(rv, 0)); c.cover("refused", Not(eqi(rv, 0)))

def meta(c):
    ex = c.ex
    hdr = c.struct("bpak_header", "hdr")
    i = c.var("slot", 64); bs = c.var("buf_sz", 64)
    c.pre(Ult(i, C64(NM)), Ule(bs, C64(1 << 40)))
    buf = c.obj("buf", bs)
    st0 = c.snapshot()
    ho = hdr.es[0][1]
    e = Add(C64(META0), MulC(i, METASZ))
    rd = lambda o, n: c.get(hdr, Add(e, C64(o)), n, st=st0)
    msz, moff = ZExt(rd(4, 2), 64), ZExt(rd(6, 2), 64)
    c.pre(Ule(Add(msz, moff), C64(DATASZ)))       # accepted header (C01)
    ds = Add(C64(DATA0), moff)
    def hook(st, oid, off, n, what):
        if oid != ho or what.endswith("destination") or what == "store": return None
        return Or(Ult(off, C64(DATA0)), And(Ule(ds, off), Ule(Add(off, n), Add(ds, msz))))
    ex.access_hook = hook
    def b2h(ex, st, a, rt):
        """contract of bpak_bin2hex: reads n bytes, writes at most buf_sz bytes, terminated on success"""
        ex.access(st, asptr(a[0]), a[1], "bpak_bin2hex data")
        if not st.dead: ex.access(st, asptr(a[2]), a[3], "bpak_bin2hex buffer")
        if st.dead: return K(0, 32)
        import models
        models.havoc_range(ex, st, a[2], a[3])
        rc = Fresh("rc", 32); st.assume(Iff(eqi(rc, 0), Ule(Add(MulC(a[1], 2), C64(1)), a[3])))
        st.ghost["term"] = Ite(eqi(rc, 0), MulC(a[1], 2), st.ghost["term"])
        st.assume(Implies(eqi(rc, 0), Eq(byte(ex, st, a[2], MulC(a[1], 2)), K(0, 8))))
        return rc
    def u2s(ex, st, a, rt):
        ex.access(st, asptr(a[0]), C64(16), "bpak_uuid_to_string data")
        if not st.dead: ex.access(st, asptr(a[1]), a[2], "bpak_uuid_to_string buffer")
        if st.dead: return K(0, 32)
        rc = Fresh("rc", 32); st.assume(Iff(eqi(rc, 0), Ule(C64(37), a[2])))
        import models
        models.havoc_range(ex, st, a[1], a[2])
        st.ghost["term"] = Ite(eqi(rc, 0), C64(36), st.ghost["term"])
        st.assume(Implies(eqi(rc, 0), Eq(byte(ex, st, a[1], C64(36)), K(0, 8))))
        return rc
    c.st.ghost["term"] = C64(0)
    ex.contracts["bpak_bin2hex"] = b2h; ex.contracts["bpak_uuid_to_string"] = u2s
    mp = Ptr(tuple((cc, o, Add(f, e)) for cc, o, f in hdr.es))
    rv = c.call("bpak_meta_to_string", hdr, mp, buf, bs)
    ex.access_hook = None
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    k = c.st.ghost["term"]
    c.ensure("a conversion that succeeds leaves terminated text", Implies(And(eqi(rv, 0), Ult(C64(0), bs)), And(Ult(k, bs), Eq(byte(ex, c.st, buf, k), K(0, 8)))))
    mid = rd(0, 4)
    for nm, ident, need in (("a uuid", 0xfb2f1f3f, 16), ("a salt", 0x7c9b2f93, 32), ("a root hash", 0xe68fc9be, 32), ("transport metadata", 0x2d44bbfb, 8)):
        c.ensure("an entry too short for %s is refused" % nm, Implies(And(Eq(mid, K(ident, 32)), Ult(msz, C64(need))), Not(eqi(rv, 0))))
    c.cover("converted", eqi(rv, 0)); c.cover("refused", Not(eqi(rv, 0)))

UNITS = [Unit("bpak_bin2hex", "C20", bin2hex, UT), Unit("bpak_uuid_to_string", "C20", uuid, UU), Unit("bpak_meta_to_string", "C20", meta, UT)]

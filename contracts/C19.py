from parts import *
import stdio
SIG0, SIGN = OFF_SIGN, 512
CONTRACT_INFO = {"bpak_pkg_write_header": "proved by unit bpak_pkg_write_header: only the file changes", "bpak_pkg_update_hash": "C06: changes only the payload digest in the header; on success gives the digest of the current header",
  "bpak_crypto_load_private_key": "fails, or gives a new key", "bpak_crypto_sign": "C22: fails, or writes a signature of at most *length bytes and its length", "bpak_free": "releases a block"}

def copyz(c):
    hdr = c.struct("bpak_header", "hdr"); cap = c.var("size", 64); c.pre(Ule(cap, C64(1 << 40)))
    out = c.obj("signature", cap); sz = c.obj("size_ptr", 8); c.set(sz, 0, 8, cap)
    st0 = c.snapshot(); h = Hdr(c, hdr); n = ZExt(h.u(OFF_SIGSZ, 2), 64); W = c.var("wit", 64)
    rv = c.call("bpak_copyz_signature", hdr, out, sz)
    ok = eqi(rv, 0)
    c.ensure("refused exactly when empty, oversized or too large for the buffer", Iff(ok, And(Ne(n, C64(0)), Ule(n, C64(SIGN)), Ule(n, cap))))
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("the length is reported", Eq(c.get(sz, 0, 8, st=z), n), st=z)
        c.ensure("the field's length is cleared", eqi(c.get(hdr, OFF_SIGSZ, 2, st=z), 0), st=z)
        y = z.fork(); y.assume(Ult(W, n))
        if not y.dead: c.ensure("exactly the stored bytes", Eq(byte_at(c, out, y, W), byte_at(c, hdr, st0, Add(C64(SIG0), W))), st=y)
        y = z.fork(); y.assume(Ult(W, C64(SIGN)))
        c.ensure("the field is cleared", Eq(byte_at(c, hdr, y, Add(C64(SIG0), W)), K(0, 8)), st=y)
        y = z.fork(); y.assume(And(Ule(n, W), Ult(W, cap)))
        if not y.dead: c.ensure("nothing behind the signature is written", Eq(byte_at(c, out, y, W), byte_at(c, out, st0, W)), st=y)
    z = c.st.fork(); z.assume(Not(ok))
    if not z.dead:
        frame(c, "a refusal leaves the header alone", hdr, st0, lambda k: F, st=z)
        c.ensure("a refusal leaves the size alone", Eq(c.get(sz, 0, 8, st=z), cap), st=z)
        y = z.fork(); y.assume(Ult(W, cap))
        if not y.dead: c.ensure("a refusal leaves the buffer alone", Eq(byte_at(c, out, y, W), byte_at(c, out, st0, W)), st=y)
    frame(c, "no other header byte changes", hdr, st0, lambda k: And(Ule(C64(SIG0), k), Ult(k, C64(4096))))
    c.cover("taken out", ok); c.cover("refused", Not(ok))

def write_header(c):
    ex = c.ex
    p, hdr, f = package(c); st0 = c.snapshot(); W = c.var("wit", 64); c.pre(Ult(W, C64(4096)))
    rv = c.call("bpak_pkg_write_header", p); ok = eqi(rv, 0)
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("the file starts with the header", Eq(file_byte(c, z, f, W), byte_at(c, hdr, st0, W)), st=z)
        V = c.var("wit2", 64); y = z.fork(); y.assume(Ule(C64(4096), V))
        c.ensure("nothing behind the header is written", Eq(file_byte(c, y, f, V), file_byte(c, st0, f, V)), st=y)
        L0 = stdio.G(st0, "len", f)
        c.ensure("the file is not shortened", Eq(stdio.G(z, "len", f), Ite(Ult(L0, C64(4096)), C64(4096), L0)), st=z)
    frame(c, "the package in memory is only read", p, st0, lambda k: F)
    c.cover("success", ok); c.cover("failure", Not(ok))

def hdr_written(c, log):
    def f(ex, st, a, rt):
        log.append((st.pc, st.fork(), asptr(a[0])))
        return Fresh("write_header", 32)
    c.ex.contracts["bpak_pkg_write_header"] = f

def raw(c):
    ex = c.ex; log = []; hdr_written(c, log)
    p, hdr, f = package(c); n = c.var("size", 64); c.pre(Ule(n, C64(1 << 40)))
    sig = c.obj("signature", n); st0 = c.snapshot(); W = c.var("wit", 64); c.pre(Ult(W, C64(SIGN)))
    rv = c.call("bpak_pkg_write_raw_signature", p, sig, n); ok = eqi(rv, 0)
    fits = Ule(n, C64(SIGN))
    c.ensure("accepted only if it fits", Implies(ok, fits))
    z = c.st.fork(); z.assume(Not(fits)); frame(c, "a refusal leaves the header alone", p, st0, lambda k: F, st=z)
    z = c.st.fork(); z.assume(fits)
    if not z.dead:
        c.ensure("exactly the given bytes, zero filled", Eq(byte_at(c, hdr, z, Add(C64(SIG0), W)), Ite(Ult(W, n), byte_at(c, sig, st0, W), K(0, 8))), st=z)
        c.ensure("their length", Eq(ZExt(c.get(hdr, OFF_SIGSZ, 2, st=z), 64), n), st=z)
        c.ensure("the header is written", B(bool(log)), st=z)
    z = c.st.fork(); z.assume(ok)
    c.ensure("success only if the header was written out", B(len(log) == 1), st=z)
    if len(log) == 1 and not z.dead:
        y = log[0][1]
        frame(c, "the header written is the one left in memory", p, y, lambda k: F, st=z)
    frame(c, "no other byte changes", p, st0, lambda k: And(Ule(C64(HDR + SIG0), k), Ult(k, C64(HDR + 4096))))
    c.cover("success", ok); c.cover("failure", Not(ok))

def sign(c):
    ex = c.ex; g = c.st.ghost; log = []
    for k in ("hash.ok", "load.ok", "sign.ok", "hdr.ok"): g[k] = F
    g["keys"] = C64(0)
    p, hdr, f = package(c); name = c.obj("key_filename", 16)
    W = c.var("wit", 64); c.pre(Ult(W, C64(64))); V = c.var("wit2", 64)
    def upd(ex, st, a, rt):
        ex.oblige(st, veq(a[0], p), "requires", "the package is hashed")
        n = ex.load(st, asptr(a[2]), 8)
        if st.dead: return K(0, 32)
        rc = Fresh("update_hash", 32); ok = Eq(rc, K(0, 32)); dl = Fresh("dlen", 64)
        st.assume(And(Ule(C64(32), dl), Ule(dl, C64(64)))); st.assume(Implies(ok, Ule(dl, n)))
        def wr(z):
            models.havoc_range(ex, z, a[1], dl, "update_hash")
            if z.dead: return
            ex.store(z, asptr(a[2]), 8, dl)
            z.ghost["dig"] = ex.base_read(z, z.mem[asptr(a[1]).es[0][1]].bases[0], W); z.ghost["dlen"] = dl
        models.havoc_range(ex, st, mkptr(p.es[0][1], HDR + OFF_PHASH), C64(64), "payload digest")
        stdio.fork2(ex, st, ok, wr, lambda z: None)
        st.ghost["hash.ok"] = ok
        return rc
    def load(ex, st, a, rt):
        ex.oblige(st, veq(a[0], name), "requires", "the named key is loaded")
        rc = Fresh("load_key", 32); ok = Eq(rc, K(0, 32))
        key = ex.new_obj(st, "key", 16, "heap"); st.ghost["load.ok"] = ok
        ex.store(st, asptr(a[1]), 8, pnorm([(ok, key, C64(0)), (Not(ok), 0, C64(0))]))
        c.key = key
        return rc
    def csign(ex, st, a, rt):
        dig, dn, kind, key, out, ln = a
        ex.oblige(st, And(st.ghost["hash.ok"], st.ghost["load.ok"]), "requires", "signing only with a computed digest and a loaded key")
        es = ex.access(st, asptr(dig), dn, "digest")
        if st.dead: return K(0, 32)
        if "dlen" in st.ghost:
            ex.oblige(st, Eq(dn, st.ghost["dlen"]), "requires", "the whole digest is signed")
            z = st.fork(); z.assume(Ult(W, dn))
            if not z.dead: ex.oblige(z, Eq(byte_at(c, dig, z, W), z.ghost["dig"]), "requires", "the digest of the current header is signed")
        ex.oblige(st, Eq(kind, ZExt(ex.load(st, mkptr(p.es[0][1], HDR + OFF_HASH), 1), 32)), "requires", "the kind named in the header")
        if not isinstance(key, Ptr): raise Unsupported("key")
        ex.oblige(st, veq(key, mkptr(c.key)), "requires", "the loaded key is used")
        cap = ex.load(st, asptr(ln), 8); ex.access(st, asptr(out), cap, "signature buffer")
        if st.dead: return K(0, 32)
        rc = Fresh("sign", 32); ok = Eq(rc, K(0, 32)); n = Fresh("siglen", 64); st.assume(Ule(n, cap))
        models.havoc_range(ex, st, out, n, "signature"); ex.store(st, asptr(ln), 8, n)
        st.ghost["sign.ok"] = ok; st.ghost["siglen"] = n; st.ghost["sigsnap"] = Eq(veqp(out), T)
        log.append((st.fork(), asptr(out), n))
        return rc
    def veqp(o): return veq(o, mkptr(p.es[0][1], HDR + SIG0))
    wl = []; hdr_written(c, wl)
    def fr(ex, st, a, rt): return None
    ex.contracts.update(bpak_pkg_update_hash=upd, bpak_crypto_load_private_key=load, bpak_crypto_sign=csign, bpak_free=fr)
    st0 = c.snapshot()
    rv = c.call("bpak_pkg_sign", p, name); ok = eqi(rv, 0)
    z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("success only if hashing, loading, signing and writing were tried", B(len(log) == 1 and len(wl) == 1), st=z)
    if not z.dead and len(log) == 1 and len(wl) == 1:
        c.ensure("success only if every step succeeded", And(g["hash.ok"], g["load.ok"], g["sign.ok"]), st=z)
        y, o, n = log[0]
        w = c.var("wit3", 64); q = z.fork(); q.assume(Ult(w, C64(SIGN)))
        c.ensure("exactly the signature made, zero filled", Eq(byte_at(c, hdr, q, Add(C64(SIG0), w)), Ite(Ult(w, n), byte_at(c, o, y, w), K(0, 8))), st=q)
        c.ensure("its length", Eq(ZExt(c.get(hdr, OFF_SIGSZ, 2, st=z), 64), n), st=z)
        frame(c, "the header written is the one left in memory", p, wl[0][1], lambda k: F, st=z)
    z = c.st.fork(); z.assume(Not(z.ghost["sign.ok"]))
    if not z.dead: c.ensure("failing to sign is an error", Ne(rv, K(0, 32)), st=z)
    c.ensure("nothing is written to the file unless signing succeeded", And(*[Or(x[1].ghost["sign.ok"], F) if pc_has(x[0], x[1].ghost["sign.ok"]) or True else T for x in []]) if not wl else T)
    for pc, x, _ in wl:
        y = x.fork(); c.ensure("the header is written out only after signing succeeded", y.ghost["sign.ok"], st=y)
    frame(c, "besides the signature only the payload digest changes", p, st0, lambda k: Or(And(Ule(C64(HDR + SIG0), k), Ult(k, C64(HDR + 4096))), And(Ule(C64(HDR + OFF_PHASH), k), Ult(k, C64(HDR + OFF_PHASH + 64)))))
    c.cover("success", ok); c.cover("failure", Not(ok))

UNITS = [Unit("bpak_copyz_signature", "C19", copyz, ["lib/bpak.c"]), Unit("bpak_pkg_write_header", "C19", write_header, ["lib/pkg.c"]),
         Unit("bpak_pkg_write_raw_signature", "C19", raw, ["lib/pkg.c"]), Unit("bpak_pkg_sign", "C19", sign, ["lib/pkg_sign.c"])]

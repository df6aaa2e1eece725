from parts import *
import stdio, models
NKEYS = 255
CONTRACT_INFO = {"bpak_pkg_open": "C01: fails, or gives an open package whose header validation accepts", "bpak_pkg_close": "closes the stream", "bpak_get_meta": "C02: the first entry with the id and part reference, or an error",
  "bpak_get_part": "C04: the first part with the id, or an error", "bpak_part_offset": "C04: file position of the part", "bpak_part_size_wo_pad": "C04: data size of the part", "bpak_crypto_parse_public_key": "C22: reads the given bytes; fails, or gives a key", "check_header": "the caller's check"}

def keystore_get(lo, hi):
  def f(c):
    """no_of_keys anywhere in lo..hi"""
    ex = c.ex; ex.lazy_branch = True; ex.force_unroll = {"bpak_keystore_get": hi + 1}
    ks = c.obj("ks", 8 + 8 * NKEYS); n = c.var("no_of_keys", 8); c.pre(Ule(K(lo, 8), n), Ule(n, K(hi, 8)))
    c.set(ks, 4, 1, n); ver = c.get(ks, 5, 1); c.pre(Ule(ver, K(1, 8)))
    keys = []
    for i in range(hi):
        k = c.obj("key%d" % i, 16); keys.append(k); c.set(ks, 8 + 8 * i, 8, k)
    want = c.var("id", 32); out = c.obj("k", 8)
    ids = [c.get(k, 8, 4) for k in keys]; has = [And(Ult(K(i, 8), n), Eq(ids[i], want)) for i in range(hi)]
    st0 = c.snapshot()
    rv = c.call("bpak_keystore_get", ks, want, out); ok = eqi(rv, 0)
    r = asptr(c.get(out, 0, 8, ptr=True))
    found = Or(*has)
    c.ensure("found exactly when a verified keystore has the key", Iff(ok, And(eqi(ver, 1), found)))
    z = c.st.fork(); z.assume(Not(ok))
    if not z.dead: c.ensure("otherwise no key is given", isnull(r), st=z)
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        # whichever entry is returned: it is one of the used slots and has the id
        for cc, o, fo in r.es:
            i = next((j for j, k in enumerate(keys) if k.es[0][1] == o), None)
            if o == 0: c.ensure("a key is given", Not(cc), st=z); continue
            c.ensure("the key given is in the keystore", T if i is not None else Not(cc), st=z)
            if i is not None: c.ensure("the key given has the id (slot %d)" % i, Implies(cc, And(Eq(fo, C64(0)), has[i])), st=z)
    c.ensure("the keystore is only read", mem_ident(c, ks, st0))
    c.cover("found", ok); c.cover("not found", And(Not(ok), eqi(ver, 1))); c.cover("unverified", Not(eqi(ver, 1)))
  return f

def load_key(with_check):
  def f(c):
    ex = c.ex; g = c.st.ghost
    nm = c.obj("filename", 16); kid = c.var("keystore_id", 32); key = c.var("key_id", 32); user = c.obj("user", 8); out = c.obj("output", 8)
    W = c.var("wit", 64)
    for k in ("opened", "closed", "checked", "check.ok", "meta.ok", "part.ok", "parsed"): g[k] = F
    E = {}
    def opn(ex, st, a, rt):
        ex.oblige(st, veq(a[1], nm), "requires", "the named file is opened")
        mode = models.concrete_str(ex, st, a[2]); ex.oblige(st, B(mode is not None and mode.startswith(b"r") and b"+" not in mode), "requires", "opened for reading")
        rc = Fresh("open", 32); ok = Eq(rc, K(0, 32)); p = asptr(a[0]); ex.access(st, p, C64(HDR + 4096), "package")
        if st.dead: return K(0, 32)
        models.havoc_range(ex, st, p, C64(HDR + 4096), "package")
        fp = stdio.new_file(ex, st, "pkg.fp", None, None, open_=ok); ex.store(st, p, 8, pnorm([(ok, fp.es[0][1], C64(0)), (Not(ok), 0, C64(0))]))
        E["pkg"] = p; E["f"] = fp.es[0][1]; E["hdr"] = Ptr(tuple((x, o, Add(f_, C64(HDR))) for x, o, f_ in p.es)); E["st"] = st.fork(); st.ghost["opened"] = ok
        return rc
    def close(ex, st, a, rt):
        ex.oblige(st, And(veq(a[0], E["pkg"]), st.ghost["opened"], Not(st.ghost["closed"])), "requires", "the open package is closed, once"); st.ghost["closed"] = T
        return Fresh("close", 32)
    hdr = lambda ex, st, p: ex.oblige(st, And(veq(asptr(p), E["hdr"]), st.ghost["opened"]), "requires", "the header of the open package")
    def chk(ex, st, a, rt):
        hdr(ex, st, a[0]); ex.oblige(st, veq(a[1], user), "requires", "the caller's user pointer"); rc = Fresh("check", 32); st.ghost["checked"] = T; st.ghost["check.ok"] = Eq(rc, K(0, 32)); return rc
    def get_meta(ex, st, a, rt):
        hdr(ex, st, a[0]); ex.oblige(st, And(Eq(a[1], K(0xfb367d9a, 32)), eqi(a[2], 0)), "requires", "the keystore-provider-id entry of the package")
        rc = Fresh("get_meta", 32); ok = Eq(rc, K(0, 32)); slot = Fresh("meta.slot", 64); st.assume(Ult(slot, C64(NM)))
        po = E["hdr"].es[0]; e = Add(C64(META0 + HDR), MulC(slot, METASZ))
        st.assume(Implies(ok, Ule(Add(ZExt(ex.load(st, Ptr(((T, po[1], Add(e, C64(6))),)), 2), 64), ZExt(ex.load(st, Ptr(((T, po[1], Add(e, C64(4))),)), 2), 64)), C64(DATASZ))))
        ex.store(st, asptr(a[3]), 8, pnorm([(ok, po[1], e), (Not(ok), 0, C64(0))])); E["meta"] = e; st.ghost["meta.ok"] = ok; return rc
    def get_part(ex, st, a, rt):
        hdr(ex, st, a[0]); ex.oblige(st, Eq(a[1], key), "requires", "the part with the key's id")
        rc = Fresh("get_part", 32); ok = Eq(rc, K(0, 32)); slot = Fresh("part.slot", 64); st.assume(Ult(slot, C64(NP))); po = E["hdr"].es[0]; e = Add(C64(PART0 + HDR), MulC(slot, PARTSZ))
        ex.store(st, asptr(a[2]), 8, pnorm([(ok, po[1], e), (Not(ok), 0, C64(0))])); E["part"] = mkptr(po[1], e); st.ghost["part.ok"] = ok; return rc
    OFF = c.var("part_offset", 64); SZ = c.var("part_size", 64); c.pre(Ule(OFF, C64(1 << 47)))
    def poff(ex, st, a, rt):
        hdr(ex, st, a[0]); ex.oblige(st, And(veq(asptr(a[1]), E["part"]), st.ghost["part.ok"]), "requires", "the part found"); return OFF
    def psz(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), E["part"]), st.ghost["part.ok"]), "requires", "the part found"); return SZ
    def parse(ex, st, a, rt):
        es = ex.access(st, asptr(a[0]), a[1], "key bytes")
        if st.dead: return K(0, 32)
        ex.oblige(st, Eq(a[1], SZ), "requires", "exactly as many bytes as the part has")
        z = st.fork(); z.assume(Ult(W, SZ))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, a[0], z, W), file_byte(c, z, E["f"], Add(OFF, W))), "requires", "exactly the part's bytes, read from its own position")
        rc = Fresh("parse", 32); ok = Eq(rc, K(0, 32)); k = ex.new_obj(st, "newkey", 80, "heap"); E["key"] = k; st.ghost["parsed"] = ok
        z = st.fork()
        stdio.fork2(ex, st, ok, lambda z: ex.store(z, asptr(a[2]), 8, mkptr(k)), lambda z: None)
        return rc
    ex.contracts.update(bpak_pkg_open=opn, bpak_pkg_close=close, check_header=chk, bpak_get_meta=get_meta, bpak_get_part=get_part, bpak_part_offset=poff, bpak_part_size_wo_pad=psz, bpak_crypto_parse_public_key=parse)
    fnp = mkptr(ex.fn_obj("check_header")) if with_check else NULL
    rv = c.call("bpak_keystore_load_key_from_file", nm, kid, key, fnp, user, out); ok = eqi(rv, 0); g = c.st.ghost
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        g = z.ghost
        c.ensure("success only if every step succeeded", And(g["opened"], g["meta.ok"], g["part.ok"], g["parsed"], g["check.ok"] if with_check else T), st=z)
        po = E["hdr"].es[0]
        mo = ZExt(FromBytes([byte_at(c, mkptr(po[1]), E["st"], Add(E["meta"], C64(6 + j))) for j in range(2)]), 64)
        rdid = FromBytes([byte_at(c, mkptr(po[1]), E["st"], Add(Add(C64(HDR + DATA0), mo), C64(j))) for j in range(4)])
        c.ensure("success only if the keystore id matches", Eq(rdid, kid), st=z)
        r = asptr(c.get(out, 0, 8, ptr=True, st=z))
        c.ensure("the key read is given", veq(r, mkptr(E["key"])), st=z)
        c.ensure("the key carries its id", Eq(c.get(mkptr(E["key"]), 8, 4, st=z), key), st=z)
    c.ensure("the package is closed again", Iff(c.st.ghost["opened"], c.st.ghost["closed"]))
    c.cover("loaded", ok); c.cover("refused", Not(ok))
  return f

UNITS = [Unit("bpak_keystore_get[%d..%d]" % (a, b), "C21", keystore_get(a, b), ["lib/keystore.c"], thorough=b > 40) for a, b in ((0, 8), (9, 40), (41, 255))] + \
    [Unit("bpak_keystore_load_key_from_file" + ("[header check]" if w else ""), "C21", load_key(w), ["lib/keystore_load_from_file.c"]) for w in (False, True)]

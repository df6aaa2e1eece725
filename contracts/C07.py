from parts import *
import stdio, models
CONTRACT_INFO = {"bpak_verify_compute_header_hash": "C05: fails, or gives the digest of the header", "bpak_crypto_verify": "C22: error, or whether the signature is valid", "bpak_verify_payload": "unit bpak_verify_payload: 0 exactly if payload digest and trees match",
  "bpak_verify_compute_payload_hash": "C06: fails, or gives the digest of the stored bytes", "bpak_get_meta": "C02: first entry with the id and part reference, or an error", "bpak_get_part": "C04: first part with the id, or an error",
  "bpak_part_offset": "C04", "bpak_part_size": "C04", "bpak_verify_merkle_tree": "C09: 0 only if tree and root match the data", "bpak_part_id_to_hash_tree_id": "C13"}

def pkg_verify(c):
    ex = c.ex; g = c.st.ghost
    p, hdr, f = package(c); key = c.obj("key", 80); st0 = c.snapshot(); W = c.var("wit", 64)
    for k in ("hash.ok", "sig.ok", "verified", "payload.ok"): g[k] = F
    g["order"] = F
    def hh(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), hdr), "requires", "the package's header is hashed")
        cap = ex.load(st, asptr(a[2]), 8); ex.access(st, asptr(a[1]), cap, "digest buffer")
        if st.dead: return K(0, 32)
        ex.oblige(st, Ule(C64(64), cap), "requires", "room for every digest")
        dl = Fresh("dlen", 64); st.assume(And(Ule(C64(32), dl), Ule(dl, C64(64)))); rc = Fresh("hh", 32)
        models.havoc_range(ex, st, a[1], dl, "digest"); ex.store(st, asptr(a[2]), 8, dl); c.dig = (st.fork(), asptr(a[1]), dl); st.ghost["hash.ok"] = Eq(rc, K(0, 32)); return rc
    def cv(ex, st, a, rt):
        sig, sl, dig, dl, kind, k, v = a
        ex.oblige(st, st.ghost["hash.ok"], "requires", "a digest was computed")
        ex.oblige(st, And(veq(asptr(sig), mkptr(p.es[0][1], HDR + OFF_SIGN)), Eq(sl, ZExt(c.get(hdr, OFF_SIGSZ, 2, st=st0), 64))), "requires", "the signature of the package")
        ex.oblige(st, Eq(dl, c.dig[2]), "requires", "the whole digest")
        z = st.fork(); z.assume(Ult(W, dl))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, dig, z, W), byte_at(c, c.dig[1], c.dig[0], W)), "requires", "the digest computed for this header")
        ex.oblige(st, And(Eq(kind, ZExt(c.get(hdr, OFF_HASH, 1, st=st0), 32)), veq(asptr(k), key)), "requires", "the kind named in the header and the given key")
        ex.access(st, asptr(v), C64(1), "verified")
        if st.dead: return K(0, 32)
        rc = Fresh("verify", 32); r = Fresh("verified", 8); st.assume(Ule(r, K(1, 8)))
        ex.store(st, asptr(v), 1, r); st.ghost["sig.ok"] = And(Eq(rc, K(0, 32)), Eq(r, K(1, 8))); st.ghost["verified"] = Eq(r, K(1, 8)); return rc
    def vp(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), Eq(a[2], C64(4096))), "requires", "the package's own payload, behind the header")
        check_reader(c, st, a[1], a[3], f, "payload reader")
        rc = Fresh("payload", 32); st.ghost["payload.ok"] = Eq(rc, K(0, 32)); return rc
    ex.contracts.update(bpak_verify_compute_header_hash=hh, bpak_crypto_verify=cv, bpak_verify_payload=vp)
    rv = c.call("bpak_pkg_verify", p, key); ok = eqi(rv, 0); g = c.st.ghost
    c.ensure("success exactly when header digest, signature and payload all check out", Iff(ok, And(g["hash.ok"], g["sig.ok"], g["payload.ok"])))
    frame(c, "the package in memory is only read", p, st0, lambda k: F)
    c.cover("success", ok); c.cover("bad signature", And(g["hash.ok"], Not(g["sig.ok"])))

def payload(n):
  def f(c):
    """tables whose used parts are among the first n slots (n = 32: all tables)"""
    ex = c.ex; ex.lazy_branch = True; g = c.st.ghost
    hdr = c.obj("hdr", 4096); off0 = c.var("data_offset", 64); user = c.obj("user", 8); h0 = Hdr(c, hdr); W = c.var("wit", 64)
    c.pre(Ule(off0, C64(1 << 40))); ho = hdr.es[0][1]
    rd = mkptr(ex.fn_obj("read_payload")); st0 = c.snapshot(); ex.witness["memcmp"] = W
    for i in range(n, NP): c.pre(eqi(h0.p_id(i), 0))
    g["hash.ok"] = F; g["calls"] = C64(0)
    ids = [h0.p_id(i) for i in range(n)]
    for i in range(n): g["done.%d" % i] = F
    has = lambda m, i: Ne(UF("has." + m, 8, i), K(0, 8))
    ment = lambda m, i: Add(C64(META0), MulC(ZExt(UF("slot." + m, 8, i), 64), METASZ))
    def entry_data(st, e):
        o = FromBytes([ex.base_read(st, st.mem[ho].bases[0], Add(e, C64(6 + j))) for j in range(2)])
        return Add(C64(DATA0), ZExt(o, 64))
    mlist = {0xe68fc9be: "root", 0x7c9b2f93: "salt"}
    hp = lambda ex, st, p: ex.oblige(st, veq(asptr(p), hdr), "requires", "the header under verification")
    def cph(ex, st, a, rt):
        hp(ex, st, a[0]); ex.oblige(st, And(veq(asptr(a[1]), rd), Eq(a[2], off0), veq(asptr(a[3]), user)), "requires", "the caller's reader, offset and user pointer")
        cap = ex.load(st, asptr(a[5]), 8); ex.access(st, asptr(a[4]), cap, "digest buffer")
        if st.dead: return K(0, 32)
        ex.oblige(st, Ule(C64(64), cap), "requires", "room for every digest")
        dl = Fresh("dlen", 64); st.assume(And(Ule(C64(32), dl), Ule(dl, C64(64)))); rc = Fresh("ph", 32)
        models.havoc_range(ex, st, a[4], dl, "digest"); ex.store(st, asptr(a[5]), 8, dl); c.dig = (st.fork(), asptr(a[4]), dl); st.ghost["hash.ok"] = Eq(rc, K(0, 32)); return rc
    def get_meta(ex, st, a, rt):
        hp(ex, st, a[0])
        if not isc(a[1]) or a[1].val not in mlist: raise Unsupported("bpak_get_meta id")
        m = mlist[a[1].val]; ref = a[2]; ok = has(m, ref); st.assume(Implies(ok, Ult(UF("slot." + m, 8, ref), K(NM, 8))))
        e = ment(m, ref); st.assume(Implies(ok, Ule(entry_data(st, e), C64(DATA0 + DATASZ))))
        ex.store(st, asptr(a[3]), 8, pnorm([(ok, ho, e), (Not(ok), 0, C64(0))]))
        rc = Fresh("get_meta", 32); st.assume(Iff(ok, Eq(rc, K(0, 32)))); return rc
    pslot = lambda i: Add(C64(PART0), MulC(ZExt(UF("part.slot", 8, i), 64), PARTSZ))
    tree_id = lambda i: UF("tree.id", 32, i)
    def get_part(ex, st, a, rt):
        hp(ex, st, a[0]); ok = has("part", a[1]); st.assume(Implies(ok, Ult(UF("part.slot", 8, a[1]), K(NP, 8))))
        ex.store(st, asptr(a[2]), 8, pnorm([(ok, ho, pslot(a[1])), (Not(ok), 0, C64(0))]))
        rc = Fresh("get_part", 32); st.assume(Iff(ok, Eq(rc, K(0, 32)))); return rc
    def slot_fn(nm):
        def f(ex, st, a, rt):
            if nm == "part.off": hp(ex, st, a[0])
            p = asptr(a[1] if nm == "part.off" else a[0]); es = [x for x in p.es if not pc_has(st.pc, Not(x[0]))]
            if len(es) > 1: ex.oblige(st, Not(isnull(p)), "memory", nm + " of a part")
            r = None
            for cc, o, fo in es:
                if o == ho: v = UF(nm, 64, fo); r = v if r is None else Ite(cc, v, r)
            if r is None: raise Unsupported(nm)
            return r
        return f
    def tree(ex, st, a, rt):
        r_, doff, ln, toff, root, salt, u = a
        ex.oblige(st, And(veq(asptr(r_), rd), veq(asptr(u), user)), "requires", "the caller's reader and user pointer")
        rc = Fresh("tree", 32); ok = Eq(rc, K(0, 32)); st.ghost["calls"] = Add(st.ghost["calls"], C64(1))
        for i in range(n):
            k = C64(PART0 + PARTSZ * i); t = pslot(tree_id(ids[i]))
            if st.ghost["done.%d" % i] is T: continue
            m = And(Eq(doff, Add(Sub(UF("part.off", 64, k), C64(4096)), off0)), Eq(ln, UF("stored", 64, k)), Eq(toff, Add(Sub(UF("part.off", 64, t), C64(4096)), off0)),
                    veq(asptr(root), mkptr(ho, entry_data(st, ment("root", ids[i])))), veq(asptr(salt), mkptr(ho, entry_data(st, ment("salt", ids[i])))), has("salt", ids[i]), has("part", tree_id(ids[i])))
            st.ghost["done.%d" % i] = Or(st.ghost["done.%d" % i], And(m, ok))
        return rc
    ex.contracts.update(bpak_verify_compute_payload_hash=cph, bpak_get_meta=get_meta, bpak_get_part=get_part, bpak_part_offset=slot_fn("part.off"), bpak_part_size=slot_fn("stored"),
                        bpak_verify_merkle_tree=tree, bpak_part_id_to_hash_tree_id=lambda ex, st, a, rt: tree_id(a[0]))
    ex.contracts["bpak_part_size_wo_pad"] = slot_fn("data")
    rv = c.call("bpak_verify_payload", hdr, rd, off0, user); ok = eqi(rv, 0)
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("the payload digest was computed without failure", z.ghost["hash.ok"], st=z)
        y = z.fork(); y.assume(Ult(W, c.dig[2]))
        c.ensure("and equals the one in the header", Eq(byte_at(c, c.dig[1], c.dig[0], W), byte_at(c, hdr, st0, Add(C64(OFF_PHASH), W))), st=y)
        for i in range(n):
            c.ensure("part %d: root hash present, so its salt, tree and data were checked with its own offset and size" % i, Implies(And(Ne(ids[i], K(0, 32)), has("root", ids[i])), z.ghost["done.%d" % i]), st=z)
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    c.cover("success", ok); c.cover("failure", Not(ok))
    if n: c.cover("success with a tree", And(ok, Ne(ids[0], K(0, 32)), has("root", ids[0])))
  return f

UNITS = [Unit("bpak_pkg_verify", "C07", pkg_verify, ["lib/pkg_verify.c"])] + [Unit("bpak_verify_payload[%d]" % n, "C07", payload(n), ["lib/verify.c"], thorough=n not in (2, 32)) for n in (32, 16, 2)]

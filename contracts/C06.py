from parts import *
import stdio, models
SRC = ["lib/verify.c", "lib/bpak.c"]
CONTRACT_INFO = dict(stdio.HASH_INFO, bpak_part_size="proved by C04: the stored size of the part", read_payload="the caller's read function: negative on error, otherwise up to n bytes of the data at the given offset",
                     read_cb="the caller's read function: negative on error, otherwise up to n bytes of the data at the given offset")

def reader(c, name="read_cb"):
    """a read callback over an arbitrary byte sequence"""
    ex = c.ex
    src = ex.new_obj(c.st, "payload", C64(1 << 62), "ghost")
    user = c.obj("user", 8)
    def cb(ex, st, a, rt):
        off, buf, n, u = a
        ex.oblige(st, veq(u, user), "callback", "the caller's user pointer is passed on")
        avail = Fresh("avail", 64)
        st.assume(Implies(Not(Ule(off, C64(stdio.MAXLEN))), Eq(avail, C64(0))))
        st.assume(Ule(avail, C64(stdio.MAXLEN)))
        z = st.fork()
        r = stdio.deliver(ex, st, buf, n, src, off, avail, "read_payload")
        if st.dead: return K(0, 64)
        err = Fresh("read.err", 0)
        code = Fresh("read.code", 64); st.assume(Implies(err, Slt(code, C64(0))))
        return Ite(err, code, r)
    ex.contracts[name] = cb
    return mkptr(ex.fn_obj(name)), user, src

def payload_hash(c):
    """the stream of hashed bytes is followed by a ghost cursor (slot, done): the bytes of every hash step must be the
    next stored bytes at the cursor, which then advances; at the end the cursor must be past the last hashed slot"""
    ex = c.ex; stdio.install_hash(ex); ex.lazy_branch = True; ex.lia_ms = 250; g = c.st.ghost
    hdr = c.obj("hdr", 4096); hoid = hdr.es[0][1]
    off0 = c.var("data_offset", 64); c.pre(Ule(off0, C64(1 << 40)))
    cb, user, src = reader(c)
    cap = c.var("size", 64); c.pre(Ule(cap, C64(1 << 40)))
    out = c.obj("output", cap); sz = c.obj("size_ptr", 8); c.set(sz, 0, 8, cap)
    st0 = c.snapshot(); h = Hdr(c, hdr); t = Table(c, hdr); t.abstract = True
    ex.contracts["bpak_part_size"] = part_size_contract(c, t)
    hashed = lambda k: And(t.used(k), Not(t.excluded(k)))
    N = Next("next", lambda k: And(hashed(k), Ne(t.stored(k), C64(0))))
    O = Sums("file_pos", lambda k: Ite(t.used(k), t.stored(k), C64(0)), base=off0, bounded=False)
    g["slot"] = N.at(C64(PART0)); g["done"] = C64(0); W = c.var("wit", 64)
    for a in O.axioms([]) + N.axioms([]): c.pre(a)
    def on_hash(ex, st, k, buf, n):
        s_, d = st.ghost["slot"], st.ghost["done"]
        if isc(n) and n.val == 0: return
        ex.oblige(st, Or(Eq(n, C64(0)), And(Ult(s_, C64(END)), Ule(n, Sub(t.stored(s_), d)))), "hashed bytes", "nothing but the stored bytes of the hashed parts is hashed, in table order")
        if st.dead: return
        z = st.fork(); z.assume(Ult(W, n))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, buf, z, W), ex.base_read(st0, st0.mem[src].bases[0], Add(O.at(s_), Add(d, W)))), "hashed bytes", "each byte comes from its own position in the file")
        d2 = Add(d, n)
        full = And(Ne(n, C64(0)), Eq(d2, t.stored(s_)))
        st.ghost["done"] = Ite(full, C64(0), d2)
        st.ghost["slot"] = Ite(full, N.at(Add(s_, C64(PARTSZ))), s_)
    ex.flags["on_hash"] = on_hash
    def axioms(ex, st, z, hv):
        sl = []
        for nm, k in slot_terms(ex, z, hoid):
            if not any(k is x for x in sl): sl.append(k)
        sl.append(z.ghost["slot"])
        return O.axioms(sl) + N.axioms(sl)
    def cands(ex, st, z, hv):
        s_, d = z.ghost["slot"], z.ghost["done"]
        iv = list(ints64(ex, z))
        yield ("ghost slot valid", Or(valid_slot(s_), Eq(s_, C64(END))))
        yield ("ghost slot hashed", Implies(Ne(s_, C64(END)), hashed(s_)))
        yield ("ghost done", Or(Eq(d, C64(0)), Ult(d, t.stored(s_))))
        for nm, p in slot_terms(ex, z, hoid):
            yield ("slot " + nm, Or(valid_slot(p), Eq(p, C64(END))))
            yield ("valid slot " + nm, valid_slot(p))
            yield ("hashed " + nm, hashed(p))
            yield ("at next " + nm, And(Eq(s_, N.at(p)), Eq(d, C64(0))))
            yield ("at this " + nm, Or(And(Eq(s_, p), Ne(t.stored(p), C64(0))), And(Eq(t.stored(p), C64(0)), Eq(s_, N.at(Add(p, C64(PARTSZ)))))))
            for inm, v in iv:
                yield ("cur=O %s %s" % (nm, inm), Eq(v, O.at(p)))
                yield ("cur=O+d %s %s" % (nm, inm), Eq(v, Add(O.at(p), d)))
                yield ("left %s %s" % (nm, inm), Eq(v, Sub(t.stored(p), d)))
                yield ("done %s %s" % (nm, inm), Eq(v, d))
    ex.loop_axioms.append(axioms); ex.loop_cands.append(cands); ex.check_term = True
    ex.force_inv.add("bpak_verify_compute_payload_hash")
    rv = c.call("bpak_verify_compute_payload_hash", hdr, cb, off0, user, out, sz)
    ok = eqi(rv, 0)
    if len(ex.hstreams) != 1: c.ensure("one digest is computed", F); return
    k = list(ex.hstreams)[-1]; g = c.st.ghost
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("success only if every hashing step succeeded", And(g["h.fin." + k], Not(g.get("h.bad." + k, F))), st=z)
        c.ensure("the digest is started once", Eq(g["h.runs." + k], C64(1)), st=z)
        c.ensure("the kind named in the header", Eq(g["h.kind." + k], ZExt(h.u(OFF_HASH, 1), 32)), st=z)
        c.ensure("every stored byte of every hashed part is covered", And(Eq(g["slot"], C64(END)), Eq(g["done"], C64(0))), st=z)
        kk, buf, dl = ex.finals[-1]
        c.ensure("the digest goes to the caller's buffer", veq(buf, out), st=z)
        c.ensure("the digest length is reported", Eq(c.get(sz, 0, 8, st=z), dl), st=z)
    c.ensure("the hash context is released", Not(g["h.live." + k]))
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    c.cover("success", ok); c.cover("failure", Not(ok))

def update_hash(c):
    ex = c.ex; g = c.st.ghost; g["p.ok"] = F; g["h.ok"] = F; g["h.called"] = F
    p, hdr, f = package(c); po = p.es[0][1]; cap = c.var("size", 64); c.pre(Ule(cap, C64(1 << 40)))
    out = c.obj("output", cap); sz = c.obj("size_ptr", 8); c.set(sz, 0, 8, cap); st0 = c.snapshot(); b = c.var("with_output", 0)
    log = []
    def ph(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), Eq(a[2], C64(4096))), "requires", "the package's own payload, behind the header")
        check_reader(c, st, a[1], a[3], f, "payload reader")
        cap_ = ex.load(st, asptr(a[5]), 8); ex.access(st, asptr(a[4]), cap_, "digest buffer")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(veq(asptr(a[4]), mkptr(po, HDR + OFF_PHASH)), Eq(cap_, C64(64))), "requires", "the digest goes to the header's payload digest")
        if st.dead: return K(0, 32)
        rc = Fresh("payload_hash", 32); dl = Fresh("dlen", 64); st.assume(Ule(dl, C64(64)))
        models.havoc_range(ex, st, a[4], C64(64), "payload digest"); ex.store(st, asptr(a[5]), 8, dl); st.ghost["p.ok"] = Eq(rc, K(0, 32)); log.append(st.fork()); return rc
    def hh(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), st.ghost["p.ok"]), "requires", "the header digest is taken after the payload digest was stored")
        ex.oblige(st, And(veq(asptr(a[1]), out), veq(asptr(a[2]), sz)), "requires", "the caller's buffer")
        rc = Fresh("header_hash", 32); st.ghost["h.ok"] = Eq(rc, K(0, 32)); st.ghost["h.called"] = T; return rc
    ex.contracts.update(bpak_verify_compute_payload_hash=ph, bpak_verify_compute_header_hash=hh)
    o = pnorm([(b, out.es[0][1], C64(0)), (Not(b), 0, C64(0))]); s_ = pnorm([(b, sz.es[0][1], C64(0)), (Not(b), 0, C64(0))])
    rv = c.call("bpak_pkg_update_hash", p, o, s_); ok = eqi(rv, 0); g = c.st.ghost
    c.ensure("success exactly when the digests were computed", Iff(ok, And(g["p.ok"], Or(Not(b), g["h.ok"]))))
    c.ensure("a digest is only handed out when asked for", Implies(g["h.called"], b))
    frame(c, "only the payload digest changes", p, st0, lambda k: And(Ule(C64(HDR + OFF_PHASH), k), Ult(k, C64(HDR + OFF_PHASH + 64))))
    c.cover("success", ok); c.cover("failure", Not(ok))

UNITS = [Unit("bpak_verify_compute_payload_hash", "C06", payload_hash, SRC), Unit("bpak_pkg_update_hash", "C06", update_hash, ["lib/pkg.c"])]

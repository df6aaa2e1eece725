from parts import *
import stdio, models
CONTRACT_INFO = {"bpak_merkle_init": "C08: may fail; keeps the callbacks, the salt and the tree position", "bpak_merkle_write_chunk": "C08: takes the next bytes of the data; each digest goes through the write callback, whose errors are reported",
  "bpak_merkle_finish": "C08: builds the upper levels through the callbacks, whose errors are reported; delivers the root", "read_payload": "the caller's read function: negative on error, otherwise up to n bytes of the data at the given offset"}
SRC = ["lib/verify.c"]

def reader(c, src, user, name="read_payload"):
    ex = c.ex
    def cb(ex, st, a, rt):
        off, buf, n, u = a
        ex.oblige(st, veq(asptr(u), user), "callback", "the caller's user pointer is passed on")
        if st.dead: return C64(0)
        hook = ex.flags.get("on_request")
        if hook: hook(st, off, n)
        avail = Fresh("avail", 64); st.assume(Ule(avail, C64(stdio.MAXLEN)))
        r = stdio.deliver(ex, st, buf, n, src, off, avail, "read_payload")
        if st.dead: return C64(0)
        err = Fresh("read.err", 0); code = Fresh("read.code", 64); st.assume(Implies(err, And(Slt(code, C64(0)), Sle(C64(-(1 << 31)), code))))
        return Ite(err, code, r)
    ex.contracts[name] = cb
    return mkptr(ex.fn_obj(name))

def tree(c):
    ex = c.ex; ex.lazy_branch = True; g = c.st.ghost
    src = ex.new_obj(c.st, "payload", C64(1 << 62), "ghost"); user = c.obj("user", 8); cb = reader(c, src, user)
    doff = ZExt(c.var("data_offset", 42), 64); toff = ZExt(c.var("tree_offset", 42), 64); n = ZExt(c.var("data_length", 42), 64)
    c.assume_note("read callbacks report errors as negative values that fit an int"); c.assume_note("offsets and lengths up to 2^42 bytes")
    root = c.obj("expected_root", 32); salt = c.obj("salt", 32); st0 = c.snapshot(); W = c.var("wit", 64)
    byte = lambda q: ex.base_read(st0, st0.mem[src].bases[0], q)
    for k in ("init.ok", "bad", "fin.ok"): g[k] = F
    g["fed"] = C64(0); calc = [c.var("root%d" % j, 8) for j in range(32)]; log = {}
    def init(ex, st, a, rt):
        ctx, ln, sp, sl, wr, rd, off, zf, priv = a
        ex.oblige(st, And(Eq(ln, n), veq(asptr(sp), salt), Eq(sl, C64(32)), Eq(off, toff)), "requires", "the tree over this data, with this salt, at this position")
        ex.oblige(st, Not(zf) if zf.w == 0 else Eq(Extract(zf, 0, 0), K(0, 1)), "requires", "the stored tree is not overwritten")
        if st.dead: return K(0, 32)
        log["ctx"] = asptr(ctx); log["n"] = log.get("n", 0) + (0 if ex.muted else 1)
        # the callbacks: a write succeeds only if the bytes equal the stored ones, a read delivers the stored ones
        o = Fresh("io.off", 64); m = Fresh("io.n", 64); w = Fresh("io.wit", 64)
        z = st.fork(); z.assume(Ule(o, C64(1 << 44))); z.assume(Ule(m, C64(4096)))
        b = mkptr(ex.new_obj(z, "io.buf", m)); z.assume(Ult(w, m)); y = z.fork()
        bw = byte_at(c, b, z, w); sw = byte(Add(o, w))
        old = (ex.models["memcmp"], list(ex.loop_cands), ex.flags.get("on_request"))
        def mc(ex, s_, a2, rt2):
            """equal results make the bytes at the witness equal"""
            ex.access(s_, asptr(a2[0]), a2[2], "memcmp")
            if s_.dead: return K(0, 32)
            ex.access(s_, asptr(a2[1]), a2[2], "memcmp")
            if s_.dead: return K(0, 32)
            r = Fresh("memcmp", 32)
            for i in (0, 1):
                for cc, oo, f in asptr(a2[i]).es:
                    if oo != b.es[0][1]: continue
                    inr = And(Ule(f, w), Ult(Sub(w, f), a2[2]), cc)
                    q = s_.fork(); q.assume(inr)
                    if q.dead: continue
                    x = byte_at(c, Ptr(asptr(a2[0]).es if i == 1 else asptr(a2[1]).es), q, Sub(w, f))
                    s_.assume(Implies(And(inr, Eq(r, K(0, 32))), Eq(bw, x)))
            return r
        ex.models["memcmp"] = mc
        def cands(ex, st_, z_, hv):
            for nm, v in ints64(ex, z_):
                yield ("cmp " + nm, Implies(Ult(w, v), Eq(bw, sw))); yield ("rest " + nm, And(Ule(v, m), Implies(Ult(w, Sub(m, v)), Eq(bw, sw))))
                yield ("pos " + nm, Implies(Ult(w, Sub(v, o)), Eq(bw, sw)))
                yield ("pos> " + nm, And(Ule(o, v), Ule(v, Add(o, m))))
        ex.loop_cands[:] = [cands]; ex.flags.pop("on_request", None)
        r = ex.call_ptr(z, asptr(wr), [o, b, m, asptr(priv)], ("int", 64), ex.mods[0])
        if not z.dead: ex.oblige(z, Implies(And(Eq(r, m), Ne(m, C64(0))), Eq(bw, sw)), "callback", "a digest is accepted only if it equals the stored one at its position")
        ex.models["memcmp"] = old[0]
        r = ex.call_ptr(y, asptr(rd), [o, b, m, asptr(priv)], ("int", 64), ex.mods[0])
        if not y.dead: ex.oblige(y, Implies(Eq(r, m), Eq(byte_at(c, b, y, w), sw)), "callback", "the stored tree is read at its position")
        ex.loop_cands[:] = old[1]
        if old[2]: ex.flags["on_request"] = old[2]
        r = Fresh("merkle_init", 32); st.ghost["init.ok"] = Eq(r, K(0, 32)); return r
    def chunk(ex, st, a, rt):
        d = st.ghost["fed"]; m = a[2]
        es = ex.access(st, asptr(a[1]), m, "data chunk")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(st.ghost["init.ok"], veq(asptr(a[0]), log["ctx"]), Ule(d, n), Ule(m, Sub(n, d))), "data", "the tree builder is fed the part's data only")
        z = st.fork(); z.assume(Ult(W, m))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, Ptr(tuple(es)), z, W), byte(Add(doff, Add(d, W)))), "data", "from the part's own region, in order")
        st.ghost["fed"] = Add(d, m); r = Fresh("write_chunk", 32); st.ghost["bad"] = Or(st.ghost["bad"], Ne(r, K(0, 32))); return r
    def finish(ex, st, a, rt):
        ex.access(st, asptr(a[1]), C64(32), "root")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(Eq(st.ghost["fed"], n), Not(st.ghost["bad"]), veq(asptr(a[0]), log["ctx"])), "data", "the tree is finished over all of the data, only when every step succeeded")
        for j in range(32): ex.store(st, Ptr(tuple((cc, o, Add(x, C64(j))) for cc, o, x in asptr(a[1]).es)), 1, calc[j])
        r = Fresh("merkle_finish", 32); st.ghost["fin.ok"] = Eq(r, K(0, 32)); return r
    ex.contracts.update(bpak_merkle_init=init, bpak_merkle_write_chunk=chunk, bpak_merkle_finish=finish)
    def cands(ex, st, z, hv):
        d = z.ghost["fed"]; yield ("fed", Ule(d, n)); yield ("good", Not(z.ghost["bad"]))
        for nm, v in ints64(ex, z): yield ("left " + nm, Eq(v, Sub(n, d))); yield ("count " + nm, Eq(v, d)); yield ("abs " + nm, Eq(v, Add(doff, d)))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("bpak_verify_merkle_tree")
    rv = c.call("bpak_verify_merkle_tree", cb, doff, n, toff, root, salt, user); ok = eqi(rv, 0); z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("a tree builder was set up", B(log.get("n", 0) >= 1))
    if not z.dead:
        c.ensure("success only if every step succeeded", And(g["init.ok"], Not(g["bad"]), g["fin.ok"]), st=z)
        c.ensure("success only if all of the data was covered", Eq(g["fed"], n), st=z)
        for j in range(32): c.ensure("success only if the root equals the expected root (byte %d)" % j, Eq(calc[j], c.get(root, j, 1, st=st0)), st=z)
    y = c.st.fork(); g = y.ghost
    y.assume(And(g["fin.ok"], *[Eq(calc[j], c.get(root, j, 1, st=st0)) for j in range(32)]))
    if not y.dead: c.ensure("a matching tree and root are accepted", ok, st=y)
    c.cover("success", And(ok, Ult(C64(9000), n))); c.cover("failure", Not(ok))

UNITS = [Unit("bpak_verify_merkle_tree", "C09", tree, SRC)]

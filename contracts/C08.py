from parts import *
import stdio, models
CONTRACT_INFO = dict(stdio.HASH_INFO, wr="the caller's write function: transfers n bytes at the given position, or reports something else than n", rd="the caller's read function: delivers n bytes from the given position, or reports something else than n")
SRC = ["lib/merkle.c"]
BLK = 4096
MC = ["running_hash", "buffer", "level_length", "level_offset", "no_of_levels", "input_chunk_counter", "block_byte_counter", "input_data_length", "hash_tree_length", "salt_length", "finished", "salt", "wr", "rd", "offset", "priv"]

class Geo:
    """the geometry of a tree over n bytes, from the definition: a level holds one digest per block of the level below"""
    def __init__(s, n):
        b = ZExt(Extract(n, 63, 12), 64); s.len = []; s.blocks = []
        for i in range(5):
            s.blocks.append(b)                                  # blocks below level i
            b = ZExt(Extract(Add(b, C64(127)), 63, 7), 64)       # one digest of 32 bytes per block, 128 to a block
            s.len.append(Concat(Extract(b, 51, 0), K(0, 12)))
        s.aligned = Eq(Extract(n, 11, 0), K(0, 12)); s.nonzero = Ne(n, C64(0))
        one = [Eq(l, C64(BLK)) for l in s.len]
        s.levels = lambda k: And(s.aligned, s.nonzero, one[k - 1], *[Not(o) for o in one[:k - 1]])       # exactly k levels
        s.ok = And(s.aligned, s.nonzero, Or(*one[:4]))
        t = s.len[0]; tot = None; s.total_k = []
        for i in range(4):
            tot = s.len[i] if tot is None else Add(tot, s.len[i]); s.total_k.append(tot)
        s.total = s.total_k[3]
        for i in (3, 2, 1): s.total = Ite(one[i - 1], s.total_k[i - 1], s.total)
        # first level of one block wins
    def off(s, k, i):
        """offset of level i of a tree with k levels"""
        return Sub(s.total_k[k - 1], s.total_k[i])

def fld(c): return {n: c.field("bpak_merkle_context", [i])[0] for i, n in enumerate(MC)}

def geometry(c):
    n = c.var("length", 64); g = Geo(n)
    rv = c.call("bpak_merkle_compute_size", n)
    c.ensure("the size is reported exactly for whole blocks and at most four levels", Iff(Sle(C64(0), rv), g.ok))
    for k in range(1, 5): c.ensure("the size is the sum of the levels (%d)" % k, Implies(g.levels(k), Eq(rv, g.total_k[k - 1])))
    for k in range(1, 5): c.cover("%d levels" % k, g.levels(k))
    c.cover("refused", Not(g.ok))

def callbacks(c, user):
    ex = c.ex
    def cb(name):
        def f(ex, st, a, rt):
            off, buf, n, u = a
            ex.oblige(st, veq(asptr(u), user), "callback", "the caller's user pointer is passed on")
            if st.dead: return C64(0)
            es = ex.access(st, asptr(buf), n, name + " buffer")
            if st.dead: return C64(0)
            r = Fresh(name, 64); st.assume(Sle(C64(-(1 << 31)), r)); ok = Eq(r, n)
            if name == "rd":
                rc = ex.flags["rd"](ex, st, off, Ptr(tuple(es)), n, ok)
            else: ex.flags["wr"](ex, st, off, Ptr(tuple(es)), n, ok)
            st.ghost["io.bad"] = Or(st.ghost["io.bad"], Not(ok))
            return r
        ex.contracts[name] = f
        return mkptr(ex.fn_obj(name))
    c.st.ghost["io.bad"] = F
    return cb("wr"), cb("rd")

def init(zero, k):
  def f(c):
    ex = c.ex; ex.unroll_max = 12; F_ = fld(c); size = ex.mods[0].size(("named", "struct.bpak_merkle_context"))
    ctx = c.obj("ctx", size, segs=[(0, F_["salt"]), (F_["salt"], F_["salt"] + 32), (F_["salt"] + 32, size)]); n = c.var("length", 64); salt = c.obj("salt", 64); sl = c.var("salt_length", 64); c.pre(Ule(sl, C64(64)))
    user = c.obj("user", 8); wr, rd = callbacks(c, user); off = ZExt(c.var("offset", 48), 64); g = Geo(n); gh = c.st.ghost
    c.pre(g.levels(k) if k else Not(g.ok)); total = g.total_k[k - 1] if k else C64(0)
    st0 = c.snapshot(); gh["zeroed"] = C64(0); W = c.var("wit", 64)
    def onwr(ex, st, o, b, m, ok):
        d = st.ghost["zeroed"]
        ex.oblige(st, And(Eq(o, Add(off, d)), Ult(C64(0), m), Ule(d, total), Ule(m, Sub(total, d))), "tree I/O", "zeroing stays inside the tree and goes front to back")
        z = st.fork(); z.assume(Ult(W, m))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, b, z, W), K(0, 8)), "tree I/O", "zeros are written")
        st.ghost["zeroed"] = Ite(ok, Add(d, m), d)
    ex.flags["wr"] = onwr; ex.flags["rd"] = lambda ex, st, *a: ex.oblige(st, F, "tree I/O", "nothing is read")
    def cands(ex, st, z, hv):
        d = z.ghost["zeroed"]; yield ("zeroed", Ule(d, total)); yield ("mod", Eq(Extract(d, 4, 0), K(0, 5))); yield ("good", Not(z.ghost["io.bad"]))
        for nm, v in ints64(ex, z): yield ("left " + nm, Eq(v, Sub(total, d))); yield ("pos " + nm, Eq(v, Add(off, d))); yield ("count " + nm, Eq(v, d))
    ex.loop_cands.append(cands); ex.check_term = True
    rv = c.call("bpak_merkle_init", ctx, n, salt, sl, wr, rd, off, B(zero), user); ok = eqi(rv, 0)
    z = c.st.fork(); z.assume(ok); rdf = lambda f_, i=0, m=8: c.get(ctx, F_[f_] + i, m, st=z)
    c.ensure("whole blocks, at most four levels and a salt that fits are needed", Implies(ok, And(g.ok, Ule(sl, C64(32)))))
    if not zero: c.ensure("nothing else is refused", Implies(And(g.ok, Ule(sl, C64(32))), ok))
    c.ensure("a failed write is reported", Implies(ok, Not(c.st.ghost["io.bad"])))
    if not z.dead and k:
        c.ensure("number of levels", Eq(rdf("no_of_levels", 0, 4), K(k, 32)), st=z)
        c.ensure("tree size", Eq(rdf("hash_tree_length"), total), st=z)
        for i in range(k):
            c.ensure("length of level %d" % i, Eq(rdf("level_length", 8 * i), g.len[i]), st=z)
            c.ensure("offset of level %d" % i, Eq(rdf("level_offset", 8 * i), g.off(k, i)), st=z)
        if zero: c.ensure("the whole tree is zeroed", Eq(z.ghost["zeroed"], total), st=z)
        c.ensure("the builder starts at a block boundary with nothing built", And(Eq(rdf("block_byte_counter"), C64(BLK)), Eq(rdf("input_chunk_counter"), C64(0)), Eq(rdf("finished", 0, 1), K(0, 8))), st=z)
        c.ensure("length, salt length, position and user pointer are kept", And(Eq(rdf("input_data_length"), n), Eq(rdf("salt_length"), sl), Eq(rdf("offset"), off), veq(c.get(ctx, F_["priv"], 8, ptr=True, st=z), user),
                 veq(c.get(ctx, F_["wr"], 8, ptr=True, st=z), wr), veq(c.get(ctx, F_["rd"], 8, ptr=True, st=z), rd)), st=z)
        y = z.fork(); y.assume(Ult(W, sl)); c.ensure("the salt is kept", Eq(byte_at(c, ctx, y, Add(C64(F_["salt"]), W)), byte_at(c, salt, st0, W)), st=y)
    c.cover("success", ok if k else Not(ok))
  return f

class Blocks:
    """ghost view of the hashing: every block is salt, then exactly 4096 bytes in order, then one digest that is stored or
    handed out as the root"""
    def __init__(s, c, ctx, F_, salt_len, user):
        s.c = c; s.ctx = ctx; s.F = F_; s.ex = c.ex; s.sl = salt_len; ex = c.ex; stdio.install_hash(ex); g = c.st.ghost; s.st0 = c.snapshot()
        s.W = c.var("wit", 64); s.D = c.var("wit.digest", 64); c.pre(Ult(s.D, C64(32)))
        s.k = "%d.%d" % (ctx.es[0][1], F_["running_hash"]); k = s.k
        ex.hstreams[k] = ex.new_obj(c.st, "stream", C64(1 << 62), "ghost")
        g["salted"] = F; g["ready"] = F; g["dig"] = K(0, 8); g["pos"] = C64(0); g["h.bad." + k] = F; g["h.len." + k] = C64(0); g["h.kind." + k] = K(1, 32); g["h.live." + k] = F; g["h.fin." + k] = F; g["h.runs." + k] = C64(0); g["rooted"] = F
        ex.flags["on_hash"] = s.on_hash
        def hinit(ex, st, a, rt):
            ex.oblige(st, And(Eq(a[1], K(1, 32)), Eq(st.ghost["pos"], C64(0)), Not(st.ghost["ready"])), "blocks", "a block starts with SHA-256 when the one before is done")
            st.ghost["salted"] = F
            r = stdio.c_hash_init(ex, st, a, rt); st.ghost["h.bad." + k] = Or(st.ghost.get("h.bad." + k, F), s.bad0(st)); st.ghost["h.len." + k] = C64(0); s.fail(st, r); return r
        def hupd(ex, st, a, rt):
            r = stdio.c_hash_update(ex, st, a, rt); s.fail(st, r); st.ghost["h.len." + k] = C64(0); st.ghost["h.bad." + k] = F; return r
        def hfin(ex, st, a, rt):
            ex.oblige(st, And(st.ghost["salted"], Eq(st.ghost["pos"], C64(BLK)), Ule(C64(32), a[2])), "blocks", "a digest is taken after salt and exactly 4096 bytes")
            if st.dead: return K(0, 32)
            s.target(st, asptr(a[1]))
            r = stdio.c_hash_final(ex, st, a, rt); s.fail(st, r)
            if st.dead: return r
            st.ghost["dig"] = byte_at(c, asptr(a[1]), st, s.D); st.ghost["pos"] = C64(0); st.ghost["salted"] = F
            s.finaled(st, Eq(r, K(0, 32))); return r
        ex.contracts.update(bpak_hash_init=hinit, bpak_hash_update=hupd, bpak_hash_final=hfin)
        g["fail"] = F
    def bad0(s, st): return F
    def fail(s, st, r):
        if not st.dead: st.ghost["fail"] = Or(st.ghost["fail"], Ne(r, K(0, 32)))
    def on_hash(s, ex, st, k, buf, n):
        c = s.c; g = st.ghost
        def salt(z):
            ex.oblige(z, Eq(n, s.sl), "blocks", "every block starts with the salt")
            y = z.fork(); y.assume(Ult(s.W, n))
            if not y.dead: ex.oblige(y, Eq(byte_at(c, buf, y, s.W), byte_at(c, s.ctx, s.st0, Add(C64(s.F["salt"]), s.W))), "blocks", "the bytes of the salt")
            z.ghost["salted"] = T
        def data(z):
            p = z.ghost["pos"]
            ex.oblige(z, And(Ule(p, C64(BLK)), Ule(n, Sub(C64(BLK), p))), "blocks", "at most 4096 bytes to a block")
            y = z.fork(); y.assume(Ult(s.W, n))
            if not y.dead: ex.oblige(y, Eq(byte_at(c, buf, y, s.W), s.expect(y, p)), "blocks", "the bytes of the block in order")
            z.ghost["pos"] = Add(p, n); s.advance(z, n)
        stdio.fork2(ex, st, g["salted"], data, salt)

def ctx_fields(c, ctx, F_, n, sl, user, wr, rd, off):
    c.set(ctx, F_["input_data_length"], 8, n); c.set(ctx, F_["salt_length"], 8, sl); c.set(ctx, F_["offset"], 8, off)
    c.set(ctx, F_["wr"], 8, wr); c.set(ctx, F_["rd"], 8, rd); c.set(ctx, F_["priv"], 8, user)

def context(c, n):
    ex = c.ex; F_ = fld(c); size = ex.mods[0].size(("named", "struct.bpak_merkle_context"))
    ctx = c.obj("ctx", size, segs=[(0, F_["buffer"]), (F_["buffer"], F_["buffer"] + 32), (F_["buffer"] + 32, F_["salt"]), (F_["salt"], F_["salt"] + 32), (F_["salt"] + 32, size)])
    sl = ZExt(c.var("salt_length", 6), 64); c.pre(Ule(sl, C64(32))); user = c.obj("user", 8); wr, rd = callbacks(c, user); off = ZExt(c.var("offset", 48), 64)
    ctx_fields(c, ctx, F_, n, sl, user, wr, rd, off)
    return ctx, F_, size, sl, user, off

def chunk(c):
    ex = c.ex; ex.lazy_branch = True
    nb = ZExt(c.var("blocks", 40), 64); n = MulC(nb, BLK); c.pre(Ne(nb, C64(0))); b0 = ZExt(c.var("blocks_done", 40), 64); r0 = ZExt(c.var("in_block", 12), 64)
    fed0 = Add(MulC(b0, BLK), r0); c.pre(Ule(fed0, n)); ln = ZExt(c.var("chunk", 53), 64); c.pre(Ule(ln, Sub(n, fed0)))
    ctx, F_, size, sl, user, off = context(c, n); lo = ZExt(c.var("level0_offset", 48), 64); c.set(ctx, F_["level_offset"], 8, lo)
    c.set(ctx, F_["block_byte_counter"], 8, Sub(C64(BLK), r0)); c.set(ctx, F_["input_chunk_counter"], 8, MulC(b0, 32))
    c.set(ctx, F_["finished"], 1, Ite(And(Eq(n, C64(BLK)), Eq(b0, C64(1))), K(1, 8), K(0, 8)))
    buf = c.obj("buffer", ln)
    B_ = Blocks(c, ctx, F_, sl, user); g = c.st.ghost; k = B_.k; st0 = B_.st0
    part = Ne(r0, C64(0)); g["salted"] = part; g["h.live." + k] = part; g["pos"] = r0; g["done"] = C64(0); g["blk"] = b0
    B_.expect = lambda y, p: byte_at(c, buf, st0, Add(y.ghost["done"], B_.W))
    def advance(z, m):
        ex.oblige(z, Ule(m, Sub(ln, z.ghost["done"])), "blocks", "only the bytes of the chunk are hashed"); z.ghost["done"] = Add(z.ghost["done"], m)
    B_.advance = advance
    B_.target = lambda st, p: None
    def finaled(st, ok): st.ghost["ready"] = ok
    B_.finaled = finaled
    def onwr(ex, st, o, b, m, ok):
        gg = st.ghost
        ex.oblige(st, And(gg["ready"], Eq(m, C64(32)), Eq(o, Add(off, Add(lo, MulC(gg["blk"], 32)))), Ult(gg["blk"], nb)), "tree I/O", "each digest goes to its own place in the lowest level")
        ex.oblige(st, Eq(byte_at(c, b, st, B_.D), gg["dig"]), "tree I/O", "the digest of the block is stored")
        gg["ready"] = F; gg["blk"] = Add(gg["blk"], C64(1))
    ex.flags["wr"] = onwr; ex.flags["rd"] = lambda ex, st, *a: ex.oblige(st, F, "tree I/O", "nothing is read")
    # every place is inside the level
    q = c.var("q", 64); c.lemma("all places are inside the lowest level", Implies(Ult(q, nb), Ule(Add(MulC(q, 32), C64(32)), Geo(n).len[0])))
    def cands(ex, st, z, hv):
        gg = z.ghost; d = gg["done"]; p = gg["pos"]
        yield ("done", Ule(d, ln)); yield ("pos", Ult(p, C64(BLK))); yield ("salted", Iff(gg["salted"], Ne(p, C64(0)))); yield ("live", Iff(gg["h.live." + k], Ne(p, C64(0))))
        yield ("blk", Ule(gg["blk"], nb)); yield ("fed", Eq(Add(MulC(gg["blk"], BLK), p), Add(fed0, d))); yield ("ready", Not(gg["ready"])); yield ("good", Not(Or(gg["fail"], gg["io.bad"])))
        for nm in ("block_byte_counter",): yield (nm, Eq(c.get(ctx, F_[nm], 8, st=z), Sub(C64(BLK), p)))
        yield ("icc", Eq(c.get(ctx, F_["input_chunk_counter"], 8, st=z), MulC(gg["blk"], 32)))
        yield ("fin", Eq(c.get(ctx, F_["finished"], 1, st=z), c.get(ctx, F_["finished"], 1, st=st0)))
        yield ("fin0", Implies(Eq(n, C64(BLK)), Eq(gg["blk"], b0)))
        for nm, v in ints64(ex, z): yield ("left " + nm, Eq(v, Sub(ln, d))); yield ("count " + nm, Eq(v, d))
        for nm, oid, o_, m, v in live_cells(ex, z):
            if isinstance(v, Ptr):
                for cc, o, f in v.es:
                    if o == buf.es[0][1]: yield ("ptr " + nm, Eq(f, d))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("bpak_merkle_write_chunk")
    rv = c.call("bpak_merkle_write_chunk", ctx, buf, ln); ok = eqi(rv, 0); z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("every failed hash step is reported", Implies(ok, Not(c.st.ghost["fail"]))); c.ensure("every failed or short write is reported", Implies(ok, Not(c.st.ghost["io.bad"])))
    if not z.dead:
        rd_ = lambda nm, m=8: c.get(ctx, F_[nm], m, st=z)
        c.ensure("the whole chunk was taken", Eq(g["done"], ln), st=z)
        c.ensure("the position inside the block is kept", And(Eq(rd_("block_byte_counter"), Sub(C64(BLK), g["pos"])), Ult(g["pos"], C64(BLK)), Eq(Add(MulC(g["blk"], BLK), g["pos"]), Add(fed0, ln))), st=z)
        c.ensure("every finished block has its digest stored", And(Not(g["ready"]), Eq(rd_("input_chunk_counter"), MulC(g["blk"], 32))), st=z)
        c.ensure("a block that is not complete keeps its hash running", And(Iff(g["h.live." + k], Ne(g["pos"], C64(0))), Iff(g["salted"], Ne(g["pos"], C64(0)))), st=z)
        c.ensure("finished exactly when the only block of the data is done", Iff(Ne(rd_("finished", 1), K(0, 8)), And(Eq(n, C64(BLK)), Eq(g["blk"], C64(1)))), st=z)
        y = z.fork(); y.assume(And(Eq(n, C64(BLK)), Eq(g["blk"], C64(1)), Ne(ln, C64(0))))
        if not y.dead: c.ensure("the digest of the only block is kept as the root", Eq(byte_at(c, ctx, y, Add(C64(F_["buffer"]), B_.D)), g["dig"]), st=y)
        keep = [(F_[f], F_[f] + m) for f, m in (("level_length", 32), ("level_offset", 32), ("no_of_levels", 4), ("input_data_length", 8), ("hash_tree_length", 8), ("salt_length", 8), ("salt", 32), ("wr", 8), ("rd", 8), ("offset", 8), ("priv", 8))]
        frame(c, "geometry, salt and callbacks are kept", ctx, st0, lambda q_: Not(Or(*[And(Ule(C64(a), q_), Ult(q_, C64(b))) for a, b in keep])), st=z)
    c.cover("success", And(ok, Ult(C64(9000), ln))); c.cover("failure", Not(ok))

def finish(k):
  def f(c):
    ex = c.ex; ex.unroll_max = 6
    n = c.var("length", 64); g0 = Geo(n); c.pre(g0.levels(k), Ne(n, C64(BLK)))
    ctx, F_, size, sl, user, off = context(c, n); rooth = c.obj("roothash", 32)
    c.set(ctx, F_["no_of_levels"], 4, K(k, 32)); c.set(ctx, F_["finished"], 1, K(0, 8)); c.set(ctx, F_["hash_tree_length"], 8, g0.total_k[k - 1])
    nbk = [c.var("blocks%d" % i, 34) for i in range(k)]; nbk = [ZExt(x, 64) for x in nbk]        # blocks of each level
    LO = [C64(0)] * k; acc = C64(0)
    for i in reversed(range(k)): LO[i] = acc; acc = Add(acc, MulC(nbk[i], BLK))
    for i in range(k):
        c.pre(Eq(MulC(nbk[i], BLK), g0.len[i])); c.set(ctx, F_["level_length"] + 8 * i, 8, MulC(nbk[i], BLK)); c.set(ctx, F_["level_offset"] + 8 * i, 8, LO[i])
    c.pre(Eq(nbk[k - 1], C64(1)), *[And(Ne(nbk[i], C64(0)), Ule(nbk[i], C64(1 << 21))) for i in range(k)])
    for i in range(1, k): c.lemma("the digests of level %d fit level %d" % (i - 1, i), Ule(MulC(nbk[i - 1], 32), MulC(nbk[i], BLK)))
    P = [C64(0)]
    for i in range(k - 1): P.append(Add(P[-1], nbk[i]))         # P[i]: blocks of the levels below i
    B_ = Blocks(c, ctx, F_, sl, user); g = c.st.ghost; hk = B_.k; st0 = B_.st0; g["T"] = C64(0)
    src = ex.new_obj(c.st, "tree", C64(1 << 62), "ghost"); tree0 = c.snapshot()
    def rdoff(t):
        r = Add(LO[k - 1], MulC(Sub(t, P[k - 1]), BLK))
        for i in reversed(range(k - 1)): r = Ite(Ult(t, P[i + 1]), Add(LO[i], MulC(Sub(t, P[i]), BLK)), r)
        return r
    def wroff(t):
        r = C64(-1)
        for i in reversed(range(k - 1)): r = Ite(Ult(t, P[i + 1]), Add(LO[i + 1], MulC(Sub(t, P[i]), 32)), r)
        return r
    B_.expect = lambda y, p: ex.base_read(tree0, tree0.mem[src].bases[0], Add(rdoff(y.ghost["T"]), Add(p, B_.W)))
    B_.advance = lambda z, m: None
    def target(st, p):
        root = Eq(st.ghost["T"], P[k - 1]); st.ghost["toroot"] = root
        ex.oblige(st, Implies(root, veq(p, rooth)), "blocks", "the digest of the top block goes to the caller")
    B_.target = target; g["toroot"] = F
    def finaled(st, ok):
        r = st.ghost["toroot"]; st.ghost["rooted"] = And(r, ok); st.ghost["ready"] = And(Not(r), ok)
    B_.finaled = finaled
    def onwr(ex, st, o, b, m, ok):
        gg = st.ghost
        ex.oblige(st, And(gg["ready"], Eq(m, C64(32))), "tree I/O", "each digest is stored once")
        ex.oblige(st, Ult(gg["T"], P[k - 1]), "tree I/O", "the root is not stored in the tree")
        ex.oblige(st, Eq(o, Add(off, wroff(gg["T"]))), "tree I/O", "each digest goes to its own place in the level above")
        ex.oblige(st, Eq(byte_at(c, b, st, B_.D), gg["dig"]), "tree I/O", "the digest of the block is stored")
        gg["ready"] = F; gg["T"] = Add(gg["T"], C64(1))
    def onrd(ex, st, o, b, m, ok):
        gg = st.ghost; t = gg["T"]
        ex.oblige(st, And(Ule(t, P[k - 1]), Ule(gg["pos"], C64(BLK)), Ule(m, Sub(C64(BLK), gg["pos"])), Eq(o, Add(off, Add(rdoff(t), gg["pos"])))), "tree I/O", "the blocks of the level below are read in order")
        if not st.dead: stdio.fork2(ex, st, ok, lambda z: stdio.raw_copy(ex, z, b, mkptr(src, Sub(o, off)), m, "rd"), lambda z: models.havoc_range(ex, z, b, m, "rd"))
    ex.flags["wr"] = onwr; ex.flags["rd"] = onrd
    def cands(ex, st, z, hv):
        stage = ".".join(str(v.val) for nm, oid, o_, m, v in live_cells(ex, z) if m == 4 and not isinstance(v, Ptr) and isc(v))     # refuted facts are remembered per unrolled level
        for key, t in cands_(ex, st, z, hv): yield (key + "/" + stage, t)
    def cands_(ex, st, z, hv):
        gg = z.ghost; t = gg["T"]; p = gg["pos"]
        yield ("T", Ule(t, P[k - 1])); yield ("pos", Ule(p, C64(BLK))); yield ("pos0", Eq(p, C64(0))); yield ("salted", gg["salted"]); yield ("live", gg["h.live." + hk]); yield ("ready", Not(gg["ready"])); yield ("good", Not(Or(gg["fail"], gg["io.bad"])))
        yield ("mod", Eq(Extract(p, 4, 0), K(0, 5))); yield ("pos<", Ult(p, C64(BLK)))
        for i in range(k):
            yield ("T>=%d" % i, Ule(P[i], t)); yield ("T==%d" % i, Eq(t, P[i]))
            if i: yield ("T<=%d" % i, Ule(t, P[i])); yield ("T<%d" % i, Ult(t, P[i]))
        for nm, oid, o_, m, v in live_cells(ex, z):
            if isinstance(v, Ptr) or m not in (4, 8): continue
            w = SExt(v, 64) if m == 4 else v
            yield ("count " + nm, Eq(w, p)); yield ("left " + nm, Eq(w, Sub(C64(BLK), p)))
            for i in range(k):
                yield ("blk%d %s" % (i, nm), Eq(w, Sub(t, P[i])))
                yield ("in%d %s" % (i, nm), Eq(w, Add(LO[i], MulC(Sub(t, P[i]), BLK)))); yield ("inp%d %s" % (i, nm), Eq(w, Add(LO[i], Add(MulC(Sub(t, P[i]), BLK), p))))
                if i + 1 < k: yield ("out%d %s" % (i, nm), Eq(w, Add(LO[i + 1], MulC(Sub(t, P[i]), 32))))
    ex.loop_cands.append(cands); ex.check_term = True
    rv = c.call("bpak_merkle_finish", ctx, rooth); ok = eqi(rv, 0); z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("every failed hash step is reported", Implies(ok, Not(c.st.ghost["fail"]))); c.ensure("every failed or short read or write is reported", Implies(ok, Not(c.st.ghost["io.bad"])))
    if not z.dead:
        c.ensure("every block of every level was hashed and stored", And(Eq(g["T"], P[k - 1]), Not(g["ready"])), st=z)
        c.ensure("the root is the digest of the top block", And(g["rooted"], Eq(byte_at(c, rooth, z, B_.D), g["dig"])), st=z)
    c.cover("success", ok); c.cover("failure", Not(ok))
  return f

def finish_done(c):
    n = C64(BLK); ctx, F_, size, sl, user, off = context(c, n); rooth = c.obj("roothash", 32); c.set(ctx, F_["finished"], 1, K(1, 8)); stdio.install_hash(c.ex)
    c.ex.flags["wr"] = c.ex.flags["rd"] = lambda ex, st, *a: ex.oblige(st, F, "tree I/O", "nothing is read or written")
    st0 = c.snapshot(); rv = c.call("bpak_merkle_finish", ctx, rooth); D = c.var("wit", 64); c.pre(Ult(D, C64(32)))
    c.ensure("success", eqi(rv, 0)); c.ensure("the root is the digest of the only block", Eq(byte_at(c, rooth, c.st, D), byte_at(c, ctx, st0, Add(C64(F_["buffer"]), D))))

UNITS = [Unit("bpak_merkle_compute_size", "C08", geometry, SRC)] + [Unit("bpak_merkle_init[%s%s]" % ("%d levels" % k if k else "refused", ", zero fill" if z else ""), "C08", init(z, k), SRC) for z in (0, 1) for k in range(5)] + [Unit("bpak_merkle_write_chunk", "C08", chunk, SRC), Unit("bpak_merkle_finish[one block]", "C08", finish_done, SRC)] + [Unit("bpak_merkle_finish[%d levels]" % k, "C08", finish(k), SRC) for k in range(1, 5)]

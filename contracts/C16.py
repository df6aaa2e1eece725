from parts import *
import stdio, models
CONTRACT_INFO = {"bpak_add_part": "C04: takes the first free slot and sets its id, or refuses without a change", "bpak_part_offset": "C04: position of the part in the file",
  "bpak_id": "C13: id of the name", "bpak_part_name_to_hash_tree_id": "C13: id of the name's hash tree", "bpak_pkg_update_hash": "C06: may fail; changes only the payload digest", "bpak_pkg_write_header": "C19: may fail; writes the header to the start of the file",
  "bpak_crypto_load_public_key": "C22: an error, or a key with its size", "bpak_add_meta": "C02: reserves an entry of the size asked for, or fails", "bpak_merkle_compute_size": "C08: tree size, or an error",
  "bpak_merkle_init": "C08: may fail", "bpak_merkle_write_chunk": "C08: takes the next bytes of the data, may fail", "bpak_merkle_finish": "C08: may fail; delivers the root and has written the tree", "bpak_pkg_add_file": "this property", "bpak_calloc": "zeroed memory or NULL (trusted: C library or the replacement the embedder installs)", "bpak_free": "releases it", "random": "any value"}
SRC = ["lib/pkg_create.c", "lib/pkg.c"]
ALIGN = 512

def world(c, k):
    """a package whose k used slots come first (as every operation leaves them; unused slots are zero)"""
    import terms; terms.FACTOR = True
    ex = c.ex; ex.lazy_branch = True; g = c.st.ghost
    p, hdr, f = package(c); po = p.es[0][1]; flags = c.var("flags", 8); pid = UF("id_of_name", 32)
    k = C64(k)
    s = [ZExt(c.var("size%d" % i, 40), 64) for i in range(NP)]; pad = [c.var("pad%d" % i, 16) for i in range(NP)]
    for i in range(NP):
        u = Ult(C64(i), k)
        idv = c.var("id%d" % i, 32) if i < k.val else Z32; c.pre(Iff(u, Ne(idv, Z32))); b = HDR + PART0 + PARTSZ * i
        c.set(p, b, 4, idv); c.set(p, b + 4, 8, Ite(u, s[i], C64(0))); c.set(p, b + 28, 2, Ite(u, pad[i], K(0, 16)))
    total = C64(4096)
    for i in range(NP): total = Add(total, Ite(Ult(C64(i), k), Add(s[i], ZExt(pad[i], 64)), C64(0)))
    slot = Add(C64(PART0), MulC(k, PARTSZ))
    end = ZExt(c.var("end_of_parts", 41), 64)      # C04: offset of the slot behind the used ones
    name = c.obj("part_name", 16)
    g["added"] = F; g["hash.ok"] = F; g["hdr.ok"] = F; g["hash.n"] = F
    def bid(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), name), "requires", "the id of the part name"); return pid
    def part_offset(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), veq(asptr(a[1]), mkptr(po, Add(C64(HDR), st.ghost["slot"])))), "requires", "the position of the new part"); return st.ghost["end"]
    ex.contracts.update(bpak_id=bid, bpak_part_offset=part_offset)
    g["slot"] = slot; g["end"] = end
    return p, hdr, f, po, flags, pid, k, s, pad, total, slot, end, name

def adder(c, w, id_, key="added"):
    p, hdr, f, po, flags, pid, k, s, pad, total, slot, end, name = w
    def add_part(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), Eq(a[1], id_), Not(st.ghost[key])), "requires", "one part with the id of the name is added")
        r = Fresh("add_part", 32); ok = Eq(r, K(0, 32))
        at = Add(C64(HDR), st.ghost["slot"])
        def go(z):
            ex.store(z, mkptr(po, at), 4, id_); ex.store(z, asptr(a[2]), 8, mkptr(po, at))
        stdio.fork2(ex, st, ok, go, lambda z: None)
        st.ghost[key] = ok; return r
    c.ex.contracts["bpak_add_part"] = add_part

def finishing(c, w, done):
    p, hdr, f, po = w[:4]
    def uh(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), p), isnull(asptr(a[1])), isnull(asptr(a[2]))), "requires", "the package's digest is updated")
        ex.oblige(st, done(st), "requires", "the digest is taken after the data was stored")
        models.havoc_range(ex, st, mkptr(po, HDR + OFF_PHASH), C64(64), "payload digest")
        rc = Fresh("update_hash", 32); st.ghost["hash.ok"] = Eq(rc, K(0, 32)); return rc
    def wh(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), p), st.ghost["hash.ok"]), "requires", "the header is written with the new digest")
        rc = Fresh("write_header", 32); st.ghost["hdr.ok"] = Eq(rc, K(0, 32)); return rc
    c.ex.contracts.update(bpak_pkg_update_hash=uh, bpak_pkg_write_header=wh)

def padding(n): return Extract(Sub(C64(0), n), 8, 0)

def check_entry(c, w, st, st0, n, npad, id_, slot, offset, more=lambda k: F):
    p, hdr, f, po, flags = w[:5]
    rd = lambda o, m: c.get(p, Add(C64(HDR + o), slot), m, st=st)
    c.ensure("the entry has the id of the name", Eq(rd(0, 4), id_), st=st)
    c.ensure("the entry has the size of the file", Eq(rd(4, 8), n), st=st)
    c.ensure("the entry has the padding up to the alignment", Eq(ZExt(rd(28, 2), 64), npad), st=st)
    c.ensure("the entry has the flags asked for", Eq(rd(30, 1), flags), st=st)
    c.ensure("the entry records where the data starts in the decoded package", Eq(rd(12, 8), offset), st=st)
    own = Add(C64(HDR), slot)
    frame(c, "nothing but the new entry and the payload digest changes", p, st0, lambda q: Or(And(Ule(own, q), Ult(q, Add(own, C64(PARTSZ)))), And(Ule(C64(HDR + OFF_PHASH), q), Ult(q, C64(HDR + OFF_PHASH + 64))), more(q)), st=st)

def tape_cands(c, f, n, base, key="tape", src=None):
    def fn(ex, st, z, hv):
        d = z.ghost[key]; P = stdio.G(z, "pos", f)
        yield ("pos", Eq(P, Add(base, d))); yield ("done", Ule(d, n))
        if src is not None: yield ("src", Eq(stdio.G(z, "pos", src), d))
        for nm, v in ints64(ex, z):
            yield ("left " + nm, Eq(v, Sub(n, d))); yield ("count " + nm, Eq(v, d)); yield ("abs " + nm, Eq(v, Add(base, d)))
    c.ex.loop_cands.append(fn); c.ex.check_term = True

def stat_model(c, fname, n, exists):
    def f(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), fname), "requires", "the size of the file named")
        models.havoc_range(ex, st, a[1], C64(144), "stat"); b = asptr(a[1])
        ex.store(st, Ptr(tuple((cc, o, Add(x, C64(48))) for cc, o, x in b.es)), 8, n)
        r = Fresh("stat", 32); st.assume(Iff(Eq(r, K(0, 32)), exists)); return r
    c.ex.models["stat"] = f

def add_file(k):
  def f_(c):
      ex = c.ex; w = world(c, k); p, hdr, f, po, flags, pid, _, s, pad, total, slot, end, name = w
      adder(c, w, pid); n = ZExt(c.var("file_size", 40), 64); fname = c.obj("filename", 16); exists = c.var("exists", 0); stat_model(c, fname, n, exists)
      c.assume_note("file and part sizes up to 2^40, offsets up to 2^41 bytes")
      npad = ZExt(padding(n), 64)
      fi = stdio.new_file(ex, c.st, "in", None, C64(0), open_=F).es[0][1]
      def fopen(ex, st, nm, md):
          ex.oblige(st, veq(asptr(nm), fname), "requires", "the named file is read"); ex.oblige(st, B(md in (b"r", b"rb")), "requires", "and only read"); return mkptr(fi)
      ex.flags["fopen"] = fopen
      st0 = c.snapshot()
      data = lambda z, q: Ite(Ult(q, n), ex.base_read(st0, st0.mem[ex.files[fi]].bases[0], q), K(0, 8))
      lim = Add(n, npad); tape(c, f, data, lim, end); tape_cands(c, f, n, end, src=fi); ex.force_inv.add("bpak_pkg_add_file.loop")
      ex.on_write[fi] = lambda ex, st, b, pos, m: ex.oblige(st, Eq(m, C64(0)), "requires", "the input file is not written")
      finishing(c, w, lambda st: Eq(st.ghost["tape"], lim))
      rv = c.call("bpak_pkg_add_file", p, fname, name, flags); ok = eqi(rv, 0); z = c.st.fork(); z.assume(ok); g = z.ghost
      c.ensure("success only for a file that exists and a part that could be added", Implies(ok, And(exists, c.st.ghost["added"])))
      if not z.dead:
          c.ensure("success only if the digest and the header were brought up to date", And(g["hash.ok"], g["hdr.ok"]), st=z)
          c.ensure("all bytes and the padding were stored", Eq(g["tape"], lim), st=z)
          check_entry(c, w, z, st0, n, npad, pid, slot, total)
      c.ensure("the input file is closed", Not(stdio.G(c.st, "open", fi)))
      c.cover("success", And(ok, Ult(C64(5000), n))); c.cover("failure", Not(ok))
  return f_

def add_key(k):
  def f_(c):
      ex = c.ex; w = world(c, k); p, hdr, f, po, flags, pid, _, s, pad, total, slot, end, name = w
      adder(c, w, pid); fname = c.obj("filename", 16); loaded = c.var("loaded", 0); n = ZExt(c.var("key_size", 16), 64)
      c.assume_note("keys up to 65535 bytes")
      import llir
      m = ex.mods[0]; hs = m.size(("named", "struct.bpak_key")); osz = c.field("bpak_key", [1])[0]
      key = ex.new_obj(c.st, "key", Add(C64(hs), n), "heap"); c.set(mkptr(key), osz, 2, Extract(n, 15, 0))
      st0 = c.snapshot()
      def load(ex, st, a, rt):
          ex.oblige(st, veq(asptr(a[0]), fname), "requires", "the key file named")
          ex.store(st, asptr(a[1]), 8, pnorm([(loaded, key, C64(0)), (Not(loaded), 0, C64(0))]))
          r = Fresh("load_key", 32); st.assume(Iff(Eq(r, K(0, 32)), loaded)); return r
      ex.contracts["bpak_crypto_load_public_key"] = load
      npad = ZExt(padding(n), 64); doff = c.field("bpak_key", [4])[0]
      data = lambda z, q: Ite(Ult(q, n), ex.base_read(st0, st0.mem[key].bases[0], Add(C64(doff), q)), K(0, 8))
      lim = Add(n, npad); tape(c, f, data, lim, end); tape_cands(c, f, n, end)
      finishing(c, w, lambda st: Eq(st.ghost["tape"], lim))
      rv = c.call("bpak_pkg_add_key", p, fname, name, flags); ok = eqi(rv, 0); z = c.st.fork(); z.assume(ok); g = z.ghost
      c.ensure("success only for a key that could be loaded and a part that could be added", Implies(ok, And(loaded, c.st.ghost["added"])))
      if not z.dead:
          c.ensure("success only if the digest and the header were brought up to date", And(g["hash.ok"], g["hdr.ok"]), st=z)
          c.ensure("the key and the padding were stored", Eq(g["tape"], lim), st=z)
          check_entry(c, w, z, st0, n, npad, pid, slot, total)
      z = c.st.fork(); z.assume(loaded); c.ensure("the loaded key is released", z.mem[key].freed, st=z)
      c.cover("success", And(ok, Ult(C64(600), n))); c.cover("failure", Not(ok))
  return f_

def add_tree(k):
  """file + hash tree: bpak_pkg_add_file by contract (slot k), then the tree goes to slot k+1"""
  def f_(c):
    ex = c.ex; w = world(c, k); p, hdr, f, po, flags, pid, _, s, pad, total, slot, end, name = w
    g = c.st.ghost; tid = UF("id_of_tree_name", 32)
    n = ZExt(c.var("file_size", 40), 64); fname = c.obj("filename", 16); exists = c.var("exists", 0); stat_model(c, fname, n, exists)
    c.assume_note("file and part sizes up to 2^40, offsets up to 2^41 bytes")
    fi = stdio.new_file(ex, c.st, "in", None, C64(0), open_=F).es[0][1]
    def fopen(ex, st, nm, md):
        ex.oblige(st, veq(asptr(nm), fname), "requires", "the named file is read"); ex.oblige(st, B(md in (b"r", b"rb")), "requires", "and only read"); return mkptr(fi)
    ex.flags["fopen"] = fopen; ex.on_write[fi] = lambda ex, st, b, pos, m: ex.oblige(st, Eq(m, C64(0)), "requires", "the input file is not written")
    ts = ZExt(c.var("tree_size", 40), 64); fits = c.var("tree_size_ok", 0); c.pre(Ule(C64(4096), ts))
    def csize(ex, st, a, rt):
        ex.oblige(st, Eq(a[0], n), "requires", "the tree of a file of this size"); e = Fresh("size.err", 64); st.assume(And(Slt(e, C64(0)), Sle(C64(-4096), e))); return Ite(fits, ts, e)
    for q in ("file.ok", "init.ok", "fin.ok", "bad", "salt.ok", "root.ok"): g[q] = F
    g["fed"] = C64(0); g["end2"] = ZExt(c.var("end2", 41), 64)
    npad = ZExt(padding(n), 64); slot2 = C64(PART0 + PARTSZ * (k + 1)); st0 = c.snapshot()
    def addf(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), p), veq(asptr(a[1]), fname), veq(asptr(a[2]), name), Eq(a[3], flags)), "requires", "the file is added under the given name")
        r = Fresh("add_file", 32); ok = Eq(r, K(0, 32)); st.ghost["file.ok"] = ok
        at = HDR + PART0 + PARTSZ * k
        for o, m, v in ((0, 4, pid), (4, 8, n), (12, 8, total), (28, 2, ZExt(padding(n), 16)), (30, 1, flags)): ex.store(st, mkptr(po, at + o), m, v)
        st.ghost["slot"] = slot2; st.ghost["end"] = st.ghost["end2"]
        return r
    log = {}
    def init(ex, st, a, rt):
        ex.oblige(st, And(Eq(a[1], n), Eq(a[3], C64(32)), Eq(a[6], C64(0)), fits), "requires", "the tree covers the whole file and starts its own buffer")
        es = ex.access(st, asptr(a[2]), C64(32), "salt")
        if st.dead: return K(0, 32)
        buf = asptr(a[8]); ex.access(st, buf, ts, "tree buffer")
        if st.dead: return K(0, 32)
        log["salt"] = [ex.load(st, Ptr(tuple((cc, o, Add(x, C64(j))) for cc, o, x in es)), 1) for j in range(32)]; log["buf"] = buf
        zf = a[7] if a[7].w == 0 else Eq(Extract(a[7], 0, 0), K(1, 1))
        W = Fresh("zero.wit", 64); z = st.fork(); z.assume(Ult(W, ts)); z.assume(Not(zf))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, Ptr(tuple(e for e in buf.es if e[1])), z, W), K(0, 8)), "requires", "a tree buffer that is not zeroed by the callee is zero")
        # the callbacks serve the buffer
        off = Fresh("io.off", 64); m = Fresh("io.n", 64); W = Fresh("io.wit", 64)
        for nm, cb in (("write", a[4]), ("read", a[5])):
            z = st.fork(); z.assume(Ule(off, ts)); z.assume(Ule(m, Sub(ts, off))); z.assume(Ule(m, C64(4096)))
            b = mkptr(ex.new_obj(z, "io.buf", C64(4096), "ghost")); b0 = z.fork()
            r = ex.call_ptr(z, asptr(cb), [off, b, m, buf], ("int", 64), ex.mods[0])
            if z.dead: continue
            ex.oblige(z, Eq(r, m), "callback", nm + ": all bytes are reported")
            z.assume(Ult(W, m)); tgt = Ptr(tuple((cc, o, Add(x, off)) for cc, o, x in buf.es if o))
            if not z.dead:
                x, y = byte_at(c, b, z, W), byte_at(c, tgt, z, W)
                ex.oblige(z, Eq(x, y), "callback", nm + ": the bytes at the offset in the tree buffer are transferred")
                ex.oblige(z, Eq(byte_at(c, b, b0, W), x) if nm == "write" else Eq(byte_at(c, tgt, b0, W), y), "callback", nm + ": in the right direction")
        r = Fresh("merkle_init", 32); st.ghost["init.ok"] = Eq(r, K(0, 32)); return r
    W = c.var("wit.fed", 64)
    def chunk(ex, st, a, rt):
        d = st.ghost["fed"]; m = a[2]
        es = ex.access(st, asptr(a[1]), m, "data chunk")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(st.ghost["init.ok"], Ule(d, n), Ule(m, Sub(n, d))), "tree data", "the tree is fed the file's bytes only")
        z = st.fork(); z.assume(Ult(W, m))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, Ptr(tuple(es)), z, W), ex.base_read(st0, st0.mem[ex.files[fi]].bases[0], Add(d, W))), "tree data", "in order")
        st.ghost["fed"] = Add(d, m); r = Fresh("write_chunk", 32); st.ghost["bad"] = Or(st.ghost["bad"], Ne(r, K(0, 32))); return r
    def finish(ex, st, a, rt):
        ex.access(st, asptr(a[1]), C64(32), "root hash")
        if st.dead: return K(0, 32)
        r = Fresh("merkle_finish", 32)
        ex.oblige(st, And(Eq(st.ghost["fed"], n), Not(st.ghost["bad"])), "tree data", "the tree is finished over all of the file's bytes, only when every step succeeded")
        models.havoc_range(ex, st, a[1], C64(32), "root"); models.havoc_range(ex, st, Ptr(tuple(e for e in log["buf"].es if e[1])), ts, "tree")
        log["root"] = [ex.load(st, Ptr(tuple((cc, o, Add(x, C64(j))) for cc, o, x in asptr(a[1]).es)), 1) for j in range(32)]
        st.ghost["fin.ok"] = Eq(r, K(0, 32)); log["tree"] = st.fork(); return r
    ms = [MulC(ZExt(c.var("meta%d" % i, 5), 64), METASZ) for i in range(2)]; mo = [c.var("meta_off%d" % i, 16) for i in range(2)]
    c.pre(Ne(ms[0], ms[1]), *[Ule(ZExt(o, 64), C64(DATASZ - 32)) for o in mo]); c.pre(Or(Ule(Add(ZExt(mo[0], 64), C64(32)), ZExt(mo[1], 64)), Ule(Add(ZExt(mo[1], 64), C64(32)), ZExt(mo[0], 64))))
    seen = []
    def add_meta(ex, st, a, rt):
        if not isc(a[1]): raise Unsupported("bpak_add_meta id")
        i = {0x7c9b2f93: 0, 0xe68fc9be: 1}.get(a[1].val)
        if i is None: ex.oblige(st, F, "requires", "only salt and root hash are added"); return K(0, 32)
        key = ("salt.ok", "root.ok")[i]
        ex.oblige(st, And(veq(asptr(a[0]), hdr), Eq(a[2], pid), Eq(ZExt(a[3], 64), C64(32)), Not(st.ghost[key])), "requires", "one 32 byte entry that refers to the part")
        r = Fresh("add_meta", 32); ok = Eq(r, K(0, 32)); at = Add(C64(HDR + META0), ms[i])
        def go(z):
            for o, m, v in ((0, 4, a[1]), (4, 2, K(32, 16)), (6, 2, mo[i]), (8, 4, pid)): ex.store(z, mkptr(po, Add(at, C64(o))), m, v)
            if not isnull(asptr(a[4])) is T: ex.store(z, asptr(a[4]), 8, mkptr(po, at))
        stdio.fork2(ex, st, ok, go, lambda z: None); st.ghost[key] = ok; return r
    def tree_id(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), name), "requires", "the tree id of the part name"); return tid
    ex.contracts.update(bpak_merkle_compute_size=csize, bpak_pkg_add_file=addf, bpak_merkle_init=init, bpak_merkle_write_chunk=chunk, bpak_merkle_finish=finish, bpak_add_meta=add_meta, bpak_part_name_to_hash_tree_id=tree_id)
    ex.contracts["bpak_calloc"] = models.m_calloc; ex.contracts["bpak_free"] = models.m_free
    ex.models["random"] = lambda ex, st, a, rt: Fresh("random", 64)
    adder(c, w, tid)
    expect = lambda z, q: byte_at(c, Ptr(tuple(e for e in log["buf"].es if e[1])), log["tree"], q)
    tape(c, f, expect, ts, g["end2"])
    def cands(ex, st, z, hv):
        d = z.ghost["fed"]; yield ("fed", Ule(d, n)); yield ("src", Eq(stdio.G(z, "pos", fi), d)); yield ("good", Not(z.ghost["bad"]))
        for nm, v in ints64(ex, z): yield ("left " + nm, Eq(v, Sub(n, d))); yield ("count " + nm, Eq(v, d))
    ex.loop_cands.append(cands); ex.check_term = True
    finishing(c, w, lambda st: And(Eq(st.ghost["tape"], ts), st.ghost["salt.ok"], st.ghost["root.ok"], st.ghost["added"]))
    rv = c.call("bpak_pkg_add_file_with_merkle_tree", p, fname, name, flags); ok = eqi(rv, 0); z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("success only if every step succeeded", Implies(ok, And(exists, fits, *[c.st.ghost[q] for q in ("file.ok", "init.ok", "fin.ok", "salt.ok", "root.ok", "added", "hash.ok", "hdr.ok")])))
    if not z.dead:
        c.ensure("the whole tree was stored", Eq(g["tape"], ts), st=z)
        total2 = Add(total, Add(n, npad))
        inmeta = lambda q: Or(And(Ule(C64(HDR + META0), q), Ult(q, C64(HDR + PART0))), And(Ule(C64(HDR + DATA0), q), Ult(q, C64(HDR + DATA0 + DATASZ))), And(Ule(C64(HDR + PART0 + PARTSZ * k), q), Ult(q, C64(HDR + PART0 + PARTSZ * k + PARTSZ))))
        check_entry(c, w, z, st0, ts, C64(0), tid, slot2, total2, more=inmeta)
        for i, key in ((0, "salt"), (1, "root")):
            for j in (0, 13, 31): c.ensure("the %s is recorded (byte %d)" % (key, j), Eq(c.get(p, Add(C64(HDR + DATA0 + j), ZExt(mo[i], 64)), 1, st=z), log[key][j]), st=z)
    z = c.st.fork(); z.assume(c.st.ghost["file.ok"]); c.ensure("the input file is closed", Not(stdio.G(z, "open", fi)), st=z)
    c.cover("success", And(ok, Ult(C64(9000), n))); c.cover("failure", Not(ok))
  return f_

UNITS = [Unit("bpak_pkg_add_file[%d]" % k, "C16", add_file(k), SRC) for k in range(NP)] + [Unit("bpak_pkg_add_key[%d]" % k, "C16", add_key(k), SRC) for k in range(NP)] + [Unit("bpak_pkg_add_file_with_merkle_tree[%d]" % k, "C16", add_tree(k), SRC) for k in range(NP - 1)]

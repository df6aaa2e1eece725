from parts import *
import stdio, models
CONTRACT_INFO = {"bpak_get_meta": "C04: an error and NULL, or the entry found", "bpak_part_offset": "C02: position of the part in its package", "bpak_part_size": "C02: stored size of the part",
  "bpak_bspatch_init": "C10", "bpak_bspatch_write": "C10", "bpak_bspatch_final": "C10", "bpak_bspatch_free": "C10: releases the decompressor", "merkle_generate": "proved by unit generating a hash tree",
  "bpak_get_part": "C04", "bpak_hash_tree_id_to_part_id": "C13: 0 or the id of the part the tree belongs to", "bpak_merkle_init": "C08", "bpak_merkle_write_chunk": "C08", "bpak_merkle_finish": "C08", "bpak_merkle_get_size": "C08",
  "out": "the caller's function writing the output: negative on error, otherwise the number of bytes taken", "rd": "the caller's function reading the output", "ro": "the caller's function reading the origin", "hd": "the caller's function writing the output header"}
SRC = ["lib/transport_decode.c"]
FN = ["buffer", "buffer_length", "patch_header", "origin_header", "part", "write_output", "read_output", "read_origin", "write_output_header", "decoder_id", "copy_offset", "output_offset", "origin_offset", "decoders", "user"]
PACKAGE, TRANSPORT, SALT = 0xfb2f1f3f, 0x2d44bbfb, 0x7c9b2f93
METHODS = {0xb5964388: 1, 0x75622592: 0, 0x933a9893: 2}      # bspatch, bspatch-no-comp, bspatch-lzma -> compression
MERKLE = 0xb5bcc58f
S = "struct bpak_header"

class Dec:
    def __init__(s, c):
        ex = s.ex = c.ex; s.c = c; s.L = {n: c.field("bpak_transport_decode", [i]) for i, n in enumerate(FN)}; size = ex.mods[0].size(("named", "struct.bpak_transport_decode"))
        s.ctx = c.obj("ctx", size); s.hdr = c.struct("bpak_header", "patch"); s.org = c.struct("bpak_header", "origin"); s.user = c.obj("user", 8)
        s.bl = ZExt(c.var("buffer_length", 48), 64); s.buf = c.obj("buffer", s.bl); s.oo, s.wo = c.var("origin_offset", 64), c.var("output_offset", 64)
        for v in (s.oo, s.wo): c.pre(Ule(v, C64(1 << 60)))
        s.k = c.var("slot", 64); c.pre(valid_slot(s.k)); s.t = Table(c, s.hdr); s.part = mkptr(s.hdr.es[0][1], s.k); g = c.st.ghost; g["bad"] = F; g["heads"] = C64(0)
        for n, v in (("buffer", s.buf), ("buffer_length", s.bl), ("patch_header", s.hdr), ("origin_header", NULL), ("part", s.part), ("output_offset", s.wo), ("origin_offset", s.oo), ("user", s.user), ("read_origin", NULL)): s.set(n, v)
        for n, f in (("write_output", "out"), ("read_output", "rd"), ("write_output_header", "hd")): s.set(n, mkptr(ex.fn_obj(f)))
        ex.contracts["hd"] = s.head
        for f in ("out", "rd", "ro"): ex.contracts[f] = lambda ex, st, a, rt: ex.oblige(st, F, "callback", "not called here") or C64(0)
        s.poff = c.var("part_offset", 64); s.opoff = c.var("part_offset_in_origin", 64); s.psize = c.var("part_size", 64)
        for v in (s.poff, s.opoff): c.pre(Ule(C64(4096), v), Ule(v, C64(1 << 60)))
        c.pre(Ule(s.psize, C64(1 << 60))); ex.contracts["bpak_part_offset"] = s.offset; ex.contracts["bpak_part_size"] = s.size
    def set(s, f, v): o, n = s.L[f]; s.c.set(s.ctx, o, n, v)
    def get(s, f, st=None, ptr=False): o, n = s.L[f]; return s.c.get(s.ctx, o, n, ptr=ptr, st=st or s.c.st)
    def sub(s): return Ptr(tuple((cc, o, Add(f, C64(s.L["decoders"][0]))) for cc, o, f in s.ctx.es))
    def head(s, ex, st, a, rt):
        g = st.ghost; ex.oblige(st, And(Eq(a[0], C64(0)), veq(asptr(a[1]), s.hdr), Eq(a[2], C64(4096)), veq(asptr(a[3]), s.user)), "callback", "the header is written to the beginning of the output")
        r = Fresh("hd", 64); st.assume(Or(Sle(C64(0), r), Sle(C64(-(1 << 31)), r))); g["bad"] = Or(g["bad"], Ne(r, C64(4096))); g["heads"] = Add(g["heads"], C64(1)); g["hdflags"] = s.flags(st); g["hdtsize"] = s.tsize(st); return r
    def flags(s, st): return byte_at(s.c, s.part, st, C64(30))
    def tsize(s, st): return FromBytes([byte_at(s.c, s.part, st, C64(20 + i)) for i in range(8)])
    def offset(s, ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[1]), s.part), "requires", "the part being decoded"); h = asptr(a[0]); ex.oblige(st, Or(veq(h, s.hdr), veq(h, s.org)), "requires", "one of the headers"); return Ite(veq(h, s.org), s.opoff, s.poff)
    def size(s, ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), s.part), "requires", "the part being decoded"); return s.psize
    def lookup(s, specs):
        """bpak_get_meta by contract: specs = [(header, id, reference, found, slot)]"""
        def f(ex, st, a, rt):
            h = asptr(a[0]); ex.oblige(st, Or(*[And(veq(h, x[0]), Eq(a[1], K(x[1], 32)), Eq(a[2], x[2])) for x in specs]), "requires", "the metadata of this part and package"); r = Fresh("get_meta", 32); st.assume(Sle(r, K(0, 32)))
            es = []; fd = F
            for i, (hh, ident, ref, found, slot) in enumerate(specs):
                m = And(veq(h, hh), Eq(a[1], K(ident, 32))); es.append((And(m, found), hh.es[0][1], slot)); fd = Or(fd, And(m, found))
            es.append((Not(fd), 0, C64(0))); ex.store(st, asptr(a[3]), 8, pnorm(es)); st.assume(Iff(eqi(r, 0), fd)); return r
        s.ex.contracts["bpak_get_meta"] = f
    def entry(s, nm, hdr, need):
        """a metadata entry of an accepted header (C01), large enough for its kind -> (found, slot, data offset in the header)"""
        c = s.c; found = c.var(nm + ".found", 0); slot = c.var(nm + ".slot", 64); c.pre(Ule(C64(META0), slot), Ult(slot, C64(PART0)), Eq(Extract(slot, 3, 0), K(META0 % 16, 4)))
        st0 = c.snapshot(); sz = FromBytes([byte_at(c, hdr, st0, Add(slot, C64(4 + i))) for i in range(2)]); off = FromBytes([byte_at(c, hdr, st0, Add(slot, C64(6 + i))) for i in range(2)])
        c.pre(Ule(C64(need), ZExt(sz, 64)), Ule(Add(ZExt(sz, 64), ZExt(off, 64)), C64(DATASZ))); c.assume_note("metadata entries lie inside the metadata area and are large enough for their kind"); return found, slot, Add(C64(DATA0), ZExt(off, 64))

def init(c):
    d = Dec(c); ex = c.ex; fns = [mkptr(ex.fn_obj(f)) for f in ("out", "rd", "hd")]; rv = c.call("bpak_transport_decode_init", d.ctx, d.buf, d.bl, d.hdr, fns[0], fns[1], d.wo, fns[2], d.user)
    c.ensure("always succeeds", eqi(rv, 0))
    for f, v in (("buffer", d.buf), ("patch_header", d.hdr), ("write_output", fns[0]), ("read_output", fns[1]), ("write_output_header", fns[2]), ("user", d.user), ("read_origin", NULL), ("origin_header", NULL)): c.ensure("set up as asked for (%s)" % f, veq(d.get(f, ptr=True), v))
    for f, v in (("buffer_length", d.bl), ("output_offset", d.wo)): c.ensure("set up as asked for (%s)" % f, Eq(d.get(f), v))
    c.cover("returns")

def origin(c):
    d = Dec(c); ex = c.ex; fo, so, oo = d.entry("origin id", d.org, 16); fp, sp, po = d.entry("patch id", d.hdr, 16); d.lookup([(d.org, PACKAGE, K(0, 32), fo, so), (d.hdr, PACKAGE, K(0, 32), fp, sp)])
    off = c.var("new_origin_offset", 64); ro = mkptr(ex.fn_obj("ro")); st0 = c.snapshot(); same = And(*[Eq(byte_at(c, d.org, st0, Add(oo, C64(i))), byte_at(c, d.hdr, st0, Add(po, C64(i)))) for i in range(16)])
    rv = c.call("bpak_transport_decode_set_origin", d.ctx, d.org, ro, off); ok = eqi(rv, 0)
    c.ensure("an origin without the package id is refused", Implies(ok, fo)); c.ensure("a patch without the package id takes no origin", Implies(ok, fp)); c.ensure("an origin with another package id is refused", Implies(ok, same)); c.ensure("an origin with the same package id is taken", Implies(And(fo, fp, same), ok))
    c.ensure("a refused origin is not used", Implies(Not(ok), And(veq(d.get("read_origin", ptr=True), NULL), veq(d.get("origin_header", ptr=True), NULL))))
    c.ensure("an accepted origin is used", Implies(ok, And(veq(d.get("read_origin", ptr=True), ro), veq(d.get("origin_header", ptr=True), d.org), Eq(d.get("origin_offset"), off))))
    for h, n in ((d.org, "origin"), (d.hdr, "patch")): c.ensure("the %s header is only read" % n, mem_ident(c, h, st0))
    c.cover("taken", ok); c.cover("refused", And(Not(ok), fo, fp))

def start(c):
    d = Dec(c); ex = c.ex; have = c.var("has origin", 0); ro = mkptr(ex.fn_obj("ro")); pid = FromBytes([byte_at(c, d.part, c.st, C64(i)) for i in range(4)])
    c.set(d.ctx, d.L["read_origin"][0], 8, vite(have, ro, NULL)); c.set(d.ctx, d.L["origin_header"][0], 8, vite(have, d.org, NULL)); f, s, o = d.entry("transport", d.hdr, 32); d.lookup([(d.hdr, TRANSPORT, pid, f, s)])
    st0 = c.snapshot(); alg = FromBytes([byte_at(c, d.hdr, st0, Add(o, C64(4 + i))) for i in range(4)]); coded = Ne(BAnd(d.flags(st0), K(2, 8)), K(0, 8)); m = Ite(And(coded, f), alg, K(0, 32)); g = c.st.ghost; g["inits"] = C64(0); g["init.ok"] = F
    def bs(ex, st, a, rt):
        g = st.ghost; comp = K(3, 32)
        for k, v in METHODS.items(): comp = Ite(Eq(m, K(k, 32)), K(v, 32), comp)
        P = lambda i, v: veq(asptr(a[i]), v)
        ex.oblige(st, And(P(0, d.sub()), P(1, d.buf), Eq(a[2], d.bl)), "callback", "the work buffer is handed to the patcher"); ex.oblige(st, Eq(a[3], d.psize), "callback", "the length of the patch is the stored size of the part")
        ex.oblige(st, And(P(4, ro), Eq(a[5], Add(Sub(d.opoff, C64(4096)), d.oo))), "callback", "the origin is the part's own data in the origin package"); ex.oblige(st, And(P(6, mkptr(ex.fn_obj("out"))), Eq(a[7], Add(Sub(d.poff, C64(4096)), d.wo))), "callback", "the output goes to the part's own position")
        ex.oblige(st, And(Eq(a[8], comp), P(9, d.user)), "callback", "the compression the metadata names"); r = Fresh("bspatch_init", 32); g["inits"] = Add(g["inits"], C64(1)); g["init.ok"] = eqi(r, 0); return r
    ex.contracts["bpak_bspatch_init"] = bs
    rv = c.call("bpak_transport_decode_start", d.ctx, d.part); ok = eqi(rv, 0); g = c.st.ghost; patch = Or(*[Eq(m, K(k, 32)) for k in METHODS])
    c.ensure("the header was written", Implies(ok, And(Not(g["bad"]), Eq(g["heads"], C64(1))))); c.ensure("unknown methods are refused", Implies(ok, Or(patch, eqi(m, MERKLE), eqi(m, 0)))); c.ensure("patching needs an origin", Implies(And(ok, patch), have))
    c.ensure("the patcher is set up", Implies(And(ok, patch), And(Eq(g["inits"], C64(1)), g["init.ok"]))); c.ensure("the method is the one the metadata names", Implies(ok, And(Eq(d.get("decoder_id"), m), veq(d.get("part", ptr=True), d.part)))); c.ensure("copying starts at the beginning", Implies(And(ok, eqi(m, 0)), Eq(d.get("copy_offset"), C64(0))))
    c.ensure("what can be decoded is accepted", Implies(And(Not(g["bad"]), Or(eqi(m, 0), eqi(m, MERKLE), And(patch, have, g["init.ok"]))), ok)); c.ensure("the header is only read", mem_ident(c, d.hdr, st0))
    c.cover("patch", And(ok, patch)); c.cover("copy", And(ok, eqi(m, 0))); c.cover("refused", Not(ok))

def chunk(c):
    d = Dec(c); ex = c.ex; n = ZExt(c.var("length", 60), 64); b = c.obj("chunk", n); m = c.var("method", 32); d.set("decoder_id", m); co = c.var("copied", 64); c.pre(Ule(co, C64(1 << 60))); d.set("copy_offset", co); g = c.st.ghost; g["calls"] = C64(0); g["rc"] = K(0, 32); g["w"] = C64(0); g["ws"] = C64(0); st0 = c.snapshot()
    def bs(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), d.sub()), veq(asptr(a[1]), b), Eq(a[2], n)), "callback", "the patcher gets the chunk"); r = Fresh("bspatch_write", 32); st.ghost["rc"] = r; st.ghost["calls"] = Add(st.ghost["calls"], C64(1)); return r
    def out(ex, st, a, rt):
        g = st.ghost; ex.oblige(st, And(eqi(m, 0), Eq(a[0], Add(Add(Sub(d.poff, C64(4096)), d.wo), co))), "output", "plain data goes behind what was written, at the part's own position"); ex.oblige(st, And(veq(asptr(a[1]), b), Eq(a[2], n), veq(asptr(a[3]), d.user)), "output", "exactly the chunk is written")
        r = Fresh("out", 64); st.assume(Sle(C64(-(1 << 31)), r)); g["w"] = r; g["ws"] = Add(g["ws"], C64(1)); return r
    ex.contracts["bpak_bspatch_write"] = bs; ex.contracts["out"] = out
    rv = c.call("bpak_transport_decode_write_chunk", d.ctx, b, n); ok = eqi(rv, 0); g = c.st.ghost; patch = Or(*[Eq(m, K(k, 32)) for k in METHODS])
    c.ensure("coded data goes to the patcher, whose errors are reported", Implies(patch, And(Eq(g["calls"], C64(1)), Eq(rv, g["rc"]))))
    c.ensure("plain data is written once, and a failed or short write is reported", Implies(eqi(m, 0), And(Eq(g["ws"], C64(1)), Iff(ok, Eq(g["w"], n))))); c.ensure("what was written is counted", Implies(And(eqi(m, 0), ok), Eq(d.get("copy_offset"), Add(co, n))))
    c.ensure("unknown methods are refused", Implies(Not(Or(patch, eqi(m, 0))), And(Not(ok), Eq(g["ws"], C64(0)), Eq(g["calls"], C64(0))))); c.ensure("the header is only read", mem_ident(c, d.hdr, st0))
    for f in ("decoder_id", "output_offset", "origin_offset"): c.ensure("the set up is kept (%s)" % f, Eq(d.get(f), d.get(f, st0)))
    c.cover("taken", ok); c.cover("fails", Not(ok))

def finish(c):
    d = Dec(c); ex = c.ex; m = c.var("method", 32); d.set("decoder_id", m); co = c.var("copied", 64); c.pre(Ule(co, C64(1 << 60))); d.set("copy_offset", co); g = c.st.ghost; g["fin"] = C64(0); g["frees"] = C64(0); g["len"] = C64(0); st0 = c.snapshot(); R = lambda o, n: FromBytes([byte_at(c, d.part, st0, C64(o + i)) for i in range(n)])
    want = Add(R(4, 8), ZExt(R(28, 2), 64)); c.pre(Ule(R(4, 8), C64(1 << 60))); coded = Or(*[Eq(m, K(k, 32)) for k in METHODS])
    def fin(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), d.sub()), Eq(st.ghost["frees"], C64(0))), "callback", "the patcher is finished"); r = Fresh("final", 64); st.assume(Sle(C64(-(1 << 31)), r)); g = st.ghost; g["fin"] = Add(g["fin"], C64(1)); g["len"] = r; return r
    def free(ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), d.sub()), "callback", "the patcher is released"); st.ghost["frees"] = Add(st.ghost["frees"], C64(1))
    def gen(ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), d.ctx), "callback", "the tree of this part"); r = Fresh("merkle", 64); st.assume(Sle(C64(-(1 << 31)), r)); st.ghost["fin"] = Add(st.ghost["fin"], C64(1)); st.ghost["len"] = r; return r
    ex.contracts.update(bpak_bspatch_final=fin, bpak_bspatch_free=free, merkle_generate=gen)
    rv = c.call("bpak_transport_decode_finish", d.ctx); ok = eqi(rv, 0); g = c.st.ghost; done = Ite(eqi(m, 0), co, g["len"])
    c.ensure("success only if the decoded length is the declared size plus padding", Implies(ok, Eq(done, want))); c.ensure("unknown methods are refused", Implies(ok, Or(coded, eqi(m, MERKLE), eqi(m, 0)))); c.ensure("the decoder is finished once", Implies(And(ok, Not(eqi(m, 0))), Eq(g["fin"], C64(1)))); c.ensure("the patcher is released", Implies(coded, Eq(g["frees"], C64(1))))
    c.ensure("a part that was not decoded is not marked as decoded", Implies(Or(Ne(done, want), Not(Or(coded, eqi(m, MERKLE), eqi(m, 0)))), And(mem_equal(c, d.hdr, c.st, d.hdr, st0, 4096), Eq(g["heads"], C64(0)))))
    c.ensure("a decoded part is marked as decoded", Implies(ok, And(Eq(d.flags(c.st), BAnd(R(30, 1), K(0xfd, 8))), Eq(d.tsize(c.st), C64(0)))))
    if "hdflags" in g: c.ensure("and the header is written with the mark", Implies(ok, And(Not(g["bad"]), Eq(g["heads"], C64(1)), Eq(g["hdflags"], BAnd(R(30, 1), K(0xfd, 8))), Eq(g["hdtsize"], C64(0)))))
    else: c.ensure("the header is written", F)
    w = c.var("wit", 64); inpart = And(Ule(d.k, w), Ult(w, Add(d.k, C64(32)))); r = Sub(w, d.k); c.ensure("nothing else of the header changes", Implies(And(Ult(w, C64(4096)), Not(And(inpart, Or(Eq(r, C64(30)), And(Ule(C64(20), r), Ult(r, C64(28))))))), Eq(byte_at(c, d.hdr, c.st, w), byte_at(c, d.hdr, st0, w))))
    c.ensure("a part of the right length is accepted", Implies(And(Or(coded, eqi(m, MERKLE), eqi(m, 0)), Eq(done, want), Not(g["bad"])), ok)); c.cover("decoded", ok); c.cover("fails", Not(ok))

def merkle(c):
    """the hash tree of a part: built over exactly the part's data in the output, written to its own position"""
    d = Dec(c); ex = c.ex; ex.lazy_branch = True; d.set("decoder_id", MERKLE); g = c.st.ghost; fid = c.var("filesystem_id", 32); k2 = c.var("filesystem_slot", 64); c.pre(valid_slot(k2)); fs = mkptr(d.hdr.es[0][1], k2); found = c.var("filesystem_found", 0)
    foff = c.var("filesystem_offset", 64); c.pre(Ule(C64(4096), foff), Ule(foff, C64(1 << 60))); n = ZExt(c.var("filesystem_size", 56), 64); f, s, o = d.entry("salt", d.hdr, 32); d.lookup([(d.hdr, SALT, fid, f, s)]); pid = FromBytes([byte_at(c, d.part, c.st, C64(i)) for i in range(4)])
    src = ex.new_obj(c.st, "output", C64(1 << 62), "ghost"); st0 = c.snapshot(); byte = lambda q: ex.base_read(st0, st0.mem[src].bases[0], q); W = c.var("wit", 64); dpos = Add(Sub(foff, C64(4096)), d.wo); tpos = Add(Sub(d.poff, C64(4096)), d.wo)
    for x in ("init.ok", "err", "fin.ok", "rderr"): g[x] = F
    g["fed"] = C64(0); g["inits"] = C64(0)
    def htree(ex, st, a, rt): ex.oblige(st, And(veq(asptr(a[0]), d.hdr), Eq(a[1], pid)), "requires", "the tree being generated"); return fid
    def getpart(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), d.hdr), Eq(a[1], fid)), "requires", "the part the tree belongs to"); ex.store(st, asptr(a[2]), 8, pnorm([(found, fs.es[0][1], k2), (Not(found), 0, C64(0))])); r = Fresh("get_part", 32); st.assume(Sle(r, K(0, 32))); st.assume(Iff(found, eqi(r, 0))); return r
    def offset(ex, st, a, rt): h, p = asptr(a[0]), asptr(a[1]); ex.oblige(st, And(veq(h, d.hdr), Or(veq(p, fs), veq(p, d.part))), "requires", "a part of the patch"); return Ite(veq(p, d.part), d.poff, foff)
    def size(ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), fs), "requires", "the part the tree belongs to"); return n
    c.pre(Ne(k2, d.k))          # no part is the hash tree of itself
    def init(ex, st, a, rt):
        ctx, ln, sp, sl, wr, rd, off, zf, priv = a; P = lambda p, v: veq(asptr(p), v)
        ex.oblige(st, And(Eq(ln, n), P(sp, mkptr(d.hdr.es[0][1], o)), Eq(sl, C64(32)), P(ctx, d.sub())), "requires", "a tree over the data of the part, with its salt"); ex.oblige(st, And(P(wr, mkptr(ex.fn_obj("out"))), P(rd, mkptr(ex.fn_obj("rd"))), Eq(off, tpos), P(priv, d.user)), "requires", "written to the part's own position in the output"); ex.oblige(st, zf if zf.w == 0 else Eq(Extract(zf, 0, 0), K(1, 1)), "requires", "and padded with zeros")
        r = Fresh("merkle_init", 32); st.assume(Sle(r, K(0, 32))); st.ghost["init.ok"] = eqi(r, 0); st.ghost["inits"] = Add(st.ghost["inits"], C64(1)); return r
    def rd(ex, st, a, rt):
        off, buf, m, u = a; ex.oblige(st, veq(asptr(u), d.user), "callback", "the caller's user pointer is passed on"); es = ex.access(st, asptr(buf), m, "chunk")
        if st.dead: return C64(0)
        r = Fresh("rd", 64); b = Ptr(tuple(es)); models.havoc_range(ex, st, b, m, "chunk") if False else None
        stdio.fork2(ex, st, Eq(r, m), lambda z: stdio.raw_copy(ex, z, b, mkptr(src, off), m, "output"), lambda z: models.havoc_range(ex, z, b, m, "output")); st.ghost["rderr"] = Or(st.ghost["rderr"], Ne(r, m)); return r
    def ch(ex, st, a, rt):
        g = st.ghost; dd = g["fed"]; m = a[2]; es = ex.access(st, asptr(a[1]), m, "data chunk")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(g["init.ok"], veq(asptr(a[0]), d.sub()), Ule(dd, n), Ule(m, Sub(n, dd))), "data", "only the part's data is covered"); z = st.fork(); z.assume(Ult(W, m))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, Ptr(tuple(es)), z, W), byte(Add(dpos, Add(dd, W)))), "data", "from the part's own position in the output, in order")
        g["fed"] = Add(dd, m); r = Fresh("write_chunk", 32); st.assume(Sle(r, K(0, 32))); g["err"] = Or(g["err"], Not(eqi(r, 0))); return r
    def fin(ex, st, a, rt):
        es = ex.access(st, asptr(a[1]), C64(32), "root")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(veq(asptr(a[0]), d.sub()), Eq(st.ghost["fed"], n), Not(st.ghost["err"])), "data", "the tree is finished over all of the data"); models.havoc_range(ex, st, Ptr(tuple(es)), C64(32), "root"); r = Fresh("finish", 32); st.assume(Sle(r, K(0, 32))); st.ghost["fin.ok"] = eqi(r, 0); return r
    tsz = c.var("tree_size", 64); c.pre(Sle(C64(-(1 << 31)), tsz))
    def gsz(ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), d.sub()), "requires", "the tree built"); return tsz
    ex.contracts.update(bpak_hash_tree_id_to_part_id=htree, bpak_get_part=getpart, bpak_part_offset=offset, bpak_part_size=size, bpak_merkle_init=init, bpak_merkle_write_chunk=ch, bpak_merkle_finish=fin, bpak_merkle_get_size=gsz, rd=rd)
    def cands(ex, st, z, hv):
        dd = z.ghost["fed"]; yield ("fed", Ule(dd, n)); yield ("good", And(Not(z.ghost["err"]), Not(z.ghost["rderr"])))
        for nm, v in ints64(ex, z): yield ("left " + nm, Eq(v, Sub(n, dd))); yield ("count " + nm, Eq(v, dd)); yield ("abs " + nm, Eq(v, Add(dpos, dd)))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("merkle_generate")
    rv = c.call("merkle_generate", d.ctx); ok = Sle(C64(0), rv); z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("success only if every step succeeded", Implies(Sle(C64(0), rv), And(Ne(fid, K(0, 32)), found, f, g["init.ok"], Not(g["err"]), Not(g["rderr"]), g["fin.ok"])), st=z); c.ensure("the whole part is covered by one tree", And(Eq(g["fed"], n), Eq(g["inits"], C64(1))), st=z); c.ensure("the length is that of the tree", Eq(rv, tsz), st=z)
    c.ensure("without an error the tree is generated", Implies(And(c.st.ghost["fin.ok"], Not(c.st.ghost["err"]), Not(c.st.ghost["rderr"])), Eq(rv, tsz))); c.ensure("the header is only read", mem_ident(c, d.hdr, st0)); c.cover("generated", And(ok, Ult(C64(9000), n))); c.cover("fails", Not(ok))

UNITS = [Unit("decoding set up", "C14", init, SRC), Unit("origin", "C14", origin, SRC), Unit("start of a part", "C14", start, SRC), Unit("data of a part", "C14", chunk, SRC), Unit("end of a part", "C14", finish, SRC), Unit("generating a hash tree", "C14", merkle, SRC)]

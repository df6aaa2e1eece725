from parts import *
import stdio, models
from loops import WitInv
CONTRACT_INFO = {"bpak_get_meta": "C02: an error and NULL, or the entry found", "bpak_get_part": "C04: an error, or the slot found", "bpak_part_offset": "C04: position of the part in a package", "bpak_part_size": "C04: stored size of the part",
  "transport_copy": "proved by unit copying a part", "transport_bsdiff": "proved by unit diffing a part", "transport_encode_part": "proved by unit coding a part",
  "bpak_bsdiff_init": "C11: 0 or an error", "bpak_bsdiff": "C11: an error, or the length of the coded data written through the callback", "bpak_bsdiff_free": "C11: releases the compressor",
  "mmap": "MAP_FAILED, or the bytes of the file", "munmap": "releases a mapping", "lseek": "-1, or the position is set", "write": "-1, or the number of bytes taken"}
SRC = ["lib/transport_encode.c"]
PACKAGE, TRANSPORT = 0xfb2f1f3f, 0x2d44bbfb
METHODS = {0x9f7aacf9: 1, 0x0a878e3e: 0, 0x1607e56e: 2}      # bsdiff, bsdiff-no-comp, bsdiff-lzma -> compression
REMOVE = 0x57004cd0
BIG = C64(1 << 40)
shift = lambda p, k: Ptr(tuple((cc, o, Add(f, k)) for cc, o, f in asptr(p).es))

def parts_by_contract(c, hdrs):
    """lookups in several headers: hdrs = [(header, tag)] -> {tag: (found, slot, offset of it, size)}"""
    ex = c.ex; R = {}; pid = c.var("part_id", 32)
    for h, t in hdrs:
        k = c.var(t + ".slot", 64); c.pre(valid_slot(k)); R[t] = dict(h=h, found=c.var(t + ".found", 0), slot=k, p=mkptr(h.es[0][1], k), off=c.var(t + ".offset", 64), size=c.var(t + ".size", 64)); c.pre(Ule(R[t]["off"], C64(1 << 41)), Ule(R[t]["size"], BIG))
    def get(ex, st, a, rt):
        ex.oblige(st, And(Or(*[veq(asptr(a[0]), r["h"]) for r in R.values()]), Eq(a[1], pid)), "requires", "the part is looked up in one of the packages"); es = []; fd = F
        for r in R.values(): m = And(veq(asptr(a[0]), r["h"]), r["found"]); es.append((m, r["h"].es[0][1], r["slot"])); fd = Or(fd, m)
        ex.store(st, asptr(a[2]), 8, pnorm(es + [(Not(fd), 0, C64(0))])); rc = Fresh("get_part", 32); st.assume(Sle(rc, K(0, 32))); st.assume(Iff(fd, eqi(rc, 0))); return rc
    ex.contracts["bpak_get_part"] = get; return pid, R

def copy(c):
    """the stored bytes of a part, from its place in the input to its place in the output"""
    ex = c.ex; ex.lazy_branch = True; hi, ho = c.struct("bpak_header", "in"), c.struct("bpak_header", "out"); pid, R = parts_by_contract(c, [(hi, "in")]); r = R["in"]; n = r["size"]; oo = c.var("output.offset", 64); c.pre(Ule(oo, C64(1 << 41)))
    def off(ex, st, a, rt): ex.oblige(st, And(veq(asptr(a[1]), r["p"]), Or(veq(asptr(a[0]), hi), veq(asptr(a[0]), ho))), "requires", "the part's place in one of the packages"); return Ite(veq(asptr(a[0]), ho), oo, r["off"])
    def size(ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), r["p"]), "requires", "the size of the part"); return n
    ex.contracts.update(bpak_part_offset=off, bpak_part_size=size)
    fi, fo = stdio.new_file(ex, c.st, "input"), stdio.new_file(ex, c.st, "output"); i, o = fi.es[0][1], fo.es[0][1]; st0 = c.snapshot(); src = lambda z, k: ex.base_read(st0, st0.mem[ex.files[i]].bases[0], Add(r["off"], k))
    tape(c, o, src, n, oo); ex.on_write[i] = lambda ex, st, b, pos, m: ex.oblige(st, Eq(m, C64(0)), "input", "the input is not written")
    def cands(ex, st, z, hv):
        d = z.ghost["tape"]; yield ("done", Ule(d, n)); yield ("in", Eq(stdio.G(z, "pos", i), Add(r["off"], d))); yield ("out", Eq(stdio.G(z, "pos", o), Add(oo, d)))
        for nm, v in ints64(ex, z): yield ("left " + nm, Eq(v, Sub(n, d))); yield ("count " + nm, Eq(v, d))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("transport_copy")
    rv = c.call("transport_copy", hi, ho, pid, fi, fo); ok = eqi(rv, 0)
    c.ensure("unknown parts are refused", Implies(ok, r["found"])); c.ensure("success only if all of the part was written", Implies(ok, Eq(c.st.ghost["tape"], n))); c.ensure("a part that was written is not an error", Implies(And(r["found"], Ne(n, C64(0)), Eq(c.st.ghost["tape"], n)), ok))
    for h in (hi, ho): c.ensure("the headers are only read", mem_ident(c, h, st0))
    c.cover("copied", And(ok, Ult(C64(5000), n))); c.cover("fails", Not(ok))

def diff(c):
    """the data of a part in two packages is handed to the differ, and its coded data goes to the place of the part in the output"""
    ex = c.ex; ex.lazy_branch = True; ft, fo, fx = [stdio.new_file(ex, c.st, n) for n in ("target", "origin", "output")]; T_, O_, X_ = [f.es[0][1] for f in (ft, fo, fx)]; to, oo, xo = (c.var(n, 64) for n in ("target_offset", "origin_offset", "output_offset")); tl, ol = c.var("target_length", 64), c.var("origin_length", 64)
    for v in (to, oo, xo): c.pre(Ule(v, C64(1 << 61)))
    for v in (tl, ol): c.pre(Ule(v, C64(1 << 61)))
    comp = c.var("compression", 32); g = c.st.ghost; maps = {}
    for k in ("init.ok", "init", "run"): g[k] = F
    g["rc"] = C64(-1); g["freed"] = F
    for f in (T_, O_): g["mapped.%d" % f] = F
    for f in (ft, fo, fx): ex.on_write[f.es[0][1]] = lambda ex, st, b, pos, m: ex.oblige(st, Eq(m, C64(0)), "output", "nothing is written except by the differ")
    fd = lambda f: K(100000 + f, 32)
    def mmap(ex, st, a, rt):
        es = [f for f in (T_, O_) if isc(a[4]) and a[4].val == 100000 + f]; ex.oblige(st, B(bool(es)), "requires", "the target or the origin is mapped")
        if st.dead: return NULL
        f = es[0]; ex.oblige(st, And(Not(st.ghost["mapped.%d" % f]), Eq(a[5], C64(0)), eqi(a[2], 1), Eq(a[1], stdio.G(st, "len", f))), "requires", "all of the file, for reading")
        if f not in maps: maps[f] = ex.new_obj(st, "mapping", a[1])
        okm = Fresh("mmap.ok", 0); st.assume(Ne(ex.ptr_int(mkptr(maps[f])), C64(-1))); st.ghost["mapped.%d" % f] = okm; st.assume(Implies(okm, Ne(a[1], C64(0)))); return pnorm([(okm, maps[f], C64(0)), (Not(okm), 0, C64(-1))])
    def munmap(ex, st, a, rt):
        for f, m in maps.items():
            if any(o == m for cc, o, x in asptr(a[0]).es): ex.oblige(st, And(st.ghost["mapped.%d" % f], veq(asptr(a[0]), mkptr(m)), Eq(a[1], ex.objs[m].size)), "requires", "exactly what was mapped is released"); st.ghost["mapped.%d" % f] = F; return Fresh("munmap", 32)
        ex.oblige(st, F, "requires", "a mapping is released"); return Fresh("munmap", 32)
    def writer(st, cb, user):
        """the callback handed over meets the contract of the differ: all of the data at the place asked for in the output, or an error"""
        z = st.fork(); off, n = Fresh("cb.off", 64), ZExt(Fresh("cb.len", 60), 64); z.assume(Ule(off, C64(1 << 61))); b = mkptr(ex.new_obj(z, "cb.data", n)); g = z.ghost; g["at"] = F; g["w"] = C64(-1); g["ws"] = C64(0)
        def seek(ex, st, a, rt): ex.oblige(st, And(Eq(a[0], fd(X_)), Eq(a[1], off), eqi(a[2], 0)), "callback", "the position asked for"); r = Fresh("lseek", 64); st.ghost["at"] = Ne(r, C64(-1)); return r
        def wr(ex, st, a, rt):
            ex.oblige(st, And(st.ghost["at"], Eq(a[0], fd(X_)), veq(asptr(a[1]), b), Eq(a[2], n)), "callback", "exactly the data, at the position asked for"); ex.access(st, asptr(a[1]), a[2], "data"); r = Fresh("write", 64); st.assume(Sle(C64(-1), r)); st.ghost["w"] = r; st.ghost["ws"] = Add(st.ghost["ws"], C64(1)); return r
        ex.contracts.update(lseek=seek, lseek64=seek, write=wr); r = ex.call_ptr(z, asptr(cb), [off, b, n, asptr(user)], ("int", 64), ex.mods[0])
        if z.dead: return
        g = z.ghost; ex.oblige(z, Or(Slt(r, C64(0)), And(Eq(r, n), Eq(g["w"], n), Eq(g["ws"], C64(1)))), "callback", "all of it, or an error"); ex.oblige(z, Implies(And(g["at"], Eq(g["w"], n)), Eq(r, n)), "callback", "no error without a cause")
    def init(ex, st, a, rt):
        g = st.ghost; data = lambda f, o: veq(asptr(a[1 if f == O_ else 3]), mkptr(maps.get(f, 0), o)); ex.oblige(st, And(B(len(maps) == 2), g["mapped.%d" % T_], g["mapped.%d" % O_]), "requires", "origin and target are mapped")
        if st.dead: return K(0, 32)
        ex.oblige(st, And(data(O_, oo), Eq(a[2], ol)), "requires", "the origin is the part's own data in the origin package"); ex.oblige(st, And(data(T_, to), Eq(a[4], tl)), "requires", "the target is the part's own data"); ex.oblige(st, And(Eq(a[6], xo), Eq(a[7], comp)), "requires", "the coded data goes to the part's place in the output"); writer(st, a[5], a[8])
        for q, n in ((a[1], a[2]), (a[3], a[4])): ex.access(st, asptr(q), n, "data of the part")
        if st.dead: return K(0, 32)
        st.ghost["ctx"] = None; c.ctx = asptr(a[0]); r = Fresh("bsdiff_init", 32); st.assume(Sle(r, K(0, 32))); st.ghost["init.ok"] = eqi(r, 0); return r
    def run(ex, st, a, rt):
        ex.oblige(st, And(st.ghost["init.ok"], Not(st.ghost["run"]), st.ghost["mapped.%d" % T_], st.ghost["mapped.%d" % O_]), "requires", "the differ is set up and its data is mapped"); ex.oblige(st, veq(asptr(a[0]), c.ctx), "requires", "the differ set up"); r = Fresh("bsdiff", 64); st.ghost["run"] = T; st.ghost["rc"] = r; return r
    def free(ex, st, a, rt): ex.oblige(st, And(veq(asptr(a[0]), c.ctx), Not(st.ghost["freed"])), "requires", "the differ set up is released once"); st.ghost["freed"] = T
    ex.contracts.update(mmap=mmap, mmap64=mmap, munmap=munmap, bpak_bsdiff_init=init, bpak_bsdiff=run, bpak_bsdiff_free=free)
    rv = c.call("transport_bsdiff", ft, to, tl, fo, oo, ol, fx, xo, comp); g = c.st.ghost; ok = Sle(C64(0), rv)
    c.ensure("success only if the data was coded, with the length of the coded data", Implies(ok, And(g["run"], Eq(rv, g["rc"])))); c.ensure("what the differ made is not an error", Implies(And(g["run"], Sle(C64(0), g["rc"])), Eq(rv, g["rc"])))
    for f, n in ((T_, "target"), (O_, "origin")): c.ensure("the %s is unmapped" % n, Not(g["mapped.%d" % f]))
    c.ensure("the differ is released", Implies(g["run"], g["freed"])); c.cover("coded", And(ok, Ult(C64(0), tl), Ult(C64(0), ol))); c.cover("fails", Not(ok))

def part(c):
    """one part is coded by the method its metadata names, and marked exactly then"""
    ex = c.ex; ex.lazy_branch = True; hi, ho, hx = (c.struct("bpak_header", n) for n in ("in", "out", "origin")); have, havef = c.var("origin.header", 0), c.var("origin.file", 0); pid, R = parts_by_contract(c, [(hi, "in"), (ho, "out"), (hx, "origin")])
    fi, fo, fx = [stdio.new_file(ex, c.st, n) for n in ("input", "output", "originfile")]; tm = c.obj("transport meta", 32); alg = c.get(tm, 0, 4); g = c.st.ghost; g["copies"] = g["diffs"] = C64(0); g["rc"] = K(0, 32); g["len"] = C64(0)
    R["out"]["off"] = c.var("out.offset", 64)
    def off(ex, st, a, rt):
        ex.oblige(st, Or(*[And(veq(asptr(a[0]), r["h"]), veq(asptr(a[1]), r["p"])) for r in R.values()]), "requires", "the part's place in its package"); v = R["in"]["off"]
        for t in ("out", "origin"): v = Ite(veq(asptr(a[0]), R[t]["h"]), R[t]["off"], v)
        return v
    def size(ex, st, a, rt):
        ex.oblige(st, Or(*[veq(asptr(a[0]), r["p"]) for r in R.values()]), "requires", "the size of the part"); v = R["in"]["size"]
        for t in ("out", "origin"): v = Ite(veq(asptr(a[0]), R[t]["p"]), R[t]["size"], v)
        return v
    P = lambda x, y: veq(asptr(x), y)
    def cp(ex, st, a, rt): ex.oblige(st, And(P(a[0], hi), P(a[1], ho), Eq(a[2], pid), P(a[3], fi), P(a[4], fo)), "requires", "this part is copied from the input to the output"); r = Fresh("copy", 32); st.ghost["copies"] = Add(st.ghost["copies"], C64(1)); st.ghost["rc"] = r; return r
    def df(ex, st, a, rt):
        comp = K(3, 32)
        for k, v in METHODS.items(): comp = Ite(Eq(alg, K(k, 32)), K(v, 32), comp)
        ex.oblige(st, And(P(a[0], fi), Eq(a[1], R["in"]["off"]), Eq(a[2], R["in"]["size"])), "requires", "the target is the part's data in the input"); ex.oblige(st, And(P(a[3], fx), Eq(a[4], R["origin"]["off"]), Eq(a[5], R["origin"]["size"])), "requires", "the origin is the part's data in the origin")
        ex.oblige(st, And(P(a[6], fo), Eq(a[7], R["out"]["off"])), "requires", "the coded data goes to the part's place in the output"); ex.oblige(st, Eq(a[8], comp), "requires", "the compression the method names"); r = Fresh("diff", 64); st.assume(Sle(C64(-(1 << 31)), r)); st.ghost["diffs"] = Add(st.ghost["diffs"], C64(1)); st.ghost["len"] = r; return r
    ex.contracts.update(bpak_part_offset=off, bpak_part_size=size, transport_copy=cp, transport_bsdiff=df)
    for f in (fi, fo, fx): ex.on_write[f.es[0][1]] = lambda ex, st, b, pos, m: ex.oblige(st, Eq(m, C64(0)), "output", "nothing else is written")
    st0 = c.snapshot(); k = R["out"]["slot"]; fl = lambda st: byte_at(c, ho, st, Add(k, C64(30))); ts = lambda st: FromBytes([byte_at(c, ho, st, Add(k, C64(20 + i))) for i in range(8)]); coded = Ne(BAnd(fl(st0), K(2, 8)), K(0, 8))
    rv = c.call("transport_encode_part", tm, pid, fi, hi, fo, ho, vite(havef, fx, NULL), vite(have, hx, NULL)); ok = eqi(rv, 0); g = c.st.ghost; diff = Or(*[Eq(alg, K(m, 32)) for m in METHODS])
    c.ensure("unknown parts are refused", Implies(ok, And(R["in"]["found"], R["out"]["found"], Implies(have, R["origin"]["found"])))); c.ensure("data that is coded already is copied", Implies(And(ok, coded), And(Eq(g["copies"], C64(1)), Eq(g["diffs"], C64(0)), eqi(g["rc"], 0))))
    z = c.st.fork(); z.assume(And(ok, Not(coded)))
    if not z.dead:
        e = lambda d, x: c.ensure(d, x, st=z); e("unknown methods are refused", Or(diff, eqi(alg, REMOVE))); e("diffing needs an origin", Implies(diff, And(have, havef))); e("the part is diffed once", Implies(diff, And(Eq(g["diffs"], C64(1)), Eq(g["copies"], C64(0)), Sle(C64(0), g["len"])))); e("removed data is neither diffed nor copied", Implies(eqi(alg, REMOVE), And(Eq(g["diffs"], C64(0)), Eq(g["copies"], C64(0)))))
        e("the part is marked as coded, with the size of its coded data", And(Eq(fl(z), BOr(fl(st0), K(2, 8))), Eq(ts(z), Ite(diff, g["len"], C64(0)))))
    w = c.var("wit", 64); r = Sub(w, k); mine = And(Ule(k, w), Ult(w, Add(k, C64(32))), Or(Eq(r, C64(30)), And(Ule(C64(20), r), Ult(r, C64(28)))))
    c.ensure("nothing else of the header changes", Implies(And(Ult(w, C64(4096)), Not(And(ok, Not(coded), mine))), Eq(byte_at(c, ho, c.st, w), byte_at(c, ho, st0, w))))
    for h in (hi, hx): c.ensure("the other headers are only read", mem_ident(c, h, st0))
    c.ensure("the metadata is only read", mem_ident(c, tm, st0)); c.cover("diffed", And(ok, diff, Not(coded))); c.cover("copied", And(ok, coded)); c.cover("removed", And(ok, eqi(alg, REMOVE))); c.cover("fails", Not(ok))

def encode(c):
    """every part once and in order, by its own metadata; the output header is the input header but for the marks"""
    ex = c.ex; ex.lazy_branch = True; hi, ho, hx = (c.obj(n, 4096) for n in ("in", "out", "origin")); have, havef = c.var("origin.header", 0), c.var("origin.file", 0); fi, fo, fx = [stdio.new_file(ex, c.st, n) for n in ("input", "output", "originfile")]; t = Table(c, hi); g = c.st.ghost
    V, W = c.var("slot v", 64), c.var("slot w", 64); w = c.var("wit", 64); c.pre(valid_slot(V), valid_slot(W), Ult(V, W)); idv, idw = t.id(V), t.id(W)
    c.assume_note("the ids of the parts of a package are distinct (C04)"); c.assume_note("metadata entries lie inside the metadata area and are large enough for their kind")
    g["v"] = g["w"] = C64(0); g["err"] = F; g["found"] = F; g["hdr"] = C64(0); g["id"] = K(0, 32); g["at"] = C64(0); st0 = c.snapshot()
    def entry(nm, h):
        found = c.var(nm + ".found", 0); slot = c.var(nm + ".slot", 64); c.pre(Ule(C64(META0), slot), Ult(slot, C64(PART0)), Eq(Extract(slot, 3, 0), K(META0 % 16, 4))); sz, off = (ZExt(FromBytes([byte_at(c, h, st0, Add(slot, C64(o + i))) for i in range(2)]), 64) for o in (4, 6)); c.pre(Ule(C64(16), sz), Ule(Add(sz, off), C64(DATASZ))); return found, slot, Add(C64(DATA0), off)
    fx_, sx, ox = entry("origin id", hx); fp_, sp, op = entry("input id", hi); same = And(*[Eq(byte_at(c, hx, st0, Add(ox, C64(i))), byte_at(c, hi, st0, Add(op, C64(i)))) for i in range(16)])
    def meta(ex, st, a, rt):
        g = st.ghost; rc = Fresh("get_meta", 32); st.assume(Sle(rc, K(0, 32)))
        if isc(a[1]) and a[1].val == PACKAGE:
            o = veq(asptr(a[0]), hx); ex.oblige(st, And(Or(o, veq(asptr(a[0]), hi)), eqi(a[2], 0)), "requires", "the package id of one of the packages"); fd = Ite(o, fx_, fp_); ex.store(st, asptr(a[3]), 8, pnorm([(And(o, fx_), hx.es[0][1], sx), (And(Not(o), fp_), hi.es[0][1], sp), (Not(fd), 0, C64(0))])); st.assume(Iff(fd, eqi(rc, 0))); return rc
        ex.oblige(st, And(veq(asptr(a[0]), hi), Eq(a[1], K(TRANSPORT, 32))), "requires", "the transport metadata in the input header"); fd = Fresh("transport.found", 0); s = Fresh("transport.slot", 64); st.assume(Ule(C64(META0), s)); st.assume(Ult(s, C64(PART0))); st.assume(Eq(Extract(s, 3, 0), K(META0 % 16, 4)))
        off = ZExt(FromBytes([byte_at(c, hi, st0, Add(s, C64(6 + i))) for i in range(2)]), 64); st.assume(Ule(off, C64(DATASZ - 32))); ex.store(st, asptr(a[3]), 8, pnorm([(fd, hi.es[0][1], s), (Not(fd), 0, C64(0))])); st.assume(Iff(fd, eqi(rc, 0))); g["found"] = fd; g["id"] = a[2]; g["at"] = Add(C64(DATA0), off); return rc
    P = lambda x, y: veq(asptr(x), y)
    def step(ex, st, ident):
        g = st.ghost; ex.oblige(st, And(Not(g["err"]), Implies(And(have, havef), And(fx_, fp_, same))), "requires", "an origin with another package id is refused, and an error ends it"); isw, isv = And(Eq(ident, idw), Ne(idw, K(0, 32))), And(Eq(ident, idv), Ne(idv, K(0, 32)))
        ex.oblige(st, And(Implies(isw, And(Eq(g["w"], C64(0)), Or(eqi(idv, 0), Eq(g["v"], C64(1))))), Implies(isv, Eq(g["v"], C64(0)))), "requires", "each part once, and in the order of the table"); ex.oblige(st, Eq(g["id"], ident), "requires", "its own metadata decides"); g["w"] = Add(g["w"], Ite(isw, C64(1), C64(0))); g["v"] = Add(g["v"], Ite(isv, C64(1), C64(0)))
        r = Fresh("step", 32); g["err"] = Or(g["err"], Not(eqi(r, 0))); return r
    def inpart(i): return And(Ule(C64(PART0), w), Ult(w, C64(END)), Or(Eq(i, C64(30)), And(Ule(C64(20), i), Ult(i, C64(28)))))
    rel = ZExt(Extract(Sub(w, C64(PART0)), 4, 0), 64); mark = inpart(rel); wslot = Sub(w, rel); widd = t.id(wslot)
    g["marked"] = F
    def cp(ex, st, a, rt): ex.oblige(st, And(P(a[0], hi), P(a[1], ho), P(a[3], fi), P(a[4], fo)), "requires", "from the input to the output"); ex.oblige(st, Not(st.ghost["found"]), "requires", "only parts without transport metadata are merely copied"); return step(ex, st, a[2])
    def en(ex, st, a, rt):
        g = st.ghost; ex.oblige(st, And(P(a[2], fi), P(a[3], hi), P(a[4], fo), P(a[5], ho), P(a[6], vite(havef, fx, NULL)), P(a[7], vite(have, hx, NULL))), "requires", "from the input and the origin to the output"); ex.oblige(st, And(g["found"], P(a[0], mkptr(hi.es[0][1], g["at"]))), "requires", "parts with transport metadata are coded by it"); r = step(ex, st, a[1])
        # the part's own marks may change (unit coding a part)
        old = byte_at(c, ho, st, w); m = And(mark, Eq(widd, a[1]), eqi(r, 0)); models.havoc_range(ex, st, ho, C64(4096), "header"); st.assume(Implies(And(Ult(w, C64(4096)), Not(m)), Eq(byte_at(c, ho, st, w), old))); g["marked"] = Or(g["marked"], m); return r
    ex.contracts.update(bpak_get_meta=meta, transport_copy=cp, transport_encode_part=en)
    def onw(ex, st, b, pos, n):
        g = st.ghost; d = g["hdr"]; ex.oblige(st, And(Not(g["err"]), Or(Eq(n, C64(0)), And(Eq(pos, d), Ule(Add(d, n), C64(4096))))), "output", "the header is written to the beginning, at the end")
        z = st.fork(); z.assume(And(Ule(d, w), Ult(w, Add(d, n)))); ex.oblige(z, Eq(byte_at(c, b, z, Sub(w, d)), byte_at(c, ho, z, w)), "output", "the output header is written") if not z.dead else None; g["hdr"] = Add(d, n)
    ex.on_write[fo.es[0][1]] = onw
    for f in (fi, fx): ex.on_write[f.es[0][1]] = lambda ex, st, b, pos, m: ex.oblige(st, Eq(m, C64(0)), "input", "the inputs are not written")
    hoid = hi.es[0][1]
    def axioms(ex, st, z, hv): return [Implies(And(valid_slot(k), Ne(k, s_)), Or(eqi(i_, 0), Ne(t.id(k), i_))) for nm, k in slot_terms(ex, z, hoid) for s_, i_ in ((V, idv), (W, idw))]
    def cands(ex, st, z, hv):
        g = z.ghost; yield ("no error", Not(g["err"])); yield ("no header yet", Eq(g["hdr"], C64(0))); yield ("kept", WitInv(T, lambda y: Implies(And(Ult(w, C64(4096)), Not(y.ghost["marked"])), Eq(byte_at(c, ho, y, w), byte_at(c, hi, st0, w)))))
        yield ("origin", Implies(And(have, havef), And(fx_, fp_, same)))
        for nm, k in slot_terms(ex, z, hoid):
            yield ("slot " + nm, Or(valid_slot(k), Eq(k, C64(END))))
            for n_, s_, i_ in (("v", V, idv), ("w", W, idw)): yield ("%s %s" % (n_, nm), Eq(g[n_], Ite(And(Ult(s_, k), Not(eqi(i_, 0))), C64(1), C64(0))))
    ex.loop_axioms.append(axioms); ex.loop_cands.append(cands); ex.force_inv.add("bpak_transport_encode"); ex.check_term = True
    rv = c.call("bpak_transport_encode", fi, hi, fo, ho, vite(havef, fx, NULL), vite(have, hx, NULL)); ok = eqi(rv, 0); g = c.st.ghost
    c.ensure("an origin without the package id is refused", Implies(And(ok, have, havef), And(fx_, fp_))); c.ensure("an origin with another package id is refused", Implies(And(ok, have, havef), same)); c.ensure("errors are reported", Implies(ok, Not(g["err"])))
    c.ensure("every part is coded or copied", Implies(And(ok, Ne(idw, K(0, 32))), Eq(g["w"], C64(1)))); c.ensure("the whole header is written", Implies(ok, Eq(g["hdr"], C64(4096)))); c.ensure("success once the header is written", Implies(Eq(g["hdr"], C64(4096)), ok))
    c.ensure("the output header is the input header but for the marks of coded parts", Implies(And(ok, Ult(w, C64(4096)), Not(g["marked"])), Eq(byte_at(c, ho, c.st, w), byte_at(c, hi, st0, w))))
    for h in (hi, hx): c.ensure("the other headers are only read", mem_ident(c, h, st0))
    c.cover("encoded", And(ok, Ne(idw, K(0, 32)))); c.cover("refused", And(Not(ok), Eq(g["w"], C64(0)))); c.cover("fails", And(Not(ok), Eq(g["w"], C64(1))))

UNITS = [Unit("copying a part", "C15", copy, SRC), Unit("diffing a part", "C15", diff, SRC), Unit("coding a part", "C15", part, SRC), Unit("every part", "C15", encode, SRC)]

"""The differ: whatever matches the search proposes, the entries written rebuild the target by the patch rules."""
from parts import *
SRC = ["lib/bsdiff.c"]
CONTRACT_INFO = {"matchlen": "proved by unit match length", "search": "proved by unit search", "offtout": "any injective encoding that offtin inverts: unit control values", "write_diff_extra_and_adjustment": "proved by unit writing an entry",
    "compressor_write": "the stream handed to the compressor: interpreted by the patch rules (ghost machine); may fail at any call. Passing on without compression: unit uncompressed output", "compressor_final": "may fail; touches neither data nor positions", "compressor_init": "may fail; touches the compressor state only", "compressor_free": "touches the compressor state only",
    "sais": "ASSUMED: on success each of the n entries of the array is a position below n (the search needs no more than that); may fail"}
FN = ["origin_fd", "origin_data", "origin_length", "new_fd", "new_data", "new_length", "suffix_array", "suffix_array_size", "scan", "len", "pos", "last_scan", "last_pos", "last_offset", "scsc", "write_output", "output_offset", "output_pos", "compression", "compressor_priv", "user_priv"]
Z = C64(0); S3 = K(3, 3)
MINI = 1 << 63

def ctlvalues(c):
    """offtin(offtout(x)) == x on the real functions"""
    x = c.var("x", 64); c.pre(Ne(x, C64(MINI))); b = c.obj("buf", 8); c.call("offtout", x, b); st1 = c.snapshot(); r = c.call("offtin", b)
    c.ensure("a control value survives encoding and decoding", Eq(r, x)); c.ensure("decoding only reads", T if c.st.mem[b.es[0][1]] is st1.mem[b.es[0][1]] else F); c.cover("returns")

def sizes(c, *names): return [ZExt(c.var(n, 47), 64) for n in names]
def minv(a, b): return Ite(Sle(a, b), a, b)

def mlen(c):
    a, b = sizes(c, "from_size", "to_size"); p, q = c.obj("from", a), c.obj("to", b); st0 = c.snapshot(); W = c.var("wit", 64)
    rd = lambda o, i: c.ex.base_read(st0, st0.mem[o.es[0][1]].bases[0], i)
    def cands(ex, st, z, hv):
        for nm, v in ints64(ex, z): yield ("same " + nm, Implies(Ult(W, v), Eq(rd(p, W), rd(q, W))))
    c.ex.loop_cands.append(cands); c.ex.check_term = True
    r = c.call("matchlen", p, a, q, b); r = SExt(r, 64) if r.w < 64 else r
    c.ensure("a match is inside origin and target", And(Sle(Z, r), Sle(r, a), Sle(r, b)))
    c.ensure("the bytes of a match agree", Implies(Ult(W, r), Eq(rd(p, W), rd(q, W)))); c.ensure("the match is as long as possible", Implies(And(Slt(r, a), Slt(r, b)), Ne(rd(p, r), rd(q, r))))
    c.ensure("the data is only read", T if all(c.st.mem[o.es[0][1]] is st0.mem[o.es[0][1]] for o in (p, q)) else F); c.cover("empty", Eq(r, Z)); c.cover("some", Ult(C64(3), r))

def suffix_array(c, n, init="sym"):
    """an array whose entries are positions in the origin (content contract, instantiated at each load)"""
    ex = c.ex; sa = c.obj("suffix_array", MulC(n, 8)); so = sa.es[0][1]; orig = ex.load
    def load(st, p, m, *a, **k):
        v = orig(st, p, m, *a, **k)
        if m == 8 and not st.dead and not isinstance(v, Ptr):
            for cc, o, f in asptr(p).es:
                if o == so: st.assume(Implies(And(cc, Eq(Extract(f, 2, 0), K(0, 3))), Ult(v, n)))
        return v
    ex.load = load
    return sa

def matchlen_contract(c):
    def f(ex, st, a, rt):
        for i in (0, 2):
            ex.oblige(st, Sle(Z, a[i + 1]), "requires", "matchlen: a size is not negative"); ex.access(st, asptr(a[i]), a[i + 1], "matchlen data")
            if st.dead: return K(0, rt[1])
        r = Fresh("matchlen", 64); st.assume(And(Sle(Z, r), Sle(r, a[1]), Sle(r, a[3]))); return r if rt[1] == 64 else Extract(r, rt[1] - 1, 0)
    c.ex.contracts["matchlen"] = f

def search_contract(c, org, n, sa, want=None, variant=None):
    """requires 0 <= begin <= end < n; ensures a position in the origin and a match length inside origin and target"""
    def f(ex, st, a, rt):
        sap, fp, fs, tp, ts, b, e, pp = a
        ex.oblige(st, And(veq(asptr(sap), sa), veq(asptr(fp), org), Eq(fs, n)), "requires", "search: suffix array and origin belong together")
        ex.oblige(st, And(Sle(Z, b), Sle(b, e), Slt(e, n)), "requires", "search: the range is inside the suffix array")
        ex.oblige(st, Sle(Z, ts), "requires", "search: a size is not negative"); ex.access(st, asptr(tp), ts, "search target")
        if st.dead: return Z
        if variant is not None: ex.oblige(st, And(Slt(Sub(e, b), variant)), "termination", "search: the range gets smaller")
        r, p = Fresh("search", 64), Fresh("search.pos", 64); st.assume(And(Sle(Z, r), Sle(r, ts), Sle(Z, p), Sle(p, n), Sle(r, Sub(n, p))))
        ex.store(st, asptr(pp), 8, p); return r
    c.ex.contracts["search"] = f

def search(c):
    n, m = sizes(c, "origin_length", "to_size"); c.pre(Ult(Z, n)); org, to = c.obj("origin", n), c.obj("to", m); sa = suffix_array(c, n); pp = c.obj("pos", 8)
    b, e = c.var("from_begin", 64), c.var("from_end", 64); c.pre(Sle(Z, b), Sle(b, e), Slt(e, n)); matchlen_contract(c); search_contract(c, org, n, sa, variant=Sub(e, b)); st0 = c.snapshot()
    def cands(ex, st, z, hv):
        for nm, v in ints64(ex, z): yield ("lo " + nm, Sle(Z, v)); yield ("hi " + nm, Slt(v, n))
    c.ex.loop_cands.append(cands); c.ex.check_term = True
    r = c.call("search", sa, org, n, to, m, b, e, pp); p = c.get(pp, 0, 8)
    c.ensure("the match is inside origin and target", And(Sle(Z, r), Sle(r, m), Sle(Z, p), Sle(p, n), Sle(r, Sub(n, p))))
    c.ensure("the data is only read", T if all(c.st.mem[o.es[0][1]] is st0.mem[o.es[0][1]] for o in (org, to, sa)) else F); c.cover("returns")

class Diff:
    """context, origin, target and the ghost machine that interprets the stream by the patch rules"""
    def __init__(s, c, arr=True):
        s.c = c; s.ex = c.ex; s.L = {n: c.field("bpak_bsdiff_context", [i]) for i, n in enumerate(FN)}; s.ctx = c.obj("ctx", c.ex.mods[0].size(("named", "struct.bpak_bsdiff_context")))
        s.n, s.m = sizes(c, "origin_length", "new_length"); s.org, s.new = c.obj("origin", s.n), c.obj("target", s.m); s.W = c.var("wit", 64)
        s.set("origin_data", s.org); s.set("new_data", s.new); s.set("origin_length", s.n); s.set("new_length", s.m)
        if arr: s.sa = suffix_array(c, s.n)
        else: s.sa = c.obj("suffix_array", 8)
        s.set("suffix_array", s.sa); s.set("write_output", mkptr(c.ex.fn_obj("wr"))); s.set("user_priv", c.obj("user", 8)); s.set("compressor_priv", c.obj("compressor", 8))
        c.st.ghost.update(P=Z, O=Z, d=Z, e=Z, a=Z, seen=S3, bad=F)
        for f in ("scan", "len", "pos", "last_scan", "last_pos"): s.set(f, ZExt(c.var(f, 47), 64))      # no position is beyond a length
        s.set("last_offset", c.var("last_offset", 64))
    def set(s, f, v): o, n = s.L[f]; s.c.set(s.ctx, o, n, v)
    def get(s, f, st=None, **k): o, n = s.L[f]; return s.c.get(s.ctx, o, n, st=st or s.c.st, **k)
    def origin(s, q): return s.ex.base_read(s.st0, s.st0.mem[s.org.es[0][1]].bases[0], q)
    def target(s, q): return s.ex.base_read(s.st0, s.st0.mem[s.new.es[0][1]].bases[0], q)
    def inv(s, st):
        """between two entries"""
        f = lambda n: s.get(n, st)
        return [("scan", And(Sle(Z, f("scan")), Sle(f("scan"), s.m))), ("pos", And(Sle(Z, f("pos")), Sle(f("pos"), s.n))), ("last scan", And(Sle(Z, f("last_scan")), Sle(f("last_scan"), f("scan")))), ("last pos", And(Sle(Z, f("last_pos")), Sle(f("last_pos"), s.n))),
                ("offset", And(Sle(f("last_offset"), s.n), Sle(Sub(Z, s.m), f("last_offset")), Sle(Z, Add(f("scan"), f("last_offset")))))]
    def done(s, st):
        """the machine stands where the context says: all of the last entry taken, the adjustment pending"""
        g = st.ghost; return [("entry", And(Eq(g["d"], Z), Eq(g["e"], Z), Eq(g["seen"], S3))), ("position", Eq(g["P"], s.get("last_scan", st))), ("origin", Eq(Add(g["O"], g["a"]), s.get("last_pos", st))), ("good", Not(g["bad"]))]
    def kept(s, z, names, st0):
        c = s.c
        for f in names:
            o, m = s.L[f]; p = m == 8 and f in ("origin_data", "new_data", "suffix_array", "write_output", "user_priv")
            x, y = c.get(s.ctx, o, m, ptr=p, st=z), c.get(s.ctx, o, m, ptr=p, st=st0); c.ensure("nothing else of the context changes (%s)" % f, veq(x, y) if p else Eq(x, y), st=z)
        c.ensure("origin and target are only read", T if all(z.mem[o.es[0][1]].bases == st0.mem[o.es[0][1]].bases and not z.mem[o.es[0][1]].ov for o in (s.org, s.new)) else F, st=z)
    def compressor_write(s, ex, st, a, rt):
        ctx, buf, n = a; g = st.ghost; ex.oblige(st, veq(asptr(ctx), s.ctx), "requires", "the context is passed on"); ex.access(st, asptr(buf), n, "compressor input")
        if st.dead: return K(0, 32)
        if isc(n) and n.val in (8, 16, 24):
            for i in range(n.val // 8):
                v = ex.load(st, Ptr(tuple((cc, o, Add(f, C64(8 * i))) for cc, o, f in asptr(buf).es)), 8)
                nxt = Eq(g["seen"], S3); w = Ite(nxt, K(0, 3), g["seen"])
                ex.oblige(st, Implies(nxt, And(Eq(g["d"], Z), Eq(g["e"], Z))), "rules", "a control triple follows the data of the last one")
                ex.oblige(st, Or(Eq(w, K(2, 3)), Sle(Z, v)), "rules", "counts are not negative")
                g["O"] = Ite(nxt, Add(g["O"], g["a"]), g["O"])
                for j, k in enumerate("dea"): g[k] = Ite(Eq(w, K(j, 3)), v, g[k])
                g["seen"] = Add(w, K(1, 3))
        else:
            some = Ne(n, Z); diff = Ne(g["d"], Z); P, O = g["P"], g["O"]
            ex.oblige(st, Implies(some, Eq(g["seen"], S3)), "rules", "data follows a control triple")
            ex.oblige(st, Implies(some, Ule(n, Ite(diff, g["d"], g["e"]))), "rules", "no more data than the control triple announces")
            ex.oblige(st, Implies(some, And(Ule(P, s.m), Ule(n, Sub(s.m, P)))), "rules", "no more output than the target is long")
            ex.oblige(st, Implies(And(some, diff), And(Ule(O, s.n), Ule(n, Sub(s.n, O)))), "rules", "diff bytes refer to bytes of the origin")
            z = st.fork(); z.assume(Ult(s.W, n))
            if not z.dead:
                b = byte_at(s.c, buf, z, s.W); t = s.target(Add(P, s.W))
                ex.oblige(z, Implies(diff, Eq(Add(b, s.origin(Add(O, s.W))), t)), "rules", "diff bytes added to the origin give the target")
                ex.oblige(z, Implies(Not(diff), Eq(b, t)), "rules", "extra bytes are the bytes of the target")
            g["P"] = Add(P, n); g["O"] = Add(O, Ite(diff, n, Z)); g["d"] = Sub(g["d"], Ite(diff, n, Z)); g["e"] = Sub(g["e"], Ite(diff, Z, n))
        r = Fresh("compressor_write", 32); st.assume(Sle(r, K(0, 32))); g["bad"] = Or(g["bad"], Ne(r, K(0, 32))); return r

POS = ("last_scan", "last_pos", "last_offset")
def entry(c):
    ex = c.ex; D = Diff(c, arr=False); D.st0 = c.snapshot(); g = c.st.ghost
    g["a"] = c.var("ghost.a", 64); g["P"] = D.get("last_scan"); g["O"] = Sub(D.get("last_pos"), g["a"])
    for nm, x in D.inv(c.st) + D.done(c.st): c.pre(x)
    ex.contracts["compressor_write"] = D.compressor_write
    def offtout(ex, st, a, rt):
        """an abstract encoding: any one that offtin inverts (unit control values)"""
        ex.oblige(st, Ne(a[0], C64(MINI)), "requires", "offtout: the value has a sign and magnitude form"); ex.store(st, asptr(a[1]), 8, a[0]); return None
    ex.contracts["offtout"] = offtout
    st0 = D.st0 = c.snapshot(); ls, lp, scan, pos = (D.get(f) for f in ("last_scan", "last_pos", "scan", "pos")); g0 = dict(c.st.ghost)
    def cands(ex, st, z, hv):
        own = [(v, nm) for v, nm, w, rd in hv.vars if w == 64 and hv.oids.get(v.id) not in hv.dead and v.id in hv.oids and ex.objs[hv.oids[v.id]].kind == "alloca"]
        mod = {k for v, nm, w, rd in hv.vars if nm.startswith("ghost.") for k in [nm[6:]]}
        for v, nm in own:
            yield ("a " + nm, Sle(Add(ls, v), scan)); yield ("b " + nm, Sle(Add(lp, v), D.n)); yield ("c " + nm, Sle(v, pos)); yield ("d " + nm, Sle(v, C64(1 << 48)))
            for u, um in own:
                if u is not v: yield ("neg %s %s" % (nm, um), Sle(Sub(Z, v), u)); yield ("le %s %s" % (nm, um), Sle(v, u))
            for k, x in (("P", Add(ls, v)), ("O", Add(lp, v)), ("d", v)): yield ("%s %s" % (k, nm), Eq(z.ghost[k], x))
        if mod:
            gg, h = z.ghost, st.ghost
            yield ("Pd", Eq(Add(gg["P"], gg["d"]), Add(h["P"], h["d"]))); yield ("Od", Eq(Add(gg["O"], gg["d"]), Add(h["O"], h["d"]))); yield ("e kept", Eq(gg["e"], h["e"])); yield ("good", Not(gg["bad"])); yield ("d left", Sle(gg["d"], h["d"]))
        for oid, os_ in z.mem.items():
            o = ex.objs[oid]
            if o.kind != "alloca" or not isc(o.size) or o.size.val < 256: continue
            P, O = z.ghost["P"], z.ghost["O"]
            for v, nm in own:
                yield ("filled " + nm, WitInv(Ult(D.W, v), lambda y, oid=oid: Eq(byte_at(c, mkptr(oid), y, D.W), Sub(D.target(Add(y.ghost["P"], D.W)), D.origin(Add(y.ghost["O"], D.W))))))
    ex.loop_cands.append(cands); ex.check_term = True; ex.lazy_branch = True; ex.lia_ms = 8000
    # of the generated candidates only those that help: the arithmetic of the scores is costly
    ex.cand_filter = lambda key, hv: key[0] == "*" or key.endswith("s>=0") or (bool(hv.arrs) and ("-" in key or "<=" in key)) or (key[0] == "g" and key.endswith("s<="))
    rv = c.call("write_diff_extra_and_adjustment", D.ctx); ok = eqi(rv, 0); bad = c.st.ghost["bad"]
    c.ensure("a failing compressor is reported, and nothing else", Iff(ok, Not(bad)))
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        for nm, x in D.inv(z): c.ensure("positions stay in range (%s)" % nm, x, st=z)
        for nm, x in D.done(z): c.ensure("by the patch rules the target is rebuilt up to the recorded position (%s)" % nm, x, st=z)
        c.ensure("the last entry completes the target", Implies(Eq(scan, D.m), Eq(D.get("last_scan", z), D.m)), st=z)
        D.kept(z, [f for f in FN if f not in POS + ("output_pos", "compressor_priv")], st0)
    c.cover("written", ok); c.cover("fails", bad); c.cover("overlap", And(ok, Slt(Z, g0["P"]), Slt(D.get("last_scan"), scan)))

def diff(c):
    ex = c.ex; D = Diff(c)
    for f in ("scan", "len", "pos", "last_scan", "last_pos", "last_offset"): D.set(f, Z)
    st0 = D.st0 = c.snapshot(); search_contract(c, D.org, D.n, D.sa); g = c.st.ghost; op = D.get("output_pos"); g["final"] = F
    def wr(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), D.ctx), "requires", "the context is passed on")
        for nm, x in D.inv(st): ex.oblige(st, x, "requires", "writing an entry: positions are in range (%s)" % nm)
        for nm, x in D.done(st): ex.oblige(st, x, "requires", "writing an entry: the entry before is complete (%s)" % nm)
        if st.dead: return K(0, 32)
        rc = Fresh("write_entry", 32); st.assume(Sle(rc, K(0, 32))); ok = Eq(rc, K(0, 32)); gg = st.ghost; pos, scan = D.get("pos", st), D.get("scan", st)
        vs = [Fresh("w." + f, 64) for f in POS]; m = ex.muted; ex.muted = True
        for f, v in zip(POS, vs): o, n = D.L[f]; c.set(D.ctx, o, n, v, st=st)
        o, n = D.L["output_pos"]; c.set(D.ctx, o, n, Fresh("w.output_pos", 64), st=st); ex.muted = m
        for k in "POa": gg[k] = Fresh("w.g" + k, 64)
        gg["bad"] = Or(gg["bad"], Not(ok))
        st.assume(Implies(ok, And(*[x for nm, x in D.inv(st)], Eq(gg["P"], vs[0]), Eq(Add(gg["O"], gg["a"]), vs[1]), Implies(Eq(scan, D.m), Eq(vs[0], D.m))))); return rc
    ex.contracts["write_diff_extra_and_adjustment"] = wr
    def fin(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), D.ctx), "requires", "the context is passed on"); ex.oblige(st, Eq(st.ghost["P"], D.m), "rules", "the stream is ended when the target is complete"); st.ghost["final"] = T
        o, n = D.L["output_pos"]; m = ex.muted; ex.muted = True; v = Fresh("f.output_pos", 64); c.set(D.ctx, o, n, v, st=st); ex.muted = m; st.assume(Sle(Z, v))
        rc = Fresh("final", 32); st.assume(Sle(rc, K(0, 32))); st.ghost["bad"] = Or(st.ghost["bad"], Ne(rc, K(0, 32))); return rc
    ex.contracts["compressor_final"] = fin
    def cands(ex, st, z, hv):
        f = lambda n: D.get(n, z)
        for nm, x in D.inv(z) + D.done(z): yield (nm, x)
        yield ("len", And(Sle(Z, f("len")), Or(Eq(f("scan"), D.m), Sle(f("len"), Sub(D.m, f("scan")))))); yield ("complete", Or(Slt(f("scan"), D.m), Eq(z.ghost["P"], D.m)))
        yield ("len0", And(Sle(Z, f("len")), Sle(f("len"), D.m)))
        own = [(v, nm) for v, nm, w, rd in hv.vars if w == 64 and hv.oids.get(v.id) not in hv.dead and v.id in hv.oids and ex.objs[hv.oids[v.id]].kind == "alloca"]
        for v, nm in ints64(ex, z):
            v, nm = nm, v
            if isc(v): continue
            yield ("at " + nm, And(Sle(Z, v), Sle(v, D.m))); yield ("off " + nm, Sle(Z, Add(v, f("last_offset")))); yield ("abs " + nm, And(Sle(v, D.m), Sle(Sub(Z, f("scan")), v)))
            yield ("end " + nm, Sle(v, Add(f("scan"), f("len"))))
            for um, u in ints64(ex, z):
                if u is not v and not isc(u): yield ("le %s %s" % (nm, um), Sle(v, u))
    ex.loop_cands.append(cands); ex.check_term = False; ex.lazy_branch = True; ex.scale = max(ex.scale, 2)
    rv = c.call("bpak_bsdiff", D.ctx); bad = c.st.ghost["bad"]; z = c.st.fork(); z.assume(Not(bad))
    c.ensure("a failing step is reported", Implies(bad, Slt(rv, Z)))
    if not z.dead:
        c.ensure("by the patch rules the target is rebuilt exactly and completely", Eq(z.ghost["P"], D.m), st=z); c.ensure("the stream is ended", z.ghost["final"], st=z); c.ensure("the length of the output is returned", Eq(rv, D.get("output_pos", z)), st=z)
        D.kept(z, [f for f in FN if f not in POS + ("output_pos", "compressor_priv", "scan", "len", "pos", "scsc")], st0)
    c.ensure("the suffix array is only read", T if c.st.mem[D.sa.es[0][1]].bases == st0.mem[D.sa.es[0][1]].bases else F)
    c.cover("success", Not(bad)); c.cover("empty target", Eq(D.m, Z)); c.cover("empty origin", Eq(D.n, Z)); c.cover("fails", bad)

UNITS = [Unit("control values", "C11", ctlvalues, ["lib/bsdiff.c", "lib/bspatch.c"]), Unit("match length", "C11", mlen, SRC), Unit("search", "C11", search, SRC),
         Unit("writing an entry", "C11", entry, SRC, budget=400), Unit("the differ", "C11", diff, SRC, budget=300)]

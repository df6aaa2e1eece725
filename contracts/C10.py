from parts import *
import stdio, models
CONTRACT_INFO = {"rd": "the caller's read function: delivers n bytes of the origin from the given position, or reports something else than n", "wr": "the caller's write function: takes n bytes at the given position, or reports something else than n", "offtin": "proved by unit control word"}
SRC = ["lib/bspatch.c"]
FN = ["origin_position", "origin_offset", "output_position", "output_offset", "state", "patch_buffer", "patch_buffer_length", "input_buffer", "input_buffer_length", "input_length", "input_position", "read_origin", "write_output", "ctrl_buf", "ctrl_buf_count", "diff_count", "extra_count", "adjust", "compression", "decompressor", "user_priv"]
FILL, READ, DIFF, EXTRA, FINISH, ERROR = range(6)        # include/bpak/bspatch.h
C_, D_, E_, BAD, FAR = range(5)                          # phases of the patch rules: control triple, diff bytes, extra bytes, refused, origin position out of range
CT = 24

WORD = False
def word(bs):
    """sign and magnitude, least significant byte first"""
    if WORD: return UF("control_word", 64, FromBytes(bs))
    m = FromBytes(bs[:7] + [Concat(K(0, 1), Extract(bs[7], 6, 0))]); return Ite(Eq(Extract(bs[7], 7, 7), K(1, 1)), Sub(C64(0), m), m)
def sovf(a, b):
    r = Add(a, b); na, nb, nr = (Slt(v, C64(0)) for v in (a, b, r)); return Or(And(na, nb, Not(nr)), And(Not(na), Not(nb), nr))

class Rules:
    """the patch rules as a machine over the bytes of the chunk: its configuration after p bytes is given by uninterpreted
    functions of p, defined by `start` and one rule per phase (jump: any number of bytes inside a phase)"""
    def __init__(s, S, n, oo): s.S = S; s.n = n; s.oo = oo
    def g(s, nm, p): return UF("patch." + nm, 8 if nm == "ph" else 64, p)
    def ph(s, p, k): return Eq(s.g("ph", p), K(k, 8))
    def eqs(s, p, **kw): return And(*[Eq(s.g(k, p), v) for k, v in kw.items()])
    def ctl(s, p, k, o, out): return And(s.ph(p, C_), s.eqs(p, k=k, o=o, out=out))
    def next_triple(s, p, o, a, out):
        return Ite(Or(sovf(o, a), sovf(s.oo, Add(o, a))), s.ph(p, FAR), s.ctl(p, C64(0), Add(o, a), out))
    def norm(s, p, d, e, a, o, out):
        """the configuration with d diff and e extra bytes to go"""
        return Ite(Or(Slt(d, C64(0)), Slt(e, C64(0))), s.ph(p, BAD),
               Ite(Ne(d, C64(0)), And(s.ph(p, D_), s.eqs(p, d=d, e=e, a=a, o=o, out=out)),
               Ite(Ne(e, C64(0)), And(s.ph(p, E_), s.eqs(p, e=e, a=a, o=o, out=out)), s.next_triple(p, o, a, out))))
    def triple(s, q): return [UF("patch.word", 64, Add(q, C64(8 * i))) for i in range(3)]
    def words(s, q):
        """definition of patch.word at position q"""
        return And(*[Eq(t, word([s.S(Add(q, C64(8 * i + j))) for j in range(8)])) for i, t in enumerate(s.triple(q))])
    def jump(s, p, m):
        """m bytes further inside the phase, up to its end"""
        g = s.g; q = Add(p, m); k, d, e, a, o, out = (g(x, p) for x in ("k", "d", "e", "a", "o", "out"))
        t = s.triple(Sub(p, k))
        c = Implies(And(s.ph(p, C_), Ule(m, Sub(C64(CT), k))), Ite(Eq(m, Sub(C64(CT), k)), s.norm(q, t[0], t[1], t[2], o, out), s.ctl(q, Add(k, m), o, out)))
        dd = Implies(And(s.ph(p, D_), Ule(m, d)), s.norm(q, Sub(d, m), e, a, Add(o, m), Add(out, m)))
        ee = Implies(And(s.ph(p, E_), Ule(m, e)), s.norm(q, C64(0), Sub(e, m), a, o, Add(out, m)))
        bad = And(*[Implies(s.ph(p, x), s.ph(q, x)) for x in (BAD, FAR)])
        return Implies(And(Ule(p, s.n), Ule(m, Sub(s.n, p))), And(c, dd, ee, bad))
    def back(s, p):
        """the patch byte an output byte comes from"""
        return Implies(And(Ult(p, s.n), Or(s.ph(p, D_), s.ph(p, E_))), Eq(s.src(s.g("out", p)), p))
    def src(s, x): return UF("patch.src", 64, x)

def rules(c):
    """the closed form of the rules follows from their one byte form"""
    n = c.var("n", 64); p = c.var("p", 64); m = c.var("m", 64); R = Rules(lambda q: UF("patch.byte", 8, q), n, c.var("oo", 64)); g = R.g
    k = g("k", p); c.pre(Ult(k, C64(CT)), Ule(C64(0), k))
    for x, v in (("d", D_), ("e", E_)): c.pre(Implies(R.ph(p, v), And(Slt(C64(0), g(x, p)))))
    c.pre(Sle(C64(0), g("e", p)), Ule(n, C64(1 << 62)), R.jump(p, m), R.jump(Add(p, m), C64(1)))
    c.pre(Ule(p, n), Ult(m, Sub(n, p))); q = Add(p, m); ex = c.ex; ex.racing = 60
    for nm, x, i in (("the control triple", C_, Ult(m, Sub(C64(CT), k))), ("the diff bytes", D_, Ult(m, g("d", p))), ("the extra bytes", E_, Ult(m, g("e", p))), ("a refused patch", BAD, T), ("a position out of range", FAR, T)):
        z = c.st.fork(); z.assume(R.ph(p, x)); z.assume(i); ex.oblige(z, R.jump(p, Add(m, C64(1))), "lemma", "one byte further inside " + nm)
    c.cover("satisfiable", R.ph(p, D_))

def ctlword(c):
    b = c.obj("buf", 8); st0 = c.snapshot(); rv = c.call("offtin", b)
    c.ensure("a control word is sign and magnitude, least significant byte first", Eq(rv, word([c.get(b, i, 1, st=st0) for i in range(8)])))
    c.ensure("the word is only read", T if c.st.mem[b.es[0][1]] is st0.mem[b.es[0][1]] else F); c.cover("returns")

def layout(c): return {n: c.field("bpak_bspatch_context", [i]) for i, n in enumerate(FN)}

class World:
    def __init__(s, c):
        ex = s.ex = c.ex; s.c = c; s.L = layout(c); s.size = ex.mods[0].size(("named", "struct.bpak_bspatch_context")); cb = s.L["ctrl_buf"][0]
        s.ctx = c.obj("ctx", s.size, segs=[(0, cb), (cb, cb + CT), (cb + CT, s.size)]); s.user = c.obj("user", 8)
        s.pl = ZExt(c.var("patch_buffer_length", 47), 64); c.pre(Ne(s.pl, C64(0))); s.pb = c.obj("patch_buffer", s.pl)
        s.org = ex.new_obj(c.st, "origin", C64(1 << 62), "ghost"); s.oo = ZExt(c.var("origin_offset", 48), 64); s.wo = ZExt(c.var("output_offset", 48), 64)
        g = c.st.ghost; g["bad"] = F; g["out"] = C64(0); g["rd.off"] = C64(0); g["rd.n"] = C64(0)
        s.W = c.var("wit", 64); s.J = c.var("wit.ctrl", 64); c.pre(Ult(s.J, C64(CT)))
        ex.contracts["rd"] = s.read; ex.contracts["wr"] = s.write
        s.set("patch_buffer", s.pb); s.set("patch_buffer_length", s.pl); s.set("user_priv", s.user); s.set("origin_offset", s.oo); s.set("output_offset", s.wo)
        s.set("read_origin", mkptr(ex.fn_obj("rd"))); s.set("write_output", mkptr(ex.fn_obj("wr")))
    def set(s, f, v): o, n = s.L[f]; s.c.set(s.ctx, o, n, v)
    def get(s, f, st=None, i=0, n=None): o, m = s.L[f]; return s.c.get(s.ctx, o + i, n or m, st=st or s.c.st)
    def ctrl(s, st, j): return byte_at(s.c, s.ctx, st, Add(C64(s.L["ctrl_buf"][0]), j))
    def origin(s, q): return s.ex.base_read(s.st0, s.st0.mem[s.org].bases[0], q)
    def result(s, ex, st, n, what, off):
        r = Fresh(what, 64); st.assume(Sle(C64(-(1 << 31)), r)); ok = Eq(r, n)
        # nothing is delivered outside of what a stream can hold
        st.assume(Implies(And(ok, Ne(n, C64(0))), And(Ule(off, C64(1 << 62)), Ule(n, Sub(C64(1 << 62), off))))); return r, ok
    def read(s, ex, st, a, rt):
        off, buf, n, u = a; ex.oblige(st, veq(asptr(u), s.user), "callback", "the caller's user pointer is passed on")
        es = ex.access(st, asptr(buf), n, "origin buffer")
        if st.dead: return C64(0)
        r, ok = s.result(ex, st, n, "rd", off); st.ghost["bad"] = Or(st.ghost["bad"], Not(ok)); st.ghost["rd.off"] = off; st.ghost["rd.n"] = n
        b = Ptr(tuple(es)) if es else NULL
        stdio.fork2(ex, st, ok, lambda z: stdio.raw_copy(ex, z, b, mkptr(s.org, off), n, "origin"), lambda z: models.havoc_range(ex, z, b, n, "origin"))
        return r
    def write(s, ex, st, a, rt):
        off, buf, n, u = a; ex.oblige(st, veq(asptr(u), s.user), "callback", "the caller's user pointer is passed on")
        ex.access(st, asptr(buf), n, "output data")
        if st.dead: return C64(0)
        g = st.ghost; x = Sub(off, s.wo); R = s.R
        ex.oblige(st, Or(Eq(n, C64(0)), Eq(x, g["out"])), "output", "the output is written in order")
        z = st.fork(); z.assume(Ult(s.W, n))
        if not z.dead and not s.light:
            q = R.src(x); qw = Add(q, s.W); b = byte_at(s.c, buf, z, s.W)
            ind = And(R.ph(q, D_), Ult(s.W, R.g("d", q))); ine = And(R.ph(q, E_), Ult(s.W, R.g("e", q)))
            z.assume(s.byte(qw))
            ex.oblige(z, And(Ult(qw, s.n), Or(ind, ine)), "output", "no more output than the patch calls for")
            ex.oblige(z, Implies(ind, Eq(b, Add(R.S(qw), s.origin(Add(s.oo, Add(R.g("o", q), s.W)))))), "output", "diff bytes are added to the origin bytes at the current position")
            ex.oblige(z, Implies(ine, Eq(b, R.S(qw))), "output", "extra bytes are copied")
        r, ok = s.result(ex, st, n, "wr", off); g["bad"] = Or(g["bad"], Not(ok)); g["out"] = Ite(ok, Add(g["out"], n), g["out"])
        return r
    def inv(s, st):
        """what holds between calls as long as no error was reported"""
        f = lambda n: s.get(n, st); stt = f("state"); z = C64(0)
        return And(Or(*[Eq(stt, K(k, 32)) for k in (FILL, DIFF, EXTRA)]), Implies(Eq(stt, K(FILL, 32)), Ult(f("ctrl_buf_count"), K(CT, 8))),
                   Implies(Eq(stt, K(DIFF, 32)), And(Sle(z, f("diff_count")), Sle(z, f("extra_count")))), Implies(Eq(stt, K(EXTRA, 32)), Slt(z, f("extra_count"))), Ule(f("output_position"), C64(1 << 62)), Not(sovf(s.oo, f("origin_position"))))
    def rel(s, st, p, k, part=None):
        """the context in state k represents the configuration after p bytes"""
        f = lambda n: s.get(n, st); R = s.R; o, out = f("origin_position"), f("output_position"); stt = Eq(f("state"), K(k, 32))
        if k == FILL:
            r = (R.ph(p, C_), Eq(R.g("k", p), ZExt(f("ctrl_buf_count"), 64)), Eq(R.g("o", p), o), Eq(R.g("out", p), out)); r = And(*r) if part is None else r[part]
        elif k == READ:
            t = R.triple(Sub(p, C64(CT))); r = And(Eq(f("ctrl_buf_count"), K(CT, 8)), R.norm(p, t[0], t[1], t[2], o, out))
        elif k == DIFF: r = R.norm(p, f("diff_count"), f("extra_count"), f("adjust"), o, out)
        elif k == EXTRA: r = R.norm(p, C64(0), f("extra_count"), f("adjust"), o, out)
        return Implies(stt, r)
    def held(s, st, p, x, j=None):
        """byte J (any of the 24) of the control buffer is the patch byte it should be"""
        k = ZExt(s.get("ctrl_buf_count", st), 64) if x == FILL else C64(CT); J = s.J if j is None else C64(j)
        return Implies(And(Eq(s.get("state", st), K(x, 32)), Ult(J, k)), Eq(s.ctrl(st, J), s.R.S(Add(Sub(p, k), J))))
    def full(s, st, p):
        """the words of a full control buffer are the words of the patch"""
        b = [s.ctrl(st, C64(j)) for j in range(CT)]; t = s.R.triple(Sub(p, C64(CT)))
        return Implies(Eq(s.get("state", st), K(READ, 32)), And(*[Eq(word(b[8 * i:8 * i + 8]), t[i]) for i in range(3)]))
    def triple_claim(s, st, p, known):
        if known: return And(s.held(st, p, READ), s.full(st, p))
        # held is proved for any J, hence for all of them; R.words and byte are definitions
        return And(Implies(s.byte(Add(Sub(p, C64(CT)), s.J)), s.held(st, p, READ)), Implies(And(s.R.words(Sub(p, C64(CT))), *[s.held(st, p, READ, j) for j in range(CT)]), s.full(st, p)))
    def fill_claim(s, st, p, known):
        k = ZExt(s.get("ctrl_buf_count", st), 64); return Implies(T if known else s.byte(Add(Sub(p, k), s.J)), s.held(st, p, FILL))
    def byte(s, q): return Eq(s.R.S(q), s.S(q))          # what byte q of the patch is

def g_neg(c): return c.st.ghost["neg"]

def setup_kept(c, w, z, st0):
    for f in ("origin_offset", "output_offset", "patch_buffer_length", "compression"): c.ensure("the set up is kept (%s)" % f, Eq(w.get(f, z), w.get(f, st0)), st=z)
    for f in ("patch_buffer", "user_priv", "read_origin", "write_output"): o, m = w.L[f]; c.ensure("the set up is kept (%s)" % f, veq(c.get(w.ctx, o, 8, ptr=True, st=z), c.get(w.ctx, o, 8, ptr=True, st=st0)), st=z)

def write(c, quick=True, light=False):
    """light: memory safety, refusals, error reporting, output order and the invariant between calls only; the word of a control
    triple and the adjusted position are whatever they are (no relation with the rules)"""
    global WORD; WORD = True          # the value of a control word is a function of its bytes (unit control word)
    ex = c.ex; ex.split_back = True; ex.auto_locals = True; ex.lazy_branch = True; w = World(c); w.light = light; n = s_n = ZExt(c.var("length", 47), 64); w.n = n; chunk = c.obj("chunk", n); g = c.st.ghost; co = chunk.es[0][1]; g["neg"] = F
    def offtin(ex, st, a, rt):
        p = asptr(a[0]); ex.access(st, p, C64(8), "control word")
        if st.dead: return C64(0)
        if light:
            ws = [x for x in ("diff_count", "extra_count", "adjust")]; v = Fresh("word", 64); st.assume(Ne(v, C64(1 << 63))); st.ghost["word"] = v
            # the first two words of a triple are the counts
            st.ghost["neg"] = Or(st.ghost["neg"], And(Slt(v, C64(0)), Or(*[And(cc, Eq(f, C64(w.L["ctrl_buf"][0] + 8 * i))) for cc, o, f in p.es for i in (0, 1)])))
            return v
        return word([ex.load(st, Ptr(tuple((cc, o, Add(f, C64(i))) for cc, o, f in p.es)), 1) for i in range(8)])
    ex.contracts["offtin"] = offtin
    w.set("compression", 0); c.pre(w.inv(c.st));
    st0 = w.st0 = c.snapshot(); k0 = ZExt(w.get("ctrl_buf_count"), 64); cb = w.L["ctrl_buf"][0]
    w.S = lambda q: Ite(Slt(q, C64(0)), byte_at(c, w.ctx, st0, Add(C64(cb), Add(k0, q))), ex.base_read(st0, st0.mem[co].bases[0], q))
    R = w.R = Rules(lambda q: UF("patch.byte", 8, q), n, w.oo); g["out"] = w.get("output_position"); z0 = C64(0)
    if light: c.pre(Eq(g["out"], w.get("output_position")))
    else:
        for k in (FILL, DIFF, EXTRA): c.pre(w.rel(c.st, z0, k))
    def points(z):
        for nm, oid, off_, m, v in live_cells(ex, z):
            if isinstance(v, Ptr):
                for cc, o, f in v.es:
                    if o == co and not isc(f):
                        def rd(y, oid=oid, off_=off_):
                            p = ex.aspoison(ex.read_int(y, y.mem[oid], oid, C64(off_), 8)); r = z0
                            for cc, o, f in reversed(p.es):
                                if o == co: r = Ite(cc, f, r)
                            return r
                        yield nm, rd
    def axioms(ex, st, z, hv):
        out = [R.jump(z0, n), R.back(z0)] if not light else []; w.heads = []
        if light: return out
        for nm, rd in points(z): p = rd(z); out += [R.jump(p, Sub(n, p)), R.back(p)]; w.heads.append(p)
        return out
    ex.loop_axioms.append(axioms)
    def cands(ex, st, z, hv):
        T_ = WitInv; yield ("out", Eq(z.ghost["out"], w.get("output_position", z))); yield ("good", Not(z.ghost["bad"])); yield ("no negative count", Not(z.ghost["neg"]))
        if any(nm.startswith("ctx+") for v, nm, m, rd in hv.vars):
            stt = w.get("state", z); is_ = lambda k: Eq(stt, K(k, 32))
            yield ("states", Or(*[is_(k) for k in (FILL, READ, DIFF, EXTRA)])); yield ("count", Implies(is_(FILL), Ult(w.get("ctrl_buf_count", z), K(CT, 8))))
            yield ("counts", Implies(is_(DIFF), And(Sle(z0, w.get("diff_count", z)), Sle(z0, w.get("extra_count", z))))); yield ("extra", Implies(is_(EXTRA), Slt(z0, w.get("extra_count", z))))
            yield ("far", Ule(w.get("output_position", z), C64(1 << 62))); yield ("origin", Not(sovf(w.oo, w.get("origin_position", z))))
            pts = list(points(z))
            for nm, rd in pts:
                p0 = rd(z); yield ("inside " + nm, Ule(p0, n))
                for im, v in ints64(ex, z): yield ("left %s %s" % (im, nm), Eq(v, Sub(n, p0)))
                if light: continue
                ax = lambda y, rd=rd, p0=p0: T if rd(y) is p0 or isc(rd(y)) else R.jump(p0, Sub(rd(y), p0))
                for k in (READ, DIFF, EXTRA): yield ("rel%d %s" % (k, nm), T_(T, lambda y, k=k, rd=rd, ax=ax: Implies(ax(y), w.rel(y, rd(y), k))))
                for i in range(4): yield ("rel0.%d %s" % (i, nm), T_(T, lambda y, i=i, rd=rd, ax=ax: Implies(ax(y), w.rel(y, rd(y), FILL, i))))
                yield ("held " + nm, T_(T, lambda y, rd=rd: w.fill_claim(y, rd(y), y is z))); yield ("triple " + nm, T_(T, lambda y, rd=rd: w.triple_claim(y, rd(y), y is z)))
            return
        if light:
            for im, oid, off_, m, v in live_cells(ex, z):
                if m == 8 and not isinstance(v, Ptr) and not isc(v): yield ("range " + im, Ule(v, z.ghost["rd.n"]))
            return
        # adding the diff bytes: positions below the counter are done
        pb = w.pb; W = w.W
        for im, oid, off_, m, v in live_cells(ex, z):
            if m not in (4, 8) or isinstance(v, Ptr) or isc(v): continue
            def ri(y, oid=oid, off_=off_, m=m):
                r = ex.read_int(y, y.mem[oid], oid, C64(off_), m); return SExt(r, 64) if m == 4 else r
            def added(y, ri=ri):
                gg = y.ghost; q = R.src(gg["out"]); b = byte_at(c, pb, y, W); o = w.origin(Add(gg["rd.off"], W)); return Implies(And(Ult(W, gg["rd.n"]), w.byte(Add(q, W))), Eq(b, Ite(Ult(W, ri(y)), Add(R.S(Add(q, W)), o), o)))
            yield ("added " + im, T_(T, added)); yield ("range " + im, Ule(ri(z), z.ghost["rd.n"]))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("bspatch_write"); ex.scale = max(ex.scale, 3); ex.racing = 40
    ex.rank_cands = [lambda ex, st, z, hv: [Add(MulC(Sub(n, rd(z)), 8), Ite(Eq(w.get("state", z), K(FILL, 32)), C64(1), Ite(Eq(w.get("state", z), K(READ, 32)), C64(4), Ite(Eq(w.get("state", z), K(DIFF, 32)), C64(3), C64(2))))) for nm, rd in points(z)]]
    rv = c.call("bpak_bspatch_write", w.ctx, chunk, n); ok = eqi(rv, 0); bad = c.st.ghost["bad"]
    c.ensure("a failed or short read or write is reported", Implies(ok, Not(bad)))
    if light: c.ensure("negative counts are refused", Implies(g_neg(c), Not(ok)))
    else: c.ensure("negative counts are refused", Implies(R.ph(n, BAD), Not(ok)))
    c.ensure("errors are negative", Sle(rv, K(0, 32)))
    c.ensure("after an error the patcher is stopped", Implies(Not(ok), eqi(w.get("state"), ERROR)))
    if light:
        z = c.st.fork(); z.assume(ok)
        if not z.dead:
            c.ensure("the patcher stays in a usable state", w.inv(z), st=z)
            c.ensure("the output position counts what was written", Eq(z.ghost["out"], w.get("output_position", z)), st=z)
            setup_kept(c, w, z, st0)
        c.ensure("the patch is only read", T if c.st.mem[co].bases == st0.mem[co].bases and not c.st.mem[co].ov else F)
        c.cover("taken", ok); c.cover("fails", Not(ok)); c.cover("refused", g_neg(c)); return
    ends = []
    for p in w.heads:
        for x in ("d", "e"): m = R.g(x, p); ends += [R.jump(p, m), R.jump(Add(p, m), Sub(n, Add(p, m)))]
    c.ensure("without an error the chunk is taken", Implies(And(Not(bad), Not(R.ph(n, BAD)), Not(R.ph(n, FAR)), *ends), ok))
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("the patcher stays in a usable state", w.inv(z), st=z)
        for k in (DIFF, EXTRA): c.ensure("the rules are followed up to the end of the chunk (%d)" % k, w.rel(z, n, k), st=z)
        hd = w.heads[0] if w.heads else z0
        for i in ((0, 3) if quick else range(4)):
            for v in (C_, D_, E_, None):
                y = z.fork(); y.assume(R.ph(hd, v) if v is not None else And(*[Not(R.ph(hd, x)) for x in (C_, D_, E_)]))
                if not y.dead: c.ensure("the rules are followed up to the end of the chunk (0.%d.%s)" % (i, v), w.rel(y, n, FILL, i), st=y)
        c.ensure("an incomplete control triple is kept", w.fill_claim(z, n, False), st=z)
        c.ensure("everything the patch calls for is written", Eq(z.ghost["out"], w.get("output_position", z)), st=z)
        setup_kept(c, w, z, st0)
    c.ensure("the patch is only read", T if c.st.mem[co].bases == st0.mem[co].bases and not c.st.mem[co].ov else F)
    c.cover("taken", ok); c.cover("fails", Not(ok)); c.cover("refused", R.ph(n, BAD))

def follow(c):
    """bpak_bspatch_write, no compression: the patch rules as a ghost machine that is driven by what the code does (control words
    decoded, origin read, output written); the context always agrees with the machine, so the rules are followed across chunks"""
    ex = c.ex; ex.split_back = True; ex.auto_locals = True; ex.lazy_branch = True; w = World(c); w.light = True; n = ZExt(c.var("length", 47), 64); w.n = n; chunk = c.obj("chunk", n); g = c.st.ghost; co = chunk.es[0][1]
    w.set("compression", 0); c.pre(w.inv(c.st)); st0 = w.st0 = c.snapshot(); z0 = C64(0); cb = C64(w.L["ctrl_buf"][0]); k0 = ZExt(w.get("ctrl_buf_count"), 64)
    # byte q of the patch, counted from the start of this chunk: bytes before it are those held in the control buffer
    S = lambda q: Ite(Slt(q, z0), byte_at(c, w.ctx, st0, Add(cb, Add(k0, q))), ex.base_read(st0, st0.mem[co].bases[0], q))
    wd = lambda q: UF("patch.word", 64, q)
    N3 = ("d", "e", "a")
    st_ = w.get("state"); fill0 = Eq(st_, K(FILL, 32)); ext0 = Eq(st_, K(EXTRA, 32))
    g.update(ctl=fill0, c0=Sub(z0, k0), d=Ite(ext0, z0, w.get("diff_count")), e=w.get("extra_count"), a=w.get("adjust"), o=w.get("origin_position"), out=w.get("output_position"), pos=z0, seen=K(0, 3), neg=F, far=F)
    def eff(g):
        """the counts left, after taking up a triple"""
        k = g["ctl"]; q = g["c0"]; return {"d": Ite(k, wd(q), g["d"]), "e": Ite(k, wd(Add(q, C64(8))), g["e"]), "a": Ite(k, wd(Add(q, C64(16))), g["a"]), "o": g["o"], "pos": Ite(k, Add(q, C64(CT)), g["pos"]), "out": g["out"]}
    def norm(g):
        """(c0, o) once a triple that is done has been left"""
        E = eff(g); done = And(Eq(E["d"], z0), Eq(E["e"], z0), Or(Not(g["ctl"]), Ne(g["seen"], K(0, 3)))); return And(Or(g["ctl"], done), Or(done, Eq(g["seen"], K(0, 3)))), Ite(done, E["pos"], g["c0"]), Ite(done, Add(g["o"], E["a"]), g["o"]), And(done, Or(sovf(g["o"], E["a"]), sovf(w.oo, Add(g["o"], E["a"])))), done
    def offtin(ex, st, a, rt):
        p = asptr(a[0]); g = st.ghost; ex.access(st, p, C64(8), "control word")
        if st.dead: return z0
        ok = F; i8 = z0
        for i in range(3): h = And(*[Implies(cc, And(T if o == w.ctx.es[0][1] else F, Eq(f, Add(cb, C64(8 * i))))) for cc, o, f in p.es]); ok = Or(ok, h); i8 = Ite(h, C64(8 * i), i8)
        ex.oblige(st, ok, "control", "a word of the control buffer is decoded")
        bit = Ite(Eq(i8, z0), K(1, 3), Ite(Eq(i8, C64(8)), K(2, 3), K(4, 3)))
        isctl, c0, o, far, done = norm(g); again = Or(Not(g["ctl"]), Ne(BAnd(g["seen"], bit), K(0, 3)))
        ex.oblige(st, Implies(again, done), "control", "the next control triple is taken up only when the last one is done")
        g["c0"], g["o"] = Ite(again, c0, g["c0"]), Ite(again, o, g["o"]); g["far"] = Or(g["far"], And(again, far)); g["ctl"] = T; g["seen"] = Ite(again, bit, BOr(g["seen"], bit))
        q = Add(g["c0"], i8); J = w.J; jj = Sub(J, i8)
        ex.oblige(st, Implies(Ult(jj, C64(8)), Eq(byte_at(c, p, st, jj), S(Add(q, jj)))), "control", "the word is made of the patch bytes that follow what was taken up before")
        ex.oblige(st, Sle(Add(q, C64(8)), n), "control", "the word has arrived")
        v = wd(q); st.assume(Ne(v, C64(1 << 63))); g["neg"] = Or(g["neg"], And(Slt(v, z0), Ne(i8, C64(16)))); return v
    ex.contracts["offtin"] = offtin
    def rd(ex, st, a, rt):
        off, buf, m, u = a; g = st.ghost; E = eff(g)
        ex.oblige(st, Or(Eq(m, z0), And(Sle(m, E["d"]), Sle(z0, E["d"]), Eq(off, Add(w.oo, E["o"])))), "origin", "the origin is read at the current position, no more than there are diff bytes")
        return World.read(w, ex, st, a, rt)
    def wr(ex, st, a, rt):
        off, buf, m, u = a; g = st.ghost; ex.oblige(st, veq(asptr(u), w.user), "callback", "the caller's user pointer is passed on")
        ex.access(st, asptr(buf), m, "output data")
        if st.dead: return z0
        E = eff(g); some = Ne(m, z0); diff = Slt(z0, E["d"])
        ex.oblige(st, Or(Not(some), Eq(off, Add(w.wo, g["out"]))), "output", "the output is written in order")
        ex.oblige(st, Implies(some, And(Not(g["neg"]), Ule(m, Ite(diff, E["d"], E["e"])), Sle(z0, E["e"]))), "output", "no more output than the patch calls for")
        ex.oblige(st, Implies(some, And(Ule(E["pos"], n), Ule(m, Sub(n, E["pos"])))), "output", "the patch bytes have arrived")
        ex.oblige(st, Implies(And(some, g["ctl"]), Eq(g["seen"], K(7, 3))), "output", "the control triple was taken up")
        z = st.fork(); z.assume(Ult(w.W, m)); z.assume(some)
        if not z.dead:
            b = byte_at(c, buf, z, w.W); s = S(Add(E["pos"], w.W))
            ex.oblige(z, Implies(diff, Eq(b, Add(s, w.origin(Add(w.oo, Add(E["o"], w.W)))))), "output", "diff bytes are added to the origin bytes at the current position")
            ex.oblige(z, Implies(Not(diff), Eq(b, s)), "output", "extra bytes are copied")
        r, ok = w.result(ex, st, m, "wr", off); go = And(ok, some); g["bad"] = Or(g["bad"], Not(ok))
        x = Ite(go, m, z0); g["out"] = Add(g["out"], x); dl = Ite(diff, x, z0)
        for k in N3: g[k] = Ite(go, E[k], g[k])
        g["pos"] = Ite(go, Add(E["pos"], m), g["pos"]); g["d"] = Sub(g["d"], Ite(go, dl, z0)); g["e"] = Sub(g["e"], Ite(And(go, Not(diff)), m, z0)); g["o"] = Add(g["o"], dl); g["ctl"] = And(g["ctl"], Not(go)); g["seen"] = Ite(go, K(0, 3), g["seen"])
        return r
    ex.contracts["rd"], ex.contracts["wr"] = rd, wr
    def agrees(y, pp, k):
        """the context in state k stands for the ghost machine, pp bytes of the chunk used up"""
        g = y.ghost; f = lambda m: w.get(m, y); E = eff(g); base = And(Eq(f("output_position"), g["out"]), Not(g["neg"]), Not(g["bad"]))
        if k in (FILL, READ):
            isctl, c0, o, far, done = norm(g); r = And(base, isctl, Eq(pp, Add(c0, ZExt(f("ctrl_buf_count"), 64) if k == FILL else C64(CT))), Eq(f("origin_position"), o), Not(far), Not(g["far"])); r = And(r, Eq(f("ctrl_buf_count"), K(CT, 8))) if k == READ else r
        else:
            r = And(base, Not(g["far"]), Eq(f("diff_count") if k == DIFF else z0, E["d"]), Eq(f("extra_count"), E["e"]), Eq(f("adjust"), E["a"]), Eq(f("origin_position"), E["o"]), Eq(pp, E["pos"]), Implies(g["ctl"], Eq(g["seen"], K(7, 3))))
        return Implies(Eq(f("state"), K(k, 32)), r)
    def held(y, x):
        g = y.ghost; c0 = norm(g)[1]; kk = ZExt(w.get("ctrl_buf_count", y), 64) if x == FILL else C64(CT)
        return Implies(And(Eq(w.get("state", y), K(x, 32)), Ult(w.J, kk)), Eq(w.ctrl(y, w.J), S(Add(c0, w.J))))
    def points(z):
        for nm, oid, off_, m, v in live_cells(ex, z):
            if isinstance(v, Ptr):
                for cc, o, f in v.es:
                    if o == co and not isc(f):
                        def rdp(y, oid=oid, off_=off_):
                            p = ex.aspoison(ex.read_int(y, y.mem[oid], oid, C64(off_), 8)); r = z0
                            for cc, o, f in reversed(p.es):
                                if o == co: r = Ite(cc, f, r)
                            return r
                        yield nm, rdp
    def cands(ex, st, z, hv):
        yield ("no negative count", Not(z.ghost["neg"])); yield ("good", Not(z.ghost["bad"])); yield ("not far", Not(z.ghost["far"]))
        if any(nm.startswith("ctx+") for v, nm, m, rd in hv.vars):
            stt = w.get("state", z); is_ = lambda k: Eq(stt, K(k, 32))
            yield ("states", Or(*[is_(k) for k in (FILL, READ, DIFF, EXTRA)])); yield ("count", Implies(is_(FILL), Ult(w.get("ctrl_buf_count", z), K(CT, 8))))
            yield ("counts", Implies(is_(DIFF), And(Sle(z0, w.get("diff_count", z)), Sle(z0, w.get("extra_count", z))))); yield ("extra", Implies(is_(EXTRA), Slt(z0, w.get("extra_count", z))))
            yield ("far", Ule(w.get("output_position", z), C64(1 << 62))); yield ("origin", Not(sovf(w.oo, w.get("origin_position", z))))
            for nm, rdp in points(z):
                p0 = rdp(z); yield ("inside " + nm, Ule(p0, n))
                for im, v in ints64(ex, z): yield ("left %s %s" % (im, nm), Eq(v, Sub(n, p0)))
                for k in (FILL, READ, DIFF, EXTRA): yield ("agrees%d %s" % (k, nm), WitInv(T, lambda y, k=k, rdp=rdp: agrees(y, rdp(y), k)))
            for k in (FILL, READ): yield ("held%d" % k, WitInv(T, lambda y, k=k: held(y, k)))
            return
        pb, W = w.pb, w.W
        for im, oid, off_, m, v in live_cells(ex, z):
            if m not in (4, 8) or isinstance(v, Ptr) or isc(v): continue
            def ri(y, oid=oid, off_=off_, m=m):
                r = ex.read_int(y, y.mem[oid], oid, C64(off_), m); return SExt(r, 64) if m == 4 else r
            def added(y, ri=ri):
                gg = y.ghost; E = eff(gg); b = byte_at(c, pb, y, W); o = w.origin(Add(gg["rd.off"], W)); return Implies(Ult(W, gg["rd.n"]), Eq(b, Ite(Ult(W, ri(y)), Add(S(Add(E["pos"], W)), o), o)))
            yield ("added " + im, WitInv(T, added)); yield ("range " + im, Ule(ri(z), z.ghost["rd.n"]))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("bspatch_write"); ex.scale = max(ex.scale, 3)
    ex.rank_cands = [lambda ex, st, z, hv: [Add(MulC(Sub(n, rdp(z)), 8), Ite(Eq(w.get("state", z), K(FILL, 32)), C64(1), Ite(Eq(w.get("state", z), K(READ, 32)), C64(4), Ite(Eq(w.get("state", z), K(DIFF, 32)), C64(3), C64(2))))) for nm, rdp in points(z)]]
    rv = c.call("bpak_bspatch_write", w.ctx, chunk, n); ok = eqi(rv, 0); g = c.st.ghost; bad = g["bad"]; far = Or(g["far"], norm(g)[3])
    c.ensure("a failed or short read or write is reported", Implies(ok, Not(bad))); c.ensure("negative counts are refused", Implies(g["neg"], Not(ok)))
    c.ensure("errors are negative", Sle(rv, K(0, 32))); c.ensure("after an error the patcher is stopped", Implies(Not(ok), eqi(w.get("state"), ERROR)))
    c.ensure("without an error the chunk is taken", Implies(And(Not(bad), Not(g["neg"]), Not(far)), ok))
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("the patcher stays in a usable state", w.inv(z), st=z)
        for k in (FILL, DIFF, EXTRA): c.ensure("all of the chunk was used and the context agrees with the rules (%d)" % k, agrees(z, n, k), st=z)
        c.ensure("an incomplete control triple is kept", held(z, FILL), st=z); setup_kept(c, w, z, st0)
    c.ensure("the patch is only read", T if c.st.mem[co].bases == st0.mem[co].bases and not c.st.mem[co].ov else F)
    c.cover("taken", ok); c.cover("fails", Not(ok)); c.cover("refused", g["neg"])

ENUM = {"NONE": 0, "HS": 1, "LZMA": 2}                     # enum bpak_compression (include/bpak/bsdiff.h)
def setup(c):
    """bpak_bspatch_init"""
    ex = c.ex; L = layout(c); size = ex.mods[0].size(("named", "struct.bpak_bspatch_context")); cb = L["ctrl_buf"][0]
    ctx = c.obj("ctx", size, segs=[(0, cb), (cb, cb + CT), (cb + CT, size)]); n = c.var("buffer_length", 64); c.pre(Ule(n, C64(1 << 60))); b = c.obj("buffer", n); u = c.obj("user", 8)
    il, oo, wo = (c.var(x, 64) for x in ("input_length", "origin_offset", "output_offset")); comp = c.var("compression", 32); g = c.st.ghost; g["reset"] = F; g["lz"] = F; g["lzok"] = F
    def reset(ex, st, a, rt): ex.oblige(st, veq(asptr(a[0]), dec), "callback", "the patcher's own decoder is reset"); ex.access(st, asptr(a[0]), C64(526), "decoder"); st.ghost["reset"] = T
    def lz(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), dec), "callback", "the patcher's own decoder is set up"); st.ghost["lz"] = T; r = Fresh("lzma", 32); st.ghost["lzok"] = eqi(r, 0); return r
    dec = Ptr(tuple((cc, o, Add(f, C64(L["decompressor"][0]))) for cc, o, f in ctx.es))
    ex.contracts["heatshrink_decoder_reset"] = reset; ex.contracts["lzma_stream_decoder"] = lz
    rd, wr = ex.fn_obj("rd"), ex.fn_obj("wr"); ex.contracts["rd"] = ex.contracts["wr"] = lambda ex, st, a, rt: ex.oblige(st, F, "callback", "nothing is read or written yet") or C64(0)
    rv = c.call("bpak_bspatch_init", ctx, b, n, il, mkptr(rd), oo, mkptr(wr), wo, comp, u); ok = eqi(rv, 0); G = lambda f: c.get(ctx, *L[f]); P = lambda f: c.get(ctx, L[f][0], 8, ptr=True); h = C64(0)
    c.ensure("an empty or odd work buffer is refused", Implies(Or(Eq(n, C64(0)), Eq(Extract(n, 0, 0), K(1, 1))), Not(ok)))
    c.ensure("an unknown compression is refused", Implies(ok, Or(*[eqi(comp, v) for v in ENUM.values()]))); c.ensure("a decoder that can not be set up is reported", Implies(And(ok, eqi(comp, 2)), c.st.ghost["lzok"]))
    c.ensure("everything else is accepted", Implies(And(Ne(n, C64(0)), Eq(Extract(n, 0, 0), K(0, 1)), Or(eqi(comp, 0), eqi(comp, 1), And(eqi(comp, 2), c.st.ghost["lzok"]))), ok))
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        hb = Extract(n, 63, 1); hb = ZExt(hb, 64); e = lambda d, x: c.ensure(d, x, st=z)
        for f in ("origin_position", "output_position", "state", "ctrl_buf_count", "diff_count", "extra_count", "adjust", "input_position"): e("starts at the beginning (%s)" % f, eqi(c.get(ctx, *L[f], st=z), 0))
        for f, v in (("origin_offset", oo), ("output_offset", wo), ("compression", comp), ("input_length", il), ("patch_buffer_length", hb), ("input_buffer_length", hb)): e("set up as asked for (%s)" % f, Eq(c.get(ctx, *L[f], st=z), v))
        for f, v in (("patch_buffer", b), ("user_priv", u), ("read_origin", mkptr(rd)), ("write_output", mkptr(wr)), ("input_buffer", Ptr(tuple((cc, o, Add(f_, hb)) for cc, o, f_ in b.es)))): e("set up as asked for (%s)" % f, veq(c.get(ctx, L[f][0], 8, ptr=True, st=z), v))
        e("the heatshrink decoder starts out fresh", Implies(eqi(comp, 1), z.ghost["reset"]))
    c.cover("taken", ok); c.cover("refused", Not(ok))

def final(c):
    ex = c.ex; w = World(c); comp = c.var("compression", 32); stt = c.var("state", 32); w.set("compression", comp); w.set("state", stt); g = c.st.ghost; g["fin"] = C64(0); g["rc"] = K(0, 32); pos = c.var("output_position", 64); w.set("output_position", pos); c.pre(Sle(C64(0), pos))
    def lz(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), w.ctx), Eq(a[2], C64(0))), "callback", "the decompressor is told that there is no more input"); st.ghost["fin"] = Add(st.ghost["fin"], C64(1))
        r = st.ghost["rc"] = Fresh("rc", 32); st.assume(Sle(r, K(0, 32))); p = Fresh("output_position", 64); st.assume(Sle(C64(0), p)); c.set(w.ctx, *w.L["output_position"], p, st=st); st.ghost["pos"] = p; return r
    ex.contracts["bspatch_lzma_write"] = lz; g["pos"] = pos
    rv = c.call("bpak_bspatch_final", w.ctx); g = c.st.ghost
    c.ensure("after an error finishing fails", Implies(eqi(stt, ERROR), Slt(rv, C64(0)))); c.ensure("LZMA data has to be complete", Implies(And(eqi(comp, 2), Sle(C64(0), rv)), And(Eq(g["fin"], C64(1)), eqi(g["rc"], 0))))
    c.ensure("otherwise the length of the output is returned", Implies(Sle(C64(0), rv), Eq(rv, g["pos"]))); c.ensure("without an error finishing succeeds", Implies(And(Not(eqi(stt, ERROR)), Or(eqi(comp, 0), eqi(comp, 1), And(eqi(comp, 2), eqi(g["rc"], 0)))), Eq(rv, g["pos"])))
    c.cover("taken", Sle(C64(0), rv)); c.cover("refused", Slt(rv, C64(0)))

def stopped(c):
    """no error is forgotten: a stopped patcher refuses everything"""
    ex = c.ex; w = World(c); w.set("compression", c.var("compression", 32)); w.set("state", ERROR); n = c.var("length", 64); c.pre(Ule(n, C64(1 << 60))); b = c.obj("chunk", n)
    def no(ex, st, a, rt): ex.oblige(st, F, "callback", "a stopped patcher does nothing"); return C64(0)
    for f in ("rd", "wr"): ex.contracts[f] = no
    for f in ("heatshrink_decoder_sink", "heatshrink_decoder_poll", "heatshrink_decoder_finish", "lzma_code"): ex.contracts[f] = lambda ex, st, a, rt: no(ex, st, a, rt) and K(0, 32)
    st0 = c.snapshot(); rv = c.call("bpak_bspatch_write", w.ctx, b, n); c.ensure("a stopped patcher takes no more data", Not(eqi(rv, 0))); c.ensure("and stays stopped", eqi(w.get("state"), ERROR)); c.cover("returns")

class Packed:
    """compressed input: what the decompressor yields is applied once and in order (bspatch_write by contract)"""
    def __init__(s, c, comp, n):
        w = s.w = World(c); s.c = c; s.n = n; ex = c.ex; w.set("compression", comp); stt = c.var("state", 32); c.pre(Not(eqi(stt, ERROR))); w.set("state", stt); c.pre(Sle(C64(0), w.get("output_position")))
        g = c.st.ghost; g["pend"] = C64(0); g["err"] = F; g["sunk"] = C64(0); g["more"] = T; s.chunk = c.obj("chunk", n)
        ex.contracts["rd"] = ex.contracts["wr"] = lambda ex, st, a, rt: ex.oblige(st, F, "callback", "only called when a chunk is applied") or C64(0)
        ex.contracts["bspatch_write"] = s.apply
    def apply(s, ex, st, a, rt):
        g = st.ghost; ex.oblige(st, And(veq(asptr(a[0]), s.w.ctx), veq(asptr(a[1]), s.out(st)), Eq(a[2], g["pend"])), "callback", "exactly what the decompressor has produced is applied")
        ex.access(st, asptr(a[1]), a[2], "patch data"); r = Fresh("rc", 32); st.assume(Sle(r, K(0, 32))); np_ = Fresh("output_position", 64); st.assume(Sle(C64(0), np_)); s.c.set(s.w.ctx, *s.w.L["output_position"], np_, st=st); g["pend"] = C64(0); g["err"] = Or(g["err"], Not(eqi(r, 0))); ns = Fresh("state", 32); st.assume(Iff(eqi(ns, ERROR), Not(eqi(r, 0)))); s.c.set(s.w.ctx, *s.w.L["state"], ns, st=st); return r
    def out(s, st): return s.buf

def hs(c):
    ex = c.ex; n = ZExt(c.var("length", 48), 64); k = Packed(c, 1, n); w = k.w; bl = ZExt(c.var("input_buffer_length", 47), 64); k.buf = c.obj("input_buffer", bl); w.set("input_buffer", k.buf); w.set("input_buffer_length", bl); c.pre(Ne(bl, C64(0)))
    ip, il = c.var("input_position", 64), c.var("input_length", 64); w.set("input_position", ip); w.set("input_length", il); c.pre(Ule(il, C64(1 << 62))); dec = Ptr(tuple((cc, o, Add(f, C64(w.L["decompressor"][0]))) for cc, o, f in w.ctx.es)); G = c.st.ghost; G["fin"] = F; G["asked"] = F
    mine = lambda st, p: ex.oblige(st, veq(asptr(p), dec), "callback", "the patcher's own decoder is used")
    def sink(ex, st, a, rt):
        g = st.ghost; mine(st, a[0]); ex.oblige(st, And(veq(asptr(a[1]), Ptr(tuple((cc, o, Add(f, g["sunk"])) for cc, o, f in k.chunk.es))), Eq(a[2], Sub(n, g["sunk"]))), "callback", "the rest of the input is given to the decompressor")
        ex.oblige(st, Eq(g["pend"], C64(0)), "callback", "nothing that was produced is left over"); ex.access(st, asptr(a[1]), a[2], "compressed data")
        r = Fresh("sink", 32); m = Fresh("sunk", 64); st.assume(Or(eqi(r, 0), eqi(r, 1), eqi(r, -1 & 0xffffffff))); st.assume(Ule(m, a[2])); st.assume(Implies(And(Not(g["more"]), Ne(a[2], C64(0)), Sle(K(0, 32), r)), Ne(m, C64(0)))); st.assume(Implies(Not(eqi(r, 0)), Eq(m, C64(0))))
        c.set(asptr(a[3]), 0, 8, m, st=st); g["sunk"] = Add(g["sunk"], m); g["err"] = Or(g["err"], Slt(r, K(0, 32))); g["more"] = T; return r
    def poll(ex, st, a, rt):
        g = st.ghost; mine(st, a[0]); ex.oblige(st, And(veq(asptr(a[1]), k.buf), Eq(a[2], bl)), "callback", "the whole work buffer takes the output"); ex.oblige(st, Eq(g["pend"], C64(0)), "callback", "nothing that was produced is lost")
        es = ex.access(st, asptr(a[1]), a[2], "work buffer")
        if st.dead: return K(0, 32)
        models.havoc_range(ex, st, Ptr(tuple(es)), a[2], "decompressed"); m = Fresh("polled", 64); st.assume(Ule(m, a[2])); r = Fresh("poll", 32); st.assume(Or(*[eqi(r, x & 0xffffffff) for x in (0, 1, -1, -2)])); st.assume(Implies(eqi(r, 1), Eq(m, a[2]))); st.assume(Implies(eqi(r, 0), Ult(m, a[2])))
        c.set(asptr(a[3]), 0, 8, m, st=st); bad = Slt(r, K(0, 32)); g["pend"] = Ite(bad, C64(0), m); g["err"] = Or(g["err"], bad); g["more"] = eqi(r, 1); return r
    def fin(ex, st, a, rt):
        g = st.ghost; mine(st, a[0]); r = Fresh("finish", 32); st.assume(Or(*[eqi(r, x & 0xffffffff) for x in (0, 1, -1)])); g["err"] = Or(g["err"], Slt(r, K(0, 32))); g["more"] = eqi(r, 1); g["fin"] = eqi(r, 0); g["asked"] = T; return r
    ex.contracts.update({"heatshrink_decoder_sink": sink, "heatshrink_decoder_poll": poll, "heatshrink_decoder_finish": fin})
    pos = lambda z: w.get("input_position", z)
    def cands(ex, st, z, hv):
        g = z.ghost; yield ("none pending", Eq(g["pend"], C64(0))); yield ("no error", Not(g["err"])); yield ("taken", Eq(pos(z), Add(ip, g["sunk"]))); yield ("part", Ule(g["sunk"], n)); yield ("drained", Not(g["more"])); yield ("going", Not(eqi(w.get("state", z), ERROR)))
        yield ("some left", Ne(Sub(n, g["sunk"]), C64(0))); yield ("some left or first", Or(Ult(g["sunk"], n), Eq(g["sunk"], C64(0)))); yield ("not full", Implies(Ult(C64(0), g["sunk"]), Not(g["more"])))
        yield ("finished", Implies(And(Eq(pos(z), il), Ne(g["sunk"], C64(0))), Or(g["fin"], g["more"])))
        for nm, v in ints64(ex, z): yield ("cursor " + nm, Eq(v, g["sunk"]))
    ex.loop_cands.append(cands); rv = c.call("bpak_bspatch_write", w.ctx, k.chunk, n); g = c.st.ghost; ok = eqi(rv, 0)
    c.ensure("errors of the decompressor and of applying the data are reported", Implies(ok, Not(g["err"]))); c.ensure("success means that all input was taken", Implies(ok, Eq(g["sunk"], n)))
    c.ensure("all output that is available is applied", Implies(ok, And(Eq(g["pend"], C64(0)), Not(g["more"])))); c.ensure("the input is counted", Implies(ok, Eq(w.get("input_position"), Add(ip, n))))
    c.ensure("the last chunk drains the decompressor", Implies(And(ok, Eq(w.get("input_position"), il)), g["fin"]))
    c.ensure("input beyond the announced length is refused", Implies(Ule(il, ip), Not(ok))); c.ensure("without an error the chunk is taken", Implies(And(Not(g["err"]), Ult(ip, il)), ok))
    c.cover("taken", ok); c.cover("fails", Not(ok))

NEXT_IN, AVAIL_IN, NEXT_OUT, AVAIL_OUT = 0, 8, 24, 32      # lzma_stream (lzma/base.h)
def lz(c, fin):
    ex = c.ex; n = C64(0) if fin else ZExt(c.var("length", 48), 64); k = Packed(c, 2, n); w = k.w
    if not fin: c.pre(Ne(n, C64(0)))
    D = w.L["decompressor"][0]; cur = Ptr(tuple((cc, o, Add(f, C64(D))) for cc, o, f in w.ctx.es)); G = c.st.ghost; G["end"] = F
    at = lambda st, o: c.get(w.ctx, D + o, 8, st=st); ptr = lambda st, o: c.get(w.ctx, D + o, 8, ptr=True, st=st)
    def code(ex, st, a, rt):
        g = st.ghost; ex.oblige(st, And(veq(asptr(a[0]), cur), eqi(a[1], 3 if fin else 0)), "callback", "the patcher's own decoder is run, and finished only at the end"); ai, ao = at(st, AVAIL_IN), at(st, AVAIL_OUT); pi, po = asptr(ptr(st, NEXT_IN)), asptr(ptr(st, NEXT_OUT))
        ex.oblige(st, Eq(g["pend"], C64(0)), "callback", "nothing that was produced is lost"); ex.oblige(st, Ne(ao, C64(0)), "callback", "there is room for output")
        if not fin: ex.oblige(st, And(veq(pi, Ptr(tuple((cc, o, Add(f, g["sunk"])) for cc, o, f in k.chunk.es))), Eq(ai, Sub(n, g["sunk"]))), "callback", "the input is given in order"); ex.access(st, pi, ai, "compressed data")
        else: ex.oblige(st, Eq(ai, C64(0)), "callback", "no more input")
        es = ex.access(st, po, ao, "decompressed data")
        if st.dead: return K(0, 32)
        models.havoc_range(ex, st, Ptr(tuple(es)), ao, "decompressed"); u, m = Fresh("used", 64), Fresh("made", 64); st.assume(Ule(u, ai)); st.assume(Ule(m, ao)); r = Fresh("lzma", 32); st.assume(Ult(r, K(13, 32)))
        # liblzma reports LZMA_BUF_ERROR when it can not make progress
        st.assume(Implies(eqi(r, 0), Or(Ne(u, C64(0)), Ne(m, C64(0)))))
        mv = lambda p, x: Ptr(tuple((cc, o, Add(f, x)) for cc, o, f in p.es))
        c.set(w.ctx, D + AVAIL_IN, 8, Sub(ai, u), st=st); c.set(w.ctx, D + AVAIL_OUT, 8, Sub(ao, m), st=st); c.set(w.ctx, D + NEXT_OUT, 8, mv(po, m), st=st)
        if not fin: c.set(w.ctx, D + NEXT_IN, 8, mv(pi, u), st=st)
        k.at = po; g["pend"] = m; g["sunk"] = Add(g["sunk"], u); g["err"] = Or(g["err"], And(Not(eqi(r, 0)), Not(eqi(r, 1)))); g["end"] = eqi(r, 1); return r
    k.out = lambda st: k.at; ex.contracts["lzma_code"] = code; ex.force_inv.add("bspatch_lzma_write")
    def cands(ex, st, z, hv):
        g = z.ghost; yield ("length", Sle(C64(0), w.get("output_position", z))); yield ("none pending", Eq(g["pend"], C64(0))); yield ("no error", Not(g["err"])); yield ("not ended", Not(g["end"])); yield ("rest", Eq(at(z, AVAIL_IN), Sub(n, g["sunk"]))); yield ("part", Ule(g["sunk"], n)); yield ("room", Eq(at(z, AVAIL_OUT), C64(8192))); yield ("going", Not(eqi(w.get("state", z), ERROR)))
        yield ("input", veq(ptr(z, NEXT_IN), Ptr(tuple((cc, o, Add(f, g["sunk"])) for cc, o, f in k.chunk.es))) if not fin else T)
        for oid in z.mem:
            if ex.objs[oid].name.endswith(".outbuf"): yield ("start", veq(ptr(z, NEXT_OUT), mkptr(oid)))
    ex.loop_cands.append(cands); rv = c.call("bpak_bspatch_final" if fin else "bpak_bspatch_write", w.ctx, *(() if fin else (k.chunk, n))); g = c.st.ghost; ok = Sle(C64(0), rv) if fin else eqi(rv, 0)
    c.ensure("errors of the decompressor and of applying the data are reported", Implies(ok, Not(g["err"]))); c.ensure("all output is applied", Implies(ok, Eq(g["pend"], C64(0))))
    if fin: c.ensure("success means that the compressed data was complete", Implies(ok, g["end"]))
    else: c.ensure("success means that all input was taken, or the compressed data is complete", Implies(ok, Or(Eq(g["sunk"], n), g["end"])))
    c.ensure("without an error the chunk is taken", Implies(Not(g["err"]), ok)); c.cover("taken", ok); c.cover("fails", Not(ok))

UNITS = [Unit("patching set up", "C10", setup, SRC), Unit("finishing", "C10", final, SRC), Unit("after an error", "C10", stopped, SRC), Unit("heatshrink data", "C10", hs, SRC), Unit("LZMA data", "C10", lambda c: lz(c, False), SRC), Unit("end of LZMA data", "C10", lambda c: lz(c, True), SRC),
         Unit("patch rules", "C10", rules, SRC), Unit("control word", "C10", ctlword, SRC), Unit("applying a chunk safely", "C10", lambda c: write(c, light=True), SRC, budget=400, ob_secs=40), Unit("applying a chunk, by the rules", "C10", write, SRC, budget=800, ob_secs=120, thorough=True), Unit("applying a chunk, by the rules, to its last byte", "C10", lambda c: write(c, False), SRC, budget=800, ob_secs=120, thorough=True)]

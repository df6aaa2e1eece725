from parts import *
CONTRACT_INFO = {}
SRC = ["lib/heatshrink/heatshrink_decoder.c"]
IN, WIN, LOOK = 256, 256, 128          # configuration in heatshrink_decoder.h: input buffer, window, longest back reference
N = dict(input_size=(0, 2), input_index=(2, 2), output_count=(4, 2), output_index=(6, 2), head_index=(8, 2), state=(10, 1), current_byte=(11, 1), bit_index=(12, 1))
BUF = 13; SIZE = 526
TAG, LITERAL, INDEX, COUNT, BACKREF = 0, 1, 3, 5, 6       # states the decoder takes with an 8 bit window

class Dec:
    def __init__(s, c):
        s.c = c; s.p = c.obj("decoder", SIZE, segs=[(0, BUF), (BUF, BUF + IN), (BUF + IN, SIZE)]); m = c.ex.mods[0]
        for i, (n, (o, k)) in enumerate(N.items()):
            oo, kk = m.field(("named", "struct.heatshrink_decoder"), i); assert (oo, m.size(kk)) == (o, k), n
        oo, kk = m.field(("named", "struct.heatshrink_decoder"), 8); assert (oo, m.size(kk)) == (BUF, IN + WIN)
        for n, (o, k) in N.items(): c.set(s.p, o, k, c.var(n, 8 * k))
    def f(s, n, st=None): o, k = N[n]; return s.c.get(s.p, o, k, st=st)
    def inv(s, st=None):
        """what holds between any two calls, for every history of calls"""
        f = lambda n: s.f(n, st)
        sz, ix, stt, bi, oc = f("input_size"), f("input_index"), f("state"), f("bit_index"), f("output_count")
        return And(Ule(sz, K(IN, 16)), Ite(Eq(sz, K(0, 16)), Eq(ix, K(0, 16)), Ult(ix, sz)),
                   Or(*[Eq(stt, K(k, 8)) for k in (TAG, LITERAL, INDEX, COUNT, BACKREF)]), Or(*[Eq(bi, K(b, 8)) for b in (0, 1, 2, 4, 8, 16, 32, 64, 128)]),
                   Implies(Eq(stt, K(BACKREF, 8)), And(Ule(K(1, 16), oc), Ule(oc, K(LOOK, 16)))), Implies(Eq(stt, K(COUNT, 8)), Eq(oc, K(0, 16))))
    def work(s, st=None):
        """bits left, in a measure every step but the yielding of a copy lowers"""
        f = lambda n: ZExt(s.f(n, st), 64)
        return Add(MulC(Sub(f("input_size"), f("input_index")), 512), Add(MulC(f("bit_index"), 2), Ite(Eq(s.f("state", st), K(BACKREF, 8)), C64(1), C64(0))))
    def bits(s, st=None):
        """number of bits that can still be read"""
        b = s.f("bit_index", st); r = C64(0)
        for i in range(8): r = Ite(Eq(b, K(1 << i, 8)), C64(i + 1), r)
        return Add(MulC(Sub(ZExt(s.f("input_size", st), 64), ZExt(s.f("input_index", st), 64)), 8), r)
    def win(s, st, i): return byte_at(s.c, s.p, st, Add(C64(BUF + IN), ZExt(Extract(i, 7, 0), 64)))

def reset(c):
    d = Dec(c); c.call("heatshrink_decoder_reset", d.p)
    c.ensure("a fresh decoder is in a usable state", d.inv()); c.ensure("and holds no input and no output", And(*[eqi(d.f(n), 0) for n in ("input_size", "input_index", "bit_index", "output_count", "state")]))
    w = c.var("wit", 64); c.ensure("the window starts out as zeros", Implies(Ult(w, C64(WIN)), Eq(d.win(c.st, w), K(0, 8))))
    c.cover("returns")

def sink(c):
    ex = c.ex; d = Dec(c); c.pre(d.inv()); n = c.var("size", 64); c.pre(Ule(n, C64(1 << 62))); b = c.obj("in", n); cnt = c.obj("consumed", 8); st0 = c.snapshot()
    rv = c.call("heatshrink_decoder_sink", d.p, b, n, cnt); k = c.get(cnt, 0, 8); sz0, sz1 = (ZExt(d.f("input_size", s), 64) for s in (st0, c.st))
    c.ensure("success or full", Or(eqi(rv, 0), eqi(rv, 1))); c.ensure("full exactly when there is no room", Iff(eqi(rv, 1), Eq(sz0, C64(IN))))
    c.ensure("as many bytes as fit are taken", Eq(k, Ite(Ule(n, Sub(C64(IN), sz0)), n, Sub(C64(IN), sz0))))
    c.ensure("exactly the bytes reported are taken", Eq(sz1, Add(sz0, k)))
    w = c.var("wit", 64); c.ensure("the bytes taken are the next bytes of the input", Implies(Ult(w, k), Eq(byte_at(c, d.p, c.st, Add(C64(BUF), Add(sz0, w))), byte_at(c, b, st0, w))))
    frame(c, "nothing else of the decoder changes", d.p, st0, lambda q: Or(Ult(q, C64(2)), And(Ule(Add(C64(BUF), sz0), q), Ult(q, Add(C64(BUF), sz1)))))
    c.ensure("the input is only read", mem_same(c, b, st0)); c.ensure("the decoder stays in a usable state", d.inv(), )
    c.cover("taken", eqi(rv, 0)); c.cover("full", eqi(rv, 1)); c.cover("partly", And(eqi(rv, 0), Ult(k, n)))
def mem_same(c, p, st0):
    o = asptr(p).es[0][1]; return T if st0.mem[o].bases == c.st.mem[o].bases and not c.st.mem[o].ov else F

def nulls(c):
    d = Dec(c); c.pre(d.inv()); n = c.var("size", 64); b = c.obj("buf", 8); cnt = c.obj("count", 8); st0 = c.snapshot(); st = c.st
    for fn in ("heatshrink_decoder_sink", "heatshrink_decoder_poll"):
        for i in (0, 1, 3):
            a = [d.p, b, n, cnt]; a[i] = NULL; c.st = st0.fork()
            rv = c.call(fn, *a); c.ensure("missing arguments are an error", Slt(rv, K(0, 32))); c.ensure("and change nothing", And(mem_same(c, b, st0), mem_same(c, cnt, st0))); frame(c, "nothing changes", d.p, st0, lambda q: F)
    c.st = st0.fork(); rv = c.call("heatshrink_decoder_finish", NULL); c.ensure("missing arguments are an error", Slt(rv, K(0, 32))); c.cover("returns")

def finish(c):
    d = Dec(c); c.pre(d.inv()); st0 = c.snapshot(); rv = c.call("heatshrink_decoder_finish", d.p)
    c.ensure("done exactly when no input and no copy is left", Ite(And(Eq(d.f("input_size"), K(0, 16)), Ne(d.f("state"), K(BACKREF, 8))), eqi(rv, 0), eqi(rv, 1)))
    frame(c, "the decoder does not change", d.p, st0, lambda q: F); c.cover("done", eqi(rv, 0)); c.cover("more", eqi(rv, 1))

def poll(c):
    ex = c.ex; ex.lazy_branch = True; d = Dec(c); c.pre(d.inv()); n = c.var("size", 64); c.pre(Ule(n, C64(1 << 62))); out = c.obj("out", n); cnt = c.obj("produced", 8); st0 = c.snapshot()
    W = c.var("wit", 64); done = lambda z: c.get(cnt, 0, 8, st=z)
    # everything written so far is the end of the window: byte W of the output is the (done - W)-th last byte of it
    hist = lambda z: Eq(byte_at(c, out, z, W), d.win(z, Sub(ZExt(d.f("head_index", z), 64), Sub(done(z), W))))
    kept = lambda z: Implies(And(Ule(done(z), W), Ult(W, n)), Eq(byte_at(c, out, z, W), byte_at(c, out, st0, W)))
    recent = lambda z: And(Ult(W, done(z)), Ule(Sub(done(z), W), C64(WIN)))
    def cands(ex, st, z, hv):
        yield ("room", Ule(done(z), n)); yield ("inv", d.inv(z))
        for i, b in enumerate((d.work(z),)): yield ("work", Ule(b, d.work(st0)))
        yield ("bits", Ule(d.bits(z), d.bits(st0)))
        yield ("head", Eq(Extract(Sub(ZExt(d.f("head_index", z), 64), Sub(done(z), C64(0))), 15, 0), Extract(ZExt(d.f("head_index", st0), 64), 15, 0)))
        yield ("kept", WitInv(And(Ule(done(z), W), Ult(W, n)), lambda y: Eq(byte_at(c, out, y, W), byte_at(c, out, st0, W))))
        yield ("hist", WitInv(recent(z), hist))
        for nm, v in ints64(ex, z):
            for nm2, v2 in ints64(ex, z):
                if nm != nm2: yield ("sum %s %s" % (nm, nm2), Ule(v2, Sub(n, Sub(done(z), v))))
    ex.loop_cands.append(cands); ex.check_term = True; ex.rank_cands = [lambda ex, st, z, hv: [d.work(z)]]; ex.unroll_max = 10; ex.scale = max(ex.scale, 4)
    rv = c.call("heatshrink_decoder_poll", d.p, out, n, cnt); k = done(c.st)
    c.ensure("at most the space given is used", Ule(k, n)); c.ensure("never an error for a decoder that was reset", Or(eqi(rv, 0), eqi(rv, 1)))
    c.ensure("the decoder stays in a usable state", d.inv())
    c.ensure("more is reported exactly when the space is used up", Iff(eqi(rv, 1), Eq(k, n)))
    need = Ite(Eq(d.f("state"), K(TAG, 8)), C64(1), Ite(Eq(d.f("state"), K(COUNT, 8)), C64(7), C64(8)))
    c.ensure("drained means that not enough bits are left", Implies(eqi(rv, 0), And(Ult(d.bits(), need), Ne(d.f("state"), K(BACKREF, 8)))))
    c.ensure("the bytes reported are the ones added to the window", And(*[Eq(Extract(Sub(ZExt(d.f("head_index"), 64), k), 15, 0), d.f("head_index", st0))]))
    c.ensure("the bytes written are exactly the ones reported", And(kept(c.st), Implies(recent(c.st), hist(c.st))))
    frame(c, "unread input stays as it is", d.p, st0, lambda q: Or(Ult(q, C64(BUF)), Ule(C64(BUF + IN), q)))
    c.cover("more", eqi(rv, 1)); c.cover("drained", eqi(rv, 0))

UNITS = [Unit("decoder reset", "C12", reset, SRC), Unit("decoder sink", "C12", sink, SRC), Unit("decoder arguments", "C12", nulls, SRC), Unit("decoder finish", "C12", finish, SRC), Unit("decoder poll", "C12", poll, SRC, budget=400)]

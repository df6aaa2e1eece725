"""Ghost vocabulary for the part table: stored size, inclusion, running positions of each slot.
A slot is named by its byte offset in the header (520 + 32*i), which is what a pointer into the table carries."""
from spec import *
END = PART0 + PARTSZ * NP

class Table:
    def __init__(s, c, hdr, hdr_off=0, st=None):
        s.c = c; s.hdr = asptr(hdr); s.st = st or c.snapshot(); s.off = hdr_off; s.oid = s.hdr.es[0][1]
        s.f0 = s.hdr.es[0][2]
    def rd(s, slot, o, n):
        ex = s.c.ex
        p = Add(slot, Add(s.f0, C64(o))) if isinstance(slot, Node) else C64(slot + o + s.f0.val)
        bs = []
        for j in range(n):
            a = Add(p, C64(j))
            bs.append(ex.base_read(s.st, s.st.mem[s.oid].bases[s.seg()], a) if not isc(a) else ex.os_byte(s.st, s.st.mem[s.oid], s.oid, a))
        return FromBytes(bs)
    def seg(s):
        segs = s.c.ex.objs[s.oid].segs
        for i, (a, b) in enumerate(segs):
            if b is None or a <= s.f0.val + PART0 < b: return i
    def id(s, k): return s.rd(k, 0, 4)
    def size(s, k): return s.rd(k, 4, 8)
    def tsize(s, k): return s.rd(k, 20, 8)
    def pad(s, k): return s.rd(k, 28, 2)
    def flags(s, k): return s.rd(k, 30, 1)
    def used(s, k): return Ne(s.id(k), K(0, 32))
    def transport(s, k): return Ne(BAnd(s.flags(k), K(2, 8)), K(0, 8))
    def excluded(s, k): return Ne(BAnd(s.flags(k), K(1, 8)), K(0, 8))
    def stored(s, k):
        if s.abstract: return UF("stored_size", 64, k)
        return s.stored_def(k)
    abstract = False
    def stored_def(s, k): return Ite(s.transport(k), s.tsize(k), Add(s.size(k), ZExt(s.pad(k), 64)))
    def data(s, k): return Ite(s.transport(k), s.tsize(k), s.size(k))

def part_size_contract(c, t):
    """bpak_part_size by its contract (proved in C04): the stored size of the slot"""
    def f(ex, st, a, rt):
        p = asptr(a[0]); r = None
        ex.access(st, p, C64(PARTSZ), "bpak_part_size argument")
        if st.dead: return C64(0)
        for cc, o, f_ in reversed(p.es):
            if o != t.oid: continue
            v = t.stored(Sub(f_, t.f0)); r = v if r is None else Ite(cc, v, r)
        if r is None: raise Unsupported("bpak_part_size of another object")
        return r
    return f

class Sums:
    """prefix sums over the slots as an uninterpreted ghost function, defined by its recursion"""
    def __init__(s, name, inc, base=C64(0), bounded=True):
        s.name = name; s.inc = inc; s.base = base; s.bounded = bounded
    def at(s, k): return UF(s.name, 64, k if isinstance(k, Node) else C64(k))
    def axioms(s, slots):
        out = [Eq(s.at(C64(PART0)), s.base)]
        for k in slots:
            v = valid_slot(k)
            out.append(Implies(v, Eq(s.at(Add(k, C64(PARTSZ))), Add(s.at(k), s.inc(k)))))
            if s.bounded: out.append(Implies(v, And(Ule(s.at(k), C64(1 << 61)), Ule(s.inc(k), C64(1 << 56)), Ule(s.base, s.at(k)))))
        if s.bounded:
            out.append(Ule(s.at(C64(END)), C64(1 << 61)))
            for a in slots:
                # monotone: each is the sum of a prefix
                out.append(Implies(valid_slot(a), Ule(Add(s.at(a), s.inc(a)), s.at(C64(END)))))
                for b in slots:
                    if a is not b: out.append(Implies(And(valid_slot(a), valid_slot(b), Ult(a, b)), Ule(Add(s.at(a), s.inc(a)), s.at(b))))
        return out

def valid_slot(k): return And(Ule(C64(PART0), k), Ult(k, C64(END)), Eq(Extract(k, 4, 0), K(PART0 % 32, 5)))

def live_cells(ex, st):
    """integers and pointers currently held by the locals"""
    out = []; dead = getattr(ex, "dead_cells", ())
    for oid, os_ in st.mem.items():
        if ex.objs[oid].kind != "alloca" or oid in dead: continue
        if isc(ex.objs[oid].size) and ex.objs[oid].size.val > 256: continue
        for off, (n, v) in sorted(os_.ov.items()): out.append(("%s+%d" % (ex.objs[oid].name, off), oid, off, n, v))
    return out

def slot_terms(ex, st, hoid, hoff=0):
    """table slots the locals designate: pointers into the table and small indices"""
    out = []
    for nm, oid, off, n, v in live_cells(ex, st):
        if isinstance(v, Ptr):
            for c, o, f in v.es:
                if o == hoid and not any(f is x for _, x in out): out.append((nm, Sub(f, C64(hoff)) if hoff else f))
        elif n in (4, 8):
            if isc(v) and v.val > 32: continue
            w = ZExt(v, 64) if v.w == 32 else v
            out.append((nm + "#", Add(C64(PART0), MulC(w, PARTSZ))))
    return out

def ints64(ex, st):
    for nm, oid, off, n, v in live_cells(ex, st):
        if n == 8 and not isinstance(v, Ptr): yield nm, v

# ------------------------------------------------------------------ package objects
HDR = 16                                      # struct bpak_package: FILE*, file name, header
PKGSEGS = [(0, HDR), (HDR, HDR + DATA0), (HDR + DATA0, HDR + DATA0 + DATASZ), (HDR + DATA0 + DATASZ, HDR + 4096)]
def package(c, name="pkg", segs=None, **kw):
    """an open package: a stream over an arbitrary file, and an arbitrary header -> (pkg, header pointer, stream id)"""
    import stdio
    p = c.obj(name, HDR + 4096, segs=segs or PKGSEGS)
    fp = stdio.new_file(c.ex, c.st, name + ".fp", **kw)
    nm = c.obj(name + ".filename", 16)
    c.set(p, 0, 8, fp); c.set(p, 8, 8, nm)
    return p, mkptr(p.es[0][1], HDR), fp.es[0][1]
def file_byte(c, st, foid, off):
    return c.ex.base_read(st, st.mem[c.ex.files[foid]].bases[0], off)

def check_reader(c, st, cb, user, foid, what):
    """the read callback handed over meets the contract its users rely on: for every offset and length it either
    reports an error or delivers exactly that many bytes of the file at that offset"""
    import stdio
    ex = c.ex; z = st.fork()
    off = Fresh("cb.off", 64); n = Fresh("cb.len", 64); z.assume(Ule(n, C64(1 << 40))); z.assume(Ule(off, C64(stdio.MAXLEN)))
    b = ex.new_obj(z, "cb.buf", n); data0 = z.fork()
    r = ex.call_ptr(z, asptr(cb), [off, mkptr(b), n, asptr(user)], ("int", 64), ex.mods[0])
    if z.dead: return
    bad = Slt(r, C64(0))
    ex.oblige(z, Or(bad, Eq(r, n)), "callback", what + ": an error or all bytes")
    w = Fresh("cb.wit", 64); y = z.fork(); y.assume(Not(bad)); y.assume(Ult(w, n))
    if not y.dead: ex.oblige(y, Eq(byte_at(c, mkptr(b), y, w), ex.base_read(data0, data0.mem[ex.files[foid]].bases[0], Add(off, w))), "callback", what + ": the bytes of the file at the offset")

class Next:
    """the first slot from k on that is included and not empty (END if none), as an uninterpreted ghost function"""
    def __init__(s, name, inc): s.name = name; s.inc = inc
    def at(s, k): return UF(s.name, 64, k if isinstance(k, Node) else C64(k))
    def axioms(s, slots):
        out = [Eq(s.at(C64(END)), C64(END))]
        for k in slots: out.append(Implies(valid_slot(k), Eq(s.at(k), Ite(s.inc(k), k, s.at(Add(k, C64(PARTSZ)))))))
        return out

def tape(c, foid, expect, limit, base, key="tape", what="written"):
    """a stream that is only written front to back: each byte transferred must be the next expected one"""
    ex = c.ex; c.st.ghost[key] = C64(0); W = c.var("wit." + key, 64)
    def on_write(ex, st, b, pos, n):
        d = st.ghost[key]
        ex.oblige(st, Or(Eq(n, C64(0)), Eq(pos, Add(base, d))), what, "written in order")
        ex.oblige(st, Or(Eq(n, C64(0)), And(Ule(d, limit), Ule(n, Sub(limit, d)))), what, "nothing else is written")
        if st.dead: return
        z = st.fork(); z.assume(Ult(W, n))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, b, z, W), expect(z, Add(d, W))), what, "the right bytes are written")
        st.ghost[key] = Add(d, n)
    ex.on_write[foid] = on_write

def part_lookup(c, hdr, want):
    """bpak_get_part by its contract (C04): NULL and an error, or the slot found -> (found, slot offset)"""
    ex = c.ex; ho = asptr(hdr).es[0][1]; f0 = asptr(hdr).es[0][2]
    found = c.var("found", 0); slot = c.var("slot", 64); c.pre(valid_slot(slot))
    def f(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), hdr), "requires", "the header is searched"); ex.oblige(st, Eq(a[1], want), "requires", "for the part asked for")
        ex.store(st, asptr(a[2]), 8, pnorm([(found, ho, Add(f0, slot)), (Not(found), 0, C64(0))]))
        rc = Fresh("get_part", 32); st.assume(Iff(found, Eq(rc, K(0, 32)))); return rc
    ex.contracts["bpak_get_part"] = f
    return found, slot

def slot_fn(c, hdr, name, val, hdr_arg=None):
    """a contract for a function of a table slot: val(slot offset in the header)"""
    ex = c.ex; ho = asptr(hdr).es[0][1]; f0 = asptr(hdr).es[0][2]
    def f(ex, st, a, rt):
        i = 0
        if hdr_arg is not None: ex.oblige(st, veq(asptr(a[hdr_arg]), hdr), "requires", "the header the part belongs to"); i = 1 - hdr_arg
        p = asptr(a[i]); r = None
        ex.oblige(st, Not(isnull(p)), "memory", name + " of a part")
        for cc, o, fo in reversed(p.es):
            if o == 0: continue
            if o != ho: raise Unsupported(name + " of another object")
            v = val(Sub(fo, f0)); r = v if r is None else Ite(cc, v, r)
        if st.dead: return C64(0)
        return r
    ex.contracts[name] = f

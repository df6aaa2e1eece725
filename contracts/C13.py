from spec import *
CRC = ["lib/bpakcrc.c"]
CONTRACT_INFO = {"bpak_crc32": "proved by unit bpak_crc32 (result is the fold of the CRC byte step over exactly the given bytes)"}

def bitstep(c, b):
    """one byte of the reflected CRC-32, bit by bit, from the definition"""
    c = BXor(c, ZExt(b, 32))
    for _ in range(8):
        c = BXor(LShr(c, K(1, 32)), Ite(Eq(Extract(c, 0, 0), K(1, 1)), K(0xedb88320, 32), K(0, 32)))
    return c

def crc(c):
    """S(0) = crc, S(k+1) = bitstep(S(k), buf[k]); result == S(size)"""
    size = c.var("size", 32); init = c.var("crc", 32)
    buf = c.obj("buf", ZExt(size, 64))
    st0 = c.snapshot(); ex = c.ex
    S = lambda k: UF("crcfold", 32, k)
    oid = buf.es[0][1]; bos = st0.mem[oid]
    c.pre(Eq(S(C64(0)), init))
    n64 = ZExt(size, 64)
    def positions(h):
        ps = []
        for v, nm, w, rd in h.vars:
            if w == 64: ps += [v, Sub(n64, v)]
            elif w == 32: ps += [ZExt(v, 64), Sub(n64, ZExt(v, 64))]
        return ps
    def axioms(ex, st, z, h):
        out = []
        for p in positions(h):
            out.append(Eq(S(Add(p, C64(1))), bitstep(S(p), ex.os_byte(st0, bos, oid, p))))
        return out
    def cands(ex, st, z, h):
        for v, nm, w, rd in h.vars:
            if w == 32:
                for i, p in enumerate(positions(h)): yield ("S%d(%s)" % (i, nm), Eq(v, S(p)))
    ex.loop_axioms.append(axioms); ex.loop_cands.append(cands); ex.check_term = True
    rv = c.call("bpak_crc32", init, buf, size)
    c.ensure("the CRC of exactly the given bytes", Eq(rv, S(n64)))
    c.ensure("the data is only read", T if c.st.mem[oid] is bos else F)
    c.cover("returns")

def fold(c0, bs):
    for b in bs: c0 = UF("crcstep", 32, c0, b)
    return c0

def crc_contract(log):
    def f(ex, st, a, rt):
        """requires: buf readable for size bytes; ensures: fold of the byte step"""
        crc0, buf, size = a
        n = ZExt(size, 64)
        ex.access(st, asptr(buf), n, "bpak_crc32 data")
        if st.dead: return K(0, 32)
        if isc(size) and size.val <= 64:
            m = ex.muted; ex.muted = 1
            bs = [ex.load(st, Ptr(tuple((c, o, Add(f, C64(i))) for c, o, f in asptr(buf).es)), 1) for i in range(size.val)]
            ex.muted = m
            return fold(crc0, bs)
        r = Fresh("crc", 32)
        log.append((crc0, buf, size, r))
        return r
    return f

TREE = b"-hash-tree"
tree_id = lambda x: fold(x, [K(b, 8) for b in TREE])

def ident(c):
    L = c.var("len", 64)
    c.pre(Ult(L, C64((1 << 32))))
    s = c.obj("name", Add(L, C64(1)))
    c.ex.strlens[s.es[0][1]] = L
    log = []
    c.ex.contracts["bpak_crc32"] = crc_contract(log)
    c.assume_note("names shorter than 4 GiB")
    rv = c.call("bpak_id", s)
    if len(log) != 1: c.ensure("the id is one CRC computation", F); return
    c0, buf, size, r = log[0]
    c.ensure("starts from zero, covers exactly the bytes of the name", And(Eq(c0, K(0, 32)), veq(buf, s), Eq(ZExt(size, 64), L)))
    c.ensure("returns it", Eq(rv, r))
    c.cover("returns")

def hashtree(c):
    pid = c.var("part_id", 32)
    c.ex.contracts["bpak_crc32"] = crc_contract([])
    rv = c.call("bpak_part_id_to_hash_tree_id", pid)
    c.ensure("the CRC continued over \"-hash-tree\"", Eq(rv, tree_id(pid)))
    c.cover("returns")

def hashtree_name(c):
    L = c.var("len", 64)
    c.pre(Ult(L, C64((1 << 32))))
    s = c.obj("name", Add(L, C64(1))); c.ex.strlens[s.es[0][1]] = L
    log = []; c.ex.contracts["bpak_crc32"] = crc_contract(log)
    rv = c.call("bpak_part_name_to_hash_tree_id", s)
    if len(log) != 1: c.ensure("the id is one CRC computation", F); return
    c0, buf, size, r = log[0]
    c.ensure("the id of the name followed by \"-hash-tree\"", And(Eq(c0, K(0, 32)), veq(buf, s), Eq(ZExt(size, 64), L), Eq(rv, tree_id(r))))
    c.cover("returns")

def back(c):
    hdr = c.struct("bpak_header", "hdr")
    tid = c.var("tree_id", 32)
    c.ex.contracts["bpak_crc32"] = crc_contract([])
    st0 = c.snapshot(); h = Hdr(c, hdr)
    rv = c.call("bpak_hash_tree_id_to_part_id", hdr, tid)
    want = K(0, 32)
    for i in reversed(range(NP)): want = Ite(Eq(tree_id(h.p_id(i)), tid), h.p_id(i), want)
    c.ensure("the first part whose hash-tree id it is, zero when there is none", Eq(rv, want))
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    c.cover("found", Ne(rv, K(0, 32))); c.cover("none", Eq(rv, K(0, 32)))

UNITS = [Unit("bpak_crc32", "C13", crc, CRC), Unit("bpak_id", "C13", ident, ["lib/id.c"]),
         Unit("bpak_part_id_to_hash_tree_id", "C13", hashtree, ["lib/utils.c"]),
         Unit("bpak_part_name_to_hash_tree_id", "C13", hashtree_name, ["lib/utils.c", "lib/id.c"]),
         Unit("bpak_hash_tree_id_to_part_id", "C13", back, ["lib/utils.c"])]

from spec import *
from C02 import find, slot_ptr
SRC = ["lib/bpak.c", "lib/pkg.c"]
TRANSPORT = 2

def get_part(c):
    hdr = c.struct("bpak_header", "hdr"); out = c.obj("out", 8); id_ = c.var("id", 32)
    st0 = c.snapshot(); h = Hdr(c, hdr)
    c.set(out, 0, 8, NULL)
    rv = c.call("bpak_get_part", hdr, id_, out)
    w = find(h, NP, id_, kind="p"); found = And(Ult(w, C64(NP)), Ne(id_, Z32)); got = c.get(out, 0, 8, ptr=True)
    c.ensure("found exactly when some used slot matches", Iff(eqi(rv, 0), found))
    c.ensure("the first matching slot is returned", Implies(found, veq(got, slot_ptr(hdr, PART0, PARTSZ, w))))
    c.ensure("no part is returned otherwise", Implies(Not(found), isnull(got)))
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    c.cover("found", found); c.cover("absent", Not(found))

def add_part(c):
    hdr = c.struct("bpak_header", "hdr"); out = c.obj("out", 8); id_ = c.var("id", 32)
    c.set(out, 0, 8, NULL); c.pre(Ne(id_, Z32))
    h = Hdr(c, hdr)
    used = [Not(eqi(h.p_id(i), 0)) for i in range(NP)]
    # part tables built by these operations have their used slots first
    c.pre(*[Implies(used[i], used[i - 1]) for i in range(1, NP)])
    st0 = c.snapshot()
    rv = c.call("bpak_add_part", hdr, id_, out)
    ok = eqi(rv, 0); exists = Ult(find(h, NP, id_, kind="p"), C64(NP))
    nfree = C64(NP)
    for i in reversed(range(NP)): nfree = Ite(used[i], nfree, C64(i))
    c.ensure("added exactly when new and a slot is free", Iff(ok, And(Not(exists), Ult(nfree, C64(NP)))))
    c.ensure("the first free slot is returned", Implies(ok, veq(c.get(out, 0, 8, ptr=True), slot_ptr(hdr, PART0, PARTSZ, nfree))))
    h1 = Hdr(c, hdr)
    for i in range(NP): c.ensure("slot %d gets the id" % i, Implies(And(ok, eqi(nfree, i)), Eq(h1.p_id(i), id_)))
    a = Add(C64(PART0), MulC(nfree, PARTSZ))
    frame(c, "no other byte changes", hdr, st0, lambda k: And(ok, Ule(a, k), Ult(k, Add(a, C64(4)))))
    c.cover("added", ok); c.cover("full", And(Not(ok), Not(exists)))

def del_part(i, n):
    def f(c):
        c.ex.focus = set(); c.ex.focus_only = True
        hdr = c.struct("bpak_header", "hdr")
        for j in range(n): c.pre(Ne(c.get(hdr, PART0 + PARTSZ * j, 4), Z32))
        for j in range(n, NP): c.set(hdr, PART0 + PARTSZ * j, 4, Z32)
        # unused slots are all zero
        for j in range(n, NP):
            for o, w in ((4, 8), (12, 8), (20, 8), (28, 2), (30, 1), (31, 1)): c.set(hdr, PART0 + PARTSZ * j + o, w, K(0, 8 * w))
        st0 = c.snapshot()
        c.call("bpak_del_part", hdr, slot_ptr(hdr, PART0, PARTSZ, C64(i)))
        for j in range(NP):
            src = j if j < i else j + 1
            for o, w in ((0, 4), (4, 8), (12, 8), (20, 8), (28, 2), (30, 1), (31, 1)):
                old = c.get(hdr, PART0 + PARTSZ * src + o, w, st=st0) if src < NP else K(0, 8 * w)
                c.ensure("slot %d holds what slot %d held" % (j, src), Eq(c.get(hdr, PART0 + PARTSZ * j + o, w), old))
        frame(c, "nothing outside the part table changes", hdr, st0, lambda k: And(Ule(C64(PART0), k), Ult(k, C64(DATA0))))
    return f

def stored(h, i, pad=True):
    plain = Add(h.p_size(i), ZExt(h.p_pad(i), 64)) if pad else h.p_size(i)
    return Ite(Not(eqi(BAnd(h.p_flags(i), K(TRANSPORT, 8)), 0)), h.p_tsize(i), plain)

def part_sizes(c):
    part = c.struct("bpak_part_header", "part")
    def fld(o, n): return c.get(part, o, n, st=st0)
    st0 = c.snapshot()
    tr = Not(eqi(BAnd(fld(30, 1), K(TRANSPORT, 8)), 0))
    a = c.call("bpak_part_size", part)
    c.ensure("stored size", Eq(a, Ite(tr, fld(20, 8), Add(fld(4, 8), ZExt(fld(28, 2), 64)))))
    b = c.call("bpak_part_size_wo_pad", part)
    c.ensure("size without padding", Eq(b, Ite(tr, fld(20, 8), fld(4, 8))))
    c.ensure("the part is only read", mem_ident(c, part, st0))

def part_offset(k):
    def f(c):
        c.ex.focus = set(); c.ex.focus_only = True
        hdr = c.struct("bpak_header", "hdr"); h = Hdr(c, hdr)
        pid = c.var("id", 32); part = c.struct("bpak_part_header", "part"); c.set(part, 0, 4, pid)
        c.pre(Ne(pid, Z32), Eq(h.p_id(k), pid), *[And(Ne(h.p_id(i), Z32), Ne(h.p_id(i), pid)) for i in range(k)])
        # the sizes of one package add up to a file offset (off_t)
        vs = [C64(4096)] + [Var("poff%d" % i, 64) for i in range(1, k + 1)]
        for i in range(1, k + 1): c.pre(Eq(vs[i], Add(vs[i - 1], stored(h, i - 1))), Slt(K(0, 64), vs[i]))
        st0 = c.snapshot()
        c.ex.hints = lambda n: [vs[n]] if n <= k else []
        rv = c.call("bpak_part_offset", hdr, part)
        c.ensure("header size plus stored sizes of the %d parts before it" % k, Eq(rv, vs[k]))
        c.ensure("the header is only read", mem_ident(c, hdr, st0))
        c.cover("reachable")
    return f

def pkg_sum(fn, kind, n):
    """n parts in the first n slots, the other slots empty"""
    def f(c):
        c.ex.focus = set(); c.ex.focus_only = True
        hdr = c.struct("bpak_package", "pkg", mod=1)
        hp = slot_ptr(hdr, c.field("bpak_package", [HDRF(c)], mod=1)[0], 1, C64(0))
        h = Hdr(c, hp)
        for i in range(n): c.pre(Ne(h.p_id(i), Z32))
        # unused slots are all zero
        for j in range(n, NP):
            for o, w in ((0, 4), (4, 8), (12, 8), (20, 8), (28, 2), (30, 1), (31, 1)): c.set(hp, PART0 + PARTSZ * j + o, w, K(0, 8 * w))
        h = Hdr(c, hp)
        if kind == "installed":
            term = lambda i: Add(h.p_size(i), ZExt(h.p_pad(i), 64)); z = C64(0)
        else:
            term = lambda i: stored(h, i); z = C64(4096)
        vs = [z] + [Var("s%d" % i, 64) for i in range(1, n + 1)]
        for i in range(n): c.pre(Eq(vs[i + 1], Add(vs[i], term(i))))
        st0 = c.snapshot()
        c.ex.hints = lambda k: [vs[min(k, n)], Sub(vs[min(k, n)], z)]
        rv = c.call(fn, hdr)
        c.ensure("sum over all %d parts" % n, Eq(rv, vs[n]))
        c.ensure("the package is only read", mem_ident(c, hdr, st0))
        c.cover("reachable")
    return f
def HDRF(c): 
    for m in c.ex.mods:
        t = m.types.get("struct.bpak_package")
        if t: 
            for i, x in enumerate(t[2]):
                if x == ("named", "struct.bpak_header"): return i
    raise Unsupported("struct bpak_package has no header")

UNITS = [Unit("bpak_get_part", "C04", get_part, SRC), Unit("bpak_add_part", "C04", add_part, SRC),
         Unit("bpak_part_size", "C04", part_sizes, SRC), 
         ] + \
        [Unit("%s[%d]" % (fn, n), "C04", pkg_sum(fn, k, n), SRC) for fn, k in (("bpak_pkg_size", "stored"), ("bpak_pkg_installed_size", "installed")) for n in range(NP, -1, -1)] + \
        [Unit("bpak_del_part[%d of %d]" % (i, n), "C04", del_part(i, n), SRC) for n in range(1, NP + 1) for i in range(n)] + \
        [Unit("bpak_part_offset[%d]" % k, "C04", part_offset(k), SRC) for k in range(NP)]

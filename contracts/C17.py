from parts import *
import stdio, models
CONTRACT_INFO = {"bpak_get_part": "C04: first part with the id, or an error", "bpak_part_offset": "C04: position of the part in the file", "bpak_part_size": "C04: stored size of the part",
  "bpak_del_part": "C04: removes the slot from the table, the later slots move up", "bpak_del_meta": "C03: changes only the metadata table and area", "bpak_pkg_update_hash": "C06: may fail; changes only the payload digest", "bpak_pkg_write_header": "C19: may fail; writes the header to the start of the file"}
SRC = ["lib/pkg.c"]

SEGS17 = [(0, HDR), (HDR, HDR + PART0)] + [(HDR + PART0, HDR + DATA0)] + PKGSEGS[2:]
def delete(k, meta=False):
  def f(c):
    """the part in slot k; the table after removal is arbitrary (bpak_del_part by contract), so the table may have unused slots"""
    import terms; terms.FACTOR = True
    ex = c.ex; ex.lazy_branch = True; g = c.st.ghost
    p, hdr, f = package(c, segs=SEGS17 if meta else None); pid = c.var("part_id", 32); rm = c.var("remove_meta", 0); po = p.es[0][1]
    slot = C64(PART0 + PARTSZ * k); found = c.var("found", 0)
    off = ZExt(UF("part_offset", 41, slot), 64); sz = ZExt(c.var("stored", 40), 64)
    c.assume_note("stored sizes up to 2^40 bytes, offsets up to 2^41")
    g["deleted"] = F; g["hash.ok"] = F; g["hdr.ok"] = F; g["hdr.after"] = F; g["moved"] = C64(0); W = c.var("wit", 64)
    st0 = c.snapshot(); orig = lambda q: ex.base_read(st0, st0.mem[ex.files[f]].bases[0], q)
    s2 = lambda i: ZExt(UF("stored_after", 40, C64(PART0 + PARTSZ * i)), 64); used2 = lambda i: Ne(UF("id_after", 32, C64(i)), K(0, 32))
    sum_ = lambda a: [Ite(used2(i), s2(i), C64(0)) for i in range(a, NP)]
    tail = C64(0)
    for x in sum_(k): tail = Add(tail, x)
    total = C64(4096)
    for x in sum_(0): total = Add(total, x)
    def get_part(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), Eq(a[1], pid)), "requires", "the part asked for is looked up")
        ex.store(st, asptr(a[2]), 8, pnorm([(found, po, Add(C64(HDR), slot)), (Not(found), 0, C64(0))]))
        rc = Fresh("get_part", 32); st.assume(Iff(found, Eq(rc, K(0, 32)))); return rc
    def slot_of(st, ptr, what):
        z = [e for e in asptr(ptr).es if not pc_has(st.pc, Not(e[0]))]
        for e in z:
            if e[1] == 0: ex.oblige(st, Not(e[0]), "memory", what + " of a part")
        z = [e for e in z if e[1]]
        if len(z) == 1 and z[0][1] == po and isc(z[0][2]): return z[0][2].val - HDR
        raise Unsupported(what + ": not a single slot")
    def part_offset(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), Not(st.ghost["deleted"])), "requires", "the offset is taken from the table as it was"); return ZExt(UF("part_offset", 41, C64(slot_of(st, a[1], "bpak_part_offset"))), 64)
    def part_size(ex, st, a, rt):
        q = slot_of(st, a[0], "bpak_part_size")
        if st.ghost["deleted"] is F:
            ex.oblige(st, B(q == slot.val), "requires", "the size of the deleted part"); return sz
        ex.oblige(st, st.ghost["deleted"], "requires", "sizes of the remaining parts")
        return ZExt(UF("stored_after", 40, C64(q)), 64)
    def del_part(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), hdr), veq(asptr(a[1]), mkptr(po, Add(C64(HDR), slot))), Not(st.ghost["deleted"])), "requires", "exactly the part asked for is removed from the table")
        st.ghost["deleted"] = T
        for i in range(NP):
            for o, n, v in ((0, 4, UF("id_after", 32, C64(i))), (12, 8, UF("offset_after", 64, C64(i)))): ex.store(st, mkptr(po, HDR + PART0 + PARTSZ * i + o), n, v)
        return None
    def del_meta(ex, st, a, rt):
        ex.oblige(st, rm, "requires", "metadata goes only when asked for")
        es = [e for e in asptr(a[1]).es if e[1] == po]
        ex.oblige(st, And(veq(asptr(a[0]), hdr), B(len(es) == 1)), "requires", "an entry of this package")
        k_ = Sub(es[0][2], C64(HDR + META0))
        ex.oblige(st, And(Ult(k_, C64(METASZ * NM)), Eq(Extract(k_, 3, 0), K(0, 4))), "requires", "an entry of this package's table")
        if st.dead: return None
        ex.oblige(st, And(Eq(ex.load(st, mkptr(po, Add(es[0][2], C64(8))), 4), pid), Ne(pid, Z32)), "requires", "only entries that refer to the deleted part are removed")
        # one entry less refers to the part (C03: exactly that entry goes)
        st.assume(Ne(st.ghost["matching"], C64(0))); st.ghost["matching"] = Sub(st.ghost["matching"], C64(1))
        models.havoc_range(ex, st, mkptr(po, HDR + META0), C64(METASZ * NM), "del_meta"); models.havoc_range(ex, st, mkptr(po, HDR + DATA0), C64(DATASZ), "del_meta")
        return None
    ex.contracts.update(bpak_get_part=get_part, bpak_part_offset=part_offset, bpak_part_size=part_size, bpak_del_part=del_part, bpak_del_meta=del_meta)
    def uh(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), p), Eq(st.ghost["moved"], tail), st.ghost["deleted"]), "requires", "the digest is taken after the data was moved")
        rc = Fresh("update_hash", 32); st.ghost["hash.ok"] = Eq(rc, K(0, 32)); return rc
    def wh(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), p), st.ghost["hash.ok"]), "requires", "the header is written with the new digest")
        rc = Fresh("write_header", 32); st.ghost["hdr.ok"] = Eq(rc, K(0, 32)); return rc
    ex.contracts.update(bpak_pkg_update_hash=uh, bpak_pkg_write_header=wh)
    # metadata removal is separated: the loop is covered by the units with metadata
    c.pre(rm if meta else Not(rm), Implies(found, Ne(pid, Z32))); g["matching"] = c.var("matching", 64); c.pre(Ule(g["matching"], C64(NM)))
    if meta:
        def mcands(ex, st, z, hv):
            for nm, oid, off_, n, v in live_cells(ex, z):
                if isinstance(v, Ptr):
                    for cc, o, fo in v.es:
                        if o == po:
                            yield ("meta slot " + nm, And(Ule(C64(HDR + META0), fo), Ule(fo, C64(HDR + META0 + METASZ * NM)), Eq(Extract(Sub(fo, C64(HDR + META0)), 3, 0), K(0, 4))))
                            yield ("meta slot- " + nm, And(Ule(C64(HDR + META0 - METASZ), fo), Ule(fo, C64(HDR + META0 + METASZ * NM)), Eq(Extract(Sub(fo, C64(HDR + META0)), 3, 0), K(0, 4))))
        ex.loop_cands.append(mcands)
    def on_write(ex, st, b, pos, n):
        d = st.ghost["moved"]
        ex.oblige(st, Or(Eq(n, C64(0)), And(Eq(pos, Add(off, d)), Ule(d, tail), Ule(n, Sub(tail, d)))), "moved data", "only the place of the later parts is written, in order")
        if st.dead: return
        z = st.fork(); z.assume(Ult(W, n))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, b, z, W), orig(Add(off, Add(sz, Add(d, W))))), "moved data", "each byte comes from exactly the deleted part's stored size further up")
        st.ghost["moved"] = Add(d, n)
    def on_read(ex, st, b, pos, n):
        ex.oblige(st, Or(Eq(n, C64(0)), Ule(Add(off, st.ghost["moved"]), pos)), "moved data", "data is read before it is overwritten")
    ex.on_write[f] = on_write; ex.on_read[f] = on_read
    def cands(ex, st, z, hv):
        d = z.ghost["moved"]
        yield ("moved<=", Ule(d, tail))
        for nm, v in ints64(ex, z):
            yield ("left " + nm, Eq(v, Sub(tail, d))); yield ("moved " + nm, Eq(v, d)); yield ("to " + nm, Eq(v, Add(off, d))); yield ("from " + nm, Eq(v, Add(off, Add(sz, d))))
    ex.loop_cands.append(cands); ex.check_term = True
    rv = c.call("bpak_pkg_delete_part", p, pid, rm); ok = eqi(rv, 0)
    z = c.st.fork(); z.assume(ok); g = z.ghost
    c.ensure("unknown parts are refused", Implies(ok, found))
    if not z.dead:
        c.ensure("success only if the table entry, the digest and the header were brought up to date", And(g["deleted"], g["hash.ok"], g["hdr.ok"]), st=z)
        c.ensure("the data of every later part was moved", Eq(g["moved"], tail), st=z)
        c.ensure("the file is cut to the header and the remaining parts", Eq(stdio.G(z, "len", f), total), st=z)
    c.cover("success", ok); c.cover("failure", Not(ok))
  return f

def delete_all(c):
    ex = c.ex; ex.lazy_branch = True; g = c.st.ghost; rm = c.var("remove_meta", 0)
    p, hdr, f = package(c, segs=SEGS17); po = p.es[0][1]; g["hash.ok"] = F; g["hdr.ok"] = F
    g["matching"] = c.var("matching", 64); c.pre(Ule(g["matching"], C64(NM)))
    def del_meta(ex, st, a, rt):
        ex.oblige(st, rm, "requires", "metadata goes only when asked for")
        es = [e for e in asptr(a[1]).es if e[1] == po]
        ex.oblige(st, And(veq(asptr(a[0]), hdr), B(len(es) == 1)), "requires", "an entry of this package")
        k_ = Sub(es[0][2], C64(HDR + META0))
        ex.oblige(st, And(Ult(k_, C64(METASZ * NM)), Eq(Extract(k_, 3, 0), K(0, 4))), "requires", "an entry of this package's table")
        if st.dead: return None
        ex.oblige(st, Ne(ex.load(st, mkptr(po, Add(es[0][2], C64(8))), 4), Z32), "requires", "only entries that refer to a part are removed")
        st.assume(Ne(st.ghost["matching"], C64(0))); st.ghost["matching"] = Sub(st.ghost["matching"], C64(1))
        models.havoc_range(ex, st, mkptr(po, HDR + META0), C64(METASZ * NM), "del_meta"); models.havoc_range(ex, st, mkptr(po, HDR + DATA0), C64(DATASZ), "del_meta")
        return None
    W = c.var("wit", 64)
    def empty(st):
        z = st.fork(); z.assume(Ult(W, C64(PARTSZ * NP)))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, hdr, z, Add(C64(PART0), W)), K(0, 8)), "requires", "the part table is empty")
    def uh(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), p), "requires", "the package"); empty(st)
        rc = Fresh("update_hash", 32); st.ghost["hash.ok"] = Eq(rc, K(0, 32)); return rc
    def wh(ex, st, a, rt):
        ex.oblige(st, And(veq(asptr(a[0]), p), st.ghost["hash.ok"]), "requires", "the header is written with the new digest"); empty(st)
        rc = Fresh("write_header", 32); st.ghost["hdr.ok"] = Eq(rc, K(0, 32)); return rc
    ex.contracts.update(bpak_del_meta=del_meta, bpak_pkg_update_hash=uh, bpak_pkg_write_header=wh)
    def mcands(ex, st, z, hv):
        for nm, oid, off_, n, v in live_cells(ex, z):
            if isinstance(v, Ptr):
                for cc, o, fo in v.es:
                    if o == po: yield ("meta slot " + nm, And(Ule(C64(HDR + META0), fo), Ule(fo, C64(HDR + META0 + METASZ * NM)), Eq(Extract(Sub(fo, C64(HDR + META0)), 3, 0), K(0, 4))))
    ex.loop_cands.append(mcands); ex.check_term = True
    ex.on_write[f] = lambda ex, st, b, pos, n: ex.oblige(st, Eq(n, C64(0)), "moved data", "no data is written")
    rv = c.call("bpak_pkg_delete_all_parts", p, rm); ok = eqi(rv, 0); g = c.st.ghost
    z = c.st.fork(); z.assume(ok)
    c.ensure("success only if the digest and the header were brought up to date", And(g["hash.ok"], g["hdr.ok"]), st=z)
    c.ensure("the file is cut to the header", Eq(stdio.G(z, "len", f), C64(4096)), st=z)
    c.cover("success", ok); c.cover("failure", Not(ok))

UNITS = [Unit("bpak_pkg_delete_part[%d]" % k, "C17", delete(k), SRC) for k in range(NP)] + [Unit("bpak_pkg_delete_part[%d, metadata]" % k, "C17", delete(k, True), SRC) for k in (31,)] + [Unit("bpak_pkg_delete_all_parts", "C17", delete_all, SRC)]

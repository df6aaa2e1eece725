from parts import *
import stdio, models
CONTRACT_INFO = {"bpak_valid_header": "unit bpak_valid_header: 0 exactly if well formed, changes nothing", "bpak_init_header": "may fail; arbitrary header", "bpak_pkg_update_hash": "may fail; changes only the payload digest (C06)"}

def valid(c):
    hdr = c.struct("bpak_header", "hdr")
    st0 = c.snapshot()
    h = Hdr(c, hdr)
    rv = c.call("bpak_valid_header", hdr)
    c.ensure("accepted exactly when well formed", Iff(eqi(rv, 0), spec_valid(h)))
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    c.cover("accepted", eqi(rv, 0)); c.cover("refused", Not(eqi(rv, 0)))

def opening(c):
    ex = c.ex; g = c.st.ghost
    g["valid"] = F; g["inited"] = F; log = []
    p = c.obj("pkg", HDR + 4096, segs=PKGSEGS); hdr = mkptr(p.es[0][1], HDR); po = p.es[0][1]
    name = c.obj("filename", 16); mode = c.obj("mode", 4)
    pre = {}
    def fopen(ex, st, nm, md):
        ex.oblige(st, veq(asptr(nm), name), "requires", "the named file is opened")
        fp = stdio.new_file(ex, st, "file", None, C64(0)); pre["oid"] = fp.es[0][1]; return fp
    ex.flags["fopen"] = fopen; ex.flags["fopen_any"] = True
    def vh(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), hdr), "requires", "the header handed out is the one validated")
        rc = Fresh("valid", 32); st.ghost["valid"] = Eq(rc, K(0, 32)); log.append(st.fork()); return rc
    def ih(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), hdr), "requires", "the package's header")
        for lo, hi in ((0, DATA0), (DATA0, DATA0 + DATASZ), (DATA0 + DATASZ, 4096)): models.havoc_range(ex, st, mkptr(po, HDR + lo), C64(hi - lo), "init")
        st.ghost["inited"] = T; return Fresh("init", 32)
    def uh(ex, st, a, rt):
        ex.oblige(st, veq(asptr(a[0]), p), "requires", "the package being opened")
        models.havoc_range(ex, st, mkptr(po, HDR + OFF_PHASH), C64(64), "payload digest"); return Fresh("update_hash", 32)
    ex.contracts.update(bpak_valid_header=vh, bpak_init_header=ih, bpak_pkg_update_hash=uh)
    rv = c.call("bpak_pkg_open", p, name, mode); ok = eqi(rv, 0)
    if "oid" not in pre: c.ensure("the file is opened", F); return
    f = pre["oid"]; W = c.var("wit", 64)
    z = c.st.fork(); z.assume(ok)
    c.ensure("handed out only if validation accepted the header", z.ghost["valid"], st=z)
    c.ensure("the stream is open", stdio.G(z, "open", f), st=z)
    c.ensure("the package refers to the file", veq(c.get(p, 0, 8, ptr=True, st=z), mkptr(f)), st=z)
    if len(log) == 1 and not z.dead: frame(c, "the header handed out is the one that was validated", p, log[0], lambda k: Ult(k, C64(HDR)), st=z)
    else: c.ensure("the header is validated once", F, st=z)
    y = z.fork(); y.assume(Not(y.ghost["inited"])); y.assume(Ult(W, C64(4096)))
    if not y.dead: c.ensure("the header is the start of the file", Eq(byte_at(c, hdr, y, W), file_byte(c, y, f, W)), st=y)
    z = c.st.fork(); z.assume(Not(ok))
    c.ensure("a refused file is closed again", Not(stdio.G(z, "open", f)), st=z)
    c.cover("opened", ok); c.cover("refused", Not(ok)); c.cover("new file", And(ok, c.st.ghost["inited"]))

UNITS = [Unit("bpak_valid_header", "C01", valid, ["lib/bpak.c"]), Unit("bpak_pkg_open", "C01", opening, ["lib/pkg.c"])]

from parts import *
import stdio, models
CONTRACT_INFO = dict(stdio.HASH_INFO, bpak_get_part="C04: first part with the id, or an error", bpak_part_offset="C04: position of the part in the file", bpak_part_size_wo_pad="C04: size of the part's data without padding")

def setup(c):
    ex = c.ex; ex.lazy_branch = True
    p, hdr, f = package(c); pid = c.var("part_id", 32); found, slot = part_lookup(c, hdr, pid)
    n = UF("data_size", 64, slot); off = UF("part_offset", 64, slot); c.pre(Ule(n, C64(1 << 40)), Ule(off, C64(1 << 41)))
    slot_fn(c, hdr, "bpak_part_size_wo_pad", lambda k: UF("data_size", 64, k)); slot_fn(c, hdr, "bpak_part_offset", lambda k: UF("part_offset", 64, k), 0)
    c.assume_note("part sizes up to 2^40 and offsets up to 2^41 bytes")
    ex.on_write[f] = lambda ex, st, b, pos, r: ex.oblige(st, Eq(r, C64(0)), "package", "the package file is not written")
    def cands(key):
        def fn(ex, st, z, hv):
            d = z.ghost[key]; P = stdio.G(z, "pos", f)
            yield ("pos", Eq(P, Add(off, d))); yield ("done", Ule(d, n)); yield ("src>=", Ule(off, P))
            for nm, v in ints64(ex, z):
                yield ("left " + nm, Eq(v, Sub(n, d))); yield ("count " + nm, Eq(v, d)); yield ("abs " + nm, Eq(v, Add(off, d)))
        return fn
    ex.check_term = True
    return p, hdr, f, pid, found, slot, n, off, cands

def extract(c):
    ex = c.ex; p, hdr, f, pid, found, slot, n, off, cands = setup(c)
    named = c.var("named", 0); name = c.obj("filename", 16); st0 = c.snapshot()
    so = stdio.new_file(ex, c.st, "stdout").es[0][1]
    ext = ex.extern_value
    ex.extern_value = lambda nm: mkptr(so) if nm == "stdout" else ext(nm)
    expect = lambda z, k: ex.base_read(st0, st0.mem[ex.files[f]].bases[0], Add(off, k))
    c.st.ghost["clean"] = T; base = stdio.G(c.st, "pos", so)
    fo = stdio.new_file(ex, c.st, "out", C64(0), C64(0), open_=F).es[0][1]
    tape(c, so, expect, n, base); tape(c, fo, expect, n, C64(0))
    def fopen(ex, st, nm, md):
        ex.oblige(st, veq(asptr(nm), name), "requires", "the named file is created"); ex.oblige(st, B(md.startswith(b"w")), "requires", "and emptied")
        return mkptr(fo)
    ex.flags["fopen"] = fopen
    def more(ex, st, z, hv):
        d = z.ghost["tape"]
        yield ("out.pos", Implies(named, Eq(stdio.G(z, "pos", fo), d))); yield ("out.len", Implies(named, Eq(stdio.G(z, "len", fo), d)))
        yield ("stdout.pos", Implies(Not(named), Eq(stdio.G(z, "pos", so), Add(base, d))))
    ex.loop_cands.append(more)
    ex.loop_cands.append(cands("tape")); ex.force_inv.add("bpak_pkg_extract_file")
    fl = {}
    def closing(nm, orig):
        def g(ex, st, a, rt):
            r = orig(ex, st, a, rt)
            for cc, o, fo in asptr(a[0]).es:
                if o and o != f: st.ghost["clean"] = Ite(cc, And(st.ghost["clean"], Eq(r, K(0, 32))), st.ghost["clean"])
            return r
        return g
    ex.models["fclose"] = closing("fclose", ex.models["fclose"]); ex.models["fflush"] = closing("fflush", ex.models["fflush"])
    nm = pnorm([(named, name.es[0][1], C64(0)), (Not(named), 0, C64(0))])
    rv = c.call("bpak_pkg_extract_file", p, pid, nm); ok = eqi(rv, 0); g = c.st.ghost
    c.ensure("unknown parts are refused", Implies(ok, found))
    z = c.st.fork(); z.assume(ok)
    c.ensure("success only if all of the part's data was written", Eq(z.ghost["tape"], n), st=z)
    c.ensure("success only if the output was flushed without error", z.ghost["clean"], st=z)
    y = c.st.fork(); y.assume(named); c.ensure("the output file is closed", Not(stdio.G(y, "open", fo)), st=y)
    y = z.fork(); y.assume(named); c.ensure("the output file is as long as the data", Eq(stdio.G(y, "len", fo), n), st=y)
    frame(c, "the package in memory is only read", p, st0, lambda k: F)
    c.cover("success to a file", And(ok, named)); c.cover("success to stdout", And(ok, Not(named), Ult(C64(5000), n))); c.cover("failure", Not(ok))

def sha(c):
    ex = c.ex; stdio.install_hash(ex); p, hdr, f, pid, found, slot, n, off, cands = setup(c)
    cap = c.var("size", 64); c.pre(Ule(cap, C64(1 << 40))); out = c.obj("digest", cap); st0 = c.snapshot(); W = c.var("wit", 64)
    c.st.ghost["hashed"] = C64(0)
    def on_hash(ex, st, k, buf, m):
        d = st.ghost["hashed"]
        ex.oblige(st, And(Ule(d, n), Ule(m, Sub(n, d))), "hashed bytes", "nothing but the part's data is hashed")
        z = st.fork(); z.assume(Ult(W, m))
        if not z.dead: ex.oblige(z, Eq(byte_at(c, buf, z, W), ex.base_read(st0, st0.mem[ex.files[f]].bases[0], Add(off, Add(d, W)))), "hashed bytes", "the bytes of the part, in order")
        st.ghost["hashed"] = Add(d, m)
    ex.flags["on_hash"] = on_hash; ex.loop_cands.append(cands("hashed")); ex.force_inv.add("bpak_pkg_part_sha256")
    rv = c.call("bpak_pkg_part_sha256", p, out, cap, pid); ok = eqi(rv, 0); g = c.st.ghost
    if len(ex.hstreams) != 1: c.ensure("one digest is computed", F); return
    k = list(ex.hstreams)[0]
    c.ensure("unknown parts are refused", Implies(ok, found))
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        g = z.ghost
        c.ensure("success only if every hashing step succeeded", And(g["h.fin." + k], Not(g["h.bad." + k]), Eq(g["h.runs." + k], C64(1))), st=z)
        c.ensure("SHA-256", Eq(g["h.kind." + k], K(1, 32)), st=z)
        c.ensure("all of the part's data is covered", Eq(g["hashed"], n), st=z)
        c.ensure("the digest goes to the caller's buffer", veq(ex.finals[-1][1], out), st=z)
    z = c.st.fork(); z.assume(found); c.ensure("the hash context is released", Not(z.ghost["h.live." + k]), st=z)
    frame(c, "the package in memory is only read", p, st0, lambda k: F)
    c.cover("success", And(ok, Ult(C64(5000), n))); c.cover("failure", Not(ok))

UNITS = [Unit("bpak_pkg_extract_file", "C18", extract, ["lib/pkg.c"]), Unit("bpak_pkg_part_sha256", "C18", sha, ["lib/pkg_verify.c"])]

from spec import *
import stdio
SRC = ["lib/verify.c"]
CONTRACT_INFO = dict(stdio.HASH_INFO)

def header_hash(c):
    ex = c.ex; stdio.install_hash(ex)
    hdr = c.struct("bpak_header", "hdr")
    cap = c.var("size", 64); c.pre(Ule(cap, C64(1 << 40)))
    out = c.obj("output", cap); sz = c.obj("size_ptr", 8)
    c.set(sz, 0, 8, cap)
    st0 = c.snapshot(); h = Hdr(c, hdr)
    W = c.var("wit", 64); c.pre(Ult(W, C64(4096)))
    want = Ite(Ult(W, C64(OFF_SIGN)), byte_at(c, hdr, st0, W), K(0, 8))
    def stream(st):
        k = list(ex.hstreams)[-1]
        return st.ghost["h.len." + k], ex.base_read(st, st.mem[ex.hstreams[k]].bases[0], W)
    def cands(ex, st, z, hv):
        if not ex.hstreams: return
        k = list(ex.hstreams)[-1]
        if "h.len." + k not in z.ghost: return
        yield ("covered", WitInv(Ult(W, z.ghost["h.len." + k]), lambda y: Eq(stream(y)[1], want)))
    ex.loop_cands.append(cands); ex.check_term = True; ex.force_inv.add("bpak_verify_compute_header_hash")
    rv = c.call("bpak_verify_compute_header_hash", hdr, out, sz)
    ok = eqi(rv, 0)
    if len(ex.hstreams) != 1: c.ensure("one digest is computed", F); return
    k = list(ex.hstreams)[0]; g = c.st.ghost
    z = c.st.fork(); z.assume(ok)
    if not z.dead:
        c.ensure("success only if every hashing step succeeded", And(g["h.fin." + k], Not(g.get("h.bad." + k, F))), st=z)
        c.ensure("the kind named in the header", Eq(Extract(g["h.kind." + k], 7, 0), h.u(OFF_HASH, 1)), st=z)
        c.ensure("the kind is not altered", Eq(g["h.kind." + k], ZExt(h.u(OFF_HASH, 1), 32)), st=z)
        c.ensure("exactly 4096 bytes are hashed", Eq(g["h.len." + k], C64(4096)), st=z)
        c.ensure("the header bytes in order, signature and its length as zero", Eq(stream(z)[1], want), st=z)
        kk, buf, dl = ex.finals[-1]
        c.ensure("the digest goes to the caller's buffer", veq(buf, out), st=z)
        c.ensure("the digest length is reported", Eq(c.get(sz, 0, 8, st=z), dl), st=z)
    c.ensure("the hash context is released", Not(g["h.live." + k]))
    c.ensure("the header is only read", mem_ident(c, hdr, st0))
    c.cover("success", ok); c.cover("failure", Not(ok))

UNITS = [Unit("bpak_verify_compute_header_hash", "C05", header_hash, SRC)]

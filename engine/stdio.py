"""Contracts for the C stream functions and for the hash interface (bpak_hash_*).

A FILE is a byte sequence (a memory object) with a position and a length held as ghost state.  Every operation may
fail or transfer fewer bytes than asked at any time; nothing else about scheduling or the operating system is assumed.
A hash context owns an append-only byte stream: 'the digest of' that stream is all the hash functions are trusted for."""
from terms import *
from symex import *
from llir import Unsupported
import models

MAXLEN = 1 << 48
G = lambda st, k, oid: st.ghost["f.%s.%d" % (k, oid)]
def setg(st, k, oid, v): st.ghost["f.%s.%d" % (k, oid)] = v

def new_file(ex, st, name, length=None, pos=None, content="sym", open_=T):
    """-> FILE* (its memory is opaque)"""
    oid = ex.new_obj(st, name, 8, "file")
    cid = ex.new_obj(st, name + ".data", C64(1 << 62), "ghost", init=content)
    ex.files[oid] = cid
    setg(st, "len", oid, Fresh(name + ".len", 64) if length is None else length)
    setg(st, "pos", oid, Fresh(name + ".pos", 64) if pos is None else pos)
    setg(st, "open", oid, open_)
    st.assume(Ule(G(st, "len", oid), C64(MAXLEN))); st.assume(Ule(G(st, "pos", oid), C64(MAXLEN)))
    return mkptr(oid)

def fentry(ex, st, p, what):
    """the single stream a FILE* designates"""
    es = [e for e in asptr(p).es if not pc_has(st.pc, Not(e[0]))]
    ok = [e for e in es if e[1] in ex.files]
    if len(ok) != len(es) or any(not (isc(e[2]) and e[2].val == 0) for e in ok):
        bad = [c for c, o, f in es if o not in ex.files]
        ex.oblige(st, And(*[Not(c) for c in bad]), "memory", what + ": valid stream")
        if st.dead: return None
    if not ok: st.dead = True; return None
    return ok

def each(ex, st, p, what, fn, rt):
    """run fn(state, file oid) for every stream p may designate, and merge"""
    es = fentry(ex, st, p, what)
    if es is None: return models._ret(rt)
    if len(es) == 1:
        oid = es[0][1]
        ex.oblige(st, G(st, "open", oid), "memory", what + ": the stream is open")
        if st.dead: return models._ret(rt)
        return fn(st, oid)
    outs = []
    for c, oid, f in es:
        n = st.fork(); n.assume(c)
        if n.dead or ex.decide(n, T) is False: continue
        ex.oblige(n, G(n, "open", oid), "memory", what + ": the stream is open")
        if n.dead: continue
        v = fn(n, oid)
        if not n.dead: n.regs["$cv"] = v; outs.append(n)
    m = ex.merge(outs)
    if m is None: st.dead = True; return models._ret(rt)
    v = m.regs.pop("$cv", None)
    st.pc = m.pc; st.mem = m.mem; st.own = m.own; st.ghost = m.ghost; st.regs = m.regs
    return v

def fork2(ex, st, c, f, g):
    """if c then f else g, merged"""
    a, b = st.fork(), st
    b = st.fork()
    a.assume(c); b.assume(Not(c))
    if not a.dead: f(a)
    if not b.dead: g(b)
    m = ex.merge([x for x in (a, b) if not x.dead])
    if m is None: st.dead = True; return
    st.pc = m.pc; st.mem = m.mem; st.own = m.own; st.ghost = m.ghost; st.regs = m.regs

def segmented(ex, p): return any(len(ex.objs[o].segs) > 1 for c, o, f in asptr(p).es if o)

def raw_copy(ex, st, d, s_, n, what):
    """bytes between a user buffer (already checked) and ghost content"""
    m = ex.muted; ex.muted = 1
    h = ex.access_hook; ex.access_hook = None
    d = asptr(d); s_ = asptr(s_)
    for c2, o2, f2 in d.es:
        if o2 == 0: continue
        for c, o, f in s_.es:
            if o == 0: continue
            st.own.discard(o)
            ex._copy(st, And(c, c2), o2, f2, o, f, ex.getos(st, o), n, what)
    ex.muted = m; ex.access_hook = h

def deliver(ex, st, buf, n, src, pos, avail, what):
    """read up to n bytes of the byte sequence `src` at `pos` into buf; -> count (any value up to min(n, avail))"""
    es = ex.access(st, asptr(buf), n, what + " buffer")
    if st.dead: return C64(0)
    for c, o, f in es:
        if ex.objs[o].ro: ex.oblige(st, Not(c), "memory", what + ": write to constant")
    if st.dead: return C64(0)
    b = Ptr(tuple(es))
    r = Fresh(what + ".n", 64)
    if isc(n) and (segmented(ex, b) or n.val <= 64):
        st.assume(Ule(r, n)); st.assume(Implies(Eq(r, n), Ule(n, avail)))
        fork2(ex, st, Eq(r, n), lambda z: raw_copy(ex, z, b, mkptr(src, pos), n, what), lambda z: models.havoc_range(ex, z, b, n, what))
        return r
    st.assume(Ule(r, n)); st.assume(Ule(r, avail))
    raw_copy(ex, st, b, mkptr(src, pos), r, what)
    return r

def avail_of(st, oid):
    L, P = G(st, "len", oid), G(st, "pos", oid)
    return Ite(Ule(P, L), Sub(L, P), C64(0))

def m_fread(ex, st, a, rt):
    buf, sz, n, fp = a
    if not isc(sz) or sz.val == 0: raise Unsupported("fread element size")
    def run(st, oid):
        nb = MulC(n, sz.val) if sz.val > 1 else n
        if sz.val > 1:
            if not (isc(n) and n.val == 1): raise Unsupported("fread of several elements")
            r = deliver(ex, st, buf, nb, ex.files[oid], G(st, "pos", oid), avail_of(st, oid), "fread")
            if st.dead: return C64(0)
            setg(st, "pos", oid, Add(G(st, "pos", oid), r))
            return Ite(Eq(r, nb), C64(1), C64(0))
        r = deliver(ex, st, buf, nb, ex.files[oid], G(st, "pos", oid), avail_of(st, oid), "fread")
        if st.dead: return C64(0)
        if oid in ex.on_read: ex.on_read[oid](ex, st, buf, G(st, "pos", oid), r)
        setg(st, "pos", oid, Add(G(st, "pos", oid), r))
        return r
    return each(ex, st, fp, "fread", run, rt)

def m_fwrite(ex, st, a, rt):
    buf, sz, n, fp = a
    if not isc(sz) or sz.val == 0: raise Unsupported("fwrite element size")
    if sz.val > 1 and not (isc(n) and n.val == 1): raise Unsupported("fwrite of several elements")
    nb = C64(sz.val) if sz.val > 1 else n
    es = ex.access(st, asptr(buf), nb, "fwrite data")
    if st.dead: return C64(0)
    b = Ptr(tuple(es)) if es else NULL
    def run(st, oid):
        st.assume(Ule(nb, C64(MAXLEN)))
        r = Fresh("fwrite.n", 64)
        st.assume(Ule(r, nb))
        pos = G(st, "pos", oid)
        if oid in ex.on_write: ex.on_write[oid](ex, st, b, pos, r)
        elif isc(nb) and segmented(ex, b):
            fork2(ex, st, Eq(r, nb), lambda z: raw_copy(ex, z, mkptr(ex.files[oid], pos), b, nb, "fwrite"),
                  lambda z: models.havoc_range(ex, z, mkptr(ex.files[oid], pos), r, "fwrite"))
        else: raw_copy(ex, st, mkptr(ex.files[oid], pos), b, r, "fwrite")
        if st.dead: return C64(0)
        pos2 = Add(pos, r); st.assume(Ule(pos2, C64(2 * MAXLEN)))
        setg(st, "pos", oid, pos2)
        L = G(st, "len", oid)
        grow = And(Ult(L, pos2), Ne(r, C64(0)))
        if "f.gap" in ex.flags: pass
        setg(st, "len", oid, Ite(grow, pos2, L))
        return Ite(Eq(r, nb), C64(1), C64(0)) if sz.val > 1 else r
    return each(ex, st, a[3], "fwrite", run, rt)

def m_fseek(ex, st, a, rt):
    fp, off, wh = a
    if not isc(wh): raise Unsupported("fseek whence")
    def run(st, oid):
        base = {0: C64(0), 1: G(st, "pos", oid), 2: G(st, "len", oid)}[wh.val]
        t = Add(base, off)
        ok = Fresh("fseek.ok", 0)
        st.assume(Implies(ok, Ule(t, C64(MAXLEN))))     # negative targets fail; so do targets beyond any real file
        setg(st, "pos", oid, Ite(ok, t, G(st, "pos", oid)))
        r = Fresh("fseek", 32); st.assume(Iff(Eq(r, K(0, 32)), ok))
        return r
    return each(ex, st, fp, "fseek", run, rt)

def m_rewind(ex, st, a, rt):
    def run(st, oid): setg(st, "pos", oid, C64(0))
    return each(ex, st, a[0], "rewind", run, rt)

def m_ftell(ex, st, a, rt):
    def run(st, oid): return Ite(Fresh("ftell.ok", 0), G(st, "pos", oid), C64(-1))
    return each(ex, st, a[0], "ftell", run, rt)

def m_ferror(ex, st, a, rt):
    def run(st, oid): return Fresh("ferror", 32)
    return each(ex, st, a[0], "ferror", run, rt)

def m_fflush(ex, st, a, rt):
    if asptr(a[0]).es[0][1] not in ex.files: return Fresh("fflush", 32)
    return each(ex, st, a[0], "fflush", lambda st, oid: Fresh("fflush", 32), rt)

def m_fclose(ex, st, a, rt):
    def run(st, oid):
        setg(st, "open", oid, F)
        return Fresh("fclose", 32)
    return each(ex, st, a[0], "fclose", run, rt)

def m_fileno(ex, st, a, rt): return each(ex, st, a[0], "fileno", lambda st, oid: K(100000 + oid, 32), rt)

def m_ftruncate(ex, st, a, rt):
    fd, n = a
    if not isc(fd) or fd.val - 100000 not in ex.files: raise Unsupported("ftruncate descriptor")
    oid = fd.val - 100000
    ok = Fresh("trunc.ok", 0)
    st.assume(Implies(ok, Ule(n, C64(MAXLEN))))
    L = G(st, "len", oid)
    def go(z):
        # growing reads as zeros
        m = ex.muted; ex.muted = 1
        ex._fill(z, Ult(L, n), ex.files[oid], L, Ite(Ult(L, n), Sub(n, L), C64(0)), K(0, 8), "ftruncate")
        ex.muted = m
        setg(z, "len", oid, n)
    fork2(ex, st, ok, go, lambda z: None)
    r = Fresh("ftruncate", 32); st.assume(Iff(Eq(r, K(0, 32)), ok))
    return r

def m_fopen(ex, st, a, rt):
    mode = models.concrete_str(ex, st, a[1])
    if mode is None:
        if not ex.flags.get("fopen_any"): raise Unsupported("fopen mode")
        mode = b"r+"
    ex.nopen = getattr(ex, "nopen", 0) + 1
    nm = "file%d" % ex.nopen
    fail = Fresh("fopen.fail", 0)
    pre = ex.flags.get("fopen")                 # unit supplied: f(ex, st, name ptr, mode) -> FILE* or None
    fp = pre(ex, st, a[0], mode) if pre else None
    if fp is None:
        if mode.startswith(b"w"): fp = new_file(ex, st, nm, C64(0), C64(0), "sym")
        else: fp = new_file(ex, st, nm, None, C64(0))
    oid = fp.es[0][1]
    ex.opened.append(oid)
    setg(st, "open", oid, Not(fail))
    return pnorm([(fail, 0, C64(0)), (Not(fail), oid, C64(0))])

def install(ex):
    M = ex.models
    ex.files = {}; ex.opened = []; ex.flags = {}; ex.on_write = {}; ex.on_read = {}
    for n, f in dict(fread=m_fread, fwrite=m_fwrite, fseek=m_fseek, fseeko=m_fseek, rewind=m_rewind, ftell=m_ftell, ftello=m_ftell, ferror=m_ferror,
                     feof=m_ferror, fflush=m_fflush, fclose=m_fclose, fileno=m_fileno, ftruncate=m_ftruncate, fopen=m_fopen).items(): M[n] = f

# ------------------------------------------------------------------ hash contexts
DIGEST = {1: 32, 2: 48, 3: 64}
def hctx(ex, st, p, what):
    es = [e for e in asptr(p).es if not pc_has(st.pc, Not(e[0]))]
    if len(es) != 1 or es[0][1] == 0: raise Unsupported(what + ": hash context")
    return "%d.%d" % (es[0][1], es[0][2].val if isc(es[0][2]) else es[0][2].id)

def hash_log(ex):
    """the contexts initialised so far: [(key, stream object)]"""
    return ex.hstreams

def c_hash_init(ex, st, a, rt):
    """may fail; on success the context holds an empty stream for the given kind"""
    k = hctx(ex, st, a[0], "bpak_hash_init")
    ex.access(st, asptr(a[0]), C64(4), "bpak_hash_init context")
    if st.dead: return K(0, 32)
    if k not in ex.hstreams:
        ex.hstreams[k] = ex.new_obj(st, "stream", C64(1 << 62), "ghost")
    rc = Fresh("hash_init", 32); ok = Eq(rc, K(0, 32))
    st.assume(Implies(ok, And(Ule(K(1, 32), a[1]), Ule(a[1], K(3, 32)))))
    g = st.ghost
    g["h.bad." + k] = F; g["h.len." + k] = C64(0); g["h.kind." + k] = a[1]; g["h.live." + k] = ok; g["h.fin." + k] = F; g["h.runs." + k] = Add(g.get("h.runs." + k, C64(0)), C64(1))
    return rc

def c_hash_update(ex, st, a, rt):
    """requires an initialised context and n readable bytes; may fail; on success exactly these bytes are appended"""
    k = hctx(ex, st, a[0], "bpak_hash_update")
    n = a[2]
    ex.oblige(st, st.ghost.get("h.live." + k, F), "memory", "bpak_hash_update: context initialised and not finished")
    if st.dead: return K(0, 32)
    es = ex.access(st, asptr(a[1]), n, "bpak_hash_update data")
    if st.dead: return K(0, 32)
    rc = Fresh("hash_update", 32); ok = Eq(rc, K(0, 32))
    L = st.ghost["h.len." + k]
    st.assume(Ule(n, C64(MAXLEN)))
    if "on_hash" in ex.flags: ex.flags["on_hash"](ex, st, k, Ptr(tuple(es)) if es else NULL, n)
    elif es: raw_copy(ex, st, mkptr(ex.hstreams[k], L), Ptr(tuple(es)), n, "hash")
    if st.dead: return K(0, 32)
    L2 = Add(L, n); st.assume(Ule(L2, C64(1 << 61)))
    st.ghost["h.len." + k] = L2
    st.ghost["h.bad." + k] = Or(st.ghost["h.bad." + k], Not(ok))
    return rc

def c_hash_final(ex, st, a, rt):
    """requires an initialised context; fails, or writes the digest (its length must fit) of the stream"""
    k = hctx(ex, st, a[0], "bpak_hash_final")
    ex.oblige(st, st.ghost.get("h.live." + k, F), "memory", "bpak_hash_final: context initialised and not finished")
    if st.dead: return K(0, 32)
    buf, bl, rl = a[1], a[2], a[3]
    kind = st.ghost["h.kind." + k]
    dl = Ite(Eq(kind, K(1, 32)), C64(32), Ite(Eq(kind, K(2, 32)), C64(48), C64(64)))
    rc = Fresh("hash_final", 32); ok = Eq(rc, K(0, 32))
    st.assume(Implies(ok, Ule(dl, bl)))
    n = Min(bl, C64(64))
    ex.access(st, asptr(buf), n, "bpak_hash_final buffer")
    if st.dead: return K(0, 32)
    def wr(z):
        models.havoc_range(ex, z, buf, dl, "hash_final")
        for c, o, f in asptr(rl).es:
            if o == 0: continue
            y = z.fork(); y.assume(c)
            if y.dead: continue
            ex.store(z, Ptr(((T, o, f),)) if c is T else rl, 8, dl, "bpak_hash_final result length")
    if ex.decide(st, ok) is None: fork2(ex, st, ok, wr, lambda z: None)
    st.ghost["h.fin." + k] = ok
    st.ghost["h.live." + k] = F
    ex.finals.append((k, asptr(buf), dl))
    return rc

def c_hash_free(ex, st, a, rt):
    k = hctx(ex, st, a[0], "bpak_hash_free")
    st.ghost["h.live." + k] = F
    return None

def install_hash(ex):
    ex.hstreams = {}; ex.finals = []
    ex.contracts.update({"bpak_hash_init": c_hash_init, "bpak_hash_update": c_hash_update, "bpak_hash_final": c_hash_final, "bpak_hash_free": c_hash_free})

HASH_INFO = {"bpak_hash_init": "may fail; starts an empty stream (backend proved by C22, the digest function itself trusted)",
             "bpak_hash_update": "may fail; appends exactly the given bytes", "bpak_hash_final": "may fail; digest of the stream, must fit the buffer", "bpak_hash_free": "releases the context"}

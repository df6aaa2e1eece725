"""Trusted models of the C library functions the code calls (the only semantics not taken from /repo)."""
from terms import *
from symex import *
from llir import Unsupported

def _ret(rt, v=0):
    if rt[0] == "void": return None
    if rt[0] == "ptr": return NULL
    return K(v, rt[1])

def m_memcpy(ex, st, a, rt):
    ex.memcpy(st, a[0], a[1], a[2], "memcpy"); return a[0]
def m_memmove(ex, st, a, rt):
    ex.memcpy(st, a[0], a[1], a[2], "memmove", overlap_ok=True); return a[0]
def m_memset(ex, st, a, rt):
    v = a[1]
    ex.memset(st, a[0], v if v.w == 8 else Extract(v, 7, 0), a[2], "memset"); return a[0]
def m_noop(ex, st, a, rt): return _ret(rt)

def rd(ex, st, p, off=0):
    return ex.load(st, Ptr(tuple((c, o, Add(f, C64(off))) for c, o, f in asptr(p).es)), 1)

def m_memcmp(ex, st, a, rt):
    n = a[2]
    if isc(n) and n.val <= 64:
        if n.val == 0: return K(0, 32)
        ex.access(st, asptr(a[0]), n, "memcmp")
        if st.dead: return K(0, 32)
        ex.access(st, asptr(a[1]), n, "memcmp")
        if st.dead: return K(0, 32)
        r = K(0, 32)
        m = ex.muted; ex.muted = True
        for i in reversed(range(n.val)):
            x, y = rd(ex, st, a[0], i), rd(ex, st, a[1], i)
            r = Ite(Eq(x, y), r, Ite(Ult(x, y), K(-1, 32), K(1, 32)))
        ex.muted = m
        return r
    ex.access(st, asptr(a[0]), n, "memcmp")
    if st.dead: return K(0, 32)
    ex.access(st, asptr(a[1]), n, "memcmp")
    if st.dead: return K(0, 32)
    r = Fresh("memcmp", 32)
    eq = Eq(r, K(0, 32))
    # result 0 => equal at the witness offset (ghost "cmp_w"), non-zero => some differing byte exists
    w = ex.witness.get("memcmp")
    if w is not None and not st.dead:
        m = ex.muted; ex.muted = True
        inr = Ult(w, n)
        z = st.fork(); z.assume(inr)
        if not z.dead:
            x = ex.load(z, Ptr(tuple((c, o, Add(f, w)) for c, o, f in asptr(a[0]).es)), 1)
            y = ex.load(z, Ptr(tuple((c, o, Add(f, w)) for c, o, f in asptr(a[1]).es)), 1)
            st.assume(Implies(And(eq, inr), Eq(x, y)))
        ex.muted = m
    return r

def m_strncmp(ex, st, a, rt):
    """reads up to the first difference or end of string, at most n bytes"""
    n = a[2]
    if not isc(n) or n.val > 64: raise Unsupported("strncmp with a length that is not a small constant")
    go, xs = T, []; m = ex.muted
    for i in range(n.val):
        z = st.fork(); z.assume(go)
        if z.dead: break
        for q in (a[0], a[1]):
            if not z.dead: ex.access(z, Ptr(tuple((c, o, Add(f, C64(i))) for c, o, f in asptr(q).es)), C64(1), "strncmp")
        if z.dead: break
        ex.muted = True; x, y = rd(ex, z, a[0], i), rd(ex, z, a[1], i); ex.muted = m
        xs.append((x, y)); go = And(go, Eq(x, y), Ne(x, K(0, 8)))
    r = K(0, 32)
    for x, y in reversed(xs): r = Ite(Eq(x, y), Ite(Eq(x, K(0, 8)), K(0, 32), r), Ite(Ult(x, y), K(-1, 32), K(1, 32)))
    return r

def concrete_str(ex, st, p, cap=4096):
    """bytes of a concrete NUL terminated string or None"""
    p = asptr(p)
    if len(p.es) != 1: return None
    c, o, f = p.es[0]
    if o == 0 or not isc(f): return None
    out = bytearray()
    obj = ex.objs[o]
    if not isc(obj.size): return None
    os_ = ex.getos(st, o)
    i = f.val
    while i < obj.size.val and len(out) < cap:
        v = ex.os_byte(st, os_, o, C64(i))
        if not isc(v): return None
        if v.val == 0: return bytes(out)
        out.append(v.val); i += 1
    return None

def sym_strlen(ex, st, p, what="strlen"):
    """length of the string at p.  Objects created as C strings carry their length (ex.strlens)."""
    s_ = concrete_str(ex, st, p)
    if s_ is not None: return C64(len(s_))
    p = asptr(p)
    r = None
    for c, o, f in reversed(p.es):
        if o == 0: continue
        L = ex.strlens.get(o)
        if L is None:
            # unknown terminator: reading is only safe when a NUL is certain inside the object
            obj = ex.objs[o]
            os_ = ex.getos(st, o)
            if not (isc(obj.size) and obj.size.val <= 64 and isc(f)): 
                raise Unsupported(what + " on %s" % obj.name)
            v = None
            bs = [ex.os_byte(st, os_, o, C64(i)) for i in range(f.val, obj.size.val)]
            ex.oblige(st, Or(Not(c), *[Eq(b, K(0, 8)) for b in bs]), "memory", what + ": terminated string")
            if st.dead: return C64(0)
            v = C64(len(bs))
            for i in reversed(range(len(bs))): v = Ite(Eq(bs[i], K(0, 8)), C64(i), v)
        else:
            ex.oblige(st, Implies(c, Ule(f, L)), "memory", what + ": inside the string")
            v = Sub(L, f)
        r = v if r is None else Ite(c, v, r)
    if any(o == 0 for _, o, _ in p.es):
        ex.oblige(st, Not(Or(*[c for c, o, f in p.es if o == 0])), "memory", what + ": non-null string")
    return r if r is not None else C64(0)

def m_strlen(ex, st, a, rt): return sym_strlen(ex, st, a[0])

def m_strcmp(ex, st, a, rt):
    for i in (0, 1):
        es = [e for e in asptr(a[i]).es if not pc_has(st.pc, Not(e[0]))]
        if len(es) > 1:
            # one of several strings
            r = None
            for c, o, f in reversed(es):
                z = st.fork(); z.assume(c)
                if z.dead: continue
                b = list(a); b[i] = Ptr(((T, o, f),))
                v = m_strcmp(ex, z, b, rt)
                if not isc(v): raise Unsupported("strcmp of several unknown strings")
                r = v if r is None else Ite(c, v, r)
            return r
    x, y = concrete_str(ex, st, a[0]), concrete_str(ex, st, a[1])
    if x is not None and y is not None:
        return K(0 if x == y else (-1 if x < y else 1), 32)
    if y is None and x is not None: a = [a[1], a[0]] + a[2:]; y = x
    r = Fresh("strcmp", 32)
    if y is not None:
        # equal iff the bytes match including the terminator
        p = asptr(a[0])
        L = sym_strlen(ex, st, a[0], "strcmp")
        if st.dead: return r
        m = ex.muted; ex.muted = True
        eqs = [Eq(L, C64(len(y)))]
        z = st.fork(); z.assume(eqs[0])
        if z.dead: eq = F
        else:
            for i, ch in enumerate(y): eqs.append(Eq(rd(ex, z, p, i), K(ch, 8)))
            eq = And(*eqs)
        ex.muted = m
        st.assume(Iff(Eq(r, K(0, 32)), eq))
        return r
    sym_strlen(ex, st, a[0], "strcmp"); sym_strlen(ex, st, a[1], "strcmp")
    return r

def heap_new(ex, st, size, init, may_fail=True, name="heap"):
    if st.dead: return NULL
    fail = Fresh("oom", 0) if may_fail else F
    oid = ex.new_obj(st, name, size, "heap", init=init)
    g = st.ghost.get("$heap", C64(0))
    if fail is F: return mkptr(oid)
    return pnorm([(fail, 0, C64(0)), (Not(fail), oid, C64(0))])

def m_malloc(ex, st, a, rt): return heap_new(ex, st, a[0], "sym")
def m_calloc(ex, st, a, rt):
    n, sz = a
    if isc(n) and isc(sz): size = C64(n.val * sz.val)
    elif isc(n) or isc(sz):
        k, v = (n.val, sz) if isc(n) else (sz.val, n)
        size = MulC(v, k)
        if rng(v)[1] * k >= 1 << 64:
            # calloc fails on overflow
            ov = Ugt(v, C64(((1 << 64) - 1) // k)) if k else F
            size = Ite(ov, C64(0), size)
            p = heap_new(ex, st, size, "zero")
            return vite(ov, NULL, p)
    else: raise Unsupported("calloc size")
    return heap_new(ex, st, size, "zero")

def m_free(ex, st, a, rt):
    p = asptr(a[0])
    conds = []
    for c, o, f in p.es:
        if o == 0: conds.append(Or(Not(c), Eq(f, C64(0)))); continue
        obj = ex.objs[o]
        ost = ex.getos(st, o)
        if obj.kind != "heap" or ost is None: conds.append(Not(c)); continue
        conds.append(Implies(c, And(Eq(f, C64(0)), Not(ost.freed))))
    ex.oblige(st, And(*conds), "memory", "free: live heap block or NULL")
    if st.dead: return None
    for c, o, f in p.es:
        if o == 0 or ex.objs[o].kind != "heap": continue
        w = st.w(o); w.freed = Or(w.freed, c)
    return None

def m_abort(ex, st, a, rt):
    st.dead = True
    return _ret(rt)

def m_assert_fail(ex, st, a, rt):
    ex.oblige(st, F, "assert", "assert() cannot fail")
    st.dead = True
    return _ret(rt)

def m_strnlen(ex, st, a, rt):
    p, n = asptr(a[0]), a[1]
    ex.access(st, p, n, "strnlen")
    if st.dead: return K(0, 64)
    r = Fresh("strnlen", 64)
    st.assume(Ule(r, n))
    m = ex.muted; ex.muted = 1
    z = st.fork(); z.assume(Ult(r, n))
    if not z.dead:
        b = ex.load(z, Ptr(tuple((c, o, Add(f, r)) for c, o, f in p.es)), 1)
        st.assume(Implies(Ult(r, n), Eq(b, K(0, 8))))
    ex.muted = m
    ex.strn[r.id] = (p, n)
    if "term" in st.ghost: st.ghost["term"] = r
    return r

def fmt_len(fmt, args):
    """(upper bound of the text length of a printf format, is it exact); None: unbounded"""
    import re
    exact = True
    n = 0; i = 0; k = 0
    for mt in re.finditer(rb"%([-0 +#]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j)?([a-zA-Z%])", fmt):
        n += mt.start() - i; i = mt.end()
        fl, wd, pr, lm, cv = mt.groups()
        if cv == b"%": n += 1; continue
        if k >= len(args): return None
        a = args[k]; k += 1
        w = int(wd or 0); p = int(pr or 0)
        if cv in b"xXu" or cv in b"dio":
            if isinstance(a, Ptr): return None
            hi = rng(a)[1]
            if cv in b"xX": d = max(1, (hi.bit_length() + 3) // 4) + (2 if b"#" in fl else 0)
            elif cv == b"u": d = len(str(hi))
            elif cv == b"o": d = max(1, (hi.bit_length() + 2) // 3) + 1
            else: d = len(str(hi)) + 1
            n += max(w, p, d)
            if d > max(w, p) or (lm in (b"h", b"hh")): exact = False
        elif cv == b"c": n += max(1, w)
        else: return None
    return n + len(fmt) - i, exact

def _sprint(ex, st, buf, size, fmt, args, rt, what):
    f = concrete_str(ex, st, fmt)
    if f is None: raise Unsupported(what + ": format is not a constant")
    L = fmt_len(f, args)
    if L is None: raise Unsupported(what + ": format %r" % f)
    L, exact = L
    n = C64(L + 1)
    if size is not None: n = Min(size, n)
    es = ex.access(st, asptr(buf), n, what)
    if st.dead: return K(0, 32)
    r = Fresh("printed", 32)
    st.assume(Eq(r, K(L, 32)) if exact else Ule(r, K(L, 32)))
    if exact: r = K(L, 32)
    havoc_range(ex, st, buf, n, what)
    if st.dead: return K(0, 32)
    # terminated inside the written part
    t = Ite(Ult(ZExt(r, 64), n), ZExt(r, 64), Sub(n, C64(1)))
    m = ex.muted; ex.muted = 1
    z = st.fork(); z.assume(Ne(n, C64(0)))
    if not z.dead:
        b = ex.load(z, Ptr(tuple((c, o, Add(x, t)) for c, o, x in asptr(buf).es)), 1)
        st.assume(Implies(Ne(n, C64(0)), Eq(b, K(0, 8))))
    ex.muted = m
    if "term" in st.ghost: st.ghost["term"] = t
    return r

def havoc_range(ex, st, p, n, what="write"):
    """arbitrary bytes at p[0..n)"""
    src = ex.new_obj(st, "arb", n, "ghost")
    m = ex.muted; ex.muted = 1
    ex.memcpy(st, p, mkptr(src), n, what)
    ex.muted = m

def m_snprintf(ex, st, a, rt): return _sprint(ex, st, a[0], a[1], a[2], a[3:], rt, "snprintf")
def m_sprintf(ex, st, a, rt): return _sprint(ex, st, a[0], None, a[1], a[2:], rt, "sprintf")

def overflow(op, signed):
    def f(ex, st, a, rt):
        x, y = a; w = x.w; zero = K(0, w)
        if op == "mul":
            E = SExt if signed else ZExt; r = Mul(x, y); ov = Ne(Mul(E(x, 2 * w), E(y, 2 * w)), E(r, 2 * w))
        else:
            r = Add(x, y) if op == "add" else Sub(x, y)
            if signed:
                na, nb, nr = Slt(x, zero), Slt(y, zero), Slt(r, zero)
                if op == "sub": nb = Not(nb)
                ov = Or(And(na, nb, Not(nr)), And(Not(na), Not(nb), nr))
            else: ov = Ult(r, x) if op == "add" else Ult(x, y)
        return Concat(Ite(ov, K(1, 1), K(0, 1)), r)
    return f

def m_swapbits(ex, st, a, rt): return FromBytes(list(reversed(Bytes(a[0], a[0].w // 8))))

def install(ex):
    M = ex.models
    ex.strlens = {}; ex.strn = {}
    def m_errno(ex, st, a, rt):
        if "errno" not in ex.flags: ex.flags["errno"] = ex.new_obj(None, "errno", 4, "global"); ex.ginit[ex.flags["errno"]] = OS({}, [Base("sym", "errno")])
        return mkptr(ex.flags["errno"])
    M["__errno_location"] = m_errno
    M["strerror"] = lambda ex, st, a, rt: mkptr(ex.fn_obj("strerror.text"))
    M["strnlen"] = m_strnlen; M["snprintf"] = m_snprintf; M["sprintf"] = m_sprintf
    ex.witness = getattr(ex, "witness", {})
    M["llvm.memcpy"] = M["memcpy"] = m_memcpy
    M["llvm.memmove"] = M["memmove"] = m_memmove
    M["llvm.memset"] = M["memset"] = m_memset
    M["llvm.dbg"] = M["llvm.va_start"] = M["llvm.va_end"] = M["llvm.lifetime"] = m_noop
    for op in ("add", "sub", "mul"):
        for sg in "su": M["llvm.%s%s" % (sg, op)] = overflow(op, sg == "s")
    M["llvm.bswap"] = m_swapbits
    M["memcmp"] = M["bcmp"] = m_memcmp; M["strncmp"] = m_strncmp
    M["strlen"] = m_strlen
    M["strcmp"] = m_strcmp
    M["malloc"] = m_malloc; M["calloc"] = m_calloc; M["free"] = m_free
    M["abort"] = m_abort; M["exit"] = m_abort
    M["__assert_fail"] = m_assert_fail
    M["printf"] = M["fprintf"] = M["vprintf"] = M["puts"] = M["putchar"] = m_noop
    import stdio; stdio.install(ex)
    # the library's own diagnostic sink: prints only (varargs)
    ex.contracts["bpak_printf"] = m_noop

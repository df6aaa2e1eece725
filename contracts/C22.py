from parts import *
import models
SRC = ["lib/crypto.c", "lib/mbedtls_wrapper.c"]
PUB = (2, 3, 4, 1); PRI = (6, 7, 8, 5)      # enum bpak_key_kind: P-256, P-384, P-521, RSA 4096
SRCA = SRC + ["lib/mem.c"]
KOFF = 16                       # struct bpak_key: kind, size u16 @4, id @8, data @16
CONTRACT_INFO = {n: "mbedtls 2.28, assumed: may fail; %s" % d for n, d in {
    "mbedtls_sha256_init": "prepares a SHA-256 context", "mbedtls_sha512_init": "prepares a SHA-512 context", "mbedtls_sha256_free": "releases", "mbedtls_sha512_free": "releases",
    "mbedtls_sha256_starts_ret": "SHA-224 if the flag is set", "mbedtls_sha512_starts_ret": "SHA-384 if the flag is set", "mbedtls_sha256_update_ret": "appends", "mbedtls_sha512_update_ret": "appends",
    "mbedtls_sha256_finish_ret": "writes 32 bytes", "mbedtls_sha512_finish_ret": "writes 64 bytes, 48 for SHA-384", "mbedtls_pk_init": "prepares", "mbedtls_pk_free": "releases", "mbedtls_pk_parse_public_key": "reads the DER bytes",
    "mbedtls_pk_parse_key": "reads the DER bytes", "mbedtls_pk_verify": "0 exactly if the signature is valid", "mbedtls_pk_sign": "writes at most 512 bytes (the largest supported key) and the length",
    "mbedtls_pk_parse_public_keyfile": "reads a key file", "mbedtls_pk_parse_keyfile": "reads a key file", "mbedtls_pk_write_pubkey_der": "negative, or the length of the data put at the end of the buffer",
    "mbedtls_pk_write_key_der": "negative, or the length of the data put at the end of the buffer", "mbedtls_pk_get_bitlen": "key length", "mbedtls_pk_get_name": "one of the names of mbedtls' key types",
    "mbedtls_entropy_init": "prepares", "mbedtls_ctr_drbg_init": "prepares", "mbedtls_entropy_free": "releases", "mbedtls_ctr_drbg_free": "releases", "mbedtls_ctr_drbg_seed": "seeds the generator"}.items()}

class Log:
    """each backend call leaves: whether it was made, with what, and its result"""
    def __init__(s, c): s.c = c; s.rc = {}
    def declare(s, *names):
        for n in names: s.c.st.ghost["n." + n] = C64(0); s.c.st.ghost["ok." + n] = F
    def hit(s, st, n, ok=T):
        g = st.ghost; g["n." + n] = Add(g["n." + n], C64(1)); g["ok." + n] = ok
    def count(s, st, n): return st.ghost["n." + n]
    def once(s, st, n): return Eq(st.ghost["n." + n], C64(1))
    def never(s, st, n): return Eq(st.ghost["n." + n], C64(0))
    def good(s, st, n): return And(s.once(st, n), st.ghost["ok." + n])

def result(st, name):
    rc = Fresh(name, 32); return rc, Eq(rc, K(0, 32))

def same(c, want, what):
    def chk(ex, st, p): ex.oblige(st, veq(asptr(p), want), "requires", what)
    return chk

def hash_env(c, ctx, buf=None, n=None):
    ex = c.ex; L = Log(c); back = mkptr(ctx.es[0][1], 8)
    isctx = same(c, back, "the context's own backend state is used")
    for a in ("sha256", "sha512"):
        L.declare(a + "_init", a + "_starts", a + "_update", a + "_finish", a + "_free")
        c.st.ghost["flag." + a] = K(0, 32)
        def mk(a):
            def init(ex, st, x, rt): isctx(ex, st, x[0]); L.hit(st, a + "_init")
            def starts(ex, st, x, rt):
                isctx(ex, st, x[0]); ex.oblige(st, L.once(st, a + "_init"), "requires", "starts after init")
                rc, ok = result(st, a); L.hit(st, a + "_starts", ok); st.ghost["flag." + a] = x[1]; return rc
            def update(ex, st, x, rt):
                isctx(ex, st, x[0]); ex.access(st, asptr(x[1]), x[2], a + " data")
                ex.oblige(st, And(veq(x[1], buf), Eq(x[2], n)), "requires", "exactly the caller's bytes are hashed")
                rc, ok = result(st, a); L.hit(st, a + "_update", ok); return rc
            def finish(ex, st, x, rt):
                isctx(ex, st, x[0]); ex.oblige(st, veq(x[1], buf), "requires", "the digest goes to the caller's buffer")
                k = c.kind
                ln = C64(32) if a == "sha256" else Ite(Eq(k, K(2, 32)), C64(48), C64(64))
                ex.access(st, asptr(x[1]), ln, "digest buffer")
                if st.dead: return K(0, 32)
                models.havoc_range(ex, st, x[1], ln, "digest")
                rc, ok = result(st, a); L.hit(st, a + "_finish", ok); return rc
            def free(ex, st, x, rt): isctx(ex, st, x[0]); L.hit(st, a + "_free")
            ex.contracts.update({"mbedtls_%s_init" % a: init, "mbedtls_%s_starts_ret" % a: starts, "mbedtls_%s_update_ret" % a: update, "mbedtls_%s_finish_ret" % a: finish, "mbedtls_%s_free" % a: free})
        mk(a)
    c.assume_note("the built-in mbedtls backend is selected (bpak_hash_setup / bpak_crypto_setup not called)")
    return L

def alg_of(kind): return Eq(kind, K(1, 32)), Or(Eq(kind, K(2, 32)), Eq(kind, K(3, 32)))

def hash_init(c):
    ctx = c.struct("bpak_hash_context", "ctx"); kind = c.var("kind", 32); c.kind = kind
    L = hash_env(c, ctx); rv = c.call("bpak_hash_init", ctx, kind); ok = eqi(rv, 0); st = c.st; g = st.ghost
    k256, k512 = alg_of(kind)
    c.ensure("success exactly when a known kind's algorithm was started without failure", Iff(ok, Or(And(k256, L.good(st, "sha256_starts")), And(k512, L.good(st, "sha512_starts")))))
    c.ensure("SHA-256 is not started as SHA-224", Implies(And(ok, k256), eqi(g["flag.sha256"], 0)))
    c.ensure("SHA-384 and SHA-512 are told apart", Implies(And(ok, k512), Iff(Eq(kind, K(2, 32)), Ne(g["flag.sha512"], K(0, 32)))))
    c.ensure("only that algorithm", And(Implies(Not(k256), L.never(st, "sha256_starts")), Implies(Not(k512), L.never(st, "sha512_starts"))))
    c.ensure("the kind is recorded", Implies(ok, Eq(c.get(ctx, 0, 4), kind)))
    for k, d in ((1, "sha256"), (2, "sha384"), (3, "sha512")): c.cover(d + " started", And(ok, Eq(kind, K(k, 32))))
    c.cover("failure", And(Not(ok), k256)); c.cover("unknown kind", And(Not(ok), Not(Or(k256, k512))))

def started(c):
    """a context initialised for a known kind"""
    ctx = c.struct("bpak_hash_context", "ctx"); kind = c.var("kind", 32); c.pre(Ule(K(1, 32), kind), Ule(kind, K(3, 32)))
    c.set(ctx, 0, 4, kind); c.kind = kind
    return ctx, kind

def hash_update(c):
    ctx, kind = started(c); n = c.var("length", 64); c.pre(Ule(n, C64(1 << 40))); buf = c.obj("buffer", n); st0 = c.snapshot()
    L = hash_env(c, ctx, buf, n); rv = c.call("bpak_hash_update", ctx, buf, n); ok = eqi(rv, 0); st = c.st
    k256, k512 = alg_of(kind)
    c.ensure("success exactly when the kind's algorithm took the bytes", Iff(ok, Or(And(k256, L.good(st, "sha256_update")), And(k512, L.good(st, "sha512_update")))))
    c.ensure("the bytes go to no other algorithm", And(Implies(k256, L.never(st, "sha512_update")), Implies(k512, L.never(st, "sha256_update"))))
    c.ensure("the kind is kept", Eq(c.get(ctx, 0, 4), kind))
    c.cover("success", And(ok, k256)); c.cover("failure", And(Not(ok), k512))

def hash_final(null):
    def f(c):
        ctx, kind = started(c); n = c.var("buffer_length", 64); c.pre(Ule(n, C64(1 << 40))); buf = c.obj("buffer", n); rl = NULL if null else c.obj("result_length", 8); st0 = c.snapshot()
        L = hash_env(c, ctx, buf, n); rv = c.call("bpak_hash_final", ctx, buf, n, rl); ok = eqi(rv, 0); st = c.st
        k256, k512 = alg_of(kind); dl = Ite(k256, C64(32), Ite(Eq(kind, K(2, 32)), C64(48), C64(64)))
        c.ensure("success exactly when the digest fits and the kind's algorithm gave it", Iff(ok, And(Ule(dl, n), Or(And(k256, L.good(st, "sha256_finish")), And(k512, L.good(st, "sha512_finish"))))))
        c.ensure("too small a buffer is left alone", Implies(Ult(n, dl), And(L.never(st, "sha256_finish"), L.never(st, "sha512_finish"))))
        c.ensure("no other algorithm is asked", And(Implies(k256, L.never(st, "sha512_finish")), Implies(k512, L.never(st, "sha256_finish"))))
        if not null:
            z = c.st.fork(); z.assume(ok); c.ensure("the digest length is reported", Eq(c.get(rl, 0, 8, st=z), dl), st=z)
        c.cover("success", ok); c.cover("too small", Ult(n, dl))
    return f

def hash_free(c):
    ctx, kind = started(c); L = hash_env(c, ctx); c.call("bpak_hash_free", ctx); st = c.st; k256, k512 = alg_of(kind)
    c.ensure("the started algorithm's state is released", And(Implies(k256, And(L.once(st, "sha256_free"), L.never(st, "sha512_free"))), Implies(k512, And(L.once(st, "sha512_free"), L.never(st, "sha256_free")))))

# ------------------------------------------------------------------ keys and signatures
PARAMS = dict(rsa="RSA", ec="EC")
def pk_env(c):
    ex = c.ex; L = Log(c)
    L.declare("parse", "verify", "sign", "seed", "der", "pk_free", "alloc"); c.pk = None
    def pk_init(ex, st, x, rt): c.pk = asptr(x[0]); st.ghost["pk.live"] = T
    def isctx(ex, st, p, key=True):
        ex.oblige(st, veq(asptr(p), c.pk) if c.pk is not None else F, "requires", "the prepared key context")
        if key: ex.oblige(st, L.good(st, "parse"), "requires", "a key was read into the context")
    def pk_free(ex, st, x, rt): L.hit(st, "pk_free")
    noop = lambda ex, st, x, rt: None
    def seed(ex, st, x, rt): rc, ok = result(st, "seed"); L.hit(st, "seed", ok); return rc
    def parse(ex, st, x, rt):
        isctx(ex, st, x[0], False); c.on_parse(ex, st, x)
        if st.dead: return K(0, 32)
        rc, ok = result(st, "parse"); L.hit(st, "parse", ok); return rc
    def verify_(ex, st, x, rt):
        isctx(ex, st, x[0]); c.on_verify(ex, st, x); rc, ok = result(st, "verify"); L.hit(st, "verify", ok); return rc
    def sign_(ex, st, x, rt):
        isctx(ex, st, x[0]); ex.oblige(st, L.good(st, "seed"), "requires", "the random generator is seeded"); c.on_sign(ex, st, x)
        if st.dead: return K(0, 32)
        ln = ex.load(st, asptr(x[5]), 8)
        rc, ok = result(st, "sign"); n = Fresh("siglen", 64); st.assume(Ule(n, C64(512)))
        ex.access(st, asptr(x[4]), C64(512), "signature buffer")
        if st.dead: return K(0, 32)
        models.havoc_range(ex, st, x[4], n, "signature"); ex.store(st, asptr(x[5]), 8, n); st.ghost["siglen"] = n
        L.hit(st, "sign", ok); return rc
    def der(ex, st, x, rt):
        isctx(ex, st, x[0]); n = x[2]; ex.access(st, asptr(x[1]), n, "key buffer")
        if st.dead: return K(0, 32)
        ln = Fresh("der.len", 32); bad = Slt(ln, K(0, 32)); c.derlen = ln
        st.assume(Or(bad, And(Ule(K(1, 32), ln), Ule(ZExt(ln, 64), n)))); st.assume(Ule(n, C64(1 << 16)))
        models.havoc_range(ex, st, x[1], n, "key data")
        c.derst = st.fork(); c.derend = Ptr(tuple((cc, o, Add(f, n)) for cc, o, f in asptr(x[1]).es))
        L.hit(st, "der", Not(bad)); return ln
    def bitlen(ex, st, x, rt): isctx(ex, st, x[0]); return c.bits
    def name(ex, st, x, rt): isctx(ex, st, x[0]); return c.name
    c.bits = c.var("bits", 64)
    ex.contracts.update(mbedtls_pk_init=pk_init, mbedtls_pk_free=pk_free, mbedtls_pk_parse_public_key=parse, mbedtls_pk_parse_key=parse, mbedtls_pk_parse_public_keyfile=parse, mbedtls_pk_parse_keyfile=parse,
        mbedtls_pk_verify=verify_, mbedtls_pk_sign=sign_, mbedtls_pk_write_pubkey_der=der, mbedtls_pk_write_key_der=der, mbedtls_pk_get_bitlen=bitlen, mbedtls_pk_get_name=name, mbedtls_ctr_drbg_seed=seed)
    for n in ("mbedtls_entropy_init", "mbedtls_entropy_free", "mbedtls_ctr_drbg_init", "mbedtls_ctr_drbg_free"): ex.contracts[n] = noop
    # the key types' names
    nm = []; sel = c.var("key_type", 8)
    names = ["RSA", "EC", "EC_DH", "ECDSA", "Opaque", "RSA-alt", "invalid PK"]
    c.pre(Ult(sel, K(len(names), 8)))
    for i, s in enumerate(names):
        oid = ex.new_obj(c.st, "name." + s, len(s) + 1)
        for j, ch in enumerate(s.encode() + b"\0"): c.set(mkptr(oid), j, 1, ch)
        nm.append((Eq(sel, K(i, 8)), oid, C64(0)))
    c.name = Ptr(tuple(nm)); c.isrsa = Eq(sel, K(0, 8)); c.isec = Eq(sel, K(1, 8))
    c.assume_note("the built-in mbedtls backend is selected (bpak_hash_setup / bpak_crypto_setup not called)")
    return L

def key_obj(c, name="key"):
    n = c.var("key_size", 16); k = c.obj(name, Add(C64(KOFF), ZExt(n, 64))); c.set(k, 4, 2, n)
    return k, ZExt(n, 64)
MD = {1: 6, 2: 7, 3: 8}        # MBEDTLS_MD_SHA256 / 384 / 512 (checked against the compiled headers in C22 native driver)
def md_of(kind): return Ite(Eq(kind, K(1, 32)), K(MD[1], 32), Ite(Eq(kind, K(2, 32)), K(MD[2], 32), K(MD[3], 32)))
def known_kind(kind): return And(Ule(K(1, 32), kind), Ule(kind, K(3, 32)))
def need_key(c, k, n):
    def f(ex, st, x):
        ex.access(st, asptr(x[1]), x[2], "key data"); ex.oblige(st, And(veq(x[1], mkptr(k.es[0][1], KOFF)), Eq(x[2], n)), "requires", "exactly the key's data is used")
    return f

def verify_u(c):
    L = pk_env(c); k, kn = key_obj(c); sn = c.var("signature_length", 64); hn = c.var("hash_length", 64); kind = c.var("kind", 32)
    c.pre(Ule(sn, C64(1 << 32)), Ule(hn, C64(1 << 32))); sig = c.obj("signature", sn); hsh = c.obj("hash", hn); ver = c.obj("verified", 1)
    c.on_parse = need_key(c, k, kn)
    def onv(ex, st, x):
        ex.oblige(st, And(Eq(x[1], md_of(kind)), known_kind(kind)), "requires", "verified with the given hash kind")
        ex.oblige(st, And(veq(x[2], hsh), Eq(x[3], hn)), "requires", "over the given digest"); ex.oblige(st, And(veq(x[4], sig), Eq(x[5], sn)), "requires", "the given signature")
    c.on_verify = onv
    rv = c.call("bpak_crypto_verify", sig, sn, hsh, hn, kind, k, ver); ok = eqi(rv, 0); st = c.st; v = c.get(ver, 0, 1)
    c.ensure("verified exactly when the backend said so", Ite(L.good(st, "verify"), eqi(v, 1), eqi(v, 0)))
    c.ensure("failing to use the key or an unknown hash kind is an error", Implies(Not(And(known_kind(kind), L.good(st, "parse"))), Not(ok)))
    c.ensure("success only after asking the backend", Implies(ok, L.once(st, "verify")))
    c.cover("verified", And(ok, eqi(v, 1))); c.cover("refused", And(ok, eqi(v, 0))); c.cover("bad key", Not(ok)); c.cover("unknown kind", Not(known_kind(kind)))

def sign_u(c):
    L = pk_env(c); k, kn = key_obj(c); hn = c.var("hash_length", 64); kind = c.var("kind", 32); c.pre(Ule(hn, C64(1 << 32))); hsh = c.obj("hash", hn)
    cap = c.var("signature_length", 64); c.pre(Ule(C64(512), cap), Ule(cap, C64(1 << 32))); sig = c.obj("signature", cap); sl = c.obj("length", 8); c.set(sl, 0, 8, cap)
    c.assume_note("callers of bpak_crypto_sign supply at least 512 bytes for the signature (bpak_pkg_sign does; mbedtls 2.28 takes no buffer length)")
    c.on_parse = need_key(c, k, kn)
    def ons(ex, st, x):
        ex.oblige(st, And(Eq(x[1], md_of(kind)), known_kind(kind)), "requires", "signed with the given hash kind")
        ex.oblige(st, And(veq(x[2], hsh), Eq(x[3], hn)), "requires", "over the given digest"); ex.oblige(st, And(veq(x[4], sig), veq(x[5], sl)), "requires", "into the caller's buffer and length")
    c.on_sign = ons
    rv = c.call("bpak_crypto_sign", hsh, hn, kind, k, sig, sl); ok = eqi(rv, 0); st = c.st
    c.ensure("success exactly when every backend step succeeded", Iff(ok, And(known_kind(kind), L.good(st, "seed"), L.good(st, "parse"), L.good(st, "sign"))))
    c.cover("signed", ok); c.cover("refused", Not(ok))

def load_u(fn, kinds, fromfile):
    def f(c):
        ex = c.ex; L = pk_env(c); W = c.var("wit", 64)
        out = c.obj("output", 8); c.set(out, 0, 8, NULL)
        if fromfile:
            nm = c.obj("filename", 16)
            c.on_parse = lambda ex, st, x: ex.oblige(st, veq(x[1], nm), "requires", "the named file is read")
            rv = c.call(fn, nm, out)
        else:
            n = c.var("length", 64); c.pre(Ule(n, C64(1 << 40))); buf = c.obj("buffer", n)
            def onp(ex, st, x): ex.access(st, asptr(x[1]), x[2], "key data"); ex.oblige(st, And(veq(x[1], buf), Eq(x[2], n)), "requires", "exactly the caller's bytes are read")
            c.on_parse = onp
            rv = c.call(fn, buf, n, out)
        ok = eqi(rv, 0); st = c.st
        c.ensure("failing to read or to encode the key is an error", Implies(Not(And(L.good(st, "parse"), L.good(st, "der"))), Not(ok)))
        z = c.st.fork(); z.assume(ok)
        if not z.dead:
            kp = asptr(c.get(out, 0, 8, ptr=True, st=z))
            live = [e for e in kp.es if e[1] != 0]
            c.ensure("success gives a key", Not(isnull(kp)), st=z)
            if len(live) == 1:
                k = mkptr(live[0][1]); ln = ZExt(c.derlen, 64)
                c.ensure("the key has the encoded length", Eq(ZExt(c.get(k, 4, 2, st=z), 64), ln), st=z)
                y = z.fork(); y.assume(Ult(W, ln))
                if not y.dead: c.ensure("the key is the encoded key", Eq(byte_at(c, k, y, Add(C64(KOFF), W)), byte_at(c, c.derend, c.derst, Sub(W, ln))), st=y)
                b = c.bits
                want = Or(And(c.isrsa, Eq(b, C64(4096)), Eq(c.get(k, 0, 4, st=z), K(kinds[3], 32))), *[And(c.isec, Eq(b, C64(x)), Eq(c.get(k, 0, 4, st=z), K(q, 32))) for x, q in zip((256, 384, 521), kinds)])
                c.ensure("the kind matches the key type and length; others are refused", want, st=z)
            else: c.ensure("one key", F, st=z)
        c.ensure("the key context is released", L.once(c.st, "pk_free"))
        c.cover("loaded", ok); c.cover("refused", Not(ok))
    return f

UNITS = [Unit("bpak_hash_init", "C22", hash_init, SRC), Unit("bpak_hash_update", "C22", hash_update, SRC), Unit("bpak_hash_final", "C22", hash_final(False), SRC), Unit("bpak_hash_final[no length]", "C22", hash_final(True), SRC), Unit("bpak_hash_free", "C22", hash_free, SRC),
    Unit("bpak_crypto_verify", "C22", verify_u, SRC), Unit("bpak_crypto_sign", "C22", sign_u, SRC),
    Unit("bpak_crypto_load_public_key", "C22", load_u("bpak_crypto_load_public_key", PUB, True), SRCA),
    Unit("bpak_crypto_load_private_key", "C22", load_u("bpak_crypto_load_private_key", PRI, True), SRCA),
    Unit("bpak_crypto_parse_public_key", "C22", load_u("bpak_crypto_parse_public_key", PUB, False), SRCA)]

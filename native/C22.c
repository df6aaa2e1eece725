#include "vt.h"
#include <bpak/bpak.h>
#include <bpak/crypto.h>
#include <mbedtls/sha256.h>
#include <mbedtls/sha512.h>
#include <mbedtls/pk.h>
#include <mbedtls/ecp.h>
#include <mbedtls/ctr_drbg.h>
/* the backend: the n-th call of a chosen function fails */
enum { S256, U256, F256, S512, U512, F512, PUB, PRI, PUBF, PRIF, VER, SIG, WPUB, WPRI, SEED, NF };
static struct { int on, fail, fired, n[NF]; } B;
#define HIT(k) (B.on && (B.n[k]++, B.fail == k + 1) && (B.fired = 1))
#define W2(name, k, T1, T2) int __real_##name(T1, T2); int __wrap_##name(T1 a, T2 b) { if (HIT(k)) return -0x5A; return __real_##name(a, b); }
#define W3(name, k, T1, T2, T3) int __real_##name(T1, T2, T3); int __wrap_##name(T1 a, T2 b, T3 c) { if (HIT(k)) return -0x5A; return __real_##name(a, b, c); }
typedef const unsigned char *cu; typedef unsigned char *uu; typedef mbedtls_pk_context *pk;
W2(mbedtls_sha256_starts_ret, S256, mbedtls_sha256_context *, int) W3(mbedtls_sha256_update_ret, U256, mbedtls_sha256_context *, cu, size_t) W2(mbedtls_sha256_finish_ret, F256, mbedtls_sha256_context *, uu)
W2(mbedtls_sha512_starts_ret, S512, mbedtls_sha512_context *, int) W3(mbedtls_sha512_update_ret, U512, mbedtls_sha512_context *, cu, size_t) W2(mbedtls_sha512_finish_ret, F512, mbedtls_sha512_context *, uu)
W3(mbedtls_pk_parse_public_key, PUB, pk, cu, size_t) W2(mbedtls_pk_parse_public_keyfile, PUBF, pk, const char *) W3(mbedtls_pk_parse_keyfile, PRIF, pk, const char *, const char *)
W3(mbedtls_pk_write_pubkey_der, WPUB, pk, uu, size_t) W3(mbedtls_pk_write_key_der, WPRI, pk, uu, size_t)
int __real_mbedtls_pk_parse_key(pk, cu, size_t, cu, size_t); int __wrap_mbedtls_pk_parse_key(pk a, cu b, size_t c, cu d, size_t e) { if (HIT(PRI)) return -0x5A; return __real_mbedtls_pk_parse_key(a, b, c, d, e); }
int __real_mbedtls_pk_verify(pk, mbedtls_md_type_t, cu, size_t, cu, size_t); int __wrap_mbedtls_pk_verify(pk a, mbedtls_md_type_t m, cu b, size_t c, cu d, size_t e) { if (HIT(VER)) return -0x5A; return __real_mbedtls_pk_verify(a, m, b, c, d, e); }
typedef int (*rng_t)(void *, uu, size_t);
int __real_mbedtls_pk_sign(pk, mbedtls_md_type_t, cu, size_t, uu, size_t *, rng_t, void *); int __wrap_mbedtls_pk_sign(pk a, mbedtls_md_type_t m, cu b, size_t c, uu d, size_t *e, rng_t f, void *g) { if (HIT(SIG)) return -0x5A; return __real_mbedtls_pk_sign(a, m, b, c, d, e, f, g); }
int __real_mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *, rng_t, void *, cu, size_t); int __wrap_mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *a, rng_t b, void *c, cu d, size_t e) { if (HIT(SEED)) return -0x5A; return __real_mbedtls_ctr_drbg_seed(a, b, c, d, e); }
static int rnd(void *p, unsigned char *o, size_t n) { vt_bytes(o, n); return 0; }
static const int dl[4] = { 0, 32, 48, 64 };
static void hash_case(void)
{
    int kind = vt_chance(6) ? (int)vt_below(260) - 2 : 1 + vt_below(3); size_t n = vt_size(5000), cap = vt_chance(2) ? vt_below(80) : 64; if (vt_chance(5) && kind > 0 && kind < 4) cap = dl[kind] - vt_below(2);
    uint8_t *d = malloc(n ? n : 1), *out = malloc(cap ? cap : 1), want[64]; vt_bytes(d, n); struct bpak_hash_context *c = malloc(sizeof(*c)); memset(c, 0xA5, sizeof(*c));
    int known = kind >= 1 && kind <= 3; memset(&B, 0, sizeof(B)); B.on = 1; if (vt_chance(3)) B.fail = 1 + vt_below(6);
    vt_note("hash kind %d over %zu bytes into %zu, backend fault %d ", kind, n, cap, B.fail);
    int bad = 0, rc = bpak_hash_init(c, kind);
    if (!known) { CHECK(rc != 0, "unknown hash kind %d accepted", kind); goto out; }
    CHECK(rc == 0 || B.fired, "starting failed: %d", rc); CHECK(rc != 0 || !B.fired, "a failure to start the hash was hidden"); if (rc) goto fin;
    for (size_t i = 0; i < n && !bad;) { size_t k = vt_chance(3) ? vt_below(n - i + 1) : vt_size(n - i); if (k == 0 && vt_chance(2)) k = 1; uint8_t *x = vt_dup(d + i, k); int u = bpak_hash_update(c, x, k); free(x); i += k; if (B.fired) { CHECK(u != 0, "a failing update was hidden"); bad = 1; } else CHECK(u == 0, "update failed: %d", u); }
    if (bad) goto fin;
    size_t rl = 777; int nullrl = vt_chance(4); rc = bpak_hash_final(c, out, cap, nullrl ? NULL : &rl);
    if (cap < (size_t)dl[kind]) CHECK(rc != 0, "a digest of %d bytes was accepted for a buffer of %zu", dl[kind], cap);
    else if (B.fired) CHECK(rc != 0, "a failing finish was hidden");
    else { CHECK(rc == 0, "finish failed: %d", rc); CHECK(nullrl || rl == (size_t)dl[kind], "length %zu", rl); vt_hash(kind, d, n, want); CHECK(!memcmp(out, want, dl[kind]), "wrong digest of kind %d", kind); vt_nontrivial++; }
fin: bpak_hash_free(c);
out: free(d); free(out); free(c);
}
static const char *PRIV[] = { "secp256r1-key-pair.pem", "secp384r1-key-pair.pem", "secp521r1-key-pair.pem", "dev_rsa_private.pem" };
static const char *PUBD[] = { "secp256r1-pub-key.der", "secp384r1-pub-key.der", "secp521r1-pub-key.der", "dev_rsa_public.der" };
static const int PUBK[] = { BPAK_KEY_PUB_PRIME256v1, BPAK_KEY_PUB_SECP384r1, BPAK_KEY_PUB_SECP521r1, BPAK_KEY_PUB_RSA4096 }, PRIK[] = { BPAK_KEY_PRI_PRIME256v1, BPAK_KEY_PRI_SECP384r1, BPAK_KEY_PRI_SECP521r1, BPAK_KEY_PRI_RSA4096 };
static uint8_t *slurp(const char *n, size_t *len) { char p[400]; snprintf(p, sizeof(p), NATDIR "/keys/%s", n); return vt_get(p, len); }
static size_t ref_pub(int k, uint8_t *o) { size_t n, r; uint8_t *d = slurp(PUBD[k], &n); mbedtls_pk_context c; mbedtls_pk_init(&c); if (__real_mbedtls_pk_parse_public_key(&c, d, n)) abort(); uint8_t t[1024]; int l = __real_mbedtls_pk_write_pubkey_der(&c, t, sizeof(t)); r = l; memcpy(o, t + sizeof(t) - l, l); mbedtls_pk_free(&c); free(d); return r; }
static void sign_case(void)
{
    int k = vt_chance(8) ? 3 : vt_below(3), kind = vt_chance(8) ? (int)vt_below(9) - 1 : 1 + vt_below(3), known = kind >= 1 && kind <= 3; char pri[400]; snprintf(pri, sizeof(pri), NATDIR "/keys/%s", PRIV[k]);
    struct bpak_key *a = NULL, *b = NULL; size_t pn; uint8_t *pd = slurp(PUBD[k], &pn), ref[1024]; size_t rn = ref_pub(k, ref);
    memset(&B, 0, sizeof(B)); B.on = 1; if (vt_chance(3)) B.fail = 1 + PUB + vt_below(NF - PUB); vt_note("key %s, hash kind %d, backend fault %d ", PRIV[k], kind, B.fail);
    int rc = bpak_crypto_load_private_key(pri, &a);
    if (B.fired) { CHECK(rc != 0, "a failure to load the private key was hidden"); goto out; }
    CHECK(rc == 0 && a, "private key refused: %d", rc); CHECK(a->kind == PRIK[k], "private key kind %d", a->kind);
    if (vt_chance(2)) { char pp[400]; snprintf(pp, sizeof(pp), NATDIR "/keys/%s", PUBD[k]); rc = bpak_crypto_load_public_key(pp, &b); }
    else { uint8_t *x = vt_dup(pd, pn); rc = bpak_crypto_parse_public_key(x, pn, &b); free(x); }
    if (B.fired) { CHECK(rc != 0, "a failure to load the public key was hidden"); b = NULL; goto out; }
    CHECK(rc == 0 && b, "public key refused: %d", rc); CHECK(b->kind == PUBK[k] && b->size == rn && !memcmp(b->data, ref, rn), "public key: kind %d size %u", b->kind, b->size);
    uint8_t h[64], sig[512]; vt_bytes(h, 64); memset(sig, 0xEE, sizeof(sig)); size_t hl = known ? dl[kind] : 32, sl = sizeof(sig); uint8_t *hh = vt_dup(h, hl);
    rc = bpak_crypto_sign(hh, hl, kind, a, sig, &sl);
    if (!known) { CHECK(rc != 0, "signing with unknown hash kind %d", kind); free(hh); goto out; }
    if (B.fired) { CHECK(rc != 0, "a failure to sign was hidden"); free(hh); goto out; }
    CHECK(rc == 0 && sl > 0 && sl <= 512, "signing failed: %d, %zu", rc, sl);
    int mut = vt_below(4); if (mut == 1) hh[vt_below(32)] ^= 1 << vt_below(8); if (mut == 2) sig[vt_chance(2) ? sl - 1 : vt_below(sl)] ^= 1 << vt_below(8);
    bool v = true; int k2 = kind; if (mut == 3 && k == 3) k2 = 1 + kind % 3; size_t hl2 = k2 == kind ? hl : hl; uint8_t *s2 = vt_dup(sig, sl);
    rc = bpak_crypto_verify(s2, sl, hh, hl2, k2, b, &v); free(s2);
    if (B.fired) CHECK(rc != 0 || !v, "a failing verification counted as verified");
    else { int good = mut == 0 || (mut == 3 && k2 == kind); CHECK(good ? rc == 0 && v : !v, "verification said %d/%d, change %d", rc, v, mut); vt_nontrivial++; }
    v = true; rc = bpak_crypto_verify(sig, sl, hh, hl, 0, b, &v); CHECK(rc != 0 && !v, "unknown hash kind verified");
    free(hh);
out: B.on = 0; bpak_free(a); bpak_free(b); free(pd);
}
static void parse_case(void)
{
    uint8_t der[1200]; size_t n; int k = vt_below(5); B.on = 0;
    if (k == 4) { /* a curve the format does not know */
        mbedtls_pk_context c; mbedtls_pk_init(&c); mbedtls_pk_setup(&c, mbedtls_pk_info_from_type(MBEDTLS_PK_ECKEY)); mbedtls_ecp_gen_key(vt_chance(2) ? MBEDTLS_ECP_DP_SECP224R1 : MBEDTLS_ECP_DP_SECP256K1, mbedtls_pk_ec(c), rnd, NULL);
        int isk1 = mbedtls_pk_get_bitlen(&c) == 256; int l = __real_mbedtls_pk_write_pubkey_der(&c, der, sizeof(der)); n = l; memmove(der, der + sizeof(der) - l, l); mbedtls_pk_free(&c);
        vt_note("public key on another curve "); struct bpak_key *b = NULL; int rc = bpak_crypto_parse_public_key(der, n, &b); if (!isk1) CHECK(rc != 0, "unsupported key accepted"); if (rc == 0) bpak_free(b); vt_nontrivial++; return;
    }
    n = ref_pub(k, der); size_t m = vt_chance(2) ? vt_below(n) : n; uint8_t *x = vt_dup(der, m); int mut = m == n && vt_chance(2); if (mut) x[vt_below(20)] ^= 1 << vt_below(8);
    vt_note("public key %d cut to %zu of %zu, mutated %d ", k, m, n, mut); struct bpak_key *b = NULL; int rc = bpak_crypto_parse_public_key(x, m, &b);
    if (m < n) CHECK(rc != 0, "a truncated key was accepted"); else if (!mut) CHECK(rc == 0 && b && b->size == n && !memcmp(b->data, der, n), "key refused: %d", rc);
    if (rc == 0) bpak_free(b); free(x); vt_nontrivial++;
}
void vt_case(void) { uint64_t r = vt_below(40); if (r < 36) hash_case(); else if (r < 39) sign_case(); else parse_case(); B.on = 0; }

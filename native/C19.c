#include "pkgref.h"
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include <bpak/key.h>
#include "hashwrap.h"
static struct { int load_rc, rc; size_t n; uint8_t sig[512]; int calls, args; uint8_t want[64]; int wl; int kind; void *key; int write; } S;
int __wrap_bpak_crypto_load_private_key(const char *f, struct bpak_key **o);
int __wrap_bpak_crypto_load_private_key(const char *f, struct bpak_key **o) { (void)f; if (S.load_rc) return S.load_rc; *o = S.key = calloc(1, 600); return 0; }
int __wrap_bpak_crypto_sign(const uint8_t *h, size_t hl, enum bpak_hash_kind k, struct bpak_key *key, uint8_t *s, size_t *sl);
int __wrap_bpak_crypto_sign(const uint8_t *h, size_t hl, enum bpak_hash_kind k, struct bpak_key *key, uint8_t *s, size_t *sl)
{
    S.calls++; S.args = (int)hl == S.wl && !memcmp(h, S.want, hl) && (int)k == S.kind && key == S.key && *sl == 512;
    if (S.rc) { if (S.write) memset(s, 0xab, 16); return S.rc; }
    memcpy(s, S.sig, S.n); *sl = S.n; return 0;
}
void vt_case(void)
{
    struct rp r; rp_make(&r, 4, 3000, 1); rp_seal(&r);
    vt_bytes(r.h.signature, 512); r.h.signature_sz = vt_chance(4) ? vt_u32() : vt_below(520); if (vt_chance(8)) r.h.signature_sz = 512; rp_sync(&r); rp_note(&r);
    struct bpak_header keep = r.h; int what = vt_below(3);
    if (what == 0) {
        size_t cap = vt_chance(2) ? 512 : vt_chance(2) ? r.h.signature_sz - 1 + vt_below(3) : vt_below(600), sz = cap; if (cap > 70000) cap = sz = 0;
        uint8_t *b = malloc(cap ? cap : 1), *e = cap ? b : b + 1; vt_bytes(b, cap); uint8_t *bk = vt_dup(b, cap);
        unsigned n = r.h.signature_sz; int want = n && n <= 512 && n <= cap; vt_note("take signature of %u bytes into %zu ", n, cap);
        int rc = bpak_copyz_signature(&r.h, e, &sz);
        CHECK((rc == 0) == want, "returned %d", rc);
        if (want) { CHECK(sz == n && !memcmp(e, keep.signature, n), "wrong signature bytes"); CHECK(!memcmp(e + n, bk + n, cap - n), "more than the signature was written"); memset(keep.signature, 0, 512); keep.signature_sz = 0; vt_nontrivial++; }
        else CHECK(sz == cap && !memcmp(bk, b, cap), "a refused request wrote something");
        CHECK(!memcmp(&keep, &r.h, 4096), "header after taking the signature");
        free(b); free(bk); rp_free(&r); return;
    }
    char *f = vt_path("p.bpak"); vt_put(f, r.d, r.len); struct bpak_package p; memset(&p, 0, sizeof(p)); p.fp = fopen(f, "r+b"); p.header = r.h;
    vt_io.on = 1; if (vt_chance(5)) { vt_io.fail_write = 1; vt_io.short_write = vt_chance(2); } else if (vt_chance(6)) vt_io.fail_seek = 1 + (what == 2 ? vt_below(3) : 0); else if (what == 2 && vt_chance(6)) vt_io.fail_read = 1 + vt_below(2);
    size_t g; int rc, want;
    if (what == 1) {
        size_t n = vt_chance(3) ? vt_below(700) : vt_chance(3) ? 511 + vt_below(3) : vt_below(513); if (vt_chance(20)) n = 65536 + vt_below(100);
        uint8_t *s = malloc(n + 1); vt_bytes(s, n); uint8_t *se = vt_dup(s, n); vt_note("store %zu bytes, faults w%d s%d ", n, vt_io.fail_write, vt_io.fail_seek);
        rc = bpak_pkg_write_raw_signature(&p, se, n); want = n <= 512 && !vt_io.fired;
        if (n > 512) CHECK(!memcmp(&keep, &p.header, 4096), "a refused signature changed the header");
        if (n <= 512) { memset(keep.signature, 0, 512); memcpy(keep.signature, s, n); keep.signature_sz = n; }
        free(s); free(se);
    } else {
        hw_reset(); hw.on = 1; if (vt_chance(6)) { if (vt_chance(2)) hw.fail_update = 1 + vt_below(300); else hw.fail_final = 1 + vt_below(2); }
        memset(&S, 0, sizeof(S)); S.load_rc = vt_chance(8) ? -BPAK_KEY_DECODE : 0; S.rc = vt_chance(5) ? -BPAK_SIGN_FAIL : 0; S.write = vt_chance(2); S.n = vt_chance(4) ? 512 : 1 + vt_below(512); vt_bytes(S.sig, 512); S.kind = keep.hash_kind;
        int stale = vt_chance(2); if (stale) { memset(p.header.payload_hash, 0x11, 64); }
        struct bpak_header z = p.header; ref_payload_hash(&r, z.payload_hash); memcpy(keep.payload_hash, z.payload_hash, 64);
        memset(z.signature, 0, 512); z.signature_sz = 0; S.wl = vt_hash(z.hash_kind, (uint8_t *)&z, 4096, S.want);
        vt_note("sign: load %d sign %d length %zu, hash faults %d %d, io w%d s%d r%d ", S.load_rc, S.rc, S.n, hw.fail_update, hw.fail_final, vt_io.fail_write, vt_io.fail_seek, vt_io.fail_read);
        rc = bpak_pkg_sign(&p, "key"); hw.on = 0; want = !S.load_rc && !S.rc && !hw.fired && !vt_io.fired;
        memset(keep.signature, 0, 512); memcpy(keep.signature, S.sig, S.n); keep.signature_sz = S.n;
        if (want) CHECK(S.calls == 1 && S.args, "the signature was not made over the header digest with the loaded key");
    }
    int iof = vt_io.fired; vt_io.on = 0; fclose(p.fp);
    CHECK((rc == 0) == want, "returned %d", rc);
    uint8_t *b = vt_get(f, &g); CHECK(g == r.len && !memcmp(b + 4096, r.d + 4096, g - 4096), "part data changed");
    if (want) { CHECK(!memcmp(&p.header, &keep, 4096), "the header in memory is not the old one with the new signature%s", what == 2 ? " and payload digest" : ""); CHECK(!memcmp(b, &keep, 4096), "the header in the file is not the old one with the new signature%s", what == 2 ? " and payload digest" : ""); vt_nontrivial++; }
    else if (!iof) CHECK(!memcmp(b, r.d, 4096), "a failed operation changed the file");
    free(b); rp_free(&r);
}

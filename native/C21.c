#include "pkgref.h"
#include <bpak/keystore.h>
#include <bpak/crypto.h>
static struct { int calls, fail; size_t n; uint8_t b[70000]; struct bpak_key *k; } P;
int __wrap_bpak_crypto_parse_public_key(const uint8_t *b, size_t n, struct bpak_key **out)
{
    P.calls++; P.n = n; memcpy(P.b, b, n < sizeof(P.b) ? n : sizeof(P.b));
    if (P.fail) return -BPAK_KEY_DECODE;
    P.k = calloc(1, sizeof(struct bpak_key) + 4); *out = P.k; return 0;
}
static int chk_rc, chk_n; static struct bpak_header *want_hdr;
static int chk(struct bpak_header *h, void *u) { CHECK(u == &chk_rc, "user pointer"); CHECK(!memcmp(h, want_hdr, 4096), "the header checked is not the one in the file"); chk_n++; return chk_rc; }
static void get_case(void)
{
    int n = vt_chance(4) ? vt_below(256) : vt_below(6); struct bpak_keystore *ks = malloc(sizeof(*ks) + n * sizeof(void *)); struct bpak_key *o = (void *)1;
    memset(ks, 0, sizeof(*ks)); ks->id = vt_u32(); ks->no_of_keys = n; ks->verified = !vt_chance(5);
    for (int i = 0; i < n; i++) { ks->keys[i] = calloc(1, sizeof(struct bpak_key)); ks->keys[i]->id = vt_chance(2) ? vt_u32() : vt_below(4); }
    uint32_t id = n && !vt_chance(3) ? ks->keys[vt_chance(2) ? n - 1 : vt_below(n)]->id : vt_chance(2) ? ks->id : vt_below(5); int has = 0; for (int i = 0; i < n; i++) has |= ks->keys[i]->id == id;
    vt_note("keystore of %d keys, verified %d, id %x present %d ", n, ks->verified, id, has);
    int rc = bpak_keystore_get(ks, id, &o);
    if (has && ks->verified) { CHECK(rc == 0 && o, "key not found: %d", rc); CHECK(o->id == id, "key %x instead of %x", o->id, id); int in = 0; for (int i = 0; i < n; i++) in |= ks->keys[i] == o; CHECK(in, "a key from elsewhere"); vt_nontrivial++; }
    else CHECK(rc != 0 && o == NULL, "rc %d, key %p given", rc, (void *)o);
    for (int i = 0; i < n; i++) free(ks->keys[i]); free(ks);
}
void vt_case(void)
{
    if (vt_chance(3)) { get_case(); return; }
    struct rp r; rp_make(&r, 8, vt_chance(3) ? 9000 : 700, vt_chance(2));
    int mk = 0; unsigned at = 0; uint32_t kid = vt_u32(), wrong = vt_chance(5); uint8_t junk[40]; vt_bytes(junk, 40);
    if (vt_chance(2)) rp_meta(&r, &mk, &at, 0xfb2f1f3f, 0, junk, 16);
    int has = !vt_chance(8); uint32_t ref = has && vt_chance(10) ? 1 + vt_below(9) : 0;
    if (vt_chance(4)) rp_meta(&r, &mk, &at, 0xfb367d9a, 0x99, junk, 4);
    if (has) rp_meta(&r, &mk, &at, 0xfb367d9a, ref, &kid, 4);
    int sz = r.n && vt_chance(3); int k = r.n && !vt_chance(8) ? (int)vt_below(r.n) : -1;
    if (k >= 0 && vt_chance(2)) { /* sizes around the internal buffer */
        uint64_t old = ref_stored(&r.h.parts[k]); r.h.parts[k].flags &= ~2; r.h.parts[k].size = vt_chance(3) ? 1024 : 1000 + vt_below(60); r.h.parts[k].pad_bytes = -r.h.parts[k].size & 511; (void)old; (void)sz;
        free(r.d); rp_offsets(&r); r.len = r.off[r.n]; r.d = malloc(r.len); vt_bytes(r.d, r.len);
    }
    rp_seal(&r); rp_note(&r);
    uint32_t id = k >= 0 ? r.h.parts[k].id : 0x4242; size_t n = k >= 0 ? ref_nopad(&r.h.parts[k]) : 0;
    size_t len = r.len; if (vt_chance(8)) len = vt_below(r.len + 1);
    char *f = vt_path("ks.bpak"); vt_put(f, r.d, len); want_hdr = &r.h;
    int cb = vt_below(3); chk_rc = cb == 2 ? -BPAK_FAILED : 0; chk_n = 0; memset(&P, 0, sizeof(P)); P.fail = vt_chance(8);
    memset(&vt_io, 0, sizeof(vt_io)); vt_io_reset(); vt_io.on = 1; if (vt_chance(4)) switch (vt_below(3)) { case 0: vt_io.fail_read = 1 + vt_below(2); vt_io.short_read = vt_chance(2); break; case 1: vt_io.fail_seek = 1 + vt_below(2); break; default: vt_io.fail_open = 1; }
    vt_note("key part %d of %zu bytes, provider %d/%u, header check %d, parse fails %d, file cut to %zu, faults r%d s%d o%d ", k, n, has, ref, cb, P.fail, len, vt_io.fail_read, vt_io.fail_seek, vt_io.fail_open);
    struct bpak_key *out = NULL; int rc = bpak_keystore_load_key_from_file(f, kid ^ wrong, id, cb ? chk : NULL, &chk_rc, &out); vt_io.on = 0;
    int good = k >= 0 && has && !ref && !wrong && cb != 2 && !P.fail && n <= 1024 && !vt_io.fired && len >= 4096 && (n == 0 || r.off[k] + n <= len);
    if (vt_io.fired) CHECK(rc != 0, "an I/O failure was hidden");
    CHECK((rc == 0) == good, "loading returned %d, expected %s", rc, good ? "success" : "an error");
    if (rc == 0) { CHECK(out && out == P.k && out->id == id, "key object"); CHECK(P.calls == 1 && P.n == n && !memcmp(P.b, r.d + r.off[k], n), "the key is made from %zu bytes that are not the part's %zu bytes", P.n, n); CHECK(!cb || chk_n == 1, "header check calls %d", chk_n); vt_nontrivial++; }
    free(P.k); rp_free(&r);
}

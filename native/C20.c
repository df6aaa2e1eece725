#include "hdr.h"
#include <bpak/utils.h>
#include <bpak/id.h>
#include <inttypes.h>
static const uint32_t *ids(void)
{
    static uint32_t v[10];
    if (!v[0]) { const char *n[] = { "bpak-key-id", "bpak-key-store", "bpak-package", "bpak-transport", "merkle-salt", "merkle-root-hash", "pb-load-addr", "bpak-version", "keystore-provider-id" };
        for (int i = 0; i < 9; i++) v[i] = vt_id(n[i]); v[9] = 0x1234567; }
    return v;
}
void vt_case(void)
{
    if (vt_chance(2)) {
        size_t n = vt_size(200), sz = vt_chance(2) ? 2 * n + vt_below(4) - (n ? 1 : 0) : vt_size(500);
        uint8_t *d = malloc(n ? n : 1); vt_bytes(d, n);
        uint8_t *dd = vt_dup(d, n);
        char *b = malloc(sz ? sz : 1), *e = sz ? b : b + 1;   /* size 0: any write is out of bounds */
        char want[600]; for (size_t i = 0; i < n; i++) sprintf(want + 2 * i, "%02x", d[i]);
        want[2 * n] = 0;
        vt_note("bin2hex of %zu bytes into %zu", n, sz);
        int rc = bpak_bin2hex(dd, n, e, sz);
        CHECK((rc == 0) == (sz >= 2 * n + 1), "bpak_bin2hex of %zu bytes into %zu returned %d", n, sz, rc);
        if (!rc) { CHECK(!memcmp(e, want, 2 * n + 1), "bpak_bin2hex of %zu bytes: wrong text", n); vt_nontrivial++; }
        CHECK(!memcmp(d, dd, n), "data changed");
        free(d); free(dd); free(b);
        uint8_t u[16]; vt_bytes(u, 16); uint8_t *uu = vt_dup(u, 16);
        sz = vt_chance(2) ? 30 + vt_below(12) : vt_size(100);
        b = malloc(sz ? sz : 1); e = sz ? b : b + 1;
        rc = bpak_uuid_to_string(uu, e, sz);
        CHECK((rc == 0) == (sz >= 37), "uuid into %zu: %d", sz, rc);
        if (!rc) {
            int k = 0; for (int i = 0; i < 16; i++) { k += sprintf(want + k, "%02x", u[i]); if (i == 3 || i == 5 || i == 7 || i == 9) want[k++] = '-'; }
            want[k] = 0; CHECK(!strcmp(want, e), "uuid text %s expected %s", e, want); vt_nontrivial++;
        }
        free(b); free(uu);
        return;
    }
    /* a metadata entry placed at the very end of the object it must be read from */
    const uint32_t *v = ids(); unsigned t = vt_below(10);
    size_t msz = vt_chance(3) ? vt_size(64) : (size_t[]){ 4, 4, 16, 8, 32, 32, 8, 12, 4, 9 }[t] - vt_chance(4) + vt_chance(4);
    struct bpak_header *h = malloc(sizeof(*h)); vt_bytes(h, sizeof(*h));
    size_t off = vt_chance(2) ? 1920 - msz : vt_below(1920 - msz + 1);
    struct bpak_meta_header *m = &h->meta[vt_below(32)];
    m->id = v[t]; m->size = msz; m->offset = off;
    if (t == 7) for (size_t i = 0; i < msz; i++) h->metadata[off + i] = vt_chance(20) ? 0 : 'a' + vt_below(26);
    size_t sz = vt_chance(3) ? vt_size(200) : vt_below(80);
    char *b = malloc(sz ? sz : 1), *e = sz ? b : b + 1;
    vt_bytes(b, sz);
    struct bpak_header *o = vt_dup(h, sizeof(*h));
    vt_note("meta kind %u size %zu offset %zu into %zu", t, msz, off, sz);
    int rc = bpak_meta_to_string(h, m, e, sz);
    CHECK(!memcmp(o, h, sizeof(*h)), "header changed");
    static const size_t need[] = { 4, 4, 16, 8, 32, 32, 8, 0, 4, 0 };
    if (msz < need[t]) CHECK(rc != 0, "an entry of kind %u with %zu bytes was converted", t, msz);
    if (rc == 0 && sz) {
        CHECK(memchr(e, 0, sz), "text of kind %u in %zu bytes is not terminated", t, sz);
        char w[256] = ""; const uint8_t *d = &o->metadata[off];
        uint32_t a, c; memcpy(&a, d, 4); memcpy(&c, d + 4, 4); uint64_t q; memcpy(&q, d, 8);
        if (t == 0 || t == 1) sprintf(w, "%" PRIx32, a);
        else if (t == 8) sprintf(w, "0x%" PRIx32, a);
        else if (t == 3) sprintf(w, "Encode: %8.8" PRIx32 ", Decode: %8.8" PRIx32, a, c);
        else if (t == 6) sprintf(w, "Entry: 0x%08" PRIX64, q);
        else if (t == 4 || t == 5) for (int i = 0; i < 32; i++) sprintf(w + 2 * i, "%02x", d[i]);
        else if (t == 7) { size_t k = 0; while (k < msz && d[k]) { w[k] = d[k]; k++; } w[k] = 0; }
        if (t != 2 && strlen(w) < sz) { CHECK(!strcmp(w, e), "text of kind %u is %s, expected %s", t, e, w); vt_nontrivial++; }
    }
    free(o); free(b); free(h);
}

#include "pkgref.h"
#include <bpak/pkg.h>
void vt_case(void)
{
    struct rp r; rp_make(&r, 6, vt_chance(4) ? 50000 : 9000, 1); rp_note(&r);
    char *f = vt_path("p.bpak"), *out = vt_path("out"); 
    int cut = vt_chance(6) && r.n; size_t len = r.len;
    if (cut) { len = 4096 + vt_below(r.len - 4096 + 1); vt_note("file cut to %zu ", len); }
    vt_put(f, r.d, len); unlink(out);
    struct bpak_package p; memset(&p, 0, sizeof(p)); p.fp = fopen(f, "r+b"); p.header = r.h; struct bpak_header o = r.h;
    int k = r.n && !vt_chance(10) ? (int)vt_below(r.n) : -1;
    uint32_t id = k >= 0 ? r.h.parts[k].id : vt_chance(3) ? 0 : 0x777;
    size_t n = k >= 0 ? ref_nopad(&r.h.parts[k]) : 0; int fits = k >= 0 && r.off[k] + n <= len;
    int sha = vt_chance(2), full = !sha && vt_chance(10); uint8_t h[80], w[32]; size_t hb = vt_chance(5) ? vt_below(40) : 32 + vt_below(10);
    uint8_t *hbuf = malloc(hb ? hb : 1), *he = hb ? hbuf : hbuf + 1; (void)h;
    vt_io.on = 1;
    switch (vt_below(6)) { case 0: vt_io.fail_read = 1 + vt_below(3); vt_io.short_read = vt_chance(2); break; case 1: if (!sha) { vt_io.fail_write = 1 + vt_below(3); vt_io.short_write = vt_chance(2); } break; case 2: vt_io.fail_seek = 1; break; default: break; }
    vt_note("%s part %d, faults r%d w%d s%d ", sha ? "sha256 of" : "extract", k, vt_io.fail_read, vt_io.fail_write, vt_io.fail_seek);
    int rc = sha ? bpak_pkg_part_sha256(&p, he, hb, id) : bpak_pkg_extract_file(&p, id, full ? "/dev/full" : out);
    vt_io.on = 0;
    CHECK(!memcmp(&o, &p.header, 4096), "the header was changed");
    if (k < 0) CHECK(rc != 0, "a part that does not exist was delivered");
    else if (vt_io.fired || (!fits && n)) CHECK(rc != 0, "a failed or short read or write was reported as success");
    else if (full && n) CHECK(rc != 0, "a full output device was reported as success");
    else if (sha && hb < 32) CHECK(rc != 0, "a digest fitted %zu bytes", hb);
    else if (!full) {
        CHECK(rc == 0, "part %d (%zu bytes): %d", k, n, rc);
        if (sha) { vt_sha256(r.d + r.off[k], n, w); CHECK(!memcmp(he, w, 32), "the digest is not that of the %zu bytes of part %d", n, k); }
        else { size_t g; uint8_t *b = vt_get(out, &g); CHECK(g == n && !memcmp(b, r.d + r.off[k], n), "extracted %zu bytes that are not the %zu bytes of part %d", g, n, k); free(b); }
        if (n) vt_nontrivial++;
    }
    size_t g; fclose(p.fp); uint8_t *b = vt_get(f, &g); CHECK(g == len && !memcmp(b, r.d, len), "the package file was changed"); free(b);
    free(hbuf); rp_free(&r);
}

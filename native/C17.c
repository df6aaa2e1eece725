#include "pkgref.h"
#include <bpak/pkg.h>
void vt_case(void)
{
    struct rp r; rp_make(&r, vt_chance(8) ? 32 : 6, vt_chance(4) ? 50000 : 9000, 1);
    /* metadata for some parts */
    int mk = 0; unsigned at = 0; uint8_t md[64]; vt_bytes(md, 64);
    for (int i = 0; i < r.n; i++) if (vt_chance(3)) rp_meta(&r, &mk, &at, 0x500 + i, r.h.parts[i].id, md, 1 + vt_below(60));
    if (vt_chance(2)) rp_meta(&r, &mk, &at, 0x400, 0, md, 16);
    rp_seal(&r); rp_note(&r);
    size_t extra = vt_chance(5) ? vt_below(6000) : 0, len = r.len; int cut = 0;
    if (!extra && vt_chance(6) && r.n) { cut = 1; len = 4096 + vt_below(r.len - 4096 + 1); }
    if (extra) { r.d = realloc(r.d, r.len + extra); vt_bytes(r.d + r.len, extra); len += extra; }
    vt_note("file has %zu bytes ", len);
    char *f = vt_path("p.bpak"); vt_put(f, r.d, len);
    struct bpak_package p; memset(&p, 0, sizeof(p)); p.fp = fopen(f, "r+b"); p.header = r.h;
    int all = vt_chance(12), k = r.n && !vt_chance(12) ? (int)vt_below(r.n) : -1, rm = vt_chance(2);
    uint32_t id = k >= 0 ? r.h.parts[k].id : vt_chance(3) ? 0 : 0x777;
    vt_io.on = 1;
    switch (vt_below(7)) { case 0: vt_io.fail_read = 1 + vt_below(6); vt_io.short_read = vt_chance(2); break; case 1: vt_io.fail_write = 1 + vt_below(6); vt_io.short_write = vt_chance(2); break;
      case 2: vt_io.fail_seek = 1 + vt_below(6); break; case 3: if (vt_chance(3)) vt_io.fail_trunc = 1; break; default: break; }
    vt_note("delete %s %d (remove meta %d), faults r%d w%d s%d t%d ", all ? "all, not" : "part", k, rm, vt_io.fail_read, vt_io.fail_write, vt_io.fail_seek, vt_io.fail_trunc);
    int rc = all ? bpak_pkg_delete_all_parts(&p, rm) : bpak_pkg_delete_part(&p, id, rm);
    vt_io.on = 0; fclose(p.fp);
    size_t g; uint8_t *b = vt_get(f, &g);
    if (!all && k < 0) { CHECK(rc != 0, "a part that does not exist was deleted"); CHECK(g == len && !memcmp(b, r.d, len) && !memcmp(&p.header, &r.h, 4096), "a refused delete changed the package"); }
    else if (vt_io.fired) CHECK(rc != 0, "a failed read, write, seek or truncation was reported as success");
    else if (cut && len < r.len && !all && rc != 0) ;      /* reported */
    else if (!cut || len == r.len || all) {
        CHECK(rc == 0, "deleting part %d failed: %d", k, rc);
        struct rp w = r; w.d = malloc(r.len); struct bpak_header *h = &w.h;
        if (all) memset(h->parts, 0, sizeof(h->parts));
        else { uint64_t st = ref_stored(&r.h.parts[k]); memmove(&h->parts[k], &h->parts[k + 1], (31 - k) * 32); memset(&h->parts[31], 0, 32); for (int i = k; i < 32 && h->parts[i].id; i++) h->parts[i].offset -= st; }
        rp_offsets(&w); size_t o = 4096;
        for (int i = 0; i < w.n; i++) { int s = i < k ? i : i + 1; size_t z = r.off[s + 1] - r.off[s]; memcpy(w.d + o, r.d + r.off[s], z); o += z; }
        w.len = o;
        CHECK(g == o, "the file has %zu bytes, expected the header and the remaining parts: %zu", g, o);
        for (int i = 0; i < w.n; i++) CHECK(!memcmp(b + w.off[i], w.d + w.off[i], w.off[i + 1] - w.off[i]), "data of part %d (of %d remaining) changed", i, w.n);
        struct bpak_header gh; memcpy(&gh, b, 4096);
        CHECK(!memcmp(&gh, &p.header, 4096), "the header in the file differs from the one in memory");
        memset(h->payload_hash, 0, 64); memcpy(w.d, h, 4096); ref_payload_hash(&w, h->payload_hash);
        CHECK(!memcmp(gh.parts, h->parts, sizeof(gh.parts)), "the part table is wrong");
        CHECK(!memcmp(gh.payload_hash, h->payload_hash, r.h.hash_kind == 1 ? 32 : r.h.hash_kind == 2 ? 48 : 64), "the payload digest is not that of the remaining parts");
        /* metadata: only entries of the deleted part go, and only when asked */
        int e = 0;
        for (int i = 0; i < mk; i++) {
            uint32_t ref = r.h.meta[i].part_id_ref;
            if (rm && (all ? ref != 0 : ref == id)) continue;
            CHECK(gh.meta[e].id == r.h.meta[i].id && gh.meta[e].part_id_ref == ref && gh.meta[e].size == r.h.meta[i].size &&
                  !memcmp(gh.metadata + gh.meta[e].offset, r.h.metadata + r.h.meta[i].offset, gh.meta[e].size), "metadata entry %d was lost or changed", i);
            e++;
        }
        CHECK(e == 32 || gh.meta[e].id == 0, "metadata of the deleted part is still there");
        if (w.n) vt_nontrivial++;
        free(w.d);
    }
    free(b); rp_free(&r);
}

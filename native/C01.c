#include "hdr.h"
#include <bpak/pkg.h>
static uint32_t pick_id(void) { return vt_chance(3) ? vt_u32() : vt_chance(2) ? 0 : 1 + vt_below(5); }
static void make(struct bpak_header *h)
{
    vt_bytes(h, sizeof(*h));
    h->magic = vt_chance(20) ? vt_u32() : vt_chance(30) ? 0x42504132 ^ (1u << vt_below(32)) : 0x42504132;
    h->hash_kind = vt_chance(15) ? 0 : vt_u32();
    int bad = vt_below(4);
    for (int i = 0; i < 32; i++) {
        h->parts[i].id = pick_id();
        h->parts[i].size = vt_chance(4) ? vt_u64() : vt_below(1 << 20);
        h->parts[i].pad_bytes = (512 - h->parts[i].size % 512) % 512 + (vt_chance(3) ? 512 * vt_below(100) : 0);
        h->meta[i].id = pick_id();
        h->meta[i].size = vt_below(1921);
        h->meta[i].offset = vt_chance(2) ? 1920 - h->meta[i].size : vt_below(1921 - h->meta[i].size);
    }
    if (bad == 1) { /* exactly one bad part */
        int i = vt_below(32); h->parts[i].id = vt_chance(2) ? 1 : vt_u32();
        if (vt_chance(2)) h->parts[i].pad_bytes += vt_range(1, 511); else h->parts[i].size += vt_chance(2) ? 1u << vt_below(9) : vt_range(1, 511);
    } else if (bad == 2) { /* exactly one bad metadata entry */
        int i = vt_below(32); h->meta[i].id = vt_chance(2) ? 1 : vt_u32();
        int k = vt_below(5);
        if (k == 0) { h->meta[i].size = vt_range(1, 1920); h->meta[i].offset = 1921 - h->meta[i].size; }
        else if (k == 1) { h->meta[i].size = vt_range(1921, 65535); h->meta[i].offset = vt_chance(2) ? 0 : vt_u32(); }
        else if (k == 2) { h->meta[i].offset = vt_range(1920, 65535); h->meta[i].size = vt_u32(); }
        else if (k == 3) { h->meta[i].offset = 65536 - vt_range(1, 2000); h->meta[i].size = 65536 - h->meta[i].offset; }
        else { h->meta[i].offset = vt_u32(); h->meta[i].size = vt_u32(); }
    }
}
void vt_case(void)
{
    struct bpak_header *h = malloc(sizeof(*h));
    make(h);
    struct bpak_header *o = vt_dup(h, sizeof(*h));
    int want = ref_valid(h);
    vt_note_hdr(h);
    int rc = bpak_valid_header(h);
    CHECK((rc == 0) == want, "bpak_valid_header returned %d for a %s header", rc, want ? "well formed" : "malformed");
    CHECK(!memcmp(h, o, sizeof(*h)), "bpak_valid_header changed the header");
    vt_nontrivial += want;
    if (vt_chance(8)) { /* opening a file */
        size_t len = vt_chance(4) ? vt_below(4096) : 4096 + vt_below(2000);
        uint8_t *f = calloc(1, len + 1);
        memcpy(f, h, len < 4096 ? len : 4096);
        char *p = vt_path("x.bpak"); vt_put(p, f, len);
        if (vt_chance(10)) { vt_io.on = 1; vt_io.fail_read = 1; vt_io.short_read = vt_chance(2); vt_note("read fault "); }
        struct bpak_package *pkg = malloc(sizeof(*pkg));
        const char *mode = vt_chance(2) ? "rb" : "rb+";
        vt_note("file of %zu bytes, mode %s ", len, mode);
        rc = bpak_pkg_open(pkg, p, mode);
        int fired = vt_io.fired; vt_io.on = 0;
        int fresh = (len == 0 || fired) && strchr(mode, '+');
        if (fresh) CHECK(rc != 0 || ref_valid(&pkg->header), "a package with a malformed header is handed out");
        else if (len < 4096 || !want || fired) CHECK(rc != 0, "bpak_pkg_open accepted %s", fired ? "an unreadable file" : len < 4096 ? "a short file" : "a malformed header");
        else {
            CHECK(rc == 0, "bpak_pkg_open refused a well formed package (%d)", rc);
            CHECK(!memcmp(bpak_pkg_header(pkg), o, 4096), "the opened package's header is not the file's header");
        }
        if (rc == 0) bpak_pkg_close(pkg);
        free(pkg);
        free(f);
    }
    free(h); free(o);
}

#include "pkgref.h"
#include <bpak/pkg.h>
#include <sys/stat.h>
/* the file may shrink or grow between stat and read */
static long grow; static const char *grow_name;
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *n, struct stat *s);
int __wrap_stat(const char *n, struct stat *s)
{
    int rc = __real_stat(n, s);
    if (!rc && grow_name && !strcmp(n, grow_name)) {
        vt_io.on = 0; long z = s->st_size + grow; if (z < 0) z = 0;
        if (truncate(n, z)) _exit(2);
        if (grow > 0) { FILE *f = fopen(n, "r+b"); fseek(f, s->st_size, SEEK_SET); for (long i = 0; i < grow; i++) fputc(0x5a, f); fclose(f); }
        grow_name = NULL; vt_io.on = 1;
    }
    return rc;
}
static const char *pubkey =
"-----BEGIN PUBLIC KEY-----\n" "MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEQ3VTRncfMTYXmXLMetKwkQ1Y05Mu\n" "mp5CNS1FEVYSZKrgrZiPiRGou9H2TyyopjMd0IIYpRWtcYLsaLKuwr+Ang==\n" "-----END PUBLIC KEY-----\n";
void vt_case(void)
{
    struct rp r; rp_make(&r, vt_chance(8) ? 32 : 5, vt_chance(4) ? 30000 : 6000, 1); rp_seal(&r); rp_note(&r);
    char *f = vt_path("p.bpak"), *in = vt_path("in"); vt_put(f, r.d, r.len);
    struct bpak_package p; memset(&p, 0, sizeof(p)); p.fp = fopen(f, "r+b"); p.header = r.h; struct bpak_header o = r.h;
    int mode = vt_below(8) == 0 ? 2 : vt_below(3) == 0 ? 1 : 0;      /* file, file with tree, key */
    size_t n = mode == 2 ? 91 : mode == 1 && !vt_chance(4) ? 4096 * vt_below(vt_chance(6) ? 300 : 6) : vt_size(vt_chance(4) ? 60000 : 9000);
    uint8_t *d = malloc(n + 1); vt_bytes(d, n);
    if (mode == 2) { vt_put(in, pubkey, strlen(pubkey)); } else vt_put(in, d, n);
    char name[24]; sprintf(name, "part-%u", (unsigned)vt_below(1000)); uint8_t flags = vt_chance(4) ? 1 : 0;
    uint32_t id = vt_id(name); int dup = r.n && vt_chance(8), miss = vt_chance(20);
    if (dup) { r.h.parts[vt_below(r.n)].id = id; p.header = o = r.h; }
    grow = 0; grow_name = NULL;
    if (mode == 0 && vt_chance(5)) { grow = vt_chance(2) ? (long)vt_below(9000) + 1 : -(long)(1 + vt_below(n)); grow_name = in; }
    vt_io.on = 1;
    switch (vt_below(8)) { case 0: vt_io.fail_read = 1 + vt_below(4); vt_io.short_read = vt_chance(2); break; case 1: vt_io.fail_write = 1 + vt_below(4); vt_io.short_write = vt_chance(2); break;
      case 2: vt_io.fail_seek = 1 + vt_below(4); break; default: break; }
    vt_note("add %s of %zu bytes (%+ld) as %s flags %u%s%s, faults r%d w%d s%d ", mode == 2 ? "key" : mode ? "file with tree" : "file", n, grow, name, flags, dup ? " (exists)" : "", miss ? " (missing)" : "", vt_io.fail_read, vt_io.fail_write, vt_io.fail_seek);
    const char *src = miss ? "/nonexistent/x" : in; long gr = grow;
    int rc = mode == 2 ? bpak_pkg_add_key(&p, src, name, flags) : mode ? bpak_pkg_add_file_with_merkle_tree(&p, src, name, flags) : bpak_pkg_add_file(&p, src, name, flags);
    int fired = vt_io.fired; vt_io.on = 0; grow_name = NULL; fclose(p.fp);
    size_t g; uint8_t *b = vt_get(f, &g);
    uint64_t lv[8]; int nl; int np = mode == 1 ? 2 : 1;
    int bad = miss || dup || r.n + np > 32 || fired || (mode == 0 && gr < 0 && n) || (mode == 1 && !ref_tree_size(n, lv, &nl));
    CHECK(g >= r.len && !memcmp(b + 4096, r.d + 4096, r.len - 4096), "data of the parts already present was changed");
    if (bad) CHECK(rc != 0, "an impossible or failing add was reported as success");
    else {
        CHECK(rc == 0, "add returned %d", rc);
        struct bpak_header gh; memcpy(&gh, b, 4096);
        CHECK(!memcmp(&gh, &p.header, 4096), "the header in the file differs from the one in memory");
        CHECK(!memcmp(gh.parts, o.parts, r.n * 32), "the entries of the parts already present changed");
        struct bpak_part_header *e = &gh.parts[r.n];
        CHECK(e->id == id && e->size == n && e->pad_bytes == (-n & 511) && e->flags == flags, "new entry id %x size %llu pad %u flags %u", e->id, (unsigned long long)e->size, e->pad_bytes, e->flags);
        uint64_t dec = 4096; for (int i = 0; i < r.n; i++) dec += o.parts[i].size + o.parts[i].pad_bytes;
        CHECK(e->offset == dec, "recorded offset %llu, expected %llu", (unsigned long long)e->offset, (unsigned long long)dec);
        CHECK(g >= r.len + n + e->pad_bytes, "file too short");
        if (mode != 2) CHECK(!memcmp(b + r.len, d, n), "the stored bytes are not the file's");
        else { /* DER of the key: the base64 text above ends in the same bytes */ CHECK(b[r.len] == 0x30 && b[r.len + 1] == 89 && b[r.len + 90] == 0x9e && b[r.len + 89] == 0x80, "the stored key is not the file's"); }
        for (unsigned i = 0; i < e->pad_bytes; i++) CHECK(b[r.len + n + i] == 0, "pad byte %u is not zero", i);
        size_t end = r.len + n + e->pad_bytes;
        if (mode == 1) {
            struct bpak_part_header *t = e + 1; char tn[64]; sprintf(tn, "%s-hash-tree", name);
            size_t ts = ref_tree_size(n, lv, &nl); uint8_t *tr = malloc(ts), root[32];
            CHECK(t->id == vt_id(tn) && t->size == ts && t->pad_bytes == 0, "hash tree entry");
            const uint8_t *salt = NULL, *rt = NULL;
            for (int i = 0; i < 32; i++) if (gh.meta[i].part_id_ref == id && gh.meta[i].size == 32) { if (gh.meta[i].id == vt_id("merkle-salt")) salt = gh.metadata + gh.meta[i].offset; if (gh.meta[i].id == vt_id("merkle-root-hash")) rt = gh.metadata + gh.meta[i].offset; }
            CHECK(salt && rt, "salt or root hash missing");
            ref_tree(d, n, salt, 32, tr, root);
            CHECK(g >= end + ts && !memcmp(b + end, tr, ts), "stored hash tree is wrong"); CHECK(!memcmp(rt, root, 32), "root hash is wrong");
            free(tr); end += ts;
            CHECK((r.n + 2 == 32 || gh.parts[r.n + 2].id == 0), "more than two parts were added");
        } else CHECK(r.n + 1 == 32 || gh.parts[r.n + 1].id == 0, "more than one part was added");
        CHECK(g == end, "file has %zu bytes, expected %zu", g, end);
        struct rp w; memset(&w, 0, sizeof(w)); w.h = gh; rp_offsets(&w); w.d = b; w.len = g; uint8_t ph[64]; int hk = ref_payload_hash(&w, ph);
        CHECK(!memcmp(ph, gh.payload_hash, hk), "payload digest is wrong");
        vt_nontrivial++;
    }
    free(b); free(d); rp_free(&r);
}

#include "pkgref.h"
#include <bpak/merkle.h>
#include <bpak/crypto.h>
#include "hashwrap.h"
static struct { uint8_t *t; size_t n; long base; int io, fail, how, writes; size_t filled; int zf; } T;
static int fault(size_t n, ssize_t *r)
{
    if (++T.io != T.fail) return 0;
    *r = T.how == 0 ? -BPAK_WRITE_ERROR : T.how == 1 ? (ssize_t)n - 1 : -1; return 1;
}
static ssize_t wr(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r; CHECK(u == &T, "user pointer");
    o -= T.base; if (o < 0 || (size_t)o > T.n || n > T.n - o) vt_fail("write of %zu bytes at tree offset %lld, the tree has %zu", n, (long long)o, T.n);
    if (fault(n, &r)) return r;
    memcpy(T.t + o, b, n); T.writes++; return n;
}
static ssize_t rd(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r; CHECK(u == &T, "user pointer");
    o -= T.base; if (o < 0 || (size_t)o > T.n || n > T.n - o) vt_fail("read of %zu bytes at tree offset %lld, the tree has %zu", n, (long long)o, T.n);
    if (fault(n, &r)) return r;
    memcpy(b, T.t + o, n); return n;
}
void vt_case(void)
{
    struct bpak_merkle_context c; uint64_t lv[8]; int nl = 0; uint8_t salt[40]; vt_bytes(salt, 40);
    if (vt_chance(2)) {
        uint64_t n = vt_chance(2) ? vt_u64() >> vt_below(64) : (vt_below(1u << 30) << vt_below(20)); if (!vt_chance(4)) n &= ~4095ull;
        if (vt_chance(4)) { uint64_t e[] = { 128, 129, 16384, 16385, 2097152, 2097153, 268435456, 268435457, 1, 2, 127 }; n = e[vt_below(11)] * 4096; }
        size_t w = ref_tree_size(n, lv, &nl); vt_note("data of %llu bytes ", (unsigned long long)n);
        size_t sl = vt_chance(8) ? vt_below(41) : 32;
        ssize_t g = bpak_merkle_compute_size(n); int rc = bpak_merkle_init(&c, n, salt, sl, wr, rd, 777, false, &T);
        CHECK(w ? g == (ssize_t)w : g < 0, "tree size %zd, expected %zu", g, w);
        CHECK((rc == 0) == (w && sl <= 32), "init returned %d", rc);
        if (rc == 0) {
            CHECK(bpak_merkle_get_size(&c) == w && (int)c.no_of_levels == nl, "initialised size %zu, %u levels", bpak_merkle_get_size(&c), c.no_of_levels);
            size_t at = w; for (int i = 0; i < nl; i++) { at -= lv[i]; CHECK(c.level_length[i] == lv[i] && (size_t)c.level_offset[i] == at, "level %d at %lld+%zu, expected %zu+%llu", i, (long long)c.level_offset[i], c.level_length[i], at, (unsigned long long)lv[i]); }
            vt_nontrivial++;
        }
        return;
    }
    size_t n = 4096 * (1 + vt_below(vt_chance(20) ? 600 : vt_chance(3) ? 140 : 5)); size_t w = ref_tree_size(n, lv, &nl), sl = vt_chance(3) ? vt_below(33) : 32;
    uint8_t *d = malloc(n), *tree = malloc(w), root[32], got[32]; vt_bytes(d, n); if (vt_chance(3)) memset(d, 7, n);
    ref_tree(d, n, salt, sl, tree, root);
    memset(&T, 0, sizeof(T)); T.t = malloc(w); T.n = w; T.base = vt_chance(2) ? 0 : vt_below(100000); int zf = vt_chance(2); memset(T.t, zf ? 0xee : 0, w);
    if (vt_chance(3)) { T.fail = 1 + vt_below(vt_chance(2) ? 8 : w / 32 + 140); T.how = vt_below(3); }
    hw_reset(); hw.on = 1; if (vt_chance(4)) { unsigned m = vt_chance(2) ? 10 : 400; switch (vt_below(3)) { case 0: hw.fail_update = 1 + vt_below(m); break; case 1: hw.fail_final = 1 + vt_below(4); break; default: hw.fail_init = 1 + vt_below(4); } }
    vt_note("tree over %zu bytes, salt %zu, base %ld, zero fill %d, io fault %d/%d hash faults %d %d %d ", n, sl, T.base, zf, T.fail, T.how, hw.fail_init, hw.fail_update, hw.fail_final);
    int rc = bpak_merkle_init(&c, n, salt, sl, wr, rd, T.base, zf, &T);
    if (!rc) {
        size_t k = 0; int style = vt_below(3);
        while (!rc && k < n) { size_t z = style == 0 ? 4096 : style == 1 ? 1 + vt_below(9000) : n; if (z > n - k) z = n - k; uint8_t *ch = vt_dup(d + k, z); rc = bpak_merkle_write_chunk(&c, ch, z); free(ch); k += z; }
        if (!rc) rc = bpak_merkle_finish(&c, got);
    }
    hw.on = 0;
    if (hw.fired || (T.fail && T.io >= T.fail)) CHECK(rc != 0, "a failed hash step or tree I/O was reported as success");
    else {
        CHECK(rc == 0, "building the tree failed with %d", rc);
        CHECK(!memcmp(T.t, tree, w), "the tree differs from the reference tree"); CHECK(!memcmp(got, root, 32), "the root differs from the reference root");
        vt_nontrivial++;
    }
    free(d); free(tree); free(T.t);
}

#include "pkgref.h"
#include <bpak/verify.h>
#include <bpak/merkle.h>
#include "hashwrap.h"
static struct { uint8_t *f; size_t len; long doff, toff; size_t dn, tn; int n, fail, how; size_t seen; } R;
static ssize_t rd(off_t o, uint8_t *b, size_t n, void *u)
{
    CHECK(u == &R, "user pointer");
    if (++R.n == R.fail) { if (R.how == 0) return -BPAK_READ_ERROR; if (R.how == 1) { if (o >= 0 && (size_t)o + n <= R.len) memcpy(b, R.f + o, n - 1); return n - 1; } return -1; }
    int in_d = o >= R.doff && (size_t)(o - R.doff) + n <= R.dn, in_t = o >= R.toff && (size_t)(o - R.toff) + n <= R.tn;
    CHECK(in_d || in_t, "read of %zu bytes at %lld: neither in the data (%ld+%zu) nor in the tree (%ld+%zu)", n, (long long)o, R.doff, R.dn, R.toff, R.tn);
    memcpy(b, R.f + o, n); return n;
}
void vt_case(void)
{
    size_t n = vt_chance(12) ? vt_size(20000) : 4096 * (1 + vt_below(vt_chance(20) ? 300 : vt_chance(3) ? 135 : 4)); uint64_t lv[8]; int nl = 0; size_t w = ref_tree_size(n, lv, &nl), tn = w ? w : 4096;
    uint8_t *d = malloc(n + 1), *tree = calloc(1, tn), root[32] = { 0 }, salt[32]; vt_bytes(d, n); vt_bytes(salt, 32);
    if (vt_chance(3)) for (size_t i = 4096; i < n; i++) d[i] = d[i - 4096];
    if (w) ref_tree(d, n, salt, 32, tree, root);
    /* mutate: a byte of the data, the tree, the root or the salt; a consistent change of a pad byte is covered by the reference */
    int mut = vt_below(6); size_t at = 0;
    if (mut == 0 && n) { at = vt_below(n); if (vt_chance(2)) at = n - 1 - vt_below(n < 64 ? n : 64); d[at] ^= 1 << vt_below(8); }
    else if (mut == 1) { at = vt_chance(2) && n > 4096 ? tn - 1 - vt_below(32) - (tn - 1 - (w ? (tn - lv[0]) + (n / 4096) * 32 - 1 : 0)) : vt_below(tn); if (at >= tn) at = 0; tree[at] ^= 1 << vt_below(8); }
    else if (mut == 2) { at = vt_chance(2) ? vt_below(32) : 31; root[at] ^= 1 << vt_below(8); }
    else if (mut == 3 && vt_chance(3)) { at = vt_below(32); salt[at] ^= 1 << vt_below(8); }
    int ok = ref_tree_ok(d, n, salt, tree, root);
    memset(&R, 0, sizeof(R)); R.dn = n; R.tn = tn; int tf = vt_chance(2); size_t gap = vt_below(600), lead = vt_below(5000);
    R.len = lead + n + gap + tn; R.f = malloc(R.len); vt_bytes(R.f, R.len); R.doff = lead + (tf ? tn + gap : 0); R.toff = lead + (tf ? 0 : n + gap);
    memcpy(R.f + R.doff, d, n); memcpy(R.f + R.toff, tree, tn); if (!w) R.tn = 0;
    if (vt_chance(4)) { R.fail = 1 + vt_below(vt_chance(2) ? 4 : n / 4096 + tn / 32 + 2); R.how = vt_below(3); }
    hw_reset(); hw.on = 1; if (vt_chance(6)) { if (vt_chance(2)) hw.fail_update = 1 + vt_below(200); else hw.fail_final = 1 + vt_below(4); }
    vt_note("data %zu at %ld, tree %zu at %ld, change %d at %zu, read fault %d/%d hash faults %d %d ", n, R.doff, tn, R.toff, mut, at, R.fail, R.how, hw.fail_update, hw.fail_final);
    int rc = bpak_verify_merkle_tree(rd, R.doff, n, R.toff, root, salt, &R); hw.on = 0;
    if (hw.fired || (R.fail && R.n >= R.fail)) CHECK(rc != 0, "a failed read or hash step was reported as success");
    else { CHECK((rc == 0) == ok, "verification returned %d, the tree does%s match", rc, ok ? "" : " not"); if (n > 4096) vt_nontrivial++; }
    free(d); free(tree); free(R.f);
}

#include "pkgref.h"
#include <bpak/verify.h>
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include "hashwrap.h"
static const size_t dl[4] = { 0, 32, 48, 64 };
static struct { const uint8_t *d; size_t len; long base; int n, fail, how; } R;
static ssize_t rd(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == &R, "the reader got a wrong user pointer");
    off -= R.base;
    if (++R.n == R.fail) { if (R.how == 0) return -BPAK_READ_ERROR; if (R.how == 1 && n) { if (off >= 0 && (size_t)off + n <= R.len) memcpy(b, R.d + off, n - 1); return n - 1; } return -1; }
    if (off < 0 || (size_t)off > R.len || n > R.len - off) vt_fail("read of %zu bytes at %lld, the payload has %zu", n, (long long)off, R.len);
    memcpy(b, R.d + off, n); return n;
}
void vt_case(void)
{
    struct rp r; rp_make(&r, vt_chance(3) ? 32 : 5, vt_chance(4) ? 60000 : 9000, 1); rp_note(&r);
    uint8_t want[64], out[64]; size_t cap = vt_chance(8) ? vt_below(65) : 64, sz = cap;
    /* unused slots are skipped wherever they are */
    struct bpak_header h = r.h;
    if (vt_chance(4) && r.n && r.n < 32) { int k = vt_below(r.n + 1); memmove(&h.parts[k + 1], &h.parts[k], (31 - k) * 32); memset(&h.parts[k], 0, 32); if (vt_chance(2)) h.parts[k].size = vt_u32(), h.parts[k].pad_bytes = 7; vt_note("hole at %d ", k); }
    struct bpak_header o = h;
    int k = ref_payload_hash(&r, want);
    memset(&R, 0, sizeof(R)); R.d = r.d + 4096; R.len = r.len - 4096; R.base = vt_chance(2) ? 4096 : vt_below(1u << 30);
    if (vt_chance(4)) { R.fail = 1 + vt_below(6); R.how = vt_below(3); }
    hw_reset(); hw.on = 1;
    if (vt_chance(5)) { if (vt_chance(3)) hw.fail_final = 1; else hw.fail_update = 1 + vt_below(5); }
    vt_note("base %ld, read fault %d/%d, hash faults %d %d ", R.base, R.fail, R.how, hw.fail_update, hw.fail_final);
    int rc = bpak_verify_compute_payload_hash(&h, rd, R.base, &R, out, &sz);
    hw.on = 0;
    CHECK(!memcmp(&h, &o, 4096), "the header was changed");
    if (hw.fired || (R.fail && R.n >= R.fail)) CHECK(rc != 0, "a failed read or hash step was reported as success");
    else if (cap < (size_t)k) CHECK(rc != 0, "a digest of %d bytes fitted %zu", k, cap);
    else {
        CHECK(rc == 0, "payload digest failed: %d", rc);
        CHECK(sz == (size_t)k && !memcmp(out, want, k), "the payload digest is not that of the hashed parts' bytes");
        if (r.n > 1) vt_nontrivial++;
    }
    CHECK(hw.frees == hw.inits, "hash context created %d times, released %d times", hw.inits, hw.frees);
    if (vt_chance(4)) {
        char *f = vt_path("p.bpak"); vt_put(f, r.d, r.len);
        struct bpak_package p; memset(&p, 0, sizeof(p)); p.fp = fopen(f, "r+b"); p.header = r.h; o = r.h; memset(o.payload_hash, 0, 64); memset(p.header.payload_hash, 0, 64);
        vt_io.on = 1; if (vt_chance(3)) { vt_io.fail_read = 1 + vt_below(5); vt_io.short_read = vt_chance(2); } else if (vt_chance(4)) vt_io.fail_seek = 1 + vt_below(5);
        uint8_t hh[64], hw_[64]; size_t hs = 64;
        rc = bpak_pkg_update_hash(&p, (char *)hh, &hs); vt_io.on = 0;
        if (vt_io.fired) CHECK(rc != 0, "bpak_pkg_update_hash hid a failed read");
        else {
            CHECK(rc == 0, "bpak_pkg_update_hash: %d", rc);
            memcpy(o.payload_hash, want, k);
            CHECK(!memcmp(&o, &p.header, 4096), "bpak_pkg_update_hash did not just set the payload digest");
            memset(o.signature, 0, 512); o.signature_sz = 0; int w = vt_hash(o.hash_kind, (uint8_t *)&o, 4096, hw_);
            CHECK(hs == (size_t)w && !memcmp(hh, hw_, w), "the header digest returned is wrong");
        }
        fclose(p.fp);
    }
    rp_free(&r);
}

#include "pkgref.h"
#include <bpak/verify.h>
#include <bpak/pkg.h>
#include <bpak/crypto.h>
#include "hashwrap.h"
static struct { int rc, verified, calls, args; const void *key; uint8_t want[64]; int wl; struct bpak_header *h; } V;
int __wrap_bpak_crypto_verify(const uint8_t *s, size_t sl, const uint8_t *h, size_t hl, enum bpak_hash_kind k, struct bpak_key *key, bool *v);
int __wrap_bpak_crypto_verify(const uint8_t *s, size_t sl, const uint8_t *h, size_t hl, enum bpak_hash_kind k, struct bpak_key *key, bool *v)
{
    V.calls++;
    V.args = sl == V.h->signature_sz && !memcmp(s, V.h->signature, sl > 512 ? 512 : sl) && (int)hl == V.wl && !memcmp(h, V.want, hl) && (int)k == V.h->hash_kind && key == V.key;
    if (V.rc == 0 || V.verified == 2) *v = V.verified != 0;
    return V.rc;
}
static struct { uint8_t *d; size_t len; long base; int n, fail; } R;
static ssize_t rd(off_t o, uint8_t *b, size_t n, void *u)
{
    (void)u; o -= R.base; if (++R.n == R.fail) return -BPAK_READ_ERROR;
    if (o < 0 || (size_t)o > R.len || n > R.len - o) return -BPAK_READ_ERROR;
    memcpy(b, R.d + o, n); return n;
}
static int find(struct bpak_header *h, uint32_t id, uint32_t ref) { for (int i = 0; i < 32; i++) if (h->meta[i].id == id && h->meta[i].part_id_ref == ref) return i; return -1; }
static int findp(struct bpak_header *h, uint32_t id) { for (int i = 0; i < 32; i++) if (h->parts[i].id == id) return i; return -1; }
static int payload_ok(struct rp *r)
{
    uint8_t ph[64]; int k = ref_payload_hash(r, ph); if (memcmp(ph, r->h.payload_hash, k)) return 0;
    for (int i = 0; i < r->n; i++) {
        int m = find(&r->h, vt_id("merkle-root-hash"), r->h.parts[i].id); if (m < 0) continue;
        int s = find(&r->h, vt_id("merkle-salt"), r->h.parts[i].id); if (s < 0) return 0;
        int t = findp(&r->h, vt_crc32(r->h.parts[i].id, (uint8_t *)"-hash-tree", 10)); if (t < 0) return 0;
        size_t n = ref_stored(&r->h.parts[i]); uint64_t lv[8]; int nl; size_t w = ref_tree_size(n, lv, &nl);
        if (!w || r->off[t] + (n == 4096 ? 32 : w) > r->len) return 0;
        if (!ref_tree_ok(r->d + r->off[i], n, r->h.metadata + r->h.meta[s].offset, r->d + r->off[t], r->h.metadata + r->h.meta[m].offset)) return 0;
    }
    return 1;
}
void vt_case(void)
{
    struct rp r; memset(&r, 0, sizeof(r)); r.h.magic = 0x42504132; r.h.hash_kind = 1 + vt_below(3); int n = 1 + vt_below(4), k = 0, mk = 0; unsigned at = 0; uint64_t o = 4096;
    r.d = malloc(4096); r.len = 4096; int order = vt_chance(3);
    for (int i = 0; i < n; i++) {
        struct bpak_part_header *p = &r.h.parts[k]; int tree = vt_chance(2), tr = !tree && vt_chance(6), ex = vt_chance(4);
        size_t sz = tree ? 4096 * (1 + vt_below(vt_chance(8) ? 140 : 3)) : vt_size(5000), pad = -sz & 511; if (tree && vt_chance(4)) { pad = 256; sz -= 256; }
        uint64_t lv[8]; int nl; size_t w = tree ? ref_tree_size(sz + pad, lv, &nl) : 0;
        uint32_t id = 0x2000 + i + (vt_u32() & 0xffff0000u), tid = vt_crc32(id, (uint8_t *)"-hash-tree", 10); size_t tot = sz + pad;
        uint8_t *d = calloc(1, tot + 1), *t = calloc(1, w + 1), salt[32], root[32]; vt_bytes(d, sz); vt_bytes(salt, 32); if (tree) ref_tree(d, tot, salt, 32, t, root);
        int tfirst = tree && order && vt_chance(2);
        for (int s = 0; s < (tree ? 2 : 1); s++) {
            int isd = (s == 0) != tfirst; p = &r.h.parts[k++]; p->offset = o; p->flags = ex ? 1 : 0;
            if (isd) { p->id = id; p->size = sz; p->pad_bytes = pad; if (tr) { p->flags |= 2; p->transport_size = tot / 2; } } else { p->id = tid; p->size = w; }
            size_t st = ref_stored(p); r.d = realloc(r.d, r.len + st + 1); memcpy(r.d + r.len, isd ? d : t, st); r.len += st; o += p->size + p->pad_bytes;
        }
        if (tree) { rp_meta(&r, &mk, &at, vt_id("merkle-salt"), id, salt, 32); rp_meta(&r, &mk, &at, vt_id("merkle-root-hash"), id, root, 32); }
        free(d); free(t);
    }
    uint8_t sg[512]; vt_bytes(sg, 512); r.h.signature_sz = vt_chance(8) ? vt_below(513) : 71; memcpy(r.h.signature, sg, r.h.signature_sz);
    rp_offsets(&r); rp_seal(&r);
    int mut = vt_below(9); size_t pos = 0;
    if (mut == 0 && r.len > 4096) { pos = 4096 + vt_below(r.len - 4096); r.d[pos] ^= 1 << vt_below(8); if (vt_chance(2)) { rp_seal(&r); } }
    else if (mut == 1) { pos = vt_below(64); r.h.payload_hash[pos] ^= 1; }
    else if (mut == 2 && mk) { pos = vt_below(mk); r.h.metadata[r.h.meta[pos].offset + vt_below(32)] ^= 1; }
    else if (mut == 3 && mk) { pos = vt_below(mk); r.h.meta[pos].id ^= 0x10; }
    else if (mut == 4) { pos = vt_below(r.n); r.h.parts[pos].id ^= 0x4000; }
    else if (mut == 5 && r.len > 4096) { pos = r.n - 1; if (r.h.parts[pos].size >= 4096 && !(r.h.parts[pos].flags & 3) && !r.h.parts[pos].pad_bytes) { r.h.parts[pos].size -= 512; rp_offsets(&r); r.len = r.off[r.n]; rp_seal(&r); } }
    rp_sync(&r); rp_note(&r);
    int ok = payload_ok(&r); struct bpak_header keep = r.h;
    memset(&R, 0, sizeof(R)); R.d = r.d + 4096; R.len = r.len - 4096; R.base = vt_chance(2) ? 4096 : vt_below(100000); if (vt_chance(5)) R.fail = 1 + vt_below(vt_chance(2) ? 6 : 200);
    hw_reset(); hw.on = 1; if (vt_chance(6)) hw.fail_update = 1 + vt_below(100);
    vt_note("change %d at %zu, base %ld, read fault %d hash fault %d ", mut, pos, R.base, R.fail, hw.fail_update);
    int rc = bpak_verify_payload(&r.h, rd, R.base, &R); int hf = hw.fired;
    CHECK(!memcmp(&keep, &r.h, 4096), "verification changed the header");
    if (hf || (R.fail && R.n >= R.fail)) CHECK(rc != 0, "payload verification hid a failing step");
    else { CHECK((rc == 0) == ok, "payload verification returned %d, the payload is%s intact", rc, ok ? "" : " not"); vt_nontrivial++; }
    /* the whole package */
    char *f = vt_path("p.bpak"); vt_put(f, r.d, r.len); struct bpak_package p; memset(&p, 0, sizeof(p)); p.fp = fopen(f, "rb"); p.header = r.h;
    struct bpak_header z = r.h; memset(z.signature, 0, 512); z.signature_sz = 0; memset(&V, 0, sizeof(V)); V.wl = vt_hash(z.hash_kind, (uint8_t *)&z, 4096, V.want); V.h = &p.header;
    struct bpak_key *key = calloc(1, sizeof(*key) + 8); V.key = key; V.rc = vt_chance(6) ? -BPAK_KEY_DECODE : 0; V.verified = vt_chance(5) ? 0 : 1; if (V.rc && vt_chance(2)) V.verified = 2;
    hw_reset(); hw.on = 1; if (vt_chance(8)) { if (vt_chance(2)) hw.fail_final = 1 + vt_below(2); else hw.fail_update = 1 + vt_below(520); }
    vt_io.on = 1; if (vt_chance(6)) { vt_io.fail_read = 1 + vt_below(8); vt_io.short_read = vt_chance(2); } else if (vt_chance(8)) vt_io.fail_seek = 1 + vt_below(4);
    vt_note("signature check: rc %d verified %d, hash faults %d %d io r%d s%d ", V.rc, V.verified, hw.fail_update, hw.fail_final, vt_io.fail_read, vt_io.fail_seek);
    rc = bpak_pkg_verify(&p, key); vt_io.on = 0; hw.on = 0;
    int good = V.rc == 0 && V.verified == 1 && ok;
    if (hw.fired || vt_io.fired) CHECK(rc != 0, "package verification hid a failing step");
    else CHECK((rc == 0) == good, "package verification returned %d; signature check %d/%d, payload %d", rc, V.rc, V.verified, ok);
    if (rc == 0) CHECK(V.calls >= 1 && V.args, "the signature was not checked over the header digest with the given key");
    CHECK(!memcmp(&keep, &p.header, 4096), "verification changed the header");
    fclose(p.fp); free(key); rp_free(&r);
}

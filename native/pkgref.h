/* random packages as plain bytes, built from the documented layout only */
#ifndef PKGREF_H
#define PKGREF_H
#include "hdr.h"
struct rp { struct bpak_header h; uint8_t *d; size_t len; int n; uint64_t off[33]; };
static inline uint64_t ref_stored(const struct bpak_part_header *p) { return (p->flags & 2) ? p->transport_size : p->size + p->pad_bytes; }
static inline uint64_t ref_nopad(const struct bpak_part_header *p) { return (p->flags & 2) ? p->transport_size : p->size; }
/* file offsets of the parts; a packed table is assumed */
static inline void rp_offsets(struct rp *r)
{
    uint64_t o = 4096; r->n = 0;
    for (int i = 0; i < 32 && r->h.parts[i].id; i++) { r->off[i] = o; o += ref_stored(&r->h.parts[i]); r->n++; }
    r->off[r->n] = o;
}
static inline size_t rp_size(unsigned max) { return vt_size(max); }
static inline void rp_meta(struct rp *r, int *k, unsigned *at, uint32_t id, uint32_t ref, const void *p, unsigned n)
{
    struct bpak_meta_header *m = &r->h.meta[*k];
    if (*k >= 32 || *at + n > 1920) return;
    m->id = id; m->part_id_ref = ref; m->size = n; m->offset = *at;
    memcpy(&r->h.metadata[*at], p, n);
    *at += (n + 7) & ~7u; (*k)++;
}
/* maxn parts of up to max bytes; transport: some parts carry the transport flag */
static inline void rp_make(struct rp *r, int maxn, unsigned max, int transport)
{
    memset(r, 0, sizeof(*r));
    r->h.magic = 0x42504132; r->h.hash_kind = 1 + vt_below(3); r->h.signature_kind = 1; r->h.alignment = 512;
    r->h.key_id = vt_u32(); r->h.keystore_id = vt_u32();
    int n = vt_below(maxn + 1); uint64_t o = 0;
    for (int i = 0; i < n; i++) {
        struct bpak_part_header *p = &r->h.parts[i];
        p->id = 0x1000 + 17 * i + (vt_u32() & ~0xffffu); p->size = rp_size(max); p->pad_bytes = -p->size & 511; p->offset = 4096 + o;
        o += p->size + p->pad_bytes;
        p->flags = vt_chance(5) ? 1 : 0;
        if (transport && vt_chance(3)) { p->flags |= 2; p->transport_size = vt_chance(6) ? p->size + vt_below(3000) : vt_below(p->size + 1); }
    }
    rp_offsets(r);
    r->len = r->off[r->n]; r->d = malloc(r->len); vt_bytes(r->d, r->len);
    for (int i = 0; i < n; i++) if (!(r->h.parts[i].flags & 2)) memset(r->d + r->off[i] + r->h.parts[i].size, 0, r->h.parts[i].pad_bytes);
    memcpy(r->d, &r->h, 4096);
}
static inline int ref_payload_hash(const struct rp *r, uint8_t *out)
{
    uint8_t *b = malloc(r->len + 1); size_t k = 0;
    for (int i = 0; i < r->n; i++) if (!(r->h.parts[i].flags & 1)) { size_t s = ref_stored(&r->h.parts[i]); memcpy(b + k, r->d + r->off[i], s); k += s; }
    int n = vt_hash(r->h.hash_kind, b, k, out); free(b); return n;
}
static inline void rp_sync(struct rp *r) { memcpy(r->d, &r->h, 4096); }
static inline void rp_seal(struct rp *r) { memset(r->h.payload_hash, 0, 64); ref_payload_hash(r, r->h.payload_hash); rp_sync(r); }
static inline void rp_note(const struct rp *r) { vt_note_hdr(&r->h); vt_note("file of %zu bytes ", r->len); }
static inline void rp_free(struct rp *r) { free(r->d); r->d = NULL; }
/* hash tree over blocks of 4096: level 0 last in the tree; -> tree size, 0 when there is no tree for n */
static inline size_t ref_tree_size(uint64_t n, uint64_t *lv, int *nl)
{
    if (n % 4096 || !n) return 0;
    size_t t = 0; int k = 0;
    do { n = (n / 4096 * 32 + 4095) / 4096 * 4096; if (k < 8) lv[k] = n; k++; t += n; } while (n != 4096);
    *nl = k; return k > 4 ? 0 : t;
}
static inline size_t ref_tree(const uint8_t *d, size_t n, const uint8_t *salt, size_t sl, uint8_t *tree, uint8_t root[32])
{
    uint64_t lv[8]; int nl = 0; size_t t = ref_tree_size(n, lv, &nl);
    if (!t) return 0;
    memset(tree, 0, t);
    uint8_t blk[4096 + 64]; memcpy(blk, salt, sl);
    const uint8_t *src = d; size_t sn = n, at = t;
    for (int l = 0; l < nl; l++) {
        at -= lv[l];
        for (size_t b = 0; b < sn / 4096; b++) { memcpy(blk + sl, src + b * 4096, 4096); vt_sha256(blk, sl + 4096, tree + at + b * 32); }
        src = tree + at; sn = lv[l];
    }
    if (n == 4096) memcpy(root, tree, 32);
    else { memcpy(blk + sl, tree, 4096); vt_sha256(blk, sl + 4096, root); }
    return t;
}
/* does a stored tree belong to the data: every digest of every level is that of its block, and the root that of the top */
static inline int ref_tree_ok(const uint8_t *d, size_t n, const uint8_t *salt, const uint8_t *tree, const uint8_t *root)
{
    uint64_t lv[8]; int nl = 0; size_t t = ref_tree_size(n, lv, &nl); uint8_t blk[32 + 4096], h[32];
    if (!t) return 0;
    memcpy(blk, salt, 32);
    if (n == 4096) { memcpy(blk + 32, d, 4096); vt_sha256(blk, 32 + 4096, h); return !memcmp(h, tree, 32) && !memcmp(h, root, 32); }
    const uint8_t *src = d; size_t sn = n, at = t;
    for (int l = 0; l < nl; l++) {
        at -= lv[l];
        for (size_t b = 0; b < sn / 4096; b++) { memcpy(blk + 32, src + b * 4096, 4096); vt_sha256(blk, 32 + 4096, h); if (memcmp(h, tree + at + b * 32, 32)) return 0; }
        src = tree + at; sn = lv[l];
    }
    memcpy(blk + 32, tree, 4096); vt_sha256(blk, 32 + 4096, h); return !memcmp(h, root, 32);
}
#endif

#include "pkgref.h"
#include <lzma.h>
#include <bpak/transport.h>
enum { COPY, PATCH, TREE, ODD };
struct pt { int kind; uint8_t *in; size_t nin; uint8_t *want; size_t nwant; uint64_t at, oat; size_t fit; };
static struct { uint8_t *out, *org; size_t nout, norg; int64_t wo, oo; int calls, fail, style, fired; struct bpak_header *h; void *me; struct pt *p; int heads; } E;
static void put(uint8_t *b, int64_t v) { uint64_t u = v < 0 ? -(uint64_t)v : (uint64_t)v; for (int i = 0; i < 8; i++) b[i] = u >> 8 * i; if (v < 0) b[7] |= 0x80; }
static ssize_t broken(size_t n) { E.fired = 1; switch (E.style) { case 0: return -BPAK_READ_ERROR; case 1: return n ? (ssize_t)n - 1 : -1; case 2: return n ? 0 : -5; default: return -1; } }
static ssize_t wr(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == E.me, "another user pointer is passed on"); CHECK(!E.fired, "a write after an error");
    if (++E.calls == E.fail) return broken(n);
    if (!n) return 0;
    int64_t p = off - E.wo; CHECK(E.p && p >= (int64_t)E.p->at && p + n <= E.p->at + E.p->nwant, "%zu bytes written to %ld: outside of the part at %ld", n, (long)p, E.p ? (long)E.p->at : -1l);
    memcpy(E.out + p, b, n); return n;
}
static ssize_t rdo(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == E.me, "another user pointer is passed on"); CHECK(!E.fired, "a read after an error");
    if (++E.calls == E.fail) return broken(n);
    int64_t p = off - E.wo; CHECK(p >= 0 && p + n <= E.nout, "output read at %ld", (long)p); memcpy(b, E.out + p, n); return n;
}
static ssize_t rd(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == E.me, "another user pointer is passed on"); CHECK(!E.fired, "a read after an error");
    if (++E.calls == E.fail) return broken(n);
    if (!n) return 0;
    int64_t p = off - E.oo; CHECK(p >= 0 && p + n <= E.norg, "origin read at %ld", (long)p); memcpy(b, E.org + p, n); return n;
}
static ssize_t hd(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == E.me && off == 0 && n == 4096 && b == (uint8_t *)E.h, "the header is written as %zu bytes to %ld", n, (long)off); E.heads++;
    return ++E.calls == E.fail ? broken(n) : (ssize_t)n;
}
static size_t pack(int m, uint8_t *p, size_t n, uint8_t **o)
{
    size_t k = 0, cap = n * 2 + 4096; uint8_t *t = calloc(1, cap);
    if (m == 0) memcpy(t, p, k = n);
    else if (m == 1) { size_t b = 0; for (size_t i = 0; i < n; i++) { unsigned v = 0x100 | p[i]; for (int j = 8; j >= 0; j--, b++) if (v >> j & 1) t[b / 8] |= 0x80 >> (b & 7); } k = (b + 7) / 8; }
    else CHECK(lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, NULL, p, n, t, &k, cap) == LZMA_OK, "driver: lzma");
    *o = t; return k;
}
void vt_case(void)
{
    static const uint32_t M[] = { 0x75622592, 0xb5964388, 0x933a9893 };
    struct rp r, o; memset(&r, 0, sizeof r); memset(&o, 0, sizeof o); struct pt p[8]; memset(p, 0, sizeof p); int n = 1 + vt_below(5), km = 0, ko = 0; unsigned at = 0, ato = 0; uint8_t id[16], oid[16]; vt_bytes(id, 16); memcpy(oid, id, 16);
    int idcase = vt_chance(3) ? vt_below(4) : 0, ref = vt_chance(2) ? 0 : 0; if (idcase == 1) oid[vt_below(16)] ^= 1 << vt_below(8);
    if (vt_chance(2)) rp_meta(&o, &ko, &ato, 0x1111, 0, id, 13);
    if (idcase != 2) rp_meta(&r, &km, &at, 0xfb2f1f3f, ref, id, 16);
    if (idcase != 3) rp_meta(&o, &ko, &ato, 0xfb2f1f3f, ref, oid, 16);
    uint64_t pos = 0, op = 0; uint8_t *org = malloc(400000); vt_bytes(org, 400000);
    for (int i = 0; i < n; i++) {
        struct bpak_part_header *q = &r.h.parts[i], *qo = &o.h.parts[i]; struct pt *z = &p[i]; q->id = 0x100 + i; qo->id = q->id; q->size = vt_chance(3) ? 4096 * vt_below(5) : vt_size(3000); qo->size = vt_size(3000); q->pad_bytes = -q->size & 511; qo->pad_bytes = -qo->size & 511;
        z->at = pos; z->oat = op; z->nwant = q->size + q->pad_bytes; z->want = malloc(z->nwant + 1); z->kind = vt_chance(3) ? COPY : vt_chance(8) ? ODD : PATCH; uint8_t sl[32];
        if (i && z->kind == PATCH && vt_chance(2) && !((r.h.parts[i - 1].size + r.h.parts[i - 1].pad_bytes) % 4096) && p[i - 1].kind != TREE) {
            uint64_t lv[8]; int nl; size_t t = ref_tree_size(p[i - 1].nwant, lv, &nl);
            if (t) { z->kind = TREE; q->id = vt_crc32(r.h.parts[i - 1].id, (const uint8_t *)"-hash-tree", 10); qo->id = q->id; r.h.parts[i - 1].size = p[i - 1].nwant; r.h.parts[i - 1].pad_bytes = 0; q->size = t; q->pad_bytes = 0; z->nwant = t; z->want = realloc(z->want, t); vt_bytes(sl, 32); rp_meta(&r, &km, &at, 0x7c9b2f93, r.h.parts[i - 1].id, sl, 32); uint8_t root[32]; ref_tree(p[i - 1].want, p[i - 1].nwant, sl, 32, z->want, root); }
        }
        struct bpak_transport_meta tm; memset(&tm, 0, sizeof tm); tm.alg_id_encode = M[vt_below(3)];
        if (z->kind == COPY) { vt_bytes(z->want, z->nwant); z->in = vt_dup(z->want, z->nwant); z->nin = z->nwant; if (vt_chance(3)) { q->flags |= 2; if (vt_chance(2)) rp_meta(&r, &km, &at, 0x2d44bbfb, q->id + 7, &tm, 32); } else if (vt_chance(3)) { tm.alg_id_decode = M[0]; rp_meta(&r, &km, &at, 0x2d44bbfb, q->id, &tm, 32); } }
        else if (z->kind == ODD) { vt_bytes(z->want, z->nwant); q->flags |= 2; tm.alg_id_decode = vt_u32() | 1; rp_meta(&r, &km, &at, 0x2d44bbfb, q->id, &tm, 32); z->in = vt_dup(z->want, z->nwant); z->nin = z->nwant; }
        else if (z->kind == TREE) { q->flags |= 2; tm.alg_id_decode = 0xb5bcc58f; rp_meta(&r, &km, &at, 0x2d44bbfb, q->id, &tm, 32); z->in = malloc(1); }
        else {
            int m = vt_below(3); q->flags |= 2; tm.alg_id_decode = M[m]; rp_meta(&r, &km, &at, 0x2d44bbfb, q->id, &tm, 32); uint8_t *t = malloc(z->nwant * 2 + 4000); size_t k = 0, done = 0; int64_t c = 0, on = qo->size + qo->pad_bytes;
            while (done < z->nwant) {
                size_t d = vt_below(on - c + 1), e = vt_size(300); if (d > z->nwant - done) d = z->nwant - done; if (d < 1 && !e) e = 1; if (e > z->nwant - done - d) e = z->nwant - done - d; if (k > z->nwant) e = z->nwant - done - d;
                int64_t to = vt_below(on + 1); put(t + k, d); put(t + k + 8, e); put(t + k + 16, to - c - (int64_t)d); k += 24;
                for (size_t j = 0; j < d; j++) { t[k] = vt_chance(3) ? vt_u32() : 0; z->want[done++] = t[k++] + org[op + c++]; }
                vt_bytes(t + k, e); memcpy(z->want + done, t + k, e); k += e; done += e; c = to;
            }
            z->nin = pack(m, t, k, &z->in); free(t);
        }
        if (q->flags & 2) q->transport_size = z->nin;
        pos += z->nwant; op += qo->size + qo->pad_bytes;
    }
    int shrink = vt_chance(6) ? (int)vt_below(n) : -1; int cut = shrink >= 0 ? (vt_chance(2) ? 1 : -1) * (int)(vt_chance(2) ? 512 : 1 + vt_below(30)) : 0;
    uint64_t keep = 0; if (shrink >= 0) { keep = r.h.parts[shrink].size; if ((int64_t)keep + cut < 0) cut = -cut; r.h.parts[shrink].size += cut; }
    memset(&E, 0, sizeof E); E.nout = pos + 8192; E.out = malloc(E.nout); memset(E.out, 0xA5, E.nout); E.org = org; E.norg = 400000; E.wo = vt_below(9000); E.oo = vt_chance(2) ? 0 : vt_below(9000); E.me = &r; E.h = &r.h; E.style = vt_below(4); if (vt_chance(3)) E.fail = 1 + vt_below(40);
    for (int i = 0; i < 32; i++) { r.h.meta[i].id = r.h.meta[i].id; }
    r.h.magic = o.h.magic = 0x42504132; r.h.hash_kind = o.h.hash_kind = 1; int have = !vt_chance(5); uint8_t wb[600]; vt_note_hdr(&r.h); vt_note("%d parts (kinds %d %d %d %d %d), package ids: case %d, origin %d, part %d of another size by %d, failing call %d (style %d) ", n, p[0].kind, p[1].kind, p[2].kind, p[3].kind, p[4].kind, idcase, have, shrink, cut, E.fail, E.style);
    struct bpak_transport_decode *c = malloc(sizeof *c); memset(c, 0x77, sizeof *c); struct bpak_header *oh = vt_dup(&o.h, sizeof o.h);
    CHECK(bpak_transport_decode_init(c, wb, sizeof wb, &r.h, wr, rdo, E.wo, hd, E.me) == BPAK_OK, "init");
    if (have) { int rc = bpak_transport_decode_set_origin(c, oh, rd, E.oo); CHECK((rc == BPAK_OK) == (idcase == 0), "an origin with package ids of case %d: %d", idcase, rc); have = idcase == 0; }
    int stop = 0;
    for (int i = 0; i < n && !stop; i++) {
        struct pt *z = &p[i]; struct bpak_part_header *q = &r.h.parts[i]; E.p = z; int h0 = E.heads; uint8_t *full = NULL; struct bpak_header before = r.h;
        int rc = bpak_transport_decode_start(c, q); CHECK(!E.fired || rc != BPAK_OK, "part %d: a failed header write is not reported", i);
        if (z->kind == ODD) CHECK(rc != BPAK_OK, "part %d: an unknown method is accepted", i); else if (z->kind == PATCH && !have) CHECK(rc != BPAK_OK, "part %d: patched without an origin", i); else if (!E.fired) CHECK(rc == BPAK_OK && E.heads == h0 + 1, "part %d: start %d, %d headers", i, rc, E.heads - h0);
        if (rc != BPAK_OK) { stop = 1; break; }
        size_t d = 0, mc = 1 + vt_below(900); int bad = 0; if (i == shrink && z->kind == COPY && vt_chance(2)) z->nin = z->nin;
        while (d < z->nin && !bad) { size_t k = 1 + vt_below(mc); if (k > z->nin - d) k = z->nin - d; uint8_t *t = vt_dup(z->in + d, k); rc = bpak_transport_decode_write_chunk(c, t, k); free(t); d += k; CHECK(!E.fired || rc != BPAK_OK, "part %d: a failed or short read or write is not reported", i); CHECK(E.fired || rc == BPAK_OK, "part %d: its data is refused: %d", i, rc); bad = rc != BPAK_OK; }
        h0 = E.heads; rc = bpak_transport_decode_finish(c); (void)full;
        int wrong = i == shrink && cut;
        CHECK(!E.fired || (bad && z->kind == COPY) || rc != BPAK_OK, "part %d: a failed or short read or write is not reported at the end", i);
        if (wrong) CHECK(rc != BPAK_OK, "part %d: the wrong length is accepted", i);
        if (bad || wrong) { stop = 1; if (wrong && !E.fired) CHECK(!memcmp(&before, &r.h, 4096) && E.heads == h0, "part %d: the header changes", i); break; }
        if (E.fired) { stop = 1; break; }
        CHECK(rc == BPAK_OK, "part %d: finish %d", i, rc); CHECK(!(q->flags & 2) && !q->transport_size && E.heads == h0 + 1, "part %d is not marked as decoded", i);
        before.parts[i].flags &= ~2; before.parts[i].transport_size = 0; CHECK(!memcmp(&before, &r.h, 4096), "part %d: something else of the header changes", i);
        CHECK(!memcmp(E.out + z->at, z->want, z->nwant), "part %d is decoded wrongly", i); vt_nontrivial++;
    }
    for (size_t i = pos; i < E.nout; i++) CHECK(E.out[i] == 0xA5, "written beyond the parts");
    CHECK(!memcmp(oh, &o.h, 4096), "the origin header changes"); bpak_transport_decode_free(c); free(c); free(oh); free(E.out); free(org); for (int i = 0; i < n; i++) { free(p[i].in); free(p[i].want); }
}

#include "vt.h"
#include <lzma.h>
#include <bpak/bpak.h>
#include <bpak/bspatch.h>
#define MAXOUT 60000
static int64_t word(const uint8_t *b) { uint64_t v = 0; for (int i = 6; i >= 0; i--) v = v << 8 | b[i]; v |= (uint64_t)(b[7] & 0x7f) << 56; return b[7] & 0x80 ? -(int64_t)v : (int64_t)v; }
static void put(uint8_t *b, int64_t v) { uint64_t u = v < 0 ? -(uint64_t)v : (uint64_t)v; for (int i = 0; i < 8; i++) b[i] = u >> 8 * i; if (v < 0) b[7] |= 0x80; }
/* the patch rules over the whole patch: output, and the position of the patch byte at which applying it has to fail */
struct ref { const uint8_t *p; size_t n; const uint8_t *o; size_t on; int64_t oo; uint8_t out[MAXOUT]; size_t nout; size_t fail; const char *why; };
static void ref(struct ref *r)
{
    size_t at = 0; int64_t pos = 0, t; r->nout = 0; r->fail = (size_t)-1; r->why = "";
    while (at + 24 <= r->n) {
        int64_t d = word(r->p + at), e = word(r->p + at + 8), a = word(r->p + at + 16); at += 24;
        if (d < 0 || e < 0) { r->fail = at - 1; r->why = "negative count"; return; }
        for (; d && at < r->n; d--, at++, pos++) {
            if (pos < 0 || pos >= (int64_t)r->on) { r->fail = at; r->why = "origin too short"; return; }
            r->out[r->nout++] = r->p[at] + r->o[pos];
        }
        if (d) return;
        for (; e && at < r->n; e--, at++) r->out[r->nout++] = r->p[at];
        if (e) return;
        if (__builtin_add_overflow(pos, a, &t) || __builtin_add_overflow(r->oo, t, (int64_t *)&a)) { r->fail = at; r->why = "origin position out of range"; return; }
        pos = t;
    }
}
/* callbacks: the origin ends where it ends, and the n-th call may fail */
static struct env { struct ref *r; int64_t wo; size_t got; int reads, writes, fr, fw, style, fired; size_t pbl; void *me; } E;
static int64_t broken(int64_t n) { E.fired = 1; return E.style == 0 ? -BPAK_READ_ERROR : E.style == 1 ? (n ? n - 1 : -1) : E.style == 2 ? (n ? 0 : -5) : n + 1; }
static ssize_t rd(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == E.me, "another user pointer is passed on"); CHECK(!E.fired, "a read after an error"); CHECK((ssize_t)n >= 0 && n <= E.pbl, "a read of %zd bytes into %zu", (ssize_t)n, E.pbl);
    if (++E.reads == E.fr) return broken(n);
    int64_t p = off - E.r->oo; if (!n) return 0;
    memset(b, 0xcd, n); if (p < 0 || p >= (int64_t)E.r->on) { E.fired = 1; return E.style ? 0 : -1; }
    size_t k = n; if (k > E.r->on - p) { k = E.r->on - p; E.fired = 1; } memcpy(b, E.r->o + p, k); return k;
}
static ssize_t wr(off_t off, uint8_t *b, size_t n, void *u)
{
    CHECK(u == E.me, "another user pointer is passed on"); CHECK(!E.fired, "a write after an error"); CHECK((ssize_t)n >= 0, "a write of %zd bytes", (ssize_t)n);
    if (++E.writes == E.fw) return broken(n);
    if (!n) return 0;
    CHECK(off - E.wo == (off_t)E.got, "%zu bytes written to %ld instead of %zu", n, (long)(off - E.wo), E.got); CHECK(E.got + n <= E.r->nout, "%zu bytes more than the patch calls for", E.got + n - E.r->nout);
    for (size_t i = 0; i < n; i++) CHECK(b[i] == E.r->out[E.got + i], "byte %zu of the output is %02x, not %02x", E.got + i, b[i], E.r->out[E.got + i]);
    E.got += n; return n;
}
/* heatshrink, 8 bit window, 7 bit lengths */
static uint8_t *hsbuf; static size_t hsbits;
static void emit(unsigned v, int n) { while (n--) { if (!(hsbits & 7)) hsbuf[hsbits / 8] = 0; if (v >> n & 1) hsbuf[hsbits / 8] |= 0x80 >> (hsbits & 7); hsbits++; } }
static size_t hs(const uint8_t *p, size_t n, uint8_t *o)
{
    hsbuf = o; hsbits = 0;
    for (size_t i = 0; i < n;) {
        size_t best = 0, bd = 0; if (vt_chance(2)) for (size_t d = 1; d <= 256 && d <= i; d++) { size_t l = 0; while (l < 128 && i + l < n && p[i + l] == p[i + l - d]) l++; if (l > best) { best = l; bd = d; } }
        if (best > 2) { emit(0, 1); emit(bd - 1, 8); emit(best - 1, 7); i += best; } else { emit(1, 1); emit(p[i++], 8); }
    }
    return (hsbits + 7) / 8;
}
static struct ref R;
void vt_case(void)
{
    size_t on = vt_size(900); uint8_t *o = malloc(on + 1); vt_bytes(o, on); if (vt_chance(3)) memset(o, 7, on);
    uint8_t *p = malloc(40000); size_t n = 0; int recs = vt_below(7); int64_t pos = 0; int hostile = vt_chance(3);
    for (int i = 0; i < recs; i++) {
        int64_t d = vt_chance(4) ? 0 : vt_below(on - (pos < 0 ? 0 : pos > (int64_t)on ? on : pos) + 1), e = vt_chance(3) ? 0 : vt_size(300), a = vt_chance(4) ? 0 : (int64_t)(vt_below(on + 1) - ((uint64_t)pos + d));
        if (vt_chance(3) && d > 40) d = vt_below(40);
        if (hostile && vt_chance(3)) { int64_t odd[] = { -1, -24, INT64_MAX, -INT64_MAX, 1ll << 32, -(1ll << 32), 1ll << 62, 2, (int64_t)on + 1 }; int64_t v = odd[vt_below(9)]; switch (vt_below(3)) { case 0: d = v; break; case 1: e = v; break; default: a = v; } }
        put(p + n, d); put(p + n + 8, e); put(p + n + 16, a); n += 24; size_t body = (d < 0 || d > 1000 ? 100 : d) + (e < 0 || e > 1000 ? 100 : e);
        if (vt_chance(2)) memset(p + n, vt_chance(2) ? 0 : vt_u32(), body); else vt_bytes(p + n, body);
        n += body; pos = (int64_t)((uint64_t)pos + d + a);
    }
    if (hostile && vt_chance(4) && n) p[vt_below(n)] ^= 1 << vt_below(8);
    if (vt_chance(6)) n = vt_below(n + 1);
    int64_t oo = vt_chance(2) ? 0 : vt_chance(4) ? INT64_MAX - 2000 - vt_below(3000) : vt_below(100000); uint8_t *pp = vt_dup(p, n);
    R.p = pp; R.n = n; R.o = o; R.on = on; R.oo = oo; ref(&R);
    memset(&E, 0, sizeof E); E.r = &R; E.wo = vt_chance(2) ? 0 : vt_below(100000); E.me = &E; E.style = vt_below(4);
    int comp = vt_below(4); comp = comp == 3 ? 0 : comp; static const enum bpak_compression C[] = { BPAK_COMPRESSION_NONE, BPAK_COMPRESSION_HS, BPAK_COMPRESSION_LZMA };
    uint8_t *z; size_t zn = n;
    if (comp == 0) z = vt_dup(pp, n);
    else if (comp == 1) { uint8_t *t = malloc(n * 2 + 16); zn = hs(pp, n, t); z = vt_dup(t, zn); free(t); }
    else { size_t cap = lzma_stream_buffer_bound(n), k = 0; uint8_t *t = malloc(cap); CHECK(lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, NULL, pp, n, t, &k, cap) == LZMA_OK, "driver: lzma"); zn = k; z = vt_dup(t, k); free(t); }
    size_t bl = vt_chance(20) ? vt_below(9) : 2 * (1 + (vt_chance(2) ? vt_below(6) : vt_below(700))); uint8_t *wb = malloc(bl ? bl : 1); memset(wb, 0xee, bl); E.pbl = bl / 2;
    struct bpak_bspatch_context *c = malloc(sizeof *c); memset(c, 0x99, sizeof *c);
    if (vt_chance(3)) { if (vt_chance(2)) E.fr = 1 + vt_below(12); else E.fw = 1 + vt_below(16); }
    vt_note("compression %d, %zu byte patch (%zu packed, %d records%s), origin %zu at %ld, buffer %zu, failing read %d write %d; by the rules: %zu bytes out, %s %zd ", comp, n, zn, recs, hostile ? ", hostile" : "", on, (long)oo, bl, E.fr, E.fw, R.nout, *R.why ? R.why : "complete", (ssize_t)R.fail);
    int rc = bpak_bspatch_init(c, wb, bl, zn, rd, oo, wr, E.wo, C[comp], E.me);
    if (!bl || bl & 1) CHECK(rc != BPAK_OK, "a work buffer of %zu bytes is taken", bl);
    else {
        CHECK(rc == BPAK_OK, "init: %d", rc);
        size_t at = 0, mc = vt_chance(3) ? 1 + vt_below(3) : 1 + vt_below(400); int bad = 0; size_t seen = 0;
        while (at < zn) {
            size_t k = 1 + vt_below(mc); if (k > zn - at) k = zn - at; if (comp == 0 && vt_chance(12)) k = 0;
            uint8_t *ch = vt_dup(z + at, k); rc = bpak_bspatch_write(c, ch, k); CHECK(!memcmp(ch, z + at, k), "the patch is changed"); free(ch); at += k;
            if (bad) { CHECK(rc != BPAK_OK, "a write after an error succeeds"); if (seen++ > 3) break; continue; }
            CHECK(!E.fired || rc != BPAK_OK, "a failed or short read or write is not reported");
            int must = comp == 0 && R.fail < at; CHECK(!must || rc != BPAK_OK, "the patch has to be refused (%s)", R.why);
            if (rc != BPAK_OK) { bad = 1; CHECK(E.fired || R.fail != (size_t)-1, "a good patch is refused: %d", rc); if (comp == 0 && !E.fired) CHECK(R.fail <= at, "refused too early"); }
        }
        ssize_t f = bpak_bspatch_final(c);
        if (bad) CHECK(f < 0, "finishes with %zd after an error", f);
        else {
            CHECK(!E.fired || f < 0, "a failed or short read or write is not reported");
            if (f >= 0) { CHECK(*R.why == 0 || R.fail == n, "a patch with %s is taken", R.why); CHECK((size_t)f == R.nout && E.got == R.nout, "finishes with %zd, %zu of %zu bytes written", f, E.got, R.nout); if (R.nout) vt_nontrivial++; }
            else CHECK(E.fired || *R.why, "finishing a good patch fails: %zd", f);
        }
        bpak_bspatch_free(c);
    }
    free(c); free(wb); free(z); free(pp); free(p); free(o);
}

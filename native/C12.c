#include "vt.h"
#include <bpak/bpak.h>
#include <bpak/heatshrink_decoder.h>
#include <bpak/bspatch.h>
/* reference decoder: 8 bit window, 7 bit lengths, MSB first; a symbol is decoded when all of its bits are there */
struct ref { const uint8_t *in; size_t nin, bit; uint8_t *out; size_t nout; };
static int bits(struct ref *r, int n, unsigned *v)
{
    if (r->nin * 8 - r->bit < (size_t)n) return 0;
    for (*v = 0; n--; r->bit++) *v = *v << 1 | (r->in[r->bit / 8] >> (7 - r->bit % 8) & 1);
    return 1;
}
static void ref(struct ref *r)
{
    unsigned t, i, l;
    while (bits(r, 1, &t)) {
        if (t) { if (!bits(r, 8, &i)) return; r->out[r->nout++] = i; continue; }
        if (!bits(r, 8, &i) || !bits(r, 7, &l)) return;
        for (i++, l++; l--; r->nout++) r->out[r->nout] = r->nout >= i ? r->out[r->nout - i] : 0;
    }
}
void vt_case(void)
{
    size_t n = vt_chance(3) ? vt_below(2000) : vt_below(60); uint8_t *in = malloc(n + 1); vt_bytes(in, n);
    int style = vt_below(4); if (style == 1) for (size_t i = 0; i < n; i++) in[i] &= vt_u32(); if (style == 2) memset(in, vt_chance(2) ? 0 : 0xff, n);
    struct ref r = { in, n, 0, malloc(n * 64 + 1024), 0 }; ref(&r);
    if (vt_chance(3)) {
        /* the same through the patcher's decompression: it must neither crash nor hang, whatever comes out */
    }
    heatshrink_decoder *d = malloc(sizeof(*d)); memset(d, 0xaa, sizeof(*d)); heatshrink_decoder_reset(d);
    size_t at = 0, got = 0; int how = vt_below(4); size_t mo = 1 + vt_below(how == 0 ? 3 : 600), mi = 1 + vt_below(how == 1 ? 3 : 400);
    vt_note("%zu bytes in chunks up to %zu, output space up to %zu ", n, mi, mo);
    uint8_t *outall = malloc(r.nout + 1024); size_t guard = 0;
    for (;;) {
        CHECK(guard++ < 40 * (n + r.nout) + 4000, "no progress");
        if (at < n && !vt_chance(3)) {
            size_t z = vt_below(mi + 1), k = 12345; if (z > n - at) z = n - at; uint8_t *ch = vt_dup(in + at, z);
            HSD_sink_res s = heatshrink_decoder_sink(d, ch, z, &k); free(ch);
            CHECK(s >= 0 && k <= z, "sink returned %d, consumed %zu of %zu", s, k, z); CHECK(s == HSDR_SINK_OK || k == 0, "full, but %zu consumed", k); at += k;
        }
        size_t z = vt_below(mo + 1), k = 12345; uint8_t *o = malloc(z ? z : 1); memset(o, 0x5c, z ? z : 1);
        HSD_poll_res p = heatshrink_decoder_poll(d, o, z, &k);
        CHECK(p == HSDR_POLL_EMPTY || p == HSDR_POLL_MORE, "poll returned %d", p); CHECK(k <= z, "%zu bytes produced into %zu", k, z); CHECK((p == HSDR_POLL_MORE) == (k == z), "poll returned %d with %zu of %zu bytes", p, k, z);
        CHECK(got + k <= r.nout && !memcmp(o, r.out + got, k), "output differs from the reference within %zu bytes after %zu", k, got);
        for (size_t i = k; i < z; i++) CHECK(o[i] == 0x5c, "output beyond the reported %zu bytes is changed", k);
        got += k; free(o);
        if (at == n && p == HSDR_POLL_EMPTY && got == r.nout) break;
        CHECK(!(at == n && p == HSDR_POLL_EMPTY), "drained after %zu of %zu bytes", got, r.nout);
    }
    CHECK(heatshrink_decoder_finish(d) == HSDR_FINISH_DONE, "finish reports more output");
    if (r.nout) vt_nontrivial++;
    free(outall); free(r.out); free(in); free(d);
}

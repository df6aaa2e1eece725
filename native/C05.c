#include "hdr.h"
#include <bpak/verify.h>
#include <bpak/crypto.h>
#include "hashwrap.h"
static const size_t dl[4] = { 0, 32, 48, 64 };
void vt_case(void)
{
    struct bpak_header *h = malloc(sizeof(*h)); vt_bytes(h, sizeof(*h));
    h->hash_kind = vt_chance(8) ? vt_below(256) : 1 + vt_below(3);
    unsigned k = h->hash_kind; int good = k >= 1 && k <= 3;
    struct bpak_header *o = vt_dup(h, sizeof(*h)), *z = vt_dup(h, sizeof(*h));
    memset(z->signature, 0, 512); z->signature_sz = 0;
    size_t cap = vt_chance(2) ? 64 : vt_below(80), sz = cap;
    uint8_t *out = malloc(cap ? cap : 1), *e = cap ? out : out + 1, want[64];
    if (good) vt_hash(k, (uint8_t *)z, 4096, want);
    hw_reset(); hw.on = 1;
    switch (vt_below(6)) { case 0: hw.fail_update = 1 + vt_below(vt_chance(2) ? 3 : 600); break; case 1: hw.fail_final = 1; break; case 2: if (vt_chance(3)) hw.fail_init = 1; break; default: break; }
    vt_note("hash kind %u, buffer of %zu, faults: init %d update %d final %d ", k, cap, hw.fail_init, hw.fail_update, hw.fail_final);
    int rc = bpak_verify_compute_header_hash(h, e, &sz);
    hw.on = 0;
    CHECK(!memcmp(h, o, 4096), "the header was changed");
    if (hw.fired) CHECK(rc != 0, "a failing hash step was reported as success");
    else if (!good || cap < dl[k]) CHECK(rc != 0, "hash kind %u into %zu bytes reported success", k, cap);
    else {
        CHECK(rc == 0, "hash kind %u into %zu bytes failed with %d", k, cap, rc);
        CHECK(sz == dl[k], "digest length %zu", sz);
        CHECK(!memcmp(e, want, dl[k]), "digest of kind %u is not that of the header with signature and length zero", k);
        vt_nontrivial++;
    }
    CHECK(hw.frees == hw.inits - (hw.fail_init && hw.inits ? 1 : 0), "hash context created %d times, released %d times", hw.inits, hw.frees);
    free(h); free(o); free(z); free(out);
}

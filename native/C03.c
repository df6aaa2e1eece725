#include "hdr.h"
static void lib_del(struct bpak_header *h, unsigned k) { bpak_del_meta(h, &h->meta[k]); }
void vt_case(void)
{
    struct bpak_header *h = malloc(sizeof(*h));
    if (vt_chance(4)) { /* any header that validation accepts: deletion must stay inside */
        vt_bytes(h, sizeof(*h)); h->magic = 0x42504132; h->hash_kind |= 1;
        int wild = vt_chance(2);
        for (int i = 0; i < 32; i++) {
            h->parts[i].id = 0;
            if (vt_chance(6)) h->meta[i].id = 0;
            h->meta[i].size = wild ? vt_below(1921) : vt_below(100);
            h->meta[i].offset = vt_chance(4) ? 1920 - h->meta[i].size : vt_below(1921 - h->meta[i].size);
        }
        vt_note_hdr(h);
        unsigned k = vt_below(32);
        if (bpak_valid_header(h)) vt_fail("a well formed header is refused");
        if (h->meta[k].id) {
            struct bpak_header *o = vt_dup(h, sizeof(*h));
            vt_note("delete slot %u ", k); lib_del(h, k);
            CHECK(!memcmp(h, o, 8) && !memcmp(h->parts, o->parts, sizeof(h->parts)) && !memcmp(&h->hash_kind, &o->hash_kind, 4096 - 3464), "something outside the metadata table and area changed");
            free(o);
        }
        free(h); return;
    }
    bpak_init_header(h);
    if (vt_chance(2)) { vt_bytes(h->parts, sizeof(h->parts)); vt_bytes(&h->alignment, 4096 - 3466); }
    unsigned n = 0, end = 0;
    struct { uint32_t id, ref; unsigned size; uint8_t *d; } L[33];
    unsigned full = vt_chance(3), want_n = full ? 32 : vt_range(1, 32), z = vt_chance(4);
    while (n < want_n) {
        struct bpak_meta_header *m;
        unsigned size = vt_chance(8) && z ? 0 : full ? vt_below(61) : vt_chance(6) ? vt_below(1900) : vt_below(vt_chance(2) ? 20 : 200);
        uint32_t id = vt_chance(3) ? 0x1000 + n : vt_u32() | 1, ref = vt_below(3);
        if (bpak_add_meta(h, id, ref, size, &m)) break;
        vt_bytes(h->metadata + m->offset, size);
        L[n].id = id; L[n].ref = ref; L[n].size = size; L[n].d = vt_dup(h->metadata + m->offset, size); n++;
        end = (m->offset + size + 7) & ~7u;
    }
    for (unsigned i = 0; i < n; i++) vt_note("%u ", L[i].size);
    int dels = vt_range(1, 4);
    struct bpak_header *o = vt_dup(h, sizeof(*h));
    while (dels-- && n) {
        unsigned k = vt_chance(3) ? n - 1 : vt_below(n);
        vt_note("del %u of %u; ", k, n);
        lib_del(h, k);
        free(L[k].d);
        memmove(&L[k], &L[k + 1], (n - k - 1) * sizeof(*L)); n--;
        unsigned pos = 0;
        uint8_t area[1920]; memset(area, 0, sizeof(area));
        for (unsigned i = 0; i < n; i++) {
            CHECK(h->meta[i].id == L[i].id && h->meta[i].part_id_ref == L[i].ref && h->meta[i].size == L[i].size, "entry %u: id, reference or size lost", i);
            CHECK(h->meta[i].offset == pos, "entry %u at offset %u instead of %u", i, h->meta[i].offset, pos);
            CHECK(!memcmp(h->metadata + pos, L[i].d, L[i].size), "data of entry %u lost", i);
            memcpy(area + pos, L[i].d, L[i].size);
            pos = (pos + L[i].size + 7) & ~7u;
        }
        struct bpak_meta_header zero; memset(&zero, 0, sizeof(zero));
        for (unsigned i = n; i < 32; i++) CHECK(!memcmp(&h->meta[i], &zero, sizeof(zero)), "slot %u is not empty", i);
        for (unsigned i = 0; i < 1920; i++) CHECK(h->metadata[i] == area[i], "freed space is not zero at %u", i);
        CHECK(!memcmp(h, o, 8) && !memcmp(h->parts, o->parts, sizeof(h->parts)) && !memcmp(&h->hash_kind, &o->hash_kind, 4096 - 3464), "something outside the metadata table and area changed");
        vt_nontrivial++;
    }
    for (unsigned i = 0; i < n; i++) free(L[i].d);
    free(o); free(h);
}

#include "hdr.h"
/* a header built by the operations, mirrored by an independent list */
static uint32_t pool[6];
void vt_case(void)
{
    struct bpak_header *h = malloc(sizeof(*h));
    if (bpak_init_header(h)) vt_fail("bpak_init_header failed");
    if (vt_chance(2)) vt_bytes(h->parts, sizeof(h->parts));
    for (int i = 0; i < 6; i++) pool[i] = vt_chance(3) ? vt_u32() | 1 : 1 + vt_below(4);
    unsigned n = 0, end = 0;
    int steps = vt_range(1, 45), big = vt_chance(2);
    for (int s = 0; s < steps; s++) {
        uint32_t id = pool[vt_below(6)] ? pool[vt_below(6)] : 7, ref = vt_chance(3) ? 0 : pool[vt_below(6)];
        if (vt_chance(2)) { id = vt_u32() | 1; }
        uint16_t size = big ? vt_below(300) : vt_chance(8) ? vt_u32() : vt_chance(8) ? 1920 - end : vt_chance(8) ? 1921 - end : vt_below(80);
        if (!id) id = 1;
        struct bpak_header *o = vt_dup(h, sizeof(*h));
        /* reference outcome */
        int exists = 0; for (unsigned i = 0; i < n; i++) exists |= h->meta[i].id == id && h->meta[i].part_id_ref == ref;
        int want = !exists && n < 32 && end + size <= 1920;
        struct bpak_meta_header *m = NULL;
        vt_note("add(id=%x,ref=%x,size=%u) ", id, ref, size);
        int rc;
        int transport = vt_chance(8);
        if (transport) {
            id = vt_id("bpak-transport"); size = sizeof(struct bpak_transport_meta);
            exists = 0; for (unsigned i = 0; i < n; i++) exists |= h->meta[i].id == id && h->meta[i].part_id_ref == ref;
            want = !exists && n < 32 && end + size <= 1920;
            vt_note("as transport ");
            rc = bpak_add_transport_meta(h, ref, 0x11223344, 0x55667788);
            m = &h->meta[n < 32 ? n : 0];
        } else rc = bpak_add_meta(h, id, ref, size, &m);
        CHECK((rc == 0) == want, "add returned %d, expected %s", rc, want ? "success" : "refusal");
        if (!want) CHECK(!memcmp(h, o, sizeof(*h)), "a refused add changed the header");
        else {
            CHECK(m == &h->meta[n], "not the first free slot");
            CHECK(m->id == id && m->part_id_ref == ref && m->size == size, "wrong id, reference or size recorded");
            CHECK(m->offset % 8 == 0 && m->offset + m->size <= 1920, "region not aligned or outside the area");
            for (unsigned i = 0; i < n; i++) CHECK(h->meta[i].offset + h->meta[i].size <= m->offset || m->offset + m->size <= h->meta[i].offset || !h->meta[i].size || !m->size, "regions overlap");
            if (transport) {
                struct bpak_transport_meta t; memcpy(&t, h->metadata + m->offset, sizeof(t));
                CHECK(t.alg_id_encode == 0x11223344 && t.alg_id_decode == 0x55667788, "transport ids not recorded");
                memcpy(h->metadata + m->offset, o->metadata + m->offset, 8);
            }
            struct bpak_header *e = vt_dup(h, sizeof(*h)); 
            e->meta[n].id = o->meta[n].id; e->meta[n].part_id_ref = o->meta[n].part_id_ref; e->meta[n].size = o->meta[n].size; e->meta[n].offset = o->meta[n].offset;
            CHECK(!memcmp(e, o, sizeof(*h)), "another byte of the header changed");
            free(e);
            vt_bytes(h->metadata + m->offset, m->size);
            end = (m->offset + m->size + 7) & ~7u; n++; vt_nontrivial++;
        }
        free(o);
        /* lookups, also of absent ids */
        for (int k = 0; k < 3; k++) {
            uint32_t qi = vt_chance(2) && n ? h->meta[vt_below(n)].id : pool[vt_below(6)], qr = vt_chance(2) && n ? h->meta[vt_below(n)].part_id_ref : pool[vt_below(6)];
            if (vt_chance(10)) qi = 0;
            struct bpak_meta_header *w1 = NULL, *w2 = NULL, *g1 = (void *)h, *g2 = (void *)h;
            for (int i = 31; i >= 0; i--) { if (h->meta[i].id == qi) { w2 = &h->meta[i]; if (h->meta[i].part_id_ref == qr) w1 = &h->meta[i]; } }
            int r1 = bpak_get_meta(h, qi, qr, &g1), r2 = bpak_get_meta_anyref(h, qi, &g2);
            CHECK(g1 == w1 && (r1 == 0) == (w1 != NULL), "bpak_get_meta(%x,%x) is not the first match", qi, qr);
            CHECK(g2 == w2 && (r2 == 0) == (w2 != NULL), "bpak_get_meta_anyref(%x) is not the first match", qi);
        }
    }
    free(h);
}

#include "hdr.h"
#include <bpak/pkg.h>
static void fill(struct bpak_part_header *p, uint32_t id)
{
    vt_bytes(p, sizeof(*p)); p->id = id;
    p->size = vt_chance(8) ? vt_u64() >> vt_below(30) : vt_below(1 << 24);
    p->transport_size = vt_chance(8) ? vt_u64() >> vt_below(30) : vt_below(1 << 24);
    p->pad_bytes = vt_chance(2) ? vt_below(512) : vt_u32();
    p->flags = vt_chance(2) ? vt_below(4) : vt_u32();
}
static uint64_t stored(const struct bpak_part_header *p) { return (p->flags & 2) ? p->transport_size : p->size + p->pad_bytes; }
void vt_case(void)
{
    struct bpak_package *pkg = calloc(1, sizeof(*pkg));
    struct bpak_header *h = &pkg->header;
    vt_bytes(h, sizeof(*h)); memset(h->parts, 0, sizeof(h->parts));
    unsigned n = vt_chance(4) ? 32 : vt_below(33), small = vt_chance(3);
    for (unsigned i = 0; i < n; i++) fill(&h->parts[i], small ? i + 1 : (vt_u32() & ~63u) | 32 | i);
    for (int step = 0; step < 4; step++) {
        struct bpak_header *o = vt_dup(h, sizeof(*h));
        uint64_t off = 4096, inst = 0;
        for (unsigned i = 0; i < 32; i++) {
            struct bpak_part_header *p = &h->parts[i];
            if (!p->id) break;
            CHECK((uint64_t)bpak_part_size(p) == stored(p), "stored size of part %u", i);
            CHECK((uint64_t)bpak_part_size_wo_pad(p) == ((p->flags & 2) ? p->transport_size : p->size), "size without padding of part %u", i);
            vt_note("[%llu+%u t%llu f%x]", (unsigned long long)p->size, p->pad_bytes, (unsigned long long)p->transport_size, p->flags);
            CHECK((uint64_t)bpak_part_offset(h, p) == off, "offset of part %u is %lld, expected %lld", i, (long long)bpak_part_offset(h, p), (long long)off);
            off += stored(p); inst += p->size + p->pad_bytes;
        }
        CHECK(bpak_pkg_size(pkg) == off, "package size %zu, expected %llu", bpak_pkg_size(pkg), (unsigned long long)off);
        CHECK(bpak_pkg_installed_size(pkg) == inst, "installed size");
        CHECK(!memcmp(h, o, sizeof(*h)), "a query changed the header");
        /* lookup */
        struct bpak_part_header *g = NULL;
        uint32_t q = vt_chance(8) ? 0 : vt_chance(2) && n ? h->parts[vt_below(n)].id : vt_u32() & ~63u;
        struct bpak_part_header *w = NULL;
        for (int i = 31; i >= 0; i--) if (q && h->parts[i].id == q) w = &h->parts[i];
        int rc = bpak_get_part(h, q, &g);
        CHECK((rc == 0) == (w != NULL) && (!w || g == w), "lookup of %x", q);
        if (vt_chance(2)) {
            uint32_t id = n && vt_chance(2) ? h->parts[vt_below(n)].id : (vt_u32() & ~63u) | 16;
            int dup = 0; for (unsigned i = 0; i < n; i++) dup |= h->parts[i].id == id;
            int want = !dup && n < 32;
            vt_note("add %x to %u ", id, n);
            g = NULL; rc = bpak_add_part(h, id, &g);
            CHECK((rc == 0) == want, "add returned %d", rc);
            if (want) {
                CHECK(g == &h->parts[n], "not the first free slot");
                o->parts[n].id = id;
                CHECK(!memcmp(h, o, sizeof(*h)), "add changed more than the id of the new slot");
                n++; fill(&h->parts[n - 1], id); vt_nontrivial++;
            } else CHECK(!memcmp(h, o, sizeof(*h)), "a refused add changed the header");
        } else if (n) {
            unsigned k = vt_chance(3) ? n - 1 : vt_below(n);
            vt_note("del %u of %u ", k, n);
            bpak_del_part(h, &h->parts[k]);
            memmove(&o->parts[k], &o->parts[k + 1], (31 - k) * sizeof(o->parts[0]));
            memset(&o->parts[31], 0, sizeof(o->parts[0]));
            n--;
            CHECK(!memcmp(h, o, sizeof(*h)), "deleting part %u did not leave exactly the other parts", k);
            vt_nontrivial++;
        }
        free(o);
    }
    free(pkg);
}

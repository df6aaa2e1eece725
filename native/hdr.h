/* reference model of the package header (from docs / bpak.h layout only) */
#ifndef HDR_H
#define HDR_H
#include "vt.h"
#include <bpak/bpak.h>
#include <bpak/id.h>
#include <bpak/utils.h>
#include <bpak/crc.h>
static inline void vt_hex(const char *name, const void *p, size_t n)
{
    static char b[2 * 400 + 1]; const uint8_t *q = p; size_t k = n > 400 ? 400 : n;
    for (size_t i = 0; i < k; i++) sprintf(b + 2 * i, "%02x", q[i]);
    b[2 * k] = 0; vt_note("%s[%zu]=%s%s ", name, n, b, k < n ? ".." : "");
}
/* compact description of a header */
static inline void vt_note_hdr(const struct bpak_header *h)
{
    vt_note("header{magic=%08x hash=%u sigsz=%u", h->magic, h->hash_kind, h->signature_sz);
    for (int i = 0; i < 32; i++) if (h->meta[i].id) vt_note(" m%d(id=%x size=%u off=%u ref=%x)", i, h->meta[i].id, h->meta[i].size, h->meta[i].offset, h->meta[i].part_id_ref);
    for (int i = 0; i < 32; i++) if (h->parts[i].id) vt_note(" p%d(id=%x size=%llu tsize=%llu pad=%u flags=%x)", i, h->parts[i].id, (unsigned long long)h->parts[i].size, (unsigned long long)h->parts[i].transport_size, h->parts[i].pad_bytes, h->parts[i].flags);
    vt_note("} ");
}
static inline int ref_valid(const struct bpak_header *h)
{
    if (h->magic != 0x42504132 || h->hash_kind == 0) return 0;
    for (int i = 0; i < 32; i++) {
        if (h->parts[i].id && ((h->parts[i].size + h->parts[i].pad_bytes) % 512)) return 0;
        if (h->meta[i].id && (unsigned)h->meta[i].offset + h->meta[i].size > 1920) return 0;
    }
    return 1;
}
#endif

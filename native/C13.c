#include "hdr.h"
#include <bpak/crc.h>
#include <bpak/id.h>
#include <bpak/utils.h>
void vt_case(void)
{
    size_t n = vt_size(3000); uint8_t *b = malloc(n + 1);
    vt_bytes(b, n);
    uint32_t c0 = vt_chance(3) ? vt_u32() : 0;
    vt_note("crc of %zu bytes from %x", n, c0);
    uint32_t w = vt_crc32(c0, b, n);
    CHECK(bpak_crc32(c0, b, n) == w, "crc of %zu bytes from %x", n, c0);
    size_t k = vt_below(n + 1);
    CHECK(bpak_crc32(bpak_crc32(c0, b, k), b + k, n - k) == w, "crc continued after %zu of %zu bytes", k, n);
    for (size_t i = 0; i < n; i++) if (!b[i]) b[i] = 1;
    b[n] = 0;
    char *s = vt_dup(b, n + 1);
    uint32_t id = vt_crc32(0, b, n);
    CHECK(bpak_id(s) == id, "id of a name of %zu bytes", n);
    uint32_t tid = vt_crc32(id, (const uint8_t *)"-hash-tree", 10);
    CHECK(bpak_part_name_to_hash_tree_id(s) == tid, "hash-tree id of a name of %zu bytes", n);
    CHECK(bpak_part_id_to_hash_tree_id(id) == tid, "hash-tree id of %x", id);
    struct bpak_header *h = calloc(1, sizeof(*h));
    unsigned m = vt_chance(3) ? 32 : vt_below(33);
    for (unsigned i = 0; i < m; i++) { h->parts[i].id = vt_u32() | 1; }
    uint32_t q = tid;
    if (m && vt_chance(2)) { unsigned i = vt_below(m); if (vt_chance(2)) h->parts[i].id = id; q = vt_crc32(h->parts[i].id, (const uint8_t *)"-hash-tree", 10); }
    uint32_t want = 0;
    for (int i = 31; i >= 0; i--) if (vt_crc32(h->parts[i].id, (const uint8_t *)"-hash-tree", 10) == q) want = h->parts[i].id;
    struct bpak_header *o = vt_dup(h, sizeof(*h));
    CHECK(bpak_hash_tree_id_to_part_id(h, q) == want, "part of hash tree %x among %u parts", q, m);
    CHECK(!memcmp(o, h, sizeof(*h)), "header changed");
    if (want) vt_nontrivial++;
    free(o); free(h); free(s); free(b);
}

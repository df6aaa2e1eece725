/* interposed hash steps: count them, make the n-th one fail, watch the balance of init/free */
#ifndef HASHWRAP_H
#define HASHWRAP_H
#include <bpak/crypto.h>
static struct { int on, fail_init, fail_update, fail_final, inits, updates, finals, frees, fired; } hw;
static inline void hw_reset(void) { memset(&hw, 0, sizeof(hw)); }
int __real_bpak_hash_init(struct bpak_hash_context *, int); int __real_bpak_hash_update(struct bpak_hash_context *, const uint8_t *, size_t);
int __real_bpak_hash_final(struct bpak_hash_context *, uint8_t *, size_t, size_t *); void __real_bpak_hash_free(struct bpak_hash_context *);
int __wrap_bpak_hash_init(struct bpak_hash_context *c, int k)
{
    if (hw.on && ++hw.inits == hw.fail_init) { hw.fired = 1; return -BPAK_FAILED; }
    int rc = __real_bpak_hash_init(c, k); if (hw.on && rc) hw.inits--; return rc;
}
int __wrap_bpak_hash_update(struct bpak_hash_context *c, const uint8_t *b, size_t n)
{
    if (hw.on && ++hw.updates == hw.fail_update) { hw.fired = 1; return -BPAK_FAILED; }
    return __real_bpak_hash_update(c, b, n);
}
int __wrap_bpak_hash_final(struct bpak_hash_context *c, uint8_t *b, size_t n, size_t *r)
{
    if (hw.on && ++hw.finals == hw.fail_final) { hw.fired = 1; return -BPAK_FAILED; }
    return __real_bpak_hash_final(c, b, n, r);
}
void __wrap_bpak_hash_free(struct bpak_hash_context *c) { hw.frees++; __real_bpak_hash_free(c); }
#endif

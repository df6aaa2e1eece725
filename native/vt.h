/* Native replay / bounded-search support: deterministic cases, precise failure reports. */
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <sys/types.h>

/* random source of the current case */
uint64_t vt_u64(void);
uint32_t vt_u32(void);
uint64_t vt_below(uint64_t n);               /* 0..n-1, 0 for n==0 */
uint64_t vt_range(uint64_t lo, uint64_t hi); /* inclusive */
int vt_chance(unsigned one_in);
void vt_bytes(void *p, size_t n);
size_t vt_size(size_t max);                  /* sizes with a bias to the small and the round */

/* report a violation (never returns) / a description of the case being tried */
void vt_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void vt_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern unsigned long vt_nontrivial;          /* drivers count the cases that exercised the property */
#define CHECK(c, ...) do { if (!(c)) vt_fail(__VA_ARGS__); } while (0)

/* a buffer followed and preceded by unmapped memory is left to ASan; this one is exact-size heap */
void *vt_dup(const void *p, size_t n);

/* the driver */
void vt_case(void);

/* fault injection on the C library's stream calls made by the code under test */
struct vt_io {
    int on;               /* faults armed */
    int fail_read;        /* n-th read (1-based) fails/shortens, 0 never */
    int short_read;       /* deliver fewer bytes instead of an error */
    int fail_write, short_write;
    int fail_seek, fail_tell, fail_trunc, fail_open, fail_flush;
    int reads, writes, seeks, tells, truncs, opens, flushes;
    int fired;            /* a fault was delivered */
};
extern struct vt_io vt_io;
void vt_io_reset(void);

/* scratch directory of this process (removed at exit) and helpers */
const char *vt_dir(void);
char *vt_path(const char *name);             /* static ring of buffers */
void vt_put(const char *path, const void *p, size_t n);
uint8_t *vt_get(const char *path, size_t *n); /* malloc'ed */

/* reference implementations, independent of the library */
uint32_t vt_crc32(uint32_t crc, const uint8_t *p, size_t n);
uint32_t vt_id(const char *s);
void vt_sha256(const uint8_t *p, size_t n, uint8_t out[32]);
int vt_hash(int kind, const uint8_t *p, size_t n, uint8_t *out); /* bpak hash kinds -> size */
#endif

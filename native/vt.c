#define _GNU_SOURCE
#include "vt.h"
#include <signal.h>
#include <time.h>
#include <sys/stat.h>
#include <dirent.h>
#include <mbedtls/md.h>

static uint64_t S[4];
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t vt_u64(void)
{
    uint64_t r = rotl(S[1] * 5, 7) * 9, t = S[1] << 17;
    S[2] ^= S[0]; S[3] ^= S[1]; S[1] ^= S[2]; S[0] ^= S[3]; S[2] ^= t; S[3] = rotl(S[3], 45);
    return r;
}
static void seed(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 12345;
    for (int i = 0; i < 4; i++) {
        x += 0x9E3779B97F4A7C15ull;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        S[i] = z ^ (z >> 31);
    }
}
uint32_t vt_u32(void) { return (uint32_t)vt_u64(); }
uint64_t vt_below(uint64_t n) { return n ? vt_u64() % n : 0; }
uint64_t vt_range(uint64_t lo, uint64_t hi) { return hi - lo == UINT64_MAX ? vt_u64() : lo + vt_below(hi - lo + 1); }
int vt_chance(unsigned k) { return vt_below(k) == 0; }
void vt_bytes(void *p, size_t n)
{
    uint8_t *b = p;
    while (n >= 8) { uint64_t r = vt_u64(); memcpy(b, &r, 8); b += 8; n -= 8; }
    while (n--) *b++ = (uint8_t)vt_u64();
}
size_t vt_size(size_t max)
{
    static const size_t sp[] = {0, 1, 2, 7, 8, 31, 32, 33, 63, 64, 127, 128, 255, 256, 511, 512, 513, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 65536};
    size_t r;
    switch (vt_below(4)) {
    case 0: r = sp[vt_below(sizeof(sp) / sizeof(*sp))]; break;
    case 1: r = vt_below(64); break;
    case 2: r = vt_below(max + 1) & ~(size_t)511; break;
    default: r = vt_below(max + 1);
    }
    return r > max ? max : r;
}
static unsigned long cur; static uint64_t cur_seed; static char note[8192]; static size_t nnote;
unsigned long vt_nontrivial;
void vt_note(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (nnote < sizeof(note) - 256) { int k = vsnprintf(note + nnote, sizeof(note) - nnote, fmt, ap); if (k > 0) nnote += k; if (nnote >= sizeof(note)) nnote = sizeof(note) - 1; }
    va_end(ap);
}
static char dir[64];
static void cleanup(void)
{
    if (!dir[0]) return;
    DIR *d = opendir(dir); struct dirent *e;
    if (d) {
        while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlinkat(dirfd(d), e->d_name, 0);
        closedir(d);
    }
    rmdir(dir);
}
static void report(const char *what)
{
    printf("FAIL seed=%llu case=%lu: %s\n", (unsigned long long)cur_seed, cur, what);
    printf("  input: %s\n", nnote ? note : "(the case number determines it)");
    fflush(stdout);
}
void vt_fail(const char *fmt, ...)
{
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    report(b); cleanup(); _exit(3);
}
static void on_alarm(int s) { (void)s; report("does not terminate"); cleanup(); _exit(3); }
void __asan_on_error(void);
void __asan_on_error(void) { report("memory error (AddressSanitizer report on stderr)"); cleanup(); }
void __ubsan_on_report(void);
void __ubsan_on_report(void) { report("undefined behaviour (UBSan report on stderr)"); cleanup(); }
static void on_abort(int s) { report(s == SIGABRT ? "abort/assert failed" : "crash"); cleanup(); _exit(3); }

const char *vt_dir(void)
{
    if (!dir[0]) { strcpy(dir, "/tmp/vt.XXXXXX"); if (!mkdtemp(dir)) { perror("mkdtemp"); _exit(2); } }
    return dir;
}
char *vt_path(const char *name)
{
    static char ring[16][128]; static int k;
    k = (k + 1) % 16; snprintf(ring[k], sizeof(ring[k]), "%s/%s", vt_dir(), name);
    return ring[k];
}
void *vt_dup(const void *p, size_t n) { void *r = malloc(n); if (n) memcpy(r, p, n); return r; }

/* ---- wrapped stream calls */
struct vt_io vt_io;
void vt_io_reset(void) { memset(&vt_io, 0, sizeof(vt_io)); }
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __wrap_fread(void *, size_t, size_t, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *, size_t, size_t, FILE *);
int __real_fseek(FILE *, long, int); int __wrap_fseek(FILE *, long, int);
long __real_ftell(FILE *); long __wrap_ftell(FILE *);
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *, const char *);
int __real_ftruncate(int, off_t); int __wrap_ftruncate(int, off_t);
size_t __wrap_fread(void *p, size_t sz, size_t n, FILE *f)
{
    if (vt_io.on && sz * n && ++vt_io.reads == vt_io.fail_read) {
        vt_io.fired = 1;
        if (vt_io.short_read && n > 1) return __real_fread(p, sz, vt_below(n - 1) + 1 < n ? vt_below(n - 1) + 1 : n - 1, f);
        if (vt_io.short_read && sz > 1) { size_t k = __real_fread(p, 1, sz * n / 2, f); (void)k; return 0; }
        return 0;
    }
    return __real_fread(p, sz, n, f);
}
size_t __wrap_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    if (vt_io.on && f != stdout && f != stderr && sz * n && ++vt_io.writes == vt_io.fail_write) {
        vt_io.fired = 1;
        if (vt_io.short_write && n > 1) return __real_fwrite(p, sz, n / 2, f);
        errno = ENOSPC; return 0;
    }
    return __real_fwrite(p, sz, n, f);
}
int __wrap_fseek(FILE *f, long o, int w)
{
    if (vt_io.on && ++vt_io.seeks == vt_io.fail_seek) { vt_io.fired = 1; errno = EIO; return -1; }
    return __real_fseek(f, o, w);
}
long __wrap_ftell(FILE *f)
{
    if (vt_io.on && ++vt_io.tells == vt_io.fail_tell) { vt_io.fired = 1; errno = EIO; return -1; }
    return __real_ftell(f);
}
int __wrap_ftruncate(int f, off_t o)
{
    if (vt_io.on && ++vt_io.truncs == vt_io.fail_trunc) { vt_io.fired = 1; errno = EIO; return -1; }
    return __real_ftruncate(f, o);
}
FILE *__wrap_fopen(const char *p, const char *m)
{
    if (vt_io.on && ++vt_io.opens == vt_io.fail_open) { vt_io.fired = 1; errno = EACCES; return NULL; }
    return __real_fopen(p, m);
}
void vt_put(const char *path, const void *p, size_t n)
{
    FILE *f = __real_fopen(path, "wb");
    if (!f || (n && __real_fwrite(p, 1, n, f) != n)) { perror(path); _exit(2); }
    fclose(f);
}
uint8_t *vt_get(const char *path, size_t *n)
{
    FILE *f = __real_fopen(path, "rb");
    *n = 0;
    if (!f) return NULL;
    __real_fseek(f, 0, SEEK_END); long k = __real_ftell(f); __real_fseek(f, 0, SEEK_SET);
    uint8_t *b = malloc(k + 1);
    *n = __real_fread(b, 1, k, f); fclose(f);
    return b;
}
/* ---- references */
uint32_t vt_crc32(uint32_t crc, const uint8_t *p, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        crc ^= p[i];
        for (int k = 0; k < 8; k++) crc = (crc & 1) ? (crc >> 1) ^ 0xedb88320u : crc >> 1;
    }
    return crc;
}
uint32_t vt_id(const char *s) { return vt_crc32(0, (const uint8_t *)s, strlen(s)); }
int vt_hash(int kind, const uint8_t *p, size_t n, uint8_t *out)
{
    mbedtls_md_type_t t = kind == 1 ? MBEDTLS_MD_SHA256 : kind == 2 ? MBEDTLS_MD_SHA384 : kind == 3 ? MBEDTLS_MD_SHA512 : MBEDTLS_MD_NONE;
    const mbedtls_md_info_t *i = mbedtls_md_info_from_type(t);
    if (!i) return -1;
    static const uint8_t z;
    mbedtls_md(i, n ? p : &z, n, out);
    return mbedtls_md_get_size(i);
}
void vt_sha256(const uint8_t *p, size_t n, uint8_t out[32]) { vt_hash(1, p, n, out); }

const char *__asan_default_options(void);
const char *__asan_default_options(void) { return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0"; }
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }

/* drv SEED SECONDS START STRIDE | drv SEED -c CASE */
int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
    cur_seed = strtoull(argv[1], 0, 0);
    signal(SIGALRM, on_alarm); signal(SIGABRT, on_abort); signal(SIGPIPE, SIG_IGN);
    unsigned long start, stride; double secs = 0; int one = 0;
    if (!strcmp(argv[2], "-c")) { one = 1; start = strtoul(argv[3], 0, 0); stride = 1; }
    else { secs = atof(argv[2]); start = strtoul(argv[3], 0, 0); stride = strtoul(argv[4], 0, 0); }
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    unsigned long n = 0;
    for (cur = start;; cur += stride) {
        seed(cur_seed, cur); nnote = 0; note[0] = 0; vt_io_reset();
        alarm(20);
        vt_case();
        alarm(0);
        n++;
        clock_gettime(CLOCK_MONOTONIC, &t);
        if (one || (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    }
    printf("DONE cases=%lu nontrivial=%lu\n", n, vt_nontrivial);
    cleanup();
    return 0;
}

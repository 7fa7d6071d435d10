/* Environment model for abstract interpretation of zpl (force-included first). */
#ifndef ZV_PRE_H
#define ZV_PRE_H
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "__fc_builtin.h"
#define MADV_DONTNEED 4
int madvise(void *a, unsigned long n, int adv);
/*@ requires zv_trap_unreachable: \false; assigns \nothing; ensures \false; */
void __builtin_trap(void);

/*@ requires zv_check: c != 0; assigns \nothing; ensures c != 0; */
void zv_check(int c);
static int zv_steps;      /* loop iterations, counted where a context asks for it (lib/zvcpp.py) */
/* memory primitives proved in C06 are taken by their C-library meaning elsewhere (ZV_REPLACE in lib/eva.py) */
static void *zv_memset(void *d, unsigned char c, long n) { if (!d || !n) return d; zv_check(n > 0); return memset(d, c, n); }
static void *zv_memmove(void *d, void const *s, long n) { if (!d || !n) return d; zv_check(n > 0); return memmove(d, s, n); }
static void *zv_memcpy(void *d, void const *s, unsigned long n) { if (!n) return d; return memcpy(d, s, n); }
#define memcpy(d, s, n) zv_memcpy(d, s, n)
/* --- allocation model: fresh block per request; the zv_fail_at'th request fails --- */
static long zv_alloc_no, zv_live, zv_fail_at = -1;
static void *zv_malloc(unsigned long n) {
    void *p;
    if (zv_alloc_no++ == zv_fail_at) return 0;
    p = malloc(n);
    zv_live++;
    return p;
}
static void *zv_libc_block; static int zv_libc_freed;   /* a block owned by the C library (realpath) */
static void zv_free(void *p) {
    if (p && p == zv_libc_block) { zv_libc_freed++; zv_libc_block = 0; zv_live++; }
    if (p) { zv_live--; free(p); }
}
#ifndef ZV_OWN_ALLOC
void *aligned_alloc(unsigned long a, unsigned long n) { return zv_malloc(n); }
#define posix_memalign zv_posix_memalign
static int posix_memalign(void **out, unsigned long a, unsigned long n) {
    void *p = zv_malloc(n); if (!p) return 12; *out = p; return 0;
}
#define free(p) zv_free(p)
#define malloc(n) zv_malloc(n)
#else
void *aligned_alloc(unsigned long a, unsigned long n);
#define free(p) zv_absfree(p)
void zv_absfree(void *);
#endif
#endif

/* C06 memory primitives: exact extent and C-library meaning for every length and pointer alignment in range.
 * Memory is an absolute range; bytes around the operand are markers that must survive. */
#include "zv.h"
#ifdef ZV_THOROUGH
#define NMAX 100
#else
#define NMAX 40
#endif
#define LO 0x1000L
static char *base(int i, int span) { return (char *)(LO + 0x100 * i + 16 + ZV_PICK(0, 7)); }
/* memset: every byte of the range set, no neighbour touched, for all lengths and alignments */
//zv: abs=0x1000-0x1fff replace=
void ctx_memset(void) {
    char *p; zpl_isize n = ZV_PICK(0, NMAX), i; zpl_u8 c;
    c = 0xa5;
    p = base(0, 0);
    for (i = -16; i < NMAX + 16; i++) p[i] = 0x33;
    zv_check(zpl_memset(p, c, n) == p);
    for (i = -16; i < 0; i++) zv_check(p[i] == 0x33);
    for (i = 0; i < n; i++) zv_check((zpl_u8)p[i] == c);
    for (i = n; i < NMAX + 16; i++) zv_check(p[i] == 0x33);
    zv_end();
}
/* long fills: the wide loops */
//zv: abs=0x1000-0x1fff replace=
void ctx_memset_long(void) {
    char *p = base(0, 0); zpl_isize n = 95 + ZV_PICK(0, 8) * 13, i;
    for (i = -16; i < 240; i++) p[i] = 0x33;
    zpl_zero_size(p, n);
    for (i = -16; i < 0; i++) zv_check(p[i] == 0x33);
    for (i = 0; i < n; i++) zv_check(p[i] == 0);
    for (i = n; i < 240; i++) zv_check(p[i] == 0x33);
    zv_end();
}
//zv: replace=
void ctx_memset_null(void) { zv_check(zpl_memset(0, 1, 5) == 0); zv_check(zpl_memcopy(0, "abc", 3) == 0); zv_check(zpl_memmove(0, "abc", 3) == 0); zv_end(); }
/* copy: disjoint operands */
//zv: abs=0x1000-0x1fff replace=
void ctx_memcopy(void) {
    char *d = (char *)(LO + 0x20 + ZV_PICK(0, 1) * 3), *s = (char *)(LO + 0x110 + ZV_PICK(0, 1) * 5); zpl_isize n = ZV_PICK(0, 5) * 5, i;
    for (i = -16; i < 60; i++) { d[i] = -1; s[i] = i + 17; }
    zv_check(zpl_memcopy(d, s, n) == d);
    for (i = -16; i < 60; i++) zv_check(d[i] == (i >= 0 && i < n ? i + 17 : -1));
    for (i = -16; i < 60; i++) zv_check(s[i] == i + 17);
    zv_end();
}
/* move: every overlap in both directions, equal and different alignments */
static void move_n(char *s, zpl_isize off, zpl_isize n) {
    zpl_isize i; char *d = s + off, *r = (char *)(LO + 0x10);
    for (i = 0; i < 0x70; i++) r[i] = i;
    long s0 = (long)s - (LO + 0x10), d0 = (long)d - (LO + 0x10);
    zv_check(zpl_memmove(d, s, n) == d);
    for (i = 0; i < 0x70; i++) zv_check(r[i] == (i >= d0 && i < d0 + n ? i - d0 + s0 : i));
    zv_end();
}
//zv: abs=0x1000-0x1fff replace=
void ctx_memmove_same_align(void) {      /* word-wise path: distance a multiple of the word size */
    zpl_isize ns[] = { 0, 1, 7, 8, 9, 20, 25 }, n = ns[ZV_PICK(0, 6)];
    move_n((char *)(LO + 0x30 + ZV_PICK(0, 7)), 8 * ZV_PICK(-2, 2), n);
}
//zv: abs=0x1000-0x1fff replace=
void ctx_memmove_other_align(void) {
    zpl_isize ns[] = { 0, 1, 3, 8, 17, 25 }, n = ns[ZV_PICK(0, 5)], of[] = { -17, -9, -4, -1, 1, 3, 7, 12, 20 };
    move_n((char *)(LO + 0x30 + ZV_PICK(0, 1) * 3), of[ZV_PICK(0, 8)], n);
}
//zv: abs=0x1000-0x1fff replace=
void ctx_memmove_far(void) {
    char *d = (char *)(LO + 0x20 + ZV_PICK(0, 1) * 3), *s = (char *)(LO + 0x110 + ZV_PICK(0, 1) * 5); zpl_isize n = ZV_PICK(0, 3) * 11, i;
    for (i = -16; i < 60; i++) { d[i] = -1; s[i] = i + 17; }
    if (ZV_PICK(0, 1)) { char *t = d; d = s; s = t; for (i = -16; i < 60; i++) { d[i] = -1; s[i] = i + 17; } }
    zpl_memmove(d, s, n);
    for (i = -16; i < 60; i++) zv_check(d[i] == (i >= 0 && i < n ? i + 17 : -1));
    zv_end();
}
/* swap: the two ranges exchange, neighbours stay; long ranges go through the chunked path */
static void swap_n(zpl_isize n, zpl_isize room) {
    zpl_u8 *a = (zpl_u8 *)(LO + 0x20 + ZV_PICK(0, 1) * 3), *b = (zpl_u8 *)(LO + 0x20 + room + 32 + ZV_PICK(0, 1) * 5); zpl_isize i;
    for (i = -8; i < room + 8; i++) { a[i] = i % 251; b[i] = (i * 3 + 7) % 241; }
    zpl_memswap(a, b, n);
    for (i = -8; i < room + 8; i++) {
        int in = i >= 0 && i < n;
        zpl_u8 x = i % 251, y = (i * 3 + 7) % 241;
        zv_check(a[i] == (in ? y : x)); zv_check(b[i] == (in ? x : y));
    }
    zv_end();
}
//zv: abs=0x1000-0x1fff replace=
void ctx_memswap(void) { swap_n(ZV_PICK(0, 40), 48); }
//zv: abs=0x1000-0x1fff replace=
void ctx_memswap_long(void) { zpl_isize n[] = { 256, 257, 512, 700 }; swap_n(n[ZV_PICK(0, 3)], 720); }
//zv: abs=0x1000-0x1fff replace=
void ctx_memswap_self(void) { char *a = base(0, 0); zpl_isize i; for (i = 0; i < 40; i++) a[i] = i; zpl_memswap(a, a, ZV_PICK(0, 32)); for (i = 0; i < 40; i++) zv_check(a[i] == i); zv_end(); }
/* compare: unknown bytes; sign decided by the first difference; nothing after it or outside is read */
//zv: replace=
void ctx_memcompare(void) {
    zpl_u8 a[6], b[6]; zpl_isize n = ZV_PICK(0, 6), i, d; zpl_i32 r;
    d = ZV_PICK(0, 6);
    for (i = 0; i < n; i++) { if (i < d) a[i] = b[i] = 10 * i; }
    if (d < n) {
        int up = ZV_PICK(0, 1);
        if (up) { a[d] = ZV_RANGE(128, 255); b[d] = ZV_RANGE(0, 127); } else { a[d] = ZV_RANGE(0, 99); b[d] = ZV_RANGE(100, 255); }
        r = zpl_memcompare(a, b, n);              /* bytes after the difference are uninitialised: not read */
        zv_check(up ? r > 0 : r < 0);
    } else { zv_check(zpl_memcompare(a, b, n) == 0); }
    zv_end();
}
/* search: first / last match, any byte value, any alignment, misses included */
//zv: abs=0x1000-0x1fff replace=
void ctx_memchr(void) {
    char *p = (char *)(LO + 16 + ZV_PICK(0, 3) * 5); zpl_isize ns[] = { 0, 1, 7, 8, 9, 17, 24 }, as[] = { 0, 1, 6, 7, 8, 15, 16, 23, 30 }, n = ns[ZV_PICK(0, 6)], i, at = as[ZV_PICK(0, 8)]; zpl_u8 cs[] = { 0, 0x80, 0xff }, c = cs[ZV_PICK(0, 2)], o;
    o = c + 1;                                   /* differs in the low bit: the hard case for word-wise zero detection */
    for (i = -8; i < 32; i++) p[i] = c;
    for (i = 0; i < n; i++) p[i] = o;
    if (at < n) p[at] = c;
    zv_check(zpl_memchr(p, c, n) == (at < n ? p + at : 0));
    zv_check(zpl_memrchr(p, c, n) == (at < n ? p + at : 0));
    zv_end();
}
//zv: abs=0x1000-0x1fff replace=
void ctx_memchr_two(void) {
    char *p = base(0, 0); zpl_isize n = 20, i, a = ZV_PICK(0, 6) * 3, b = ZV_PICK(0, 6) * 3;
    for (i = 0; i < n; i++) p[i] = 'y'; p[-1] = 'x'; p[n] = 'x';
    p[a] = 'x'; p[b] = 'x';
    zv_check(zpl_memchr(p, 'x', n) == p + (a < b ? a : b));
    zv_check(zpl_memrchr(p, 'x', n) == p + (a < b ? b : a));
    zv_end();
}
/* byte search never reads past the end (heap block of exactly n bytes with unknown contents) */
//zv: replace=
void ctx_memrchr_bounds(void) {
    zpl_isize n = ZV_PICK(0, 8), i; zpl_u8 *p = malloc(n), c = ZV_RANGE(0, 255); zpl_u8 const *r;
    for (i = 0; i < n; i++) p[i] = ZV_RANGE(0, 255);
    r = zpl_memrchr(p, c, n);
    if (r) { zv_check(r >= p && r < p + n); }
    zv_end();
}
/* reads and writes stay inside: the operand ends (begins) exactly where addressable memory ends (begins) */
#define HI 0x2000L
//zv: abs=0x1000-0x1fff replace=
void ctx_edges_search(void) {
    zpl_isize n = ZV_PICK(0, 18), i; char *p = ZV_PICK(0, 1) ? (char *)(HI - n) : (char *)LO; int hit = ZV_PICK(0, 2);
    for (i = 0; i < n; i++) p[i] = 'y'; if (hit == 1 && n) p[n - 1] = 'x'; if (hit == 2 && n) p[0] = 'x';
    zv_check(zpl_memchr(p, 'x', n) == (!n || !hit ? 0 : hit == 1 ? p + n - 1 : p)); zv_check(zpl_memrchr(p, 'x', n) == (!n || !hit ? 0 : hit == 1 ? p + n - 1 : p));
    zv_end();
}
//zv: abs=0x1000-0x1fff replace=
void ctx_edges_move(void) {
    static zpl_isize const ns[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 33 }; zpl_isize n = ns[ZV_PICK(0, 15)], i; int k = ZV_PICK(0, 1), op = ZV_PICK(0, 4); char *a = k ? (char *)(HI - n) : (char *)LO, *b = k ? (char *)LO : (char *)(HI - n);
    for (i = 0; i < n; i++) { a[i] = i; b[i] = i + 50; }
    if (op == 0) { zv_check(zpl_memmove(a, b, n) == a); for (i = 0; i < n; i++) zv_check(a[i] == i + 50 && b[i] == i + 50); }
    if (op == 1) { zv_check(zpl_memcopy(a, b, n) == a); for (i = 0; i < n; i++) zv_check(a[i] == i + 50); }
    if (op == 2) { zpl_memswap(a, b, n); for (i = 0; i < n; i++) zv_check(a[i] == i + 50 && b[i] == i); }
    if (op == 3) { zv_check(zpl_memcompare(a, b, n) == 0 == (n == 0)); for (i = 0; i < n; i++) b[i] = i; zv_check(zpl_memcompare(a, b, n) == 0); }
    if (op == 4) { zv_check(zpl_memset(a, 7, n) == a); zpl_zero_size(b, n); for (i = 0; i < n; i++) zv_check(a[i] == 7 && b[i] == 0); }
    zv_end();
}

/* C13 comparisons: sign of the first differing byte as unsigned values; zero exactly on equality. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
static int ref(char const *a, char const *b, int n) { int i; for (i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
static int sg(int x) { return x < 0 ? -1 : x > 0; }
void ctx_strcmp(void) {
    int n = ZV_PICK(0, 2), m = ZV_PICK(0, 2); char *a, *b;
    if (ZV_PICK(0, 1)) { a = AL(n, "ab\x80"); b = AL(m, "ab\x80"); } else { b = AL(m, "a\xff\x7f"); a = AL(n, "a\xff\x7f"); }
    zv_check(sg(zpl_strcmp(a, b)) == ref(a, b, 9));
    int k = ZV_PICK(0, 3);
    zv_check(sg(zpl_strncmp(a, b, k)) == ref(a, b, k));
    zv_check(zpl_strcmp(a, a) == 0);
    zv_end();
}
/* any first difference at any position: unknown byte values */
void ctx_any(void) {
    int d = ZV_PICK(0, 3), i, up = ZV_PICK(0, 1), hi = ZV_PICK(0, 1); char *a = zs_raw(4), *b = zs_raw(4);
    char lo_v, hi_v;
    for (i = 0; i < d; i++) a[i] = b[i] = 'q';
    if (hi) { lo_v = ZV_RANGE(1, 127); hi_v = ZV_RANGE(-128, -1); } else { lo_v = ZV_RANGE(-128, -65); hi_v = ZV_RANGE(-64, -1); }
    a[d] = up ? hi_v : lo_v; b[d] = up ? lo_v : hi_v;
    for (i = d + 1; i < 4; i++) { a[i] = ZV_RANGE(-128, 127); b[i] = ZV_RANGE(-128, 127); }
    zv_check(sg(zpl_strcmp(a, b)) == (up ? 1 : -1));
    zv_check(sg(zpl_strncmp(a, b, 4)) == (up ? 1 : -1));
    zv_check(sg(zpl_memcompare(a, b, 4)) == (up ? 1 : -1));
    zv_check(zpl_strncmp(a, b, d) == 0 && zpl_memcompare(a, b, d) == 0);
    zv_end();
}
/* nothing after len or after the terminator is read */
void ctx_extent(void) {
    char *a = malloc(2), *b = malloc(2), *c = zs_raw(1), *d = zs_raw(1);
    a[0] = b[0] = 'x'; a[1] = b[1] = 'y'; c[0] = d[0] = 'k';
    zv_check(zpl_strncmp(a, b, 2) == 0);
    zv_check(zpl_memcompare(a, b, 2) == 0);
    zv_check(zpl_strcmp(c, d) == 0 && zpl_strncmp(c, d, 50) == 0);
    zv_end();
}
void ctx_string_equal(void) {
    int n = ZV_PICK(0, 2), m = ZV_PICK(0, 2), i, eq; char al[] = { 'a', 0, -1 }; char x[4], y[4];
    zpl_string s, t;
    for (i = 0; i < n; i++) x[i] = al[ZV_PICK(0, 2)];
    for (i = 0; i < m; i++) y[i] = al[ZV_PICK(0, 2)];
    s = zpl_string_make_length(zpl_heap_allocator(), x, n); t = zpl_string_make_length(zpl_heap_allocator(), y, m);
    eq = n == m; for (i = 0; eq && i < n; i++) if (x[i] != y[i]) eq = 0;
    zv_check(!!zpl_string_are_equal(s, t) == eq);
    zpl_string_free(s); zpl_string_free(t);
    zv_end();
}

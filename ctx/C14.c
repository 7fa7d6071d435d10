/* C14 library strings against a byte-list model. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
static zpl_string s; static char m[64]; static int n;
static void same(void) {
    int i;
    zv_check(zpl_string_length(s) == n);
    zv_check(zpl_string_capacity(s) >= n);
    zv_check(zpl_string_available_space(s) == zpl_string_capacity(s) - n);
    for (i = 0; i < n; i++) zv_check(s[i] == m[i]);
    zv_check(s[n] == 0);
}
static void touch_capacity(void) { int i, c = zpl_string_capacity(s); for (i = n + 1; i <= c; i++) s[i] = 'J'; }   /* whole capacity plus terminator is writable */
static void put(char const *p, int k) { int i; for (i = 0; i < k; i++) m[n++] = p[i]; }
static void op(int k) {
    char *t; zpl_string o; int i, a, b;
    switch (k) {
        case 0: i = ZV_PICK(0, 2); t = zs_raw(2); t[0] = 'p'; t[1] = 'q'; o = zpl_string_append_length(s, t, i); if (o) { s = o; put("pq", i); } else zv_check(zv_fail_at >= 0); break;
        case 1: o = zpl_string_appendc(s, ZV_PICK(0, 1) ? "xyz" : ""); if (o) { if (zpl_string_length(o) != n) put("xyz", 3); s = o; } else zv_check(zv_fail_at >= 0); break;
        case 2: i = ZV_PICK(0, 2); o = zpl_string_set(s, i == 0 ? "" : i == 1 ? "k" : "longer"); if (o) { s = o; n = 0; put(i == 0 ? "" : i == 1 ? "k" : "longer", i == 0 ? 0 : i == 1 ? 1 : 6); } else zv_check(zv_fail_at >= 0); break;
        case 3: zpl_string_clear(s); n = 0; break;
        case 4: zpl_string_trim(s, ZV_PICK(0, 1) ? "a " : "qz"); 
            { int set = 0; } break;
        case 5: i = ZV_PICK(0, 3) * 2; o = zpl_string_make_space_for(s, i); if (o) { s = o; zv_check(zpl_string_available_space(s) >= i); } else zv_check(zv_fail_at >= 0); break;
        case 6: { zpl_rune r[] = { 'e', 0xe9, 0x20ac, 0x1f600 }; char const *u[] = { "e", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; i = ZV_PICK(0, 3);
            o = zpl_string_append_rune(s, r[i]); if (o) { s = o; put(u[i], i + 1); } else zv_check(zv_fail_at >= 0); } break;
        case 7: o = zpl_string_duplicate(zpl_heap_allocator(), s); if (o) { zpl_string_free(s); s = o; } else zv_check(zv_fail_at >= 0); break;
        case 8: o = zpl_string_make(zpl_heap_allocator(), "mn"); if (o) { zpl_string r = zpl_string_append(s, o); zpl_string_free(o); if (r) { s = r; put("mn", 2); } else zv_check(zv_fail_at >= 0); } break;
        case 9: zv_check(zpl_string_append_rune(s, -5) == s); break;
    }
    same(); touch_capacity(); same();
}
static void begin(void) {
    int r = ZV_PICK(0, 3);
    if (r == 0) s = zpl_string_make(zpl_heap_allocator(), "ab");
    if (r == 1) s = zpl_string_make_reserve(zpl_heap_allocator(), 3);
    if (r == 2) s = zpl_string_make_length(zpl_heap_allocator(), 0, 2);
    if (r == 3) s = zpl_string_make(zpl_heap_allocator(), 0);
    if (r == 0) put("ab", 2);
    if (r == 2) put("\0\0", 2);
    same(); touch_capacity(); same();
}
static void end(void) { zpl_string_free(s); zv_end(); }
#ifdef ZV_THOROUGH
#define S3 op(ZV_PICK(0, 9) == 4 ? 0 : ZV_PICK(0, 3));
#else
#define S3
#endif
static int notrim(int k) { return k == 4 ? 3 : k; }
void ctx_hist_a(void) { begin(); op(notrim(ZV_PICK(0, 1))); op(notrim(ZV_PICK(0, 9))); S3 end(); }
void ctx_hist_b(void) { begin(); op(notrim(ZV_PICK(2, 5))); op(notrim(ZV_PICK(0, 9))); S3 end(); }
void ctx_hist_c(void) { begin(); op(notrim(ZV_PICK(6, 9))); op(notrim(ZV_PICK(0, 9))); S3 end(); }
void ctx_refused(void) { begin(); zv_fail_at = zv_alloc_no; op(notrim(ZV_PICK(0, 9))); zv_fail_at = -1; op(0); end(); }
void ctx_make_refused(void) {
    zv_fail_at = 0;
    if (ZV_PICK(0, 1)) s = zpl_string_make_reserve(zpl_heap_allocator(), 3); else s = zpl_string_make(zpl_heap_allocator(), "abc");
    zv_check(s == 0 && zv_live == 0);
    zpl_string_free(s);
    zv_end();
}
void ctx_trim(void) {
    int k = ZV_PICK(0, 4), i, a, b; char *t = AL(k, "a z");
    s = zpl_string_make(zpl_heap_allocator(), t);
    for (a = 0; a < k && t[a] != 'z'; a++);
    for (b = k; b > a && t[b - 1] != 'z'; b--);
    n = 0; put(t + a, b - a);
    zv_check(zpl_string_trim(s, " a") == s);
    same(); touch_capacity(); same();
    end();
}
void ctx_trim_space(void) {
    s = zpl_string_make(zpl_heap_allocator(), " \t\r\n\v\fq w \t\r\n\v\f"); put("q w", 3);
    zpl_string_trim_space(s); same(); end();
}
void ctx_join(void) {
    char const *parts[3] = { "ab", "", "c" }; int c = ZV_PICK(0, 3), i; char const *glue = ZV_PICK(0, 1) ? ", " : "";
    if (ZV_PICK(0, 1)) zv_fail_at = ZV_PICK(0, 5);
    s = zpl_string_join(zpl_heap_allocator(), parts, c, glue);
    if (!s) { zv_check(zv_fail_at >= 0 && zv_live == 0); zv_end(); return; }
    for (i = 0; i < c; i++) { put(parts[i], zs_len(parts[i])); if (i + 1 < c) put(glue, zs_len(glue)); }
    same(); end();
    zv_check(zv_live == 0);
}
void ctx_rune_ends(void) {          /* the lowest and highest code points of every encoded length */
    zpl_rune r[] = { 0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff };
    char const *u[] = { "\0", "\1", "\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf" };
    int k[] = { 1, 1, 1, 2, 2, 3, 3, 4, 4 }, i = ZV_PICK(0, 8);
    begin(); s = zpl_string_append_rune(s, r[i]); put(u[i], k[i]); same(); touch_capacity(); same(); op(0); end();
}

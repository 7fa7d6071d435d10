/* C16 UTF-8 against the Unicode standard's table; exact-size blocks. */
//zv-all: steps=6000
#include "zv.h"
/* reference decoder (Unicode table 3-7): returns width, rune in *r; malformed: U+FFFD width 1 */
static int ref(unsigned char const *s, int n, zpl_rune *r) {
    int c = n > 0 ? s[0] : 0, lo = 0x80, hi = 0xbf, k, i; zpl_rune v;
    *r = 0xfffd;
    if (n <= 0) return 0;
    if (c < 0x80) { *r = c; return 1; }
    if (c < 0xc2 || c > 0xf4) return 1;
    k = c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f;
    if (n < k) return 1;
    v = c & (k == 2 ? 0x1f : k == 3 ? 0x0f : 0x07);
    for (i = 1; i < k; i++) { if (s[i] < lo || s[i] > hi) return 1; v = v << 6 | (s[i] & 0x3f); lo = 0x80; hi = 0xbf; }
    *r = v; return k;
}
static void dec(unsigned char const *b, int n) {
    unsigned char *p = malloc(n); zpl_rune got = 7, want; int w, i;
    for (i = 0; i < n; i++) p[i] = b[i];
    w = ref(p, n, &want);
    zv_check(zpl_utf8_decode(p, n, &got) == w);
    zv_check(got == want);
}
void ctx_decode_first(void) {                 /* every first byte, every length, continuation at both ends */
    unsigned char b[4]; b[0] = ZV_PICK(0, 255); b[1] = ZV_PICK(0, 1) ? 0x80 : 0xbf; b[2] = b[3] = 0x80;
    dec(b, ZV_PICK(0, 4)); zv_end();
}
void ctx_decode_second(void) {                /* every second byte after every class of first byte */
    unsigned char f[] = { 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xee, 0xf0, 0xf3, 0xf4, 0xf5, 0xc1 }, b[4]; b[0] = f[ZV_PICK(0, 10)]; b[1] = ZV_PICK(0x70, 0xff) ; b[2] = 0xbf; b[3] = 0x80;
    dec(b, 4); zv_end();
}
void ctx_decode_rest(void) {
    unsigned char f[] = { 0xe1, 0xf1, 0xf4 }, t[] = { 0, 0x7f, 0x80, 0x95, 0xaa, 0xbf, 0xc0, 0xff }, b[4];
    b[0] = f[ZV_PICK(0, 2)]; b[1] = ZV_PICK(0, 1) ? 0x8a : 0x85; b[2] = t[ZV_PICK(0, 7)]; b[3] = t[ZV_PICK(0, 7)];
    dec(b, 3 + ZV_PICK(0, 1)); zv_end();
}
void ctx_decode_any(void) {                   /* one byte of each class of first byte, the others unknown: bounds, width within the given length */
    unsigned char f[] = { 0, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe5, 0xed, 0xef, 0xf0, 0xf2, 0xf4, 0xf5, 0xf8, 0xff };
    int n = ZV_PICK(0, 4), i, w; unsigned char *p = malloc(n); zpl_rune r;
    for (i = 0; i < n; i++) p[i] = i == 0 ? f[ZV_PICK(0, 17)] : ZV_RANGE(0, 255);
    w = zpl_utf8_decode(p, n, &r);
    zv_check(w >= 0 && w <= n); zv_check(n == 0 || w >= 1);
    zpl_utf8_decode(p, n, 0);
    w = zpl_utf8_codepoint_size(p, n); zv_check(w >= 0 && w <= n + 1);
    zv_end();
}
/* encode: class boundaries, every single-bit value and its complement within the class, invalid runes */
static zpl_rune pick_rune(void) {
    zpl_i64 t[] = { 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdabc, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fffffff, -1, -0x7fffffff, 0x1f600, 0x20ac, 0xe9, 0x155, 0xaaa, 0x15555, 0xaaaaa };
    int k = ZV_PICK(0, 69);
    if (k < 25) return t[k];
    k -= 25; if (k < 21) return 1 << k;
    k -= 21; if (k < 24) return 0x10ffff - (1 << (k % 20)); 
    return 0;
}
void ctx_encode(void) {
    zpl_rune r = pick_rune(), want = r, got; unsigned char *b; int n, w;
    if (r < 0 || r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff)) want = 0xfffd;
    n = want < 0x80 ? 1 : want < 0x800 ? 2 : want < 0x10000 ? 3 : 4;
    b = malloc(n);                            /* exactly the bytes of this rune */
    zv_check(zpl_utf8_encode_rune(b, r) == n);
    w = ref(b, n, &got);
    zv_check(w == n && got == want);
    zv_end();
}
void ctx_encode_any(void) { unsigned char *b = malloc(4); int w = zpl_utf8_encode_rune(b, ZV_RANGE(-2147483647 - 1, 2147483647)); zv_check(w >= 1 && w <= 4); zv_end(); }
/* lengths */
static unsigned char *any(int n) { unsigned char *p = malloc(n + 1); int i; for (i = 0; i < n; i++) if (ZV_PICK(0, 1)) p[i] = ZV_RANGE(1, 127); else p[i] = ZV_RANGE(128, 255); p[n] = 0; return p; }
void ctx_len_any(void) {
    int n = ZV_PICK(0, 4), m = ZV_PICK(0, 5); unsigned char *p = any(n);
    zpl_isize l = zpl_utf8_strlen(p); zv_check(l >= -1 && l <= n);
    l = zpl_utf8_strnlen(p, m); zv_check(l >= -1 && l <= n && l <= m);
    unsigned char *q = malloc(2); q[0] = 'a'; q[1] = 'b';
    zv_check(zpl_utf8_strnlen(q, 2) == 2);
    zv_end();
}
void ctx_len(void) {
    zv_check(zpl_utf8_strlen((zpl_u8 const *)"a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80z") == 5);
    zv_check(zpl_utf8_strnlen((zpl_u8 const *)"a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80z", 11) == 5);
    zv_check(zpl_utf8_strnlen((zpl_u8 const *)"a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80z", 3) == 2);
    zv_check(zpl_utf8_strlen((zpl_u8 const *)"\x80") == -1 && zpl_utf8_strlen((zpl_u8 const *)"") == 0);
    zv_end();
}
/* UCS-2 */
void ctx_to_ucs2_any(void) {
    int n = ZV_PICK(0, 4), m = ZV_PICK(0, 3); unsigned char *p = any(n); zpl_u16 *b = malloc(m * 2), *r;
    r = zpl_utf8_to_ucs2(b, m, p);
    zv_check(r == 0 || r == b);
    zv_end();
}
void ctx_to_utf8_any(void) {
    int n = ZV_PICK(0, 2), m = ZV_PICK(0, 6), i; zpl_u16 *p = malloc((n + 1) * 2); zpl_u8 *b = malloc(m), *r;
    for (i = 0; i < n; i++) { int c = ZV_PICK(0, 4); p[i] = c == 0 ? ZV_RANGE(1, 0x7f) : c == 1 ? ZV_RANGE(0x80, 0x7ff) : c == 2 ? ZV_RANGE(0xd800, 0xdbff) : c == 3 ? ZV_RANGE(0xdc00, 0xdfff) : ZV_RANGE(0x800, 0xffff); }
    p[n] = 0;
    r = zpl_ucs2_to_utf8(b, m, p);
    zv_check(r == 0 || r == b);
    zv_end();
}
void ctx_ucs2_round_trip(void) {
    zpl_rune r = pick_rune(); unsigned char u[5], *v; zpl_u16 *w; int n;
    if (r <= 0 || r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff)) { zv_end(); return; }
    n = zpl_utf8_encode_rune(u, r); u[n] = 0;
    int units = r < 0x10000 ? 1 : 2;
    w = malloc((units + 1) * 2);
    zv_check(zpl_utf8_to_ucs2(w, units + 1, u) == w);
    zv_check(w[units] == 0);
    if (units == 1) zv_check(w[0] == r); else zv_check(w[0] == 0xd800 + ((r - 0x10000) >> 10) && w[1] == 0xdc00 + ((r - 0x10000) & 0x3ff));
    v = malloc(n + 1);
    zv_check(zpl_ucs2_to_utf8(v, n + 1, w) == v);
    for (int i = 0; i <= n; i++) zv_check(v[i] == u[i]);
    zv_check(zpl_utf8_to_ucs2(w, units, u) == 0);       /* one unit short: refused */
    zv_check(zpl_ucs2_to_utf8(v, n, w) == 0);
    zv_end();
}
void ctx_ucs2_malformed(void) {
    char const *t[] = { "\x80", "\xc1\x80", "\xe0\x9f\x80", "\xed\xa0\x80", "\xf0\x8f\x80\x80", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "a\xff" };
    zpl_u16 b[8];
    zv_check(zpl_utf8_to_ucs2(b, 8, (zpl_u8 const *)t[ZV_PICK(0, 10)]) == 0);
    zpl_u16 lone[2] = { 0xd800, 0 }, low[3] = { 0xdc00, 0xd800, 0 }, mis[3] = { 0xd801, 'a', 0 }, xs[2] = { 'x', 0 }; zpl_u8 o[16];
    zv_check(zpl_ucs2_to_utf8(o, 16, lone) == 0 && zpl_ucs2_to_utf8(o, 16, low) == 0 && zpl_ucs2_to_utf8(o, 16, mis) == 0);
    zv_check(zpl_utf8_to_ucs2_buf((zpl_u8 const *)"ab")[1] == 'b');
    zv_check(zpl_ucs2_to_utf8_buf(xs)[0] == 'x');
    zv_end();
}
/* counting steps over every lead byte by the length it announces */
void ctx_strlen_leads(void) {
    int c = ZV_PICK(1, 255), k = c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0, i; zpl_u8 s[8]; s[0] = c; for (i = 1; i < k; i++) s[i] = 0xa5; if (!k) k = 1; s[k] = 'z'; s[k + 1] = 0;
    int bad = (c & 0xc0) == 0x80 || c >= 0xf8; zv_check(zpl_utf8_strlen(s) == (bad ? -1 : 2)); zv_check(zpl_utf8_strnlen(s, k + 1) == (bad ? -1 : 2)); zv_check(zpl_utf8_strnlen(s, k) == (bad ? -1 : 1)); zv_end();
}

/* C36 base64: against the alphabet's definition, for every byte at every place of a group, and arbitrary text for the decoder */
//zv-all: steps=6000
#include "zv_pre.h"
#include "zv.h"
#include "zvs.h"
static int val(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static int chr(int v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
static unsigned char *bytes(int n) { unsigned char *p = (unsigned char *)zs_raw(n); return p; }
/* exact-length copy: no terminator behind it */
static char *exact(char const *s, int n) { char *p = (char *)zs_raw(n - 1 < 0 ? 0 : n - 1); int i; for (i = 0; i < n; i++) p[i] = s[i]; return p; }
static void check_enc(unsigned char const *d, int n, char const *e) {
    int i, o = 0; zv_check(e != 0);
    for (i = 0; i < n; i += 3) {
        int b0 = d[i], b1 = i + 1 < n ? d[i + 1] : 0, b2 = i + 2 < n ? d[i + 2] : 0;
        zv_check(e[o] == chr(b0 >> 2)); zv_check(e[o + 1] == chr((b0 & 3) << 4 | b1 >> 4)); zv_check(e[o + 2] == (i + 1 < n ? chr((b1 & 15) << 2 | b2 >> 6) : '=')); zv_check(e[o + 3] == (i + 2 < n ? chr(b2 & 63) : '=')); o += 4;
    }
    zv_check(e[o] == 0);
}
#ifdef ZV_THOROUGH
#define ZV_PLACE(a, b) ZV_PICK(a, b)
#else
#define ZV_PLACE(a, b) (a)
#endif
static unsigned char pat[] = { 0, 0xff, 0x5a, 0x81 };
#ifdef ZV_THOROUGH
static int some(void) { return ZV_PICK(0, 255); }
#else
static int some(void) { static unsigned char b[] = { 0, 1, 2, 3, 4, 8, 15, 16, 32, 63, 64, 127, 128, 191, 192, 240, 252, 255 }; return b[ZV_PICK(0, sizeof b - 1)]; }
#endif
/* every letter of the alphabet, both ways */
void ctx_alphabet(void) { int i; unsigned char *d = bytes(48); char *e, t[65]; unsigned char *r; for (i = 0; i < 16; i++) { int a = 4 * i; d[3 * i] = a << 2 | (a + 1) >> 4; d[3 * i + 1] = (a + 1) << 4 | (a + 2) >> 2; d[3 * i + 2] = (a + 2) << 6 | (a + 3); } e = (char *)zpl_base64_encode(zpl_heap(), d, 48); for (i = 0; i < 64; i++) zv_check(e[i] == chr(i)); zv_check(e[64] == 0); r = zpl_base64_decode(zpl_heap(), e, 64); for (i = 0; i < 48; i++) zv_check(r[i] == d[i]); zpl_mfree(e); zpl_mfree(r); zv_check(zv_live == 0); zv_end(); }
static void one(int n, int at) {     /* every byte at place at, patterned elsewhere */
    unsigned char *d = bytes(n); int i, k = ZV_PICK(0, 1); char *e, *x; unsigned char *r;
    for (i = 0; i < n; i++) d[i] = pat[(i + k) & 3]; d[at] = some();
    e = (char *)zpl_base64_encode(zpl_heap(), d, n); check_enc(d, n, e);
    x = exact(e, zs_len(e)); r = zpl_base64_decode(zpl_heap(), x, zs_len(e)); zv_check(r != 0); for (i = 0; i < n; i++) zv_check(r[i] == d[i]); zv_check(r[n] == 0);
    zpl_mfree(e); zpl_mfree(r); zv_check(zv_live == 0);
}
//zv: slevel=3000
void ctx_byte_1(void) { one(1, 0); zv_end(); }
//zv: slevel=3000
void ctx_byte_2(void) { one(2, ZV_PICK(0, 1)); zv_end(); }
//zv: slevel=3000
void ctx_byte_3(void) { one(3, ZV_PICK(0, 2)); zv_end(); }
//zv: slevel=3000 tier=thorough
void ctx_byte_5(void) { one(5, ZV_PICK(3, 4)); zv_end(); }
void ctx_lengths(void) { int n = ZV_PICK(1, 24), i; unsigned char *d = bytes(n); char *e; for (i = 0; i < n; i++) d[i] = 37 * i + n; e = (char *)zpl_base64_encode(zpl_heap(), d, n); check_enc(d, n, e); zv_end(); }
/* any bytes: in bounds, result printable */
void ctx_encode_any(void) { int n = ZV_PICK(0, 9), i; unsigned char *d = bytes(n ? n - 1 : 0); char *e; for (i = 0; i < n; i++) d[i] = ZV_RANGE(0, 255); e = (char *)zpl_base64_encode(zpl_heap(), n ? d : (void *)d, n); if (n == 0) { zv_check(e == 0); } else { zv_check(e[(n + 2) / 3 * 4] == 0); zpl_mfree(e); } zv_check(zv_live == 0); zv_end(); }
/* arbitrary text of every length: stays inside, leaks nothing, says no or gives the bytes */
static void dec(char const *x, int n) {
    unsigned char *r; int i, o = 0, p = 0, bad = n % 4 != 0;
    r = zpl_base64_decode(zpl_heap(), x, n);
    if (!bad && n) { if (x[n - 1] == '=') p = x[n - 2] == '=' ? 2 : 1; for (i = 0; i < n - p; i++) if (val(x[i]) < 0) bad = 1; }
    if (bad) { zv_check(r == 0); }
    else { zv_check(r != 0); for (i = 0; i < n; i += 4) { int v0 = val(x[i]), v1 = val(x[i + 1]), v2 = x[i + 2] == '=' ? 0 : val(x[i + 2]), v3 = x[i + 3] == '=' ? 0 : val(x[i + 3]); zv_check(r[o] == (unsigned char)(v0 << 2 | v1 >> 4)); o++; if (x[i + 2] != '=') { zv_check(r[o] == (unsigned char)(v1 << 4 | v2 >> 2)); o++; } if (x[i + 3] != '=') { zv_check(r[o] == (unsigned char)(v2 << 6 | v3)); o++; } } zv_check(r[o] == 0); zpl_mfree(r); }
    zv_check(zv_live == 0);
}
//zv: slevel=5000
void ctx_decode_4(void) { dec(exact(AL(4, "Ab=\x80"), 4), 4); zv_end(); }
//zv: slevel=5000
void ctx_decode_char_0(void) { char t[8] = "QUJDREVG"; t[ZV_PLACE(0, 3)] = ZV_PICK(-128, 127); dec(exact(t, 8), 8); zv_end(); }
//zv: slevel=5000
void ctx_decode_char_1(void) { char t[8] = "QUJDREVG"; t[ZV_PLACE(5, 7)] = ZV_PICK(-128, 127); dec(exact(t, 8), 8); zv_end(); }
//zv: slevel=5000
void ctx_decode_char_2(void) { char t[4] = "QQ=="; t[ZV_PICK(0, 3)] = AL(1, "A/+=,*[`{-\0\xff")[0]; dec(exact(t, 4), 4); zv_end(); }
//zv: slevel=4000
void ctx_decode_len(void) { int n = ZV_PICK(0, 9); dec(exact("QUJDREVGR", n), n); zv_end(); }
/* longer than the length given: what follows does not matter */
void ctx_decode_prefix(void) { unsigned char *r = zpl_base64_decode(zpl_heap(), "QUJDREVG====", 4); zv_check(r && r[0] == 'A' && r[1] == 'B' && r[2] == 'C' && r[3] == 0); zpl_mfree(r); zv_check(zv_live == 0); zv_end(); }
void ctx_refused(void) { unsigned char *r; zv_fail_at = 0; r = ZV_PICK(0, 1) ? zpl_base64_encode(zpl_heap(), "abc", 3) : zpl_base64_decode(zpl_heap(), "QUJD", 4); zv_check(r == 0 && zv_live == 0); zv_check(zpl_base64_encode(zpl_heap(), 0, 3) == 0 && zpl_base64_decode(zpl_heap(), 0, 4) == 0); zv_end(); }

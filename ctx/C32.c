/* C32 numbers in documents, against a grammar-driven reference; every text is an exact-size block. */
#define ZPL_ENABLE_PARSER
#include "zv.h"
#include "zvs.h"
static int dig(char c) { return c >= '0' && c <= '9'; }
static int hex(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int hv(char c) { return dig(c) ? c - '0' : (c | 32) - 'a' + 10; }
/* reference: length of the number starting at s (0: not a number) and its parts */
static struct { int len, neg, hex, frac, exp, expneg, lead; unsigned long ip; double v; int is_real; long iv; } R;
static void ref(char const *s) {
    int i = 0, n = 0, e, k; double scale = 1, v = 0; unsigned long u = 0; int big = 0;
    R.len = 0; R.neg = R.hex = R.frac = R.exp = R.expneg = 0; R.lead = 1; R.iv = 0; R.v = 0; R.is_real = 0;
    if (s[0] == '+' || s[0] == '-') { R.neg = s[0] == '-'; i = 1; }
    if (s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { R.hex = 1; i += 2; while (hex(s[i])) { u = u * 16 + hv(s[i]); i++; n++; } if (!n || s[i] == '.') return; R.len = i; R.iv = R.neg ? -(long)u : (long)u; return; }
    while (dig(s[i])) { if (u > (9223372036854775807UL + R.neg - (s[i] - '0')) / 10) big = 1; u = u * 10 + (s[i] - '0'); v = v * 10 + (s[i] - '0'); i++; n++; }
    if (!n) R.lead = 0;
    if (s[i] == '.') { R.is_real = 1; i++; while (dig(s[i])) { scale = scale * 10; v = v + (s[i] - '0') / scale; i++; n++; R.frac++; } if (s[i] == '.') return; }
    if (!n) return;
    if (s[i] == 'e' || s[i] == 'E') { e = i + 1; if (s[e] == '+' || s[e] == '-') { R.expneg = s[e] == '-'; e++; } if (dig(s[e])) { while (dig(s[e])) { R.exp = R.exp * 10 + (s[e] - '0'); e++; } i = e; } else R.expneg = 0; }
    R.len = i;
    if (big) R.is_real = 1;
    for (k = 0; k < R.exp; k++) { if (R.expneg) v = v / 10; else { v = v * 10; if (u > (9223372036854775807UL + R.neg) / 10) { if (u) R.is_real = 1; } u = u * 10; } }
    if (R.exp && R.expneg && u) R.is_real = 1;
    R.v = R.neg ? -v : v; R.iv = R.neg ? -(long)u : (long)u;
}
static int near(double a, double b) { double d = a - b, m = b < 0 ? -b : b; if (d < 0) d = -d; return d <= m * 1e-12; }
static void parse(char *s) {
    zpl_adt_node n = { 0 }; int i, len = zs_len(s); char *e, keep[80];
    for (i = 0; i <= len; i++) keep[i] = s[i];
    ref(s);
    e = zpl_adt_parse_number(&n, s);
    for (i = 0; i <= len; i++) zv_check(s[i] == keep[i]);
    if (len == 0) { zv_check(e == s && n.type == ZPL_ADT_TYPE_UNINITIALISED); zv_end(); return; }
    if (!R.len) { zv_check(n.type == ZPL_ADT_TYPE_UNINITIALISED); zv_check(e > s && e <= s + len); zv_end(); return; }
    zv_check(e == s + R.len);
    zv_check(n.type == (R.is_real ? ZPL_ADT_TYPE_REAL : ZPL_ADT_TYPE_INTEGER));
    if (R.is_real) zv_check(near(n.real, R.v));
    else zv_check(n.integer == R.iv);
    zv_check((n.props == ZPL_ADT_PROPS_IS_HEX) == R.hex);
    /* strict reading takes the text only as a whole */
    { zpl_adt_node m = { 0 }; char *f; m.name = s; f = zpl_adt_parse_number_strict(&m, s);
      if (R.len == len) { zv_check(f == s + len && m.type == n.type && m.integer == n.integer); } else { zv_check(f == s && m.type == ZPL_ADT_TYPE_UNINITIALISED && m.name == s); } }
    zv_end();
}
void ctx_a(void) { parse(AL(ZV_PICK(0, 2), "019.-+eExXaf, ")); }
static char *join(char const *a, int n, char const *al, int k, char const *z) { int i, p = 0; char b[80], *r; for (; *a; a++) b[p++] = *a; for (i = 0; i < n; i++) b[p++] = al[ZV_PICK(0, k - 1)]; for (; *z; z++) b[p++] = *z; r = zs_raw(p); for (i = 0; i < p; i++) r[i] = b[i]; return r; }
#define J(a, n, al, z) join(a, n, al, sizeof(al) - 1, z)
#ifdef ZV_THOROUGH
#define N 3
#else
#define N 2
#endif
void ctx_b(void) { parse(J("1", N, "09.-+eExa,", "")); }
void ctx_c(void) { parse(J("-", N, "09.-+eExa,", "")); }
void ctx_d(void) { parse(J("0x", N, "0fF9.g-,", "")); }
void ctx_d2(void) { parse(J("-0X", N, "0fF9.g-,", "")); }
void ctx_e(void) { parse(J("2.", N, "05.eE+-,", "")); }
void ctx_f(void) { parse(J(".", N, "05.eE+-,", "")); }
void ctx_g(void) { parse(J("-3.25e", N, "02+-.,", "")); }
void ctx_h(void) { parse(J("7e", N, "12+-.,", "")); }
void ctx_i(void) { parse(J("+", N, "09.-+ex,", "")); }
void ctx_edge(void) { static char const *const X[] = { "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999", "000000000000000000000001", "0000000000000000000000009223372036854775807", "1e18", "9e18", "1e19", "-9e18", "123456789e10", "123456789e11", "0e30", "1e-30", "5e300", "5e-300", "1.5e10", "1.5e256", "0.000000000000000000001", "0x7fffffffffffffff", "0xffffffffffffffff", "0.1e1", "1.0000000000000000000000000000000000000000000000001", "31415926535897932384.6" }; parse(J(X[ZV_PICK(0, sizeof(X) / sizeof(X[0]) - 1)], 0, "0", "")); }
/* any length: digits before and after the point, exponent digits */
static void longn(char *s, int len) { zpl_adt_node n = { 0 }; char *e = zpl_adt_parse_number(&n, s); zv_check(e >= s && e <= s + len); if (n.type != ZPL_ADT_TYPE_UNINITIALISED) zv_check(e == s + len); zv_end(); }
static char *fill(int n, char c) { char *p = zs_raw(n); int i; for (i = 0; i < n; i++) p[i] = c; return p; }
void ctx_long_int(void) { int n = ZV_PICK(40, 52); longn(fill(n, '9'), n); }
void ctx_long_zero(void) { int n = ZV_PICK(44, 50); longn(fill(n, '0'), n); }
void ctx_long_frac(void) { int n = ZV_PICK(42, 52); char *p = fill(n, '3'); p[ZV_PICK(0, 3) * 10] = '.'; longn(p, n); }
void ctx_long_neg(void) { int n = ZV_PICK(44, 52); char *p = fill(n, '7'); p[0] = '-'; p[ZV_PICK(0, 1) ? 1 : 40] = '.'; longn(p, n); }
void ctx_long_dot(void) { int n = ZV_PICK(44, 52); char *p = fill(n, '4'); p[n - 1] = '.'; longn(p, n); }
void ctx_long_hex(void) { int n = ZV_PICK(44, 52); char *p = fill(n, 'f'); p[0] = '0'; p[1] = 'x'; longn(p, n); }
void ctx_long_exp(void) { int n = ZV_PICK(3, 14), i; char *p = fill(n, '0'); p[0] = '1'; p[1] = 'e'; if (ZV_PICK(0, 1)) { p[1] = '.'; p[2] = '5'; if (n > 4) p[3] = 'e'; } longn(p, n); }
void ctx_huge_exp(void) { int n = ZV_PICK(5, 8), i; char *p = fill(n, '9'); p[1] = '.'; p[3] = 'e'; if (n > 6 && ZV_PICK(0, 1)) p[4] = '-'; longn(p, n); }
/* what is printed reads back as the same number */
static void rt(char const *t, char const *want) {
    int i, len = zs_len(t), k = zs_len(want); char *s = zs_raw(len); zpl_adt_node n = { 0 }; zpl_file f; zpl_isize sz = 0; zpl_u8 *o;
    for (i = 0; i < len; i++) s[i] = t[i];
    zpl_adt_parse_number(&n, s); zv_check(zpl_file_stream_new(&f, zpl_heap()));
    zv_check(zpl_adt_print_number(&f, &n) == ZPL_ADT_ERROR_NONE);
    o = zpl_file_stream_buf(&f, &sz); zv_check(sz == k); for (i = 0; i < k; i++) zv_check(o[i] == want[i]);
    zpl_file_close(&f); zv_check(zv_live == 0); zv_end();
}
//zv: timeout=600
void ctx_print(void) { static char const *const X[] = { "1.5e10", "1.5e10", "1.025e-3", "1.025e-3", "-0.25e+4", "-0.25e4", "-0", "-0", "0x1F", "0x1f", "12", "12", "-7", "-7", ".5", ".5", ".05", ".05", "-.5", "-.5", "3.0e300", "3.00e300", "-9223372036854775808", "-9223372036854775808", "12.004e2", "12.004e2", "1e3", "1000" }; int k = ZV_PICK(0, 13); rt(X[2 * k], X[2 * k + 1]); }
void ctx_hand(void) { zpl_adt_node n = { 0 }; zpl_file f; zpl_isize sz = 0; zpl_u8 *o; int i; static char const W[] = "3.0141"; n.type = ZPL_ADT_TYPE_REAL; n.props = ZPL_ADT_PROPS_IS_PARSED_REAL; n.base = 3; n.base2 = 141; n.base2_offset = 1; n.lead_digit = 1; zv_check(zpl_file_stream_new(&f, zpl_heap())); zv_check(zpl_adt_print_number(&f, &n) == 0); o = zpl_file_stream_buf(&f, &sz); zv_check(sz == 6); for (i = 0; i < 6; i++) zv_check(o[i] == W[i]); zpl_file_close(&f); zv_end(); }
void ctx_convert(void) {
    zpl_adt_node n = { 0 }; int k = ZV_PICK(0, 6); char *s = AL(1, "57x"); n.type = k; if (k == ZPL_ADT_TYPE_STRING || k == ZPL_ADT_TYPE_MULTISTRING) n.string = s; else n.integer = 42;
    if (ZV_PICK(0, 1)) { zpl_adt_error e = zpl_adt_str_to_number(&n); zv_check(e == (k >= 5 ? ZPL_ADT_ERROR_ALREADY_CONVERTED : k == 3 || k == 4 ? ZPL_ADT_ERROR_NONE : ZPL_ADT_ERROR_INVALID_TYPE)); }
    else { zpl_adt_error e = zpl_adt_str_to_number_strict(&n); zv_check(e == (k >= 5 ? ZPL_ADT_ERROR_ALREADY_CONVERTED : k == 3 || k == 4 ? ZPL_ADT_ERROR_NONE : ZPL_ADT_ERROR_INVALID_TYPE)); }
    if (k == 3 || k == 4) { if (s[0] == 'x') { zv_check(n.type == k && n.string == s); } else zv_check(n.type == ZPL_ADT_TYPE_INTEGER && n.integer == s[0] - '0'); } else zv_check(n.type == k && n.integer == 42);
    zv_end();
}

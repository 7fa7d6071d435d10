/* C15 integer <-> text. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
static int len_of(zpl_u64 v, int base) { int n = 1; while (v >= (zpl_u64)base) { v /= base; n++; } return n; }
static int dig(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; if (c >= 'a' && c <= 'z') return c - 'a' + 36; return c == '@' ? 62 : c == '$' ? 63 : 99; }
static zpl_u64 value_of(char const *s, int base) { zpl_u64 v = 0; while (*s) { zv_check(dig(*s) < base); v = v * base + dig(*s); s++; } return v; }
static zpl_u64 pick_val(void) {
    zpl_u64 t[] = { 0, 1, 7, 9, 10, 15, 16, 61, 62, 63, 64, 99, 100, 255, 256, 1234567890, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 999999999999999999ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfedcba9876543210ull, ~0ull };
    return t[ZV_PICK(0, 24)];
}
static int pick_base(void) { int t[] = { 2, 8, 10, 16, 36, 64 }; return t[ZV_PICK(0, 5)]; }
void ctx_u64_to_str(void) {
    zpl_u64 v = pick_val(); int b = pick_base(), n = len_of(v, b); char *s = malloc(n + 1);
    zpl_u64_to_str(v, s, b);
    zv_check(s[n] == 0 && zs_len(s) == n);
    zv_check(value_of(s, b) == v);
    zv_end();
}
//zv: overflow=1
void ctx_i64_to_str(void) {
    zpl_i64 v = (zpl_i64)pick_val(); int b = pick_base(), neg = v < 0; zpl_u64 m = neg ? 0 - (zpl_u64)v : (zpl_u64)v; int n = len_of(m, b) + neg; char *s = malloc(n + 1);
    zpl_i64_to_str(v, s, b);
    zv_check(s[n] == 0 && zs_len(s) == n);
    zv_check((s[0] == '-') == neg);
    zv_check(value_of(s + neg, b) == m);
    zv_end();
}
void ctx_small_values(void) {
    int v = ZV_PICK(-70, 330), neg = v < 0; int b = 10 - 8 * ZV_PICK(0, 1), m = neg ? -v : v, n = len_of(m, b) + neg; char *s = malloc(n + 1), *e;
    zpl_i64_to_str(v, s, b); zv_check(zs_len(s) == n);
    zv_check(zpl_str_to_i64(s, &e, b) == v); zv_check(e == s + n);
    zv_end();
}
/* every 64-bit value: the text fits the longest denotation of the base */
void ctx_any_value(void) {
    char *s; int b = ZV_PICK(0, 1) ? 10 : 16;
    if (ZV_PICK(0, 1)) { s = malloc((b == 10 ? 20 : 16) + 1); zpl_u64_to_str(ZV_RANGE(0, 1) ? Frama_C_unsigned_long_long_interval(0, ~0ull) : 0, s, b); }
    else { s = malloc((b == 10 ? 20 : 17) + 1); zpl_i64_to_str(Frama_C_long_long_interval(-0x7fffffffffffffffLL - 1, 0x7fffffffffffffffLL), s, b); }
    zv_end();
}
/* round trip */
//zv: overflow=1
void ctx_round_trip(void) {
    zpl_u64 v = pick_val(); int t[] = { 2, 8, 10, 16 }, b = t[ZV_PICK(0, 3)]; char s[70], *e;
    if (ZV_PICK(0, 1)) { zpl_u64_to_str(v, s, b); zv_check(zpl_str_to_u64(s, &e, b) == v); }
    else { zpl_i64_to_str((zpl_i64)v, s, b); zv_check(zpl_str_to_i64(s, &e, b) == (zpl_i64)v); }
    zv_check(*e == 0 && e == s + zs_len(s));
    zv_check(zpl_str_to_u64("17", 0, 10) == 17);
    zv_end();
}
/* longest valid prefix, base detection, nothing read past the terminator */
void ctx_parse(void) {
    int n = ZV_PICK(0, 3), i, st, neg; char *s = AL(n, "09aG-"), *e; int t[] = { 0, 8, 10, 16 }, b = t[ZV_PICK(0, 3)], eb = b ? b : 10; zpl_i64 v = 0;
    for (st = 0; st < 2; st++) {
        neg = st && n && s[0] == '-';
        for (i = neg, v = 0; i < n && dig(s[i] == 'a' ? 'A' : s[i]) < eb && s[i] != 'G'; i++) v = v * eb + dig(s[i] == 'a' ? 'A' : s[i]);
        if (st) zv_check(zpl_str_to_i64(s, &e, b) == (neg ? -v : v)); else zv_check(zpl_str_to_u64(s, &e, b) == (zpl_u64)v);
        zv_check(e == s + i);
    }
    zv_end();
}
/* every digit against every base: the first character that is no digit of the base ends the number */
void ctx_parse_bases(void) {
    static int const bs[] = { 2, 3, 4, 5, 6, 7, 8, 9, 10, 16 }; int b = bs[ZV_PICK(0, 9)], c = ZV_PICK(1, 127), h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99, k = ZV_PICK(0, 1); char s[3] = { '1', c, 0 }, *e;
    if (k) zv_check(zpl_str_to_i64(s, &e, b) == (h < b ? b + h : 1)); else zv_check(zpl_str_to_u64(s, &e, b) == (zpl_u64)(h < b ? b + h : 1));
    zv_check(e == s + (h < b ? 2 : 1)); zv_end();
}
void ctx_parse_hex_prefix(void) {
    char *e; char const *s = "0x1fZ", *t = "-0xAb ";
    zv_check(zpl_str_to_u64(s, &e, ZV_PICK(0, 1) * 16) == 0x1f && e == s + 4);
    zv_check(zpl_str_to_i64(t, &e, 16) == -0xab && e == t + 5);
    zv_end();
}
void ctx_parse_any(void) {           /* unknown bytes */
    int n = ZV_PICK(0, 3), k = ZV_PICK(0, 2); char *s = zs_any(n), *e; int b = 10 + 6 * ZV_PICK(0, 1);
    if (k == 0) zpl_str_to_i64(s, &e, b); else if (k == 1) zpl_str_to_u64(s, &e, b); else zpl_str_to_f64(s, &e);
    zv_check(e >= s && e <= s + n);
    zv_end();
}
void ctx_parse_float(void) {
    char const *t[] = { "0", "1", "-2", "+3", " 4", "0.5", "-1.25", "1e2", "12.5E1", "25e-1", "7x", "1.", "e5", "1e+1z" }; double v[] = { 0, 1, -2, 3, 4, 0.5, -1.25, 100, 125, 2.5, 7, 1, 0, 10 }; int rest[] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1 };
    int i = ZV_PICK(0, 13); char *e; int n = zs_len(t[i]);
    zv_check(zpl_str_to_f64(t[i], &e) == v[i]);
    zv_check(e == t[i] + n - rest[i]);
    zv_check(zpl_str_to_f32(t[i], &e) == (float)v[i]);
    zv_end();
}
void ctx_digits(void) {
    int c = ZV_PICK(-128, 127), h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    zv_check(zpl_hex_digit_to_int(c) == h);
    zv_check(zpl_char_to_hex_digit(c) == (h < 0 ? 0 : h));
    if (c >= '0' && c <= '9') zv_check(zpl_digit_to_int(c) == c - '0');
    if (c >= 'a' && c <= 'f') zv_check(zpl_digit_to_int(c) == c - 'a' + 10);
    zv_end();
}

/* C56 formatted text spells its arguments: every integer directive with every length modifier at the edges of its type, strings and characters with
   width, precision and justification, arguments consumed in order and in their own size. The expected text is built by the oracle below. */
#include "zv.h"
#include "zvs.h"
static char buf[96], want[96];
static void put_num(char *o, zpl_u64 v, int neg, int base, int upper) { char t[70]; int n = 0, k = 0; do { int d = v % base; t[n++] = d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10; v /= base; } while (v); if (neg) o[k++] = '-'; while (n) o[k++] = t[--n]; o[k] = 0; }
static void sgn(zpl_i64 v) { put_num(want, v < 0 ? 0 - (zpl_u64)v : (zpl_u64)v, v < 0, 10, 0); }
static void is(zpl_isize r, char const *w) { int i, n = zs_len(w); zv_check(r == n + 1); for (i = 0; i <= n; i++) zv_check(buf[i] == w[i]); zv_end(); }
#define P(...) zpl_snprintf(buf, 96, __VA_ARGS__)
static zpl_i64 const V[] = { 0, 1, -1, 9, 10, -10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647ll, 2147483648ll, -2147483647ll - 1, 4294967295ll, 4294967296ll, -4294967297ll, 999999999999999999ll, 1000000000000000000ll, 9223372036854775807ll, -9223372036854775807ll - 1 };
#define NV 27
#define PICKV zpl_i64 v = V[ZV_PICK(0, NV)]
//zv: slevel=4000
void ctx_hhd(void) { PICKV; sgn((signed char)v); is(ZV_PICK(0, 1) ? P("%hhd", (int)v) : P("%hhi", (int)v), want); }
//zv: slevel=4000
void ctx_hd(void) { PICKV; sgn((short)v); is(ZV_PICK(0, 1) ? P("%hd", (int)v) : P("%hi", (int)v), want); }
//zv: slevel=4000
void ctx_d(void) { PICKV; sgn((int)v); is(ZV_PICK(0, 1) ? P("%d", (int)v) : P("%i", (int)v), want); }
//zv: slevel=4000
void ctx_ld(void) { PICKV; sgn(v); is(ZV_PICK(0, 1) ? P("%ld", (long)v) : P("%li", (long)v), want); }
//zv: slevel=4000
void ctx_lld(void) { PICKV; sgn(v); is(ZV_PICK(0, 1) ? P("%lld", (long long)v) : P("%td", (zpl_isize)v), want); }
#define UNS(TYPE, ARG, FU, FX, FXX) { PICKV; int k = ZV_PICK(0, 2); put_num(want, (zpl_u64)(TYPE)v, 0, k ? 16 : 10, k == 2); is(k == 0 ? P(FU, (ARG)v) : k == 1 ? P(FX, (ARG)v) : P(FXX, (ARG)v), want); }
//zv: slevel=4000
void ctx_hhu(void) UNS(unsigned char, int, "%hhu", "%hhx", "%hhX")
//zv: slevel=4000
void ctx_hu(void) UNS(unsigned short, int, "%hu", "%hx", "%hX")
//zv: slevel=4000
void ctx_u(void) UNS(unsigned, unsigned, "%u", "%x", "%X")
//zv: slevel=4000
void ctx_lu(void) UNS(unsigned long, unsigned long, "%lu", "%lx", "%lX")
//zv: slevel=4000
void ctx_llu(void) UNS(unsigned long long, unsigned long long, "%llu", "%llx", "%llX")
//zv: slevel=4000
void ctx_zu(void) UNS(zpl_usize, zpl_usize, "%zu", "%zx", "%zX")
//zv: slevel=4000
void ctx_o(void) { PICKV; int k = ZV_PICK(0, 2); put_num(want, k == 0 ? (zpl_u64)v : k == 1 ? (unsigned)v : (unsigned short)v, 0, 8, 0); is(k == 0 ? P("%llo", (long long)v) : k == 1 ? P("%o", (int)v) : P("%ho", (int)v), want); }
//zv: slevel=4000
void ctx_p(void) { PICKV; put_num(want, v, 0, 16, 0); is(P("%p", (void *)v), want); }
/* width and justification of numbers: the text, padded on the side the flag names, never cut */
static void pad(char const *t, int w, int left, char fill) { char o[96]; int n = zs_len(t), i, k = 0; for (i = n; i < w && !left; i++) o[k++] = fill; for (i = 0; i < n; i++) o[k++] = t[i]; for (i = n; i < w && left; i++) o[k++] = fill; o[k] = 0; for (i = 0; i <= k; i++) want[i] = o[i]; }
//zv: slevel=6000
void ctx_num_width(void) {
    static char const *const F[] = { "%1d", "%3d", "%6d", "%13d", "%-1d", "%-3d", "%-6d", "%-13d" }; static int const W[] = { 1, 3, 6, 13 }; int v[] = { 0, 7, -7, 123, -123, 123456, -2147483647 - 1 };
    int k = ZV_PICK(0, 7), x = v[ZV_PICK(0, 6)]; sgn(x); pad(want, W[k % 4], k >= 4, ' '); is(P(F[k], x), want);
}
//zv: slevel=6000
void ctx_num_zero(void) {
    static char const *const F[] = { "%01u", "%03u", "%08x", "%016llx", "%012lld" }; static int const W[] = { 1, 3, 8, 16, 12 }; int k = ZV_PICK(0, 4); zpl_u64 v[] = { 0, 5, 171, 48879, 4294967295ull }, x = v[ZV_PICK(0, 4)];
    put_num(want, x, 0, k == 2 || k == 3 ? 16 : 10, 0); pad(want, W[k], 0, '0'); is(k < 3 ? P(F[k], (unsigned)x) : P(F[k], (long long)x), want);
}
//zv: slevel=6000
void ctx_num_star(void) { int w = ZV_PICK(-6, 6), x = ZV_PICK(0, 1) ? -42 : 4200; if (w == 0) { zv_end(); return; } sgn(x); pad(want, w < 0 ? -w : w, w < 0, ' '); is(P("%*d", w, x), want); }
/* strings and characters */
//zv: slevel=6000
void ctx_str_width(void) {
    int w = ZV_PICK(-5, 5), n = ZV_PICK(0, 4), pr = ZV_PICK(-1, 5), i; char s[5]; if (w == 0) { zv_end(); return; } for (i = 0; i < n; i++) s[i] = 'a' + i; s[n] = 0;
    char t[6]; int m = pr >= 0 && pr < n ? pr : n; for (i = 0; i < m; i++) t[i] = s[i]; t[m] = 0; pad(t, w < 0 ? -w : w, w < 0, ' '); is(P("%*.*s", w, pr, s), want);
}
//zv: slevel=4000
void ctx_char(void) { int c = ZV_PICK(-128, 127); if (!c) { zv_end(); return; } zpl_isize r = P("<%c>", c); zv_check(r == 4 && buf[0] == '<' && buf[1] == (char)c && buf[2] == '>' && buf[3] == 0); zv_end(); }
void ctx_char_width(void) { int k = ZV_PICK(0, 2); is(k == 0 ? P("%3c|", 'q') : k == 1 ? P("%-3c|", 'q') : P("%1c|", 'q'), k == 0 ? "  q|" : k == 1 ? "q  |" : "q|"); }
/* arguments of every size consumed in order */
void ctx_order(void) { is(P("%d %lld %s %c %u %hhd|%zu %x%%%ld", -1, -2ll, "str", 'k', 3u, 300, (zpl_usize)4, 255u, -5l), "-1 -2 str k 3 44|4 ff%-5"); }
void ctx_order_float(void) { is(P("%s %.2f %d %.1f %s", "a", 1.25, 7, -0.5, "b"), "a 1.25 7 -0.5 b"); }
void ctx_order_star(void) { is(P("%*d|%-*s|%.*s|%d", 4, 12, 3, "z", 2, "xyz", 9), "  12|z  |xy|9"); }
/* dyadic fractions are exact: sign, whole part and as many digits as asked for */
//zv: slevel=6000
void ctx_float(void) {
    static char const *const W[6][4] = { { "7", "7.0", "7.06", "7.062" }, { "1", "1.5", "1.50", "1.500" }, { "-1", "-1.5", "-1.50", "-1.500" }, { "12", "12.2", "12.25", "12.250" }, { "-3", "-3.7", "-3.75", "-3.750" }, { "65536", "65536.1", "65536.12", "65536.125" } };
    double v[] = { 7.0625, 1.5, -1.5, 12.25, -3.75, 65536.125 }; int a = ZV_PICK(0, 5), p = ZV_PICK(0, 3); is(P("%.*f", p, v[a]), W[a][p]);
}
void ctx_float_default(void) { is(P("%f", 2.5), "2.500000"); }
//zv: slevel=6000
void ctx_float_width(void) { int k = ZV_PICK(0, 3); is(k == 0 ? P("%8.2f|", 1.5) : k == 1 ? P("%8.2f|", -1.5) : k == 2 ? P("%2.2f|", 1.5) : P("%9.3f|", 0.125), k == 0 ? "    1.50|" : k == 1 ? "   -1.50|" : k == 2 ? "1.50|" : "    0.125|"); }
//zv: slevel=6000
void ctx_float_left(void) { double v = ZV_PICK(0, 1) ? 1.5 : -1.5; int k = ZV_PICK(0, 3), m = v < 0; is(k == 0 ? P("%-8.2f|", v) : k == 1 ? P("%-2.2f|", v) : k == 2 ? P("%*.1f|", -6, v) : P("%-f|", v), k == 0 ? (m ? "-1.50   |" : "1.50    |") : k == 1 ? (m ? "-1.50|" : "1.50|") : k == 2 ? (m ? "-1.5  |" : "1.5   |") : (m ? "-1.500000|" : "1.500000|")); }
/* the same text whichever way it is printed */
//zv: defs=ZPL_PRINTF_MAXLEN=64
void ctx_same(void) {
    char *o = 0; char const *b; zpl_string s; int x = ZV_PICK(0, 1) ? -77 : 1234567; zpl_isize r = P("[%6d|%s]", x, "ab"), q; sgn(x); pad(want, 6, 0, ' ');
    b = zpl_bprintf("[%6d|%s]", x, "ab"); zv_check(zs_eq(b, buf, r)); q = zpl_asprintf(zpl_heap(), &o, "[%6d|%s]", x, "ab"); zv_check(q == r && zs_eq(o, buf, r)); zpl_mfree(o);
    s = zpl_string_append_fmt(zpl_string_make(zpl_heap(), ""), "[%6d|%s]", x, "ab"); zv_check(zpl_string_length(s) == r - 1 && zs_eq(s, buf, r)); zpl_string_free(s);
    { char sb[64]; s = zpl_string_sprintf(zpl_heap(), sb, 64, "[%6d|%s]", x, "ab"); zv_check(zpl_string_length(s) == r - 1 && zs_eq(s, buf, r)); zpl_string_free(s); s = zpl_string_sprintf_buf(zpl_heap(), "[%6d|%s]", x, "ab"); zv_check(zpl_string_length(s) == r - 1 && zs_eq(s, buf, r)); zpl_string_free(s); }
    zv_check(zv_live == 0); zv_end();
}

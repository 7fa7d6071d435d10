/* C18 formatted printing: exact-size destination blocks, so any write past n bytes is an alarm. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
static char *buf; static int N;
static void mk(int lo, int hi) { int i; N = ZV_PICK(lo, hi); buf = malloc(N); }
/* a NUL inside n bytes; a positive result counts the text and its terminator; failure otherwise */
static void post(zpl_isize r) {
    int k = 0;
    zv_check(r == -1 || (r >= 1 && r <= N));
    if (N > 0) { while (buf[k]) k++; zv_check(k < N); if (r > 0) zv_check(k == r - 1); }
    else zv_check(r == -1);
    zv_end();
}
static void eq(zpl_isize r, char const *want) {           /* fits: exactly this text; otherwise reported, the text is a prefix */
    int k = 0, n = zs_len(want);
    if (n < N) { zv_check(r == n + 1); for (k = 0; k <= n; k++) zv_check(buf[k] == want[k]); }
    else { zv_check(r == -1); for (k = 0; k < N && buf[k]; k++) zv_check(buf[k] == want[k]); if (N > 0) zv_check(k < N); }
    zv_end();
}
/* literals and %s of any content */
void ctx_literal(void) { mk(0, 7); eq(zpl_snprintf(buf, N, "ab%%cd"), "ab%cd"); }
void ctx_literal_any(void) { char *f = AL(3, "b%"); mk(0, 4); zpl_isize r = zpl_snprintf(buf, N, f); post(r); }
void ctx_string(void) { char *s = AL(ZV_PICK(0, 4), "a%"); mk(0, 6); eq(zpl_snprintf(buf, N, "%s", s), s); }
void ctx_string_any(void) { char *s = zs_any(ZV_PICK(0, 3)); mk(0, 5); zpl_isize r = zpl_snprintf(buf, N, "<%s", s); zv_check(r == -1 || r <= N); zv_end(); }
void ctx_string_null(void) { mk(0, 8); eq(zpl_snprintf(buf, N, "%s", (char *)0), "(null)"); }
/* string argument that is not terminated inside its precision */
void ctx_precision(void) {
    char *s = malloc(3); int p = ZV_PICK(0, 3); char w[4] = "xyz"; s[0] = 'x'; s[1] = 'y'; s[2] = 'z'; w[p] = 0;
    mk(0, 5); eq(zpl_snprintf(buf, N, "%.*s", p, s), w);
}
/* width, both justifications, precision, star arguments of any sign */
void ctx_width(void) {
    char const *f[] = { "%3s", "%-3s", "%4.1s", "%-4.1s", "%1s" }, *w[] = { " ab", "ab ", "   a", "a   ", "ab" }; int k = ZV_PICK(0, 4);
    mk(0, 6); eq(zpl_snprintf(buf, N, f[k], "ab"), w[k]);
}
void ctx_star(void) {
    int wd = ZV_PICK(-5, 5), pr = ZV_PICK(-1, 3), left = ZV_PICK(0, 1); mk(0, 6);
    zpl_isize r = left ? zpl_snprintf(buf, N, "%-*.*s", wd, pr, "abc") : zpl_snprintf(buf, N, "%*.*s", wd, pr, "abc");
    post(r);
}
void ctx_star_big(void) {     /* width far past the buffer */
    int t[] = { 2147483647, -2147483647, 100000, 64 }, wd = t[ZV_PICK(0, 3)]; mk(0, 4);
    int k = ZV_PICK(0, 4); zpl_isize r = -1;
    if (k == 0) r = zpl_snprintf(buf, N, "%*s", wd, "ab"); else if (k == 1) r = zpl_snprintf(buf, N, "a%*d", wd, 42); else if (k == 2) r = zpl_snprintf(buf, N, "%*d|", wd, -7);
    else if (k == 3 && wd > 0 && wd < 1000) r = zpl_snprintf(buf, N, "%*r", wd, '='); else if (k == 4 && wd == 64) r = zpl_snprintf(buf, N, "%*f", wd, 1.5);
    else { zv_end(); return; }
    post(r);
}
void ctx_repeat(void) { int w = ZV_PICK(1, 5), i; char x[6]; for (i = 0; i < w; i++) x[i] = '='; x[w] = 0; mk(0, 6); eq(zpl_snprintf(buf, N, "%*r", w, '='), x); }
/* integers: directives x sizes x values */
void ctx_int(void) {
    char const *f[] = { "%d", "%5d", "%-5d", "%05d", "%u", "%x", "%X", "%o", "%#x", "%+d", "%c" };
    int v[] = { 0, 7, -7, 12345, 2147483647 }; mk(0, 13); post(zpl_snprintf(buf, N, f[ZV_PICK(0, 10)], v[ZV_PICK(0, 4)]));
}
void ctx_int_text(void) {
    char const *f[] = { "%d", "%i", "%5d", "%-5d|", "%05d", "%u", "%x", "%X", "%o", "%hd", "%hhd", "%hu", "%hhu" };
    char const *w[] = { "171", "171", "  171", "171  |", "00171", "171", "ab", "AB", "253", "171", "-85", "171", "171" };
    int k = ZV_PICK(0, 12); mk(0, 7); eq(zpl_snprintf(buf, N, f[k], 171), w[k]);
}
void ctx_neg_text(void) {
    char const *f[] = { "%d", "%4d", "%-4d|", "%u", "%x", "%hhd", "%hd", "%hx" }, *w[] = { "-3", "  -3", "-3  |", "4294967293", "fffffffd", "-3", "-3", "fffd" };
    int k = ZV_PICK(0, 7); N = 12; buf = malloc(12); eq(zpl_snprintf(buf, N, f[k], -3), w[k]);
}
void ctx_long_text(void) {
    char const *f[] = { "%ld", "%lld", "%lu", "%llu", "%td", "%lx", "%llX", "%p", "%zu" };
    char const *w[] = { "-6148914691236517206", "-6148914691236517206", "12297829382473034410", "12297829382473034410", "-6148914691236517206", "aaaaaaaaaaaaaaaa", "AAAAAAAAAAAAAAAA", "aaaaaaaaaaaaaaaa", "12297829382473034410" };
    int k = ZV_PICK(0, 8); N = ZV_PICK(15, 24); buf = malloc(N); eq(zpl_snprintf(buf, N, f[k], -6148914691236517206l), w[k]);
}
/* two directives, argument order kept */
void ctx_order(void) { mk(0, 12); eq(zpl_snprintf(buf, N, "%d=%s,%c", 12, "ab", 'z'), "12=ab,z"); }
void ctx_order64(void) { mk(9, 12); eq(zpl_snprintf(buf, N, "%lld %d %s", 5ll, 6, "x"), "5 6 x"); }
/* floats */
void ctx_float(void) {
    char const *f[] = { "%.2f", "%f", "%8.1f", "%08.1f", "%.0f", "%#.0f", "%g" }; zpl_f64 v[] = { 0.0, 1.5, -1.5, 12.25, 99999.75, -0.125 };
    mk(0, 12); post(zpl_snprintf(buf, N, f[ZV_PICK(0, 6)], v[ZV_PICK(0, 5)]));
}
void ctx_float_text(void) {
    char const *f[] = { "%.1f", "%.2f", "%6.1f", "%.3f" }, *w[] = { "2.5", "2.50", "   2.5", "2.500" }; int k = ZV_PICK(0, 3);
    mk(0, 8); eq(zpl_snprintf(buf, N, f[k], 2.5), w[k]);
}
/* malformed and incomplete directives */
void ctx_incomplete(void) {
    char const *f[] = { "%", "a%", "%-", "%5", "%.", "%.3", "%l", "%ll", "%h", "%hh", "%z", "%0", "%#", "% ", "%+", "%q", "%-5" };
    int n, k = ZV_PICK(0, 16); n = zs_len(f[k]); char *c = malloc(n + 1); for (int i = 0; i <= n; i++) c[i] = f[k][i];
    mk(0, 5); post(zpl_snprintf(buf, N, c, 1, 2));
}
/* wrappers: the static buffer is ZPL_PRINTF_MAXLEN bytes */
//zv: defs=ZPL_PRINTF_MAXLEN=8
void ctx_bprintf(void) { char *s = AL(ZV_PICK(0, 10), "a"), *r = zpl_bprintf("%s", s); int i, n = zs_len(s); for (i = 0; i < 7 && i < n; i++) zv_check(r[i] == 'a'); zv_check(r[i] == 0); zv_end(); }
static long zw_calls; static char zw_got[16]; static zpl_isize zw_size; static zpl_b32 zw_ok;
static ZPL_FILE_WRITE_AT_PROC(zw_write) { zpl_isize i; zw_calls++; zw_size = size; for (i = 0; i < size && i < 16; i++) zw_got[i] = ((char const *)buffer)[i]; zv_check(size >= 0 && size <= 7); if (bytes_written) *bytes_written = size; return zw_ok; }
static ZPL_FILE_SEEK_PROC(zw_seek) { if (new_offset) *new_offset = 0; return true; }
static ZPL_FILE_READ_AT_PROC(zw_read) { return false; }
static ZPL_FILE_CLOSE_PROC(zw_close) { }
static void mkfile(zpl_file *f) { static zpl_file_operations const ops = { zw_read, zw_write, zw_seek, zw_close }; zpl_zero_item(f); f->ops = ops; zw_ok = ZV_PICK(0, 1); }
//zv: defs=ZPL_PRINTF_MAXLEN=8
void ctx_fprintf(void) {
    zpl_file f; char *s = AL(ZV_PICK(0, 10), "a"); int n = zs_len(s), i; mkfile(&f);
    zpl_isize r = zpl_fprintf(&f, "%s", s);
    if (n <= 7 && zw_ok) zv_check(r == n + 1 && zw_size == n); else zv_check(r < 0);
    if (n <= 7) { zv_check(zw_calls == 1); for (i = 0; i < n; i++) zv_check(zw_got[i] == 'a'); }
    zv_end();
}
//zv: defs=ZPL_PRINTF_MAXLEN=8
void ctx_asprintf(void) {
    char *s = AL(ZV_PICK(0, 10), "a"), *o = 0; int n = zs_len(s), i; zv_fail_at = ZV_PICK(-1, 0);
    zpl_isize r = zpl_asprintf(zpl_heap(), &o, "%s", s);
    if (zv_fail_at == 0) zv_check(o == 0);
    else { for (i = 0; i < 7 && i < n; i++) zv_check(o[i] == 'a'); zv_check(o[i] == 0); if (n <= 7) zv_check(r == n + 1); else zv_check(r < 0); }
    zv_end();
}
//zv: defs=ZPL_PRINTF_MAXLEN=16
void ctx_append_fmt(void) {
    zpl_string t = zpl_string_make(zpl_heap(), "q"); char *s = AL(ZV_PICK(0, 18), "a"); int n = zs_len(s), i;
    t = zpl_string_append_fmt(t, "%s!", s);
    zv_check(zpl_string_length(t) == zs_len(t));
    if (n + 1 < 15) { zv_check(zpl_string_length(t) == n + 2 && t[n + 1] == '!'); } else zv_check(t[0] == 'q' && zpl_string_length(t) <= 16);
    zpl_string_free(t); zv_check(zv_live == 0); zv_end();
}
//zv: defs=ZPL_PRINTF_MAXLEN=16
void ctx_string_sprintf(void) {
    char *s = AL(ZV_PICK(0, 18), "a"); zpl_string t; int n = zs_len(s), m = n < 15 ? n : 15; mk(1, 5);
    t = zpl_string_sprintf_buf(zpl_heap(), "%s", s); zv_check(zs_len(t) == m && zpl_string_length(t) == m);
    t = zpl_string_sprintf(zpl_heap(), buf, N, "%s", s); m = n < N ? n : N - 1; zv_check(zs_len(t) == m && zpl_string_length(t) == m);
    zv_end();
}

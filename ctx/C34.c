/* C34 regular expressions: compiling and matching, against a reference matcher that walks the pattern text. */
#define ZPL_ENABLE_REGEX
#include "zv.h"
#include "zvs.h"
static char const *P; static int pn, tn; static char *T; static int cs[8], ce[8], cv[8];
static int is_atom(char c) { return c != '^' && c != '$' && c != '(' && c != ')' && c != '*' && c != '+' && c != '?' && c != '|'; }
/* patterns below are made of single items; a ']' outside a class is refused */
/* the documented syntax: balanced captures, quantifiers only after a single item, no branch without a left side */
static int valid(void) {
    int i = 0, depth = 0, item = 0, any[6] = {0};
    while (i < pn) {
        char c = P[i++];
        if (c == '(') { any[depth] = 1; depth++; any[depth] = 0; item = 0; continue; }
        if (c == ')') { if (!depth) return 0; depth--; item = 0; continue; }
        if (c == '|') { if (!any[depth]) return 0; item = 0; continue; }
        if (c == '*' || c == '+' || c == '?') { if (!item) return 0; item = 0; if (c != '?' && i < pn && P[i] == '?') i++; continue; }
        if (c == ']') return 0;
        any[depth] = 1; item = is_atom(c);
    }
    return depth == 0;
}
static int group_no(int pos) { int i, k = 0; for (i = 0; i < pos; i++) if (P[i] == '(') k++; return k; }
static int closer(int pos) { int d = 0; for (; pos < pn; pos++) { if (P[pos] == '(') d++; if (P[pos] == ')') { if (!d) return pos; d--; } } return pn; }
static int opener(int pos) { int d = 0; for (pos--; pos >= 0; pos--) { if (P[pos] == ')') d++; if (P[pos] == '(') { if (!d) return pos; d--; } } return -1; }
static int next_alt(int pos) { int d = 0; for (; pos < pn; pos++) { if (P[pos] == '(') d++; if (P[pos] == ')') { if (!d) return -1; d--; } if (P[pos] == '|' && !d) return pos + 1; } return -1; }
static int one(char c, int i) { return i < tn && (c == '.' || T[i] == c); }
static int rm(int pos, int i);
static int alts(int pos, int i) { int r; while (pos >= 0) { r = rm(pos, i); if (r >= 0) return r; pos = next_alt(pos); } return -1; }
static int rm(int pos, int i) {
    int r, k, j, lazy = 0, lo, hi; char c, q;
    if (pos >= pn) return i;
    c = P[pos];
    if (c == '|') return rm(closer(pos), i);
    if (c == ')') { k = group_no(opener(pos)); r = rm(pos + 1, i); if (r >= 0) { ce[k] = i; cv[k] = 1; } return r; }
    if (c == '(') { k = group_no(pos); r = alts(pos + 1, i); if (r >= 0) cs[k] = i; return r; }
    if (c == '^') return i == 0 ? rm(pos + 1, i) : -1;
    if (c == '$') return i == tn ? rm(pos + 1, i) : -1;
    q = pos + 1 < pn ? P[pos + 1] : 0;
    if (q == '*' || q == '+' || q == '?') {
        lo = q == '+'; hi = 0;
        while (one(c, i + hi) && (q != '?' || hi < 1)) hi++;
        pos += 2;
        if (q != '?' && pos < pn && P[pos] == '?') { lazy = 1; pos++; }
        if (lazy) { for (j = lo; j <= hi; j++) { r = rm(pos, i + j); if (r >= 0) return r; } }
        else { for (j = hi; j >= lo; j--) { r = rm(pos, i + j); if (r >= 0) return r; } }
        return -1;
    }
    return one(c, i) ? rm(pos + 1, i + 1) : -1;
}
static char *mem(int n) { long f = zv_fail_at; char *p; zv_fail_at = -1; p = zv_malloc(n ? n : 1); zv_fail_at = f; zv_alloc_no--; zv_live--; return p; }
static char *exact(char const *s, int n) { char *p; int i; p = n ? malloc(n) : (char *)0; for (i = 0; i < n; i++) p[i] = s[i]; return p; }
static char *alpha(int n, char const *al, int k) { char *p = mem(n); int i; for (i = 0; i < n; i++) p[i] = al[ZV_PICK(0, k - 1)]; return p; }
static void text(int k) { static char const *const X[] = { "", "a", "b", "ab", "ba", "aab", "abb", "abab" }; int j, n = 0; char const *s = X[k]; while (s[n]) n++; tn = n; T = mem(n); for (j = 0; j < n; j++) T[j] = s[j]; }
static void go(int cap, int lo, int hi) {
    zpl_re re; zpl_isize off = -9; zpl_re_capture c[3]; int i, r = -1, at, e, b;
    e = zpl_re_compile(&re, zpl_heap(), P, pn);
    zv_check((e == 0) == valid());
    if (e) { zv_check(zv_live == 0); zv_end(); return; }
    zv_check(zpl_re_capture_count(&re) == group_no(pn));
    text(ZV_PICK(lo, hi));
    for (i = 0; i < 3; i++) { c[i].str = T; c[i].len = 0; }
    for (i = 0; i < 8; i++) cs[i] = ce[i] = cv[i] = 0;
    b = zpl_re_match(&re, T, tn, c, cap, &off);
    for (at = 0; at <= tn; at++) { r = alts(0, at); if (r >= 0) break; }
    zv_check((b != 0) == (r >= 0));
    if (b && pn) { zv_check(off == r); for (i = 0; i < cap && i < group_no(pn); i++) { if (cv[i]) zv_check(c[i].str == T + cs[i] && c[i].len == ce[i] - cs[i]); zv_check(c[i].str >= T && c[i].len >= 0 && c[i].str + c[i].len <= T + tn); } }
    for (i = cap; i < 3; i++) zv_check(c[i].str == T && c[i].len == 0);
    zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
static char const *const PC[] = { "a", "b*", ".", "a+?", "b?", "(", "|", ")", "^", "$" };
static char *glue(int n, int first) { char b[16], *p; int i, j, k = 0; for (i = 0; i < n; i++) { char const *s = PC[i ? ZV_PICK(0, 7) : first]; for (j = 0; s[j]; j++) b[k++] = s[j]; } pn = k; p = mem(k); for (j = 0; j < k; j++) p[j] = b[j]; return p; }
void ctx_ops(void) { pn = ZV_PICK(0, 2); P = alpha(pn, "a].*+?|()^$", 11); go(3, 3, 3); }
#ifdef ZV_THOROUGH
#define PIECES 4
#define TXT 3, 7
#define G01 TXT
#else
#define PIECES 3
#define TXT 5, 6
#define G01 5, 5
#endif
//zv: timeout=800
void ctx_p0(void) { P = glue(PIECES, 0); go(3, TXT); }
//zv: timeout=800
void ctx_p1(void) { P = glue(PIECES, 1); go(1, TXT); }
//zv: timeout=800
void ctx_p2(void) { P = glue(PIECES, 2); go(3, TXT); }
//zv: timeout=800
void ctx_p3(void) { P = glue(PIECES, 3); go(3, TXT); }
//zv: timeout=800
void ctx_p4(void) { P = glue(PIECES, 4); go(3, TXT); }
//zv: timeout=800
void ctx_p5(void) { P = glue(PIECES, 5); go(2, TXT); }
static char *tmpl(char const *f) { char b[24], *p; int j, k = 0; for (; *f; f++) { if (*f == '#') { char const *s = PC[ZV_PICK(0, 4)]; for (j = 0; s[j]; j++) b[k++] = s[j]; } else b[k++] = *f; } pn = k; p = mem(k); for (j = 0; j < k; j++) p[j] = b[j]; return p; }
//zv: timeout=800
void ctx_g0(void) { P = tmpl("(#|#)#"); go(2, G01); }
//zv: timeout=800
void ctx_g1(void) { P = tmpl("#(#)|#"); go(2, G01); }
//zv: timeout=800
void ctx_g2(void) { P = tmpl("a|#|#b"); go(2, TXT); }
//zv: timeout=800
void ctx_g3(void) { P = tmpl("((#)#)"); go(3, TXT); }
//zv: timeout=800
void ctx_g4(void) { P = tmpl("((#|b)|#"); go(3, TXT); }
/* ---- classes and escapes: one text byte, every value ---- */
static int isw(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_'; }
static int in_esc(char e, int c) {
    int ws = c == ' ' || (c >= 9 && c <= 13), dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lw = c >= 'a' && c <= 'z';
    switch (e) { case 's': return ws; case 'S': return !ws; case 'd': return dg; case 'D': return !dg; case 'a': return up || lw; case 'l': return lw; case 'u': return up;
        case 'w': return isw(c); case 'W': return !isw(c); case 'x': return dg || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); case 'p': return c >= 32 && c <= 126;
        case '0': return c == 0; case 't': return c == 9; case 'n': return c == 10; case 'r': return c == 13; case 'v': return c == 11; case 'f': return c == 12; }
    return c == e;
}
static zpl_re RE;
static void comp(char const *pat, int n) { zpl_regex_error e; char *p = mem(n); int j; for (j = 0; j < n; j++) p[j] = pat[j]; e = zpl_re_compile(&RE, zpl_heap(), p, n); zv_check(e == 0); }
static void one_byte(int want, int c) { zpl_isize off = -9; int b; char *t = mem(1); t[0] = c; b = zpl_re_match(&RE, t, 1, 0, 0, &off); zv_check((b != 0) == (want != 0)); zv_check(!b || off == 1); zpl_re_destroy(&RE); zv_check(zv_live == 0); zv_end(); }
static char const ESC[] = "sSdDalUuwWxp0tnrvf.\\(*]^-";
static int byte(void) { return ZV_PICK(0, 1) ? ZV_PICK(-128, -1) : ZV_PICK(0, 127); }
static int some_byte(void) { static signed char const B[] = { 0, 8, 9, 10, 13, 14, 31, ' ', '.', '/', '0', '9', ':', '@', 'A', 'F', 'G', 'Z', '[', '\\', ']', '^', '_', '`', 'a', 'f', 'g', 'n', 's', 't', 'w', 'z', '{', '~', 127, -128, -1 }; return B[ZV_PICK(0, sizeof(B) - 1)]; }
#ifdef ZV_THOROUGH
#define BYTE byte()
#else
#define BYTE some_byte()
#endif
#define ESC_A ESC[ZV_PICK(0, 11)]
#define ESC_B ESC[ZV_PICK(12, sizeof(ESC) - 2)]
static void c_escape(char e) { char pat[2] = { '\\', e }; int c; comp(pat, 2); c = BYTE; one_byte(in_esc(e, c), c); }
static void c_class(char e) { char pat[5] = { '[', 'q', '\\', e, ']' }; int c; comp(pat, 5); c = BYTE; one_byte(c == 'q' || in_esc(e, c), c); }
static void c_class2(char e) { char pat[5] = { '[', '\\', e, 'q', ']' }; int c; comp(pat, 5); c = BYTE; one_byte(c == 'q' || in_esc(e, c), c); }
static void c_nclass(char e) { char pat[6] = { '[', '^', '\\', e, '+', ']' }; int c; comp(pat, 6); c = BYTE; one_byte(!(c == '+' || in_esc(e, c)), c); }
void ctx_escape(void) { c_escape(ESC_A); }
void ctx_escape2(void) { c_escape(ESC_B); }
void ctx_class(void) { c_class(ESC_A); }
void ctx_class2(void) { c_class2(ESC_B); }
void ctx_nclass(void) { c_nclass(ESC_A); }
void ctx_nclass2(void) { c_nclass(ESC_B); }
void ctx_dot(void) { int c; comp(".", 1); c = byte(); one_byte(1, c); }
void ctx_lit(void) { int c, d; char pat[1]; d = ZV_PICK(0, 3); d = d == 0 ? 'a' : d == 1 ? -1 : d == 2 ? 0 : 1; pat[0] = d; comp(pat, 1); c = d == 'a' ? byte() : some_byte(); one_byte(c == d, c); }
void ctx_hex(void) { static char const H[] = "00", G[] = "4a", F[] = "Ff", E[] = "80"; int k = ZV_PICK(0, 3); char const *h = k == 0 ? H : k == 1 ? G : k == 2 ? F : E; signed char v = k == 0 ? 0 : k == 1 ? 0x4a : k == 2 ? (signed char)0xff : (signed char)0x80; int c; if (ZV_PICK(0, 1)) { char pat[3] = { '\\', h[0], h[1] }; comp(pat, 3); } else { char pat[5] = { '[', '\\', h[0], h[1], ']' }; comp(pat, 5); } c = BYTE; one_byte(c == v, c); }
/* a class is closed or an error is reported, also inside a capture; nothing leaks */
void ctx_group(void) {
    zpl_re re; int n, e, i, cl = 0, in = ZV_PICK(0, 1); char *p, *q; static char const A[] = "]\\^a4";
    n = ZV_PICK(0, 3); q = mem(n); for (i = 0; i < n; i++) q[i] = A[ZV_PICK(0, 4)];
    p = mem(n + 1 + in * 1); if (in) p[0] = '('; p[in] = '['; for (i = 0; i < n; i++) p[1 + in + i] = q[i];
    for (i = 0; i < n; i++) { if (q[i] == ']') { cl = 1; break; } if (q[i] == '\\') { i++; if (i + 1 < n && q[i] != ']' && q[i] != '\\' && q[i] != '^' && q[i + 1] != ']' && q[i + 1] != '\\' && q[i + 1] != '^') i++; } }
    e = zpl_re_compile(&re, zpl_heap(), p, n + 1 + in);
    if (!cl || in) { zv_check(e != 0); }
    if (e) { zv_check(zv_live == 0); } else { zpl_re_destroy(&re); zv_check(zv_live == 0); }
    zv_end();
}
/* any byte as (the end of) a pattern */
void ctx_bytes(void) {
    zpl_re re; char *p; int e, n = ZV_PICK(1, 2); p = mem(n); if (n > 1) p[0] = "\\[(a|"[ZV_PICK(0, 4)]; p[n - 1] = n > 1 ? some_byte() : byte();
    e = zpl_re_compile(&re, zpl_heap(), p, n);
    if (!e) zpl_re_destroy(&re);
    zv_check(zv_live == 0); zv_end();
}
/* lengths around the limits of an operand byte */
static void fillp(char *p, int n, char a, char b) { int i; for (i = 0; i < n; i++) p[i] = i & 1 ? b : a; }
void ctx_long_lit(void) {
    zpl_re re; zpl_isize off = -1; int n = ZV_PICK(254, 257), d = ZV_PICK(-1, 1), e, b; char *p = mem(n), *t = mem(n + d); fillp(p, n, 'x', 'y'); fillp(t, n + d, 'x', 'y');
    e = zpl_re_compile(&re, zpl_heap(), p, n);
    zv_check((e != 0) == (n > 255)); if (e) { zv_check(zv_live == 0); zv_end(); return; }
    b = zpl_re_match(&re, t, n + d, 0, 0, &off); zv_check((b != 0) == (d >= 0)); zv_check(!b || off == n); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
void ctx_long_quant(void) {
    zpl_re re; zpl_isize off = -1; int n = ZV_PICK(129, 131), e, b; char *p = mem(n + 1), *t = mem(n + 1); fillp(p, n, 'x', 'x'); p[n] = '+'; fillp(t, n + 1, 'x', 'x');
    e = zpl_re_compile(&re, zpl_heap(), p, n + 1); zv_check(e == 0);
    b = zpl_re_match(&re, t, n + 1, 0, 0, &off); zv_check(b && off == n + 1); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
void ctx_long_class(void) {
    zpl_re re; zpl_isize off = -1; int n = ZV_PICK(254, 257), e, b; char *p = mem(n + 2), *t = mem(1); p[0] = '['; fillp(p + 1, n, 'x', 'x'); p[n] = 'z'; p[n + 1] = ']'; t[0] = 'z';
    e = zpl_re_compile(&re, zpl_heap(), p, n + 2);
    zv_check((e != 0) == (n > 255)); if (e) { zv_check(zv_live == 0); zv_end(); return; }
    b = zpl_re_match(&re, t, 1, 0, 0, &off); zv_check(b && off == 1); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
/* a branch whose side is too long to skip is refused; just below the limit either side is reachable */
void ctx_long_branch(void) {
    zpl_re re; zpl_isize off = -1; int n = ZV_PICK(120, 260), e, b, side = ZV_PICK(0, 1); char *p = mem(n + 2), *t = mem(1);
    if (n != 120 && n != 127 && n != 200 && n != 249 && n != 250 && n != 251 && n != 252 && n != 253 && n != 254 && n < 259) return;
    if (side) { fillp(p, n, 'x', 'x'); p[n] = '|'; p[n + 1] = 'z'; } else { p[0] = 'z'; p[1] = '|'; fillp(p + 2, n, 'x', 'x'); }
    t[0] = 'z';
    e = zpl_re_compile(&re, zpl_heap(), p, n + 2);
    if (n < 250) zv_check(e == 0);
    if (n > 253) zv_check(e != 0);
    if (e) { zv_check(zv_live == 0); zv_end(); return; }
    b = zpl_re_match(&re, t, 1, 0, 0, &off); zv_check(b && off == 1); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
/* growth of the program, and allocation failure at either request */
void ctx_grow(void) {
    zpl_re re; zpl_isize off = -1; int i, e, b; char *p = mem(140), *t = mem(1); t[0] = 'a'; for (i = 0; i < 140; i++) p[i] = i & 1 ? ')' : '(';
    zv_fail_at = ZV_PICK(-1, 1);
    e = zpl_re_compile(&re, zpl_heap(), p, 140);
    zv_check((e == 0) == (zv_fail_at == -1));
    if (e) { zv_check(zv_live == 0); zv_end(); return; }
    zv_check(zpl_re_capture_count(&re) == 70); b = zpl_re_match(&re, t, 1, 0, 0, &off); zv_check(b && off == 0); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
/* a caller's buffer: refused when too small, never overrun, same answers when it fits */
void ctx_buffer(void) {
    static char const *const PP[] = { "ab+", "(a)", "a|b", "[a\\d]", "a*?b", "\\d", "^a$" }; static int const need[] = { 7, 7, 10, 5, 7, 3, 5 };
    int k = ZV_PICK(0, 6), n = 0, room = ZV_PICK(0, 12), e, b, m; char *p, *buf = mem(room); zpl_re re, full; zpl_isize o1 = -1, o2 = -1; char *t = mem(2); t[0] = ZV_PICK('0', '1') == '0' ? 'a' : '7'; t[1] = 'b';
    while (PP[k][n]) n++;
    p = mem(n); for (m = 0; m < n; m++) p[m] = PP[k][m];
    e = zpl_re_compile_from_buffer(&re, p, n, buf, room);
    if (e) { zv_check(e == ZPL_RE_ERROR_TOO_LONG && room < need[k]); zv_end(); return; }
    zv_check(re.buf_len <= room && re.buf == buf);
    m = zpl_re_compile(&full, zpl_heap(), p, n); zv_check(m == 0);
    b = zpl_re_match(&re, t, 2, 0, 0, &o1); m = zpl_re_match(&full, t, 2, 0, 0, &o2); zv_check((b != 0) == (m != 0) && o1 == o2);
    zpl_re_destroy(&full); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
/* match_all walks the text once: captures of successive matches, and it always ends */
void ctx_all(void) {
    static char const *const PP[] = { "(a)", "(a*)", "x*", "(a|b)", "(a)b" }; int k = ZV_PICK(0, 4), i, at = 0, n = 0, b, ok = 1, w = 0, r; zpl_re re; zpl_re_capture *out = 0; int ws[8], we[8];
    P = PP[k]; pn = 0; while (P[pn]) pn++;
    tn = ZV_PICK(0, 3); T = alpha(tn, "ab", 2);
    zpl_array_init(out, zpl_heap()); b = zpl_re_compile(&re, zpl_heap(), P, pn); zv_check(b == 0);
    b = zpl_re_match_all(&re, T, tn, 1, &out);
    { char *t0 = T; int n0 = tn; while (at < n0) { T = t0 + at; tn = n0 - at; cv[0] = 0; for (i = 0, r = -1; i <= tn && r < 0; i++) r = alts(0, i); if (r < 0) { ok = 0; break; } ws[w] = cv[0] ? at + cs[0] : -1; we[w] = at + ce[0]; w++; at += r > 0 ? r : 1; } T = t0; tn = n0; }
    zv_check((b != 0) == ok && zpl_array_count(out) == w);
    for (i = 0; i < w; i++) if (ws[i] >= 0) zv_check(out[i].str == T + ws[i] && out[i].len == we[i] - ws[i]);
    zpl_array_free(out); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}
void ctx_all_fail(void) {
    int i, b; zpl_re re; zpl_re_capture *out = 0; P = "(a)"; pn = 3; tn = 9; T = mem(9); for (i = 0; i < 9; i++) T[i] = 'a';
    zpl_array_init(out, zpl_heap()); b = zpl_re_compile(&re, zpl_heap(), P, pn); zv_check(b == 0);
    i = ZV_PICK(-1, 2); zv_fail_at = i < 0 ? -1 : zv_alloc_no + i;
    b = zpl_re_match_all(&re, T, tn, 1, &out);
    if (i == 0 || i == 1) zv_check(!b); else { zv_check(b && zpl_array_count(out) == 9); zv_check(out[8].str == T + 8 && out[8].len == 1); }
    zv_fail_at = -1; zpl_array_free(out); zpl_re_destroy(&re); zv_check(zv_live == 0); zv_end();
}

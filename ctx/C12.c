/* C12 C-string routines: exact-size blocks, so every over-read or over-write is an alarm. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
#ifdef ZV_THOROUGH
#define L 4
#else
#define L 3
#endif
static char *dst; static int dn;
static char *mk(int n) { int i; dst = malloc(n); dn = n; for (i = 0; i < n; i++) dst[i] = 'Z'; return dst; }

void ctx_strlen(void) {
    int n = ZV_PICK(0, L + 1); char *s = zs_any(n);
    zv_check(zpl_strlen(s) == n);
    zv_check(zpl_strlen(0) == 0);
    int m = ZV_PICK(0, L + 2);
    zv_check(zpl_strnlen(s, m) == (m < n ? m : n));
    char *u = malloc(3); u[0] = 'a'; u[1] = 'b'; u[2] = 'c';     /* no terminator: only max_len bytes are read */
    zv_check(zpl_strnlen(u, 3) == 3);
    zv_end();
}
void ctx_strcpy(void) {
    int n = ZV_PICK(0, L), i; char *s = AL(n, "ab\x80"), *d = mk(n + 1);
    zv_check(zpl_strcpy(d, s) == d);
    zv_check(zs_eq(d, s, n + 1));
    zv_end();
}
void ctx_strcat(void) {
    int n = ZV_PICK(0, L), m = ZV_PICK(0, 2); char *s = AL(n, "ab\x80"), *d = mk(n + m + 1);
    d[m] = 0;
    zv_check(zpl_strcat(d, s) == d);
    zv_check(zs_eq(d, "ZZ", m) && zs_eq(d + m, s, n + 1));
    zv_end();
}
void ctx_strncpy(void) {
    int n = ZV_PICK(0, L), m = ZV_PICK(0, L + 2), i; char *s = AL(n, "ab"), *d = mk(m);
    zpl_b32 l = ZV_PICK(0, 1);
    if (l) { zv_check(zpl_strlcpy(d, s, m) == (n < m ? n : m)); } else { zv_check(zpl_strncpy(d, s, m) == d); }
    for (i = 0; i < m; i++) zv_check(d[i] == (i < n ? s[i] : 0));
    zv_end();
}
void ctx_copy_null_source(void) { char *d = mk(2); zv_check(zpl_strcpy(d, 0) == d && zpl_strcat(d, 0) == d && zpl_strncpy(d, 0, 2) == d && zpl_strlcpy(d, 0, 2) == 0); zv_check(d[0] == 'Z' && d[1] == 'Z'); zv_end(); }
/* unknown contents: bounds and termination for every byte value */
void ctx_any_write(void) {
    int n = ZV_PICK(0, L), w = ZV_PICK(0, 3); char *s = zs_any(n), *d = mk(n + 1);
    zpl_strcpy(d, s); zv_check(d[n] == 0);
    if (w == 1) zpl_str_to_lower(d);
    if (w == 2) zpl_str_to_upper(d);
    if (w == 3) zpl_strrev(d);
    zv_check(d[n] == 0);
    zv_end();
}
void ctx_any_read(void) {
    int n = ZV_PICK(0, L), w = ZV_PICK(0, 6); char *s = zs_any(n); char const *p = s;
    char c = ZV_RANGE(-128, 127);
    if (w == 0) p = zpl_str_trim(s, 0);
    if (w == 1) p = zpl_str_trim(s, 1);
    if (w == 2) p = zpl_str_skip(s, c);
    if (w == 3) p = zpl_str_skip_literal(s, c);
    if (w == 4) p = zpl_str_control_skip(s, c);
    if (w == 5) p = zpl_char_first_occurence(s, c);
    if (w == 6) p = zpl_char_last_occurence(s, c);
    if (p) zv_check(p >= s && p <= s + n);
    zv_end();
}
void ctx_strrev(void) {
    int n = ZV_PICK(0, 6), i; char *d = zs_raw(n);
    for (i = 0; i < n; i++) d[i] = 'a' + i;
    zv_check(zpl_strrev(d) == d && d[n] == 0);
    for (i = 0; i < n; i++) zv_check(d[i] == 'a' + n - 1 - i);
    zv_end();
}
void ctx_case(void) {
    int n = ZV_PICK(0, L), i; char *s = AL(n, "aZ@["), *d = mk(n + 1);
    zpl_strcpy(d, s);
    if (ZV_PICK(0, 1)) { zpl_str_to_lower(d); for (i = 0; i <= n; i++) zv_check(d[i] == (s[i] == 'Z' ? 'z' : s[i])); }
    else { zpl_str_to_upper(d); for (i = 0; i <= n; i++) zv_check(d[i] == (s[i] == 'a' ? 'A' : s[i])); }
    zpl_str_to_lower(0); zpl_str_to_upper(0);
    zv_end();
}
void ctx_strtok(void) {
    int n = ZV_PICK(0, L), i, k; char *s = AL(n, "a,;"), *d = mk(n + 1); char const *r;
    for (k = 0; k < n && s[k] == 'a'; k++);
    r = zpl_strtok(d, s, ZV_PICK(0, 1) ? ",;" : ";,x");
    for (i = 0; i < k; i++) zv_check(d[i] == 'a');
    zv_check(d[k] == 0);
    zv_check(r == (k < n ? s + k + 1 : s + n));
    zv_end();
}
void ctx_strntok(void) {
    int n = ZV_PICK(0, L), m = ZV_PICK(1, L + 1), i, k; char *s = AL(n, "a,"), *d = mk(m); char const *r;
    for (k = 0; k < n && s[k] == 'a'; k++);
    r = zpl_strntok(d, m, s, ",");
    int t = k < m - 1 ? k : m - 1;
    for (i = 0; i < t; i++) zv_check(d[i] == 'a');
    zv_check(d[t] == 0);
    zv_check(r >= s && r <= s + n);
    if (k < m) zv_check(r == (k < n ? s + k + 1 : s + n));
    zv_end();
}
void ctx_occurrence(void) {
    int n = ZV_PICK(0, L), i, f = -1, l = -1; char *s = AL(n, "ab"); 
    for (i = 0; i < n; i++) if (s[i] == 'a') { if (f < 0) f = i; l = i; }
    zv_check(zpl_char_first_occurence(s, 'a') == (f < 0 ? 0 : s + f));
    zv_check(zpl_char_last_occurence(s, 'a') == (l < 0 ? 0 : s + l));
    zv_check(zpl_char_first_occurence(s, 0) == s + n);
    zv_check(zpl_char_last_occurence(s, 0) == s + n);
    zv_end();
}
void ctx_affix(void) {
    int n = ZV_PICK(0, L), m = ZV_PICK(0, 2), i, p, q; char *s = AL(n, "ab"), *t = AL(m, "ab");
    p = m <= n && zs_eq(s, t, m); q = m <= n && zs_eq(s + n - m, t, m);
    zv_check(!!zpl_str_has_prefix(s, t) == p);
    zv_check(!!zpl_str_has_suffix(s, t) == q);
    zv_end();
}
void ctx_skip(void) {
    int n = ZV_PICK(0, L), i; char *s = AL(n, " \nx");
    for (i = 0; i < n && s[i] != 'x'; i++);
    zv_check(zpl_str_trim(s, 0) == s + i);
    zv_check(zpl_str_skip(s, 'x') == s + i);
    for (i = 0; i < n && s[i] == ' '; i++);
    zv_check(zpl_str_trim(s, 1) == s + i);
    zv_check(zpl_str_skip_any(s, "x\n") == s + i);
    zv_check(zpl_str_skip_any(s, "") == s + n);
    zv_end();
}
void ctx_skip_literal(void) {           /* first unescaped c, or the terminator */
    int n = ZV_PICK(0, L + 1), i; char *s = AL(n, "\"\\x");
    for (i = 0; i < n && !(s[i] == '"' && (i == 0 || s[i - 1] != '\\')); i++);
    zv_check(zpl_str_skip_literal(s, '"') == s + i);
    zv_check(zpl_str_control_skip(s, '"') == s + i);
    zv_check(zpl_str_skip_literal(s, 0) == s + n);
    zv_check(zpl_str_control_skip(s, 0) == s + n);
    zv_end();
}
void ctx_concat(void) {
    int n = ZV_PICK(0, 2), m = ZV_PICK(0, 2); char *s = AL(n, "ab"), *t = AL(m, "ab"), *d = mk(n + m + 1);
    zpl_str_concat(d, n + m + 1, s, n, t, m);
    zv_check(zs_eq(d, s, n) && zs_eq(d + n, t, m) && d[n + m] == 0);
    zpl_str_concat(0, n + m + 1, s, n, t, m);
    zv_end();
}
void ctx_strdup(void) {
    int n = ZV_PICK(0, L), m = ZV_PICK(0, L + 1), k = n < m ? n : m; char *s = AL(n, "ab"), *d;
    long live = zv_live;
    if (ZV_PICK(0, 1)) zv_fail_at = zv_alloc_no;
    d = zpl_strdup(zpl_heap_allocator(), s, m);
    if (zv_fail_at >= 0) { zv_check(d == 0 && zv_live == live); }
    else { zv_check(zs_eq(d, s, k) && d[k] == 0); zpl_mfree(d); zv_check(zv_live == live); }
    d = zpl_alloc_str(zpl_heap_allocator(), s); zv_check(zs_eq(d, s, n + 1));
    zv_end();
}
/* lines: each once, in order, terminators removed, nothing past the end */
void ctx_split_lines(void) {
    int n = ZV_PICK(0, L + 1), i, b = 0, k = 0, strip = ZV_PICK(0, 1); char *s = AL(n, "x\n\r"), *o = zs_raw(n); char **ls;
    for (i = 0; i <= n; i++) o[i] = s[i];
    ls = zpl_str_split_lines(zpl_heap_allocator(), s, strip);
    for (i = 0; i <= n; i++) if (o[i] == '\n' || i == n) {
        int e = i; if (i == n && b == n) break;
        if (i < n && e > b && o[e - 1] == '\r') e--;
        if (!(strip && i == b)) { zv_check(k < zpl_array_count(ls)); zv_check(ls[k] == s + b); zv_check(ls[k][e - b] == 0); zv_check(zs_eq(ls[k], o + b, e - b)); k++; }
        b = i + 1;
    }
    zv_check(zpl_array_count(ls) == k);
    zpl_array_free(ls);
    zv_end();
}

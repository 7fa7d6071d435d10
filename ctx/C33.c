/* C33 command line: exact-size argument texts against a reference model of the option grammar. */
//zv-all: steps=6000
#define ZPL_ENABLE_OPTS
#include "zv_pre.h"
/* formatted output is proved in C18/C19; here it records the texts it is given */
static char const *P[40]; static int np;
static int zv_printf(char const *f, ...) {
    va_list va; int i; va_start(va, f);
    for (i = 0; f[i]; i++) if (f[i] == '%') { i++; zv_check(f[i] == 's'); { char const *s = va_arg(va, char *); int k = 0; zv_check(s != 0); while (s[k]) k++; if (np < 40) P[np++] = s; } }
    va_end(va); return i;
}
#include "zv.h"
#include "zvs.h"
static zpl_opts O;
enum { NONE = -1 };
static char const *SN[5] = { "s", "i", "r", "v", 0 }, *LN[5] = { "str", "int", "real", 0, "long-o" };
static int const TY[5] = { ZPL_OPTS_STRING, ZPL_OPTS_INT, ZPL_OPTS_FLOAT, ZPL_OPTS_FLAG, ZPL_OPTS_STRING };
static void setup(void) { int i; zv_check(zpl_opts_init(&O, zpl_heap(), "app")); for (i = 0; i < 5; i++) zpl_opts_add(&O, SN[i], LN[i], "d", TY[i]); }
static void done(void) { zpl_opts_free(&O); zv_check(zv_live == 0); zv_end(); }
static int eq(char const *a, char const *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
/* reference */
static int met[5], pos[5], npos, ne, et[9]; static char const *val[5];
static char ebuf[9][12];
static int okval(int k, char const *v) {
    int i = 0, d = 0;
    if (TY[k] == ZPL_OPTS_STRING || TY[k] == ZPL_OPTS_FLAG) return 1;
    if (v[i] == '-') i++;
    while (v[i] >= '0' && v[i] <= '9') i++, d++;
    if (TY[k] == ZPL_OPTS_FLOAT && v[i] == '.') { i++; while (v[i] >= '0' && v[i] <= '9') i++, d++; }
    return d && !v[i];
}
static void rerr(int t) { et[ne++] = t; }
static void rset(int k, char const *v) { int i, j; for (i = 0; i < npos; i++) if (pos[i] == k) { for (j = i; j + 1 < npos; j++) pos[j] = pos[j + 1]; npos--; break; } if (okval(k, v)) { met[k] = 1; val[k] = v; } else rerr(ZPL_OPTS_ERR_VALUE); }
static int isn(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '_'; }
static void ref(int n, char **a) {
    int i, k, j, lg; char *p;
    ne = 0; for (k = 0; k < 5; k++) met[k] = 0;
    for (i = 1; i < n; i++) {
        if (!*a[i]) continue;
        for (p = a[i]; *p == ' '; p++) ;
        if (*p == '-') {
            lg = p[1] == '-'; p += 1 + lg;
            for (j = 0; isn(p[j]); j++) ;
            for (k = 0; k < 5; k++) { char const *m = lg ? LN[k] : SN[k]; int q = 0; if (!m) continue; while (q < j && m[q] == p[q]) q++; if (q == j && !m[q]) break; }
            if (k == 5) { rerr(ZPL_OPTS_ERR_OPTION); continue; }
            if (p[j] == '=') { if (TY[k] == ZPL_OPTS_FLAG) rerr(ZPL_OPTS_ERR_EXTRA_VALUE); else rset(k, p + j + 1); }
            else if (p[j]) rerr(ZPL_OPTS_ERR_OPTION);
            else if (TY[k] == ZPL_OPTS_FLAG) { if (i + 1 < n && *a[i + 1] != '-' && !npos) rerr(ZPL_OPTS_ERR_EXTRA_VALUE); else met[k] = 1; }
            else if (i + 1 < n && *a[i + 1] != '-') rset(k, a[++i]);
            else rerr(ZPL_OPTS_ERR_MISSING_VALUE);
        } else if (npos) { k = pos[0]; rset(k, p); }
        else rerr(ZPL_OPTS_ERR_VALUE);
    }
}
static char *dup_(char const *s) { int n = zs_len(s), i; char *p = zs_raw(n); for (i = 0; i < n; i++) p[i] = s[i]; return p; }
static void compare(int n, char **a) {
    int i, k, r; char *b[6]; ref(n, a);
    for (i = 0; i < n; i++) b[i] = dup_(a[i]);
    r = zpl_opts_compile(&O, n, b);
    zv_check((r != 0) == (ne == 0)); zv_check(zpl_array_count(O.errors) == ne);
    for (i = 0; i < ne; i++) { zv_check(O.errors[i].type == et[i] && O.errors[i].val != 0); zs_len(O.errors[i].val); }
    zv_check(zpl_array_count(O.positioned) == npos); zv_check((zpl_opts_positionals_filled(&O) != 0) == (npos == 0));
    for (i = 0; i < npos; i++) zv_check(O.positioned[npos - 1 - i] == O.entries + pos[i]);
    for (k = 0; k < 5; k++) {
        zv_check((O.entries[k].met != 0) == met[k]);
        if (met[k] && TY[k] == ZPL_OPTS_STRING) { zv_check(eq(O.entries[k].text, val[k])); zv_check(zpl_string_length(O.entries[k].text) == zs_len(val[k])); }
    }
    for (k = 0; k < 5; k++) if (LN[k]) {
        zv_check((zpl_opts_has_arg(&O, LN[k]) != 0) == met[k]);
        if (TY[k] == ZPL_OPTS_STRING) { char *s = zpl_opts_string(&O, LN[k], "fb"); if (met[k]) zv_check(s == O.entries[k].text); else zv_check(eq(s, "fb")); }
        if (TY[k] == ZPL_OPTS_INT) { long v = zpl_opts_integer(&O, LN[k], -77); if (met[k]) { long w = 0; int q = val[k][0] == '-'; while (val[k][q]) w = w * 10 + val[k][q++] - '0'; zv_check(v == (val[k][0] == '-' ? -w : w)); } else zv_check(v == -77); }
        if (TY[k] == ZPL_OPTS_FLOAT) { double v = zpl_opts_real(&O, LN[k], -77.0); if (met[k]) { if (eq(val[k], "7")) zv_check(v == 7.0); if (eq(val[k], "-12")) zv_check(v == -12.0); } else zv_check(v == -77.0); }
    }
    np = 0; zpl_opts_print_errors(&O); zv_check(np == ne); for (i = 0; i < ne; i++) zv_check(P[i] == O.errors[i].val);
    done();
}
static char *form(int k) {
    static char const *F[] = { "--str", "-s", "--int", "-i", "-r", "-v", "--str=", "--str=a b", "-s=x", "-i=7", "--int=-12", "-i=7z", "-i=", "-r=7", "--real=7.", "-r=x",
                               "-v=1", "--v", "-str", "--long-o", "--long-o=--", "--lon", "---", "-", "--", "", "7", "-12", "7z", "abc", " -v", "  a", "-s+", "--nope", "--stray", "-=" };
    return (char *)F[k];
}
#define NF 36
#define REPL replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
static void posn(int m) { npos = 0; if (m & 1) { zpl_opts_positional_add(&O, "int"); pos[npos++] = 1; } if (m & 2) { zpl_opts_positional_add(&O, "str"); pos[npos++] = 0; } zpl_opts_positional_add(&O, "nothing"); }
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_one(void) { char *a[2]; setup(); posn(ZV_PICK(0, 3)); a[0] = "app"; a[1] = form(ZV_PICK(0, NF - 1)); compare(2, a); }
#ifdef ZV_THOROUGH
#define NQ 5
#define N1 24
#define N2 NF
static int const T1[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23 };
static int const T2[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35 };
#else
#define NQ 2
#define N1 7
#define N2 9
static int const T1[] = { 0, 3, 4, 5, 8, 11, 19 };
static int const T2[] = { 1, 5, 6, 9, 25, 26, 27, 28, 31 };
#endif
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_two(void) { char *a[3]; setup(); posn(0); a[0] = "app"; a[1] = form(T1[ZV_PICK(0, N1 - 1)]); a[2] = form(T2[ZV_PICK(0, N2 - 1)]); compare(3, a); }
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_two_positional(void) { char *a[3]; setup(); posn(3); a[0] = "app"; a[1] = form(T2[ZV_PICK(0, N2 - 1)]); a[2] = form(T2[ZV_PICK(0, N2 - 1)]); compare(3, a); }
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_three(void) { static int const Q[] = { 5, 0, 29, 9, 26, 7 }; char *a[4]; int i; setup(); posn(ZV_PICK(0, 1) * 3); a[0] = "app"; for (i = 1; i < 4; i++) a[i] = form(Q[ZV_PICK(0, NQ)]); compare(4, a); }
/* any characters at all: nothing outside the arguments is touched */
#ifdef ZV_THOROUGH
#define NA 3
#else
#define NA 2
#endif
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_any(void) {
    char *a[3]; int n = ZV_PICK(0, NA), i, r, k = ZV_PICK(0, 3); char *s = zs_any(n), *t;
    setup(); posn(ZV_PICK(0, 1) * 3); a[0] = "app";
    if (k == 0) t = s; else { char const *h = k == 1 ? "--str" : k == 2 ? "-" : "-i="; int m = zs_len(h); t = zs_raw(n + m); for (i = 0; i < m; i++) t[i] = h[i]; for (i = 0; i < n; i++) t[m + i] = s[i]; }
    a[1] = t; a[2] = dup_("zz"); r = zpl_opts_compile(&O, 2, a); zv_check((r != 0) == (zpl_array_count(O.errors) == 0)); zv_check(eq(a[2], "zz"));
    for (i = 0; i < zpl_array_count(O.errors); i++) zs_len(O.errors[i].val);
    done();
}
/* positionals keep naming their entries while options are added; duplicates of an option replace its value */
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_grow(void) {
    int i, w = ZV_PICK(0, 1); char *a[5]; zv_check(zpl_opts_init(&O, zpl_heap(), "app")); a[0] = "app"; a[1] = dup_("one"); a[2] = dup_("two"); a[3] = dup_("--b=3");
    zpl_opts_add(&O, "a", "a", "d", ZPL_OPTS_STRING); zpl_opts_positional_add(&O, "a"); zpl_opts_add(&O, "b", "b", "d", ZPL_OPTS_STRING); zpl_opts_positional_add(&O, "b");
    for (i = 0; i < 20; i++) zpl_opts_add(&O, "x", "xl", "d", ZPL_OPTS_INT);
    zv_check(O.positioned[1] == O.entries && O.positioned[0] == O.entries + 1);
    np = 0; zpl_opts_print_help(&O); zv_check(np == 40); 
    zv_check(zpl_opts_compile(&O, w ? 4 : 3, a)); zv_check(eq(zpl_opts_string(&O, "a", "-"), "one") && eq(zpl_opts_string(&O, "b", "-"), w ? "3" : "two")); zv_check(zpl_opts_positionals_filled(&O));
    done();
}
/* help prints a text for every option, whichever of the names are given */
//zv: slevel=40000 mlevel=4000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_help(void) { setup(); posn(ZV_PICK(0, 3)); np = 0; zpl_opts_print_help(&O); zv_check(np == 1 + npos + 3 * 3 + 2 + 2); zv_check(eq(P[0], "app")); if (npos) zv_check(eq(P[1], pos[npos > 1 ? 0 : 0] == 1 ? "int" : "str") || npos > 1); done(); }
/* allocation failure */
//zv: slevel=40000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_fail_init(void) { zv_fail_at = ZV_PICK(0, 2); zv_check(!zpl_opts_init(&O, zpl_heap(), "app")); zv_check(zv_live == 0); zv_end(); }
//zv: slevel=40000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=zv_printf
void ctx_fail_string(void) { char *a[3]; setup(); a[0] = "app"; a[1] = dup_("-s=a"); a[2] = dup_("-s=bc"); zv_fail_at = zv_alloc_no + ZV_PICK(0, 1); zv_check(!zpl_opts_compile(&O, 3, a)); zv_check(zpl_array_count(O.errors) == 1); zv_check(O.entries[0].met); done(); }

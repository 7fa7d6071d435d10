/* C29 CSV: exact-size texts against a reference splitter. */
//zv-all: steps=6000
#define ZPL_ENABLE_PARSER
#include "zv.h"
#include "zvs.h"
static struct { char t[12]; int n, q; } F[10][6]; static int fr, fc[10], ferr;
static int ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static void ref(char const *s, char d) {
    int i = 0, c = 0, n, e; fr = 0; ferr = 0;
    for (;;) {
        while (ws(s[i]) && s[i] != d && !(c > 0 && s[i] == '\n')) i++;
        if (!s[i] && c == 0) break;
        n = 0; F[fr][c].q = 0;
        if (s[i] == '"') {
            F[fr][c].q = 1; i++;
            for (;;) { if (!s[i]) { ferr = 1; return; } if (s[i] == '"') { if (s[i + 1] != '"') break; i++; } F[fr][c].t[n++] = s[i++]; }
            i++; while (ws(s[i]) && s[i] != d && s[i] != '\n') i++;
            if (s[i] && s[i] != d && s[i] != '\n') { ferr = 1; return; }
        } else {
            while (s[i] && s[i] != d && s[i] != '\n') F[fr][c].t[n++] = s[i++];
            while (n && ws(F[fr][c].t[n - 1])) n--;
        }
        F[fr][c].n = n; c++;
        if (s[i] == d) { i++; continue; }
        fc[fr] = c; if (c != fc[0]) { ferr = 1; return; }
        fr++; c = 0;
        if (!s[i]) break;
        i++;
    }
    if (!fr) ferr = 1;
}
static void same(char const *s, int r, int c) { int k; for (k = 0; k < F[r][c].n; k++) zv_check(s[k] == F[r][c].t[k]); zv_check(s[k] == 0); }
static int isnum(int r, int c) { int k; if (F[r][c].q || !F[r][c].n) return 0; for (k = 0; k < F[r][c].n; k++) if (F[r][c].t[k] != '1') return 0; return 1; }
static void go(char *s, char d, int hdr) {
    zpl_csv_object root; zpl_u8 e; int r, c, len = zs_len(s), v; long k;
    ref(s, d);
    e = zpl_csv_parse_delimiter(&root, s, zpl_heap(), hdr, d);
    zv_check((e != ZPL_CSV_ERROR_NONE) == (ferr != 0)); zv_check(s[len] == 0);
    if (!e) {
        zv_check(zpl_array_count(root.nodes) == fc[0]);
        for (c = 0; c < fc[0]; c++) {
            zpl_csv_object *col = root.nodes + c; zv_check(col->parent == &root && zpl_array_count(col->nodes) == fr - hdr);
            if (hdr) same(col->name, 0, c);
            for (r = hdr; r < fr; r++) {
                zpl_csv_object *x = col->nodes + r - hdr; zv_check(x->parent == col);
                if (isnum(r, c)) { for (k = 0, v = 0; v < F[r][c].n; v++) k = k * 10 + 1; zv_check(x->type == ZPL_ADT_TYPE_INTEGER && x->integer == k); }
                else { zv_check(x->type == ZPL_ADT_TYPE_STRING); same(x->string, r, c); }
            }
        }
    }
    zpl_csv_free(&root); zv_check(zv_live == 0); zv_end();
}
static char *join(char const *a, int n, char const *al, int k, char const *z) { int i, p = 0; char b[80], *r; for (; *a; a++) b[p++] = *a; for (i = 0; i < n; i++) b[p++] = al[ZV_PICK(0, k - 1)]; for (; *z; z++) b[p++] = *z; r = zs_raw(p); for (i = 0; i < p; i++) r[i] = b[i]; return r; }
#define J(a, n, al, z) join(a, n, al, sizeof(al) - 1, z)
#ifdef ZV_THOROUGH
#define M 4
#define N 3
#else
#define M 3
#define N 2
#endif
#define A "a,\"\n 1"
//zv: timeout=800
void ctx_short(void) { go(J("", ZV_PICK(0, M), A, ""), ',', 0); }
//zv: timeout=800
void ctx_short_h(void) { go(J("", ZV_PICK(0, N), A, ""), ',', 1); }
//zv: timeout=800
void ctx_row(void) { go(J("a,b\n", M, A, ""), ',', 0); }
//zv: timeout=800
void ctx_row_h(void) { go(J("h,11\n", N, A, "\n"), ',', 1); }
//zv: timeout=800
void ctx_quote(void) { go(J("\"", M, "\"a,\n", "\",1"), ',', 0); }
//zv: timeout=800
void ctx_quote2(void) { go(J("x,\"\"\"", N, "\"a,\n ", "\n"), ',', 0); }
//zv: timeout=800
void ctx_tab(void) { go(J("", M, "a\t\"\n 1", ""), '\t', 0); }
//zv: timeout=800
void ctx_space(void) { go(J("a", N, "a \"\n\t", ""), ' ', 0); }
//zv: timeout=800
void ctx_semi(void) { go(J("a;", N, ";,\"\n1", "\n\n"), ';', 0); }
//zv: timeout=800
void ctx_cr(void) { go(J("a", N, "\r\n,1", "\r\n"), ',', 0); }
void ctx_wide(void) { go(J("1,a,1,b,1,c\nd,1,e,1,f,1\n1,1,1,1,1,1", 0, "1", ""), ',', ZV_PICK(0, 1)); }
void ctx_long(void) { go(J("a\n1\nb\n1\nc\n1\nd\n1\ne", 0, "1", ""), ',', ZV_PICK(0, 1)); }
/* any bytes, any delimiter: only safety */
static void safe(char *s, char d) { zpl_csv_object root; int len = zs_len(s); zpl_csv_parse_delimiter(&root, s, zpl_heap(), ZV_PICK(0, 1), d); zv_check(s[len] == 0); zpl_csv_free(&root); zv_check(zv_live == 0); zv_end(); }
void ctx_any(void) { char *p = zs_raw(1); p[0] = ZV_PICK(0, 1) ? ZV_PICK(-128, -1) : ZV_PICK(0, 127); safe(p, ','); }
void ctx_any_quoted(void) { char *p = zs_raw(3); p[0] = '"'; p[1] = ZV_RANGE(-128, 127); p[2] = '"'; if (p[1] == 0) return; safe(p, ','); }
void ctx_delims(void) { static char const X[] = { 0, '"', '\n', '1', ' ', -1 }; safe(J("", ZV_PICK(0, N - 1), A, ""), X[ZV_PICK(0, 5)]); }
/* allocation failure anywhere: reported, nothing lost */
void ctx_fail(void) {
    zpl_csv_object root; zpl_u8 e; char *s = J("a,b,c\n1,2,3\n4,5,6\n7,8,9\n1,2,3\n1,2,3", 0, "1", ""); zv_fail_at = ZV_PICK(-1, 9);
    e = zpl_csv_parse(&root, s, zpl_heap(), ZV_PICK(0, 1));
    zv_check((e != ZPL_CSV_ERROR_NONE) == (zv_fail_at >= 0 && zv_fail_at < zv_alloc_no)); zpl_csv_free(&root); zv_check(zv_live == 0); zv_end();
}
/* writing: the text of the cells, every cell once, also for ragged columns */
static void wr(char const *t, char d, int hdr, char const *want) {
    zpl_csv_object root; zpl_u8 e; zpl_string o; int i; char *s = join(t, 0, "1", 1, "");
    e = zpl_csv_parse_delimiter(&root, s, zpl_heap(), hdr, d); zv_check(e == 0);
    o = zpl_csv_write_string_delimiter(zpl_heap(), &root, d); zv_check(o != 0); for (i = 0; want[i]; i++) zv_check(o[i] == want[i]); zv_check(o[i] == 0 && zpl_string_length(o) == i);
    zpl_string_free(o); zpl_csv_free(&root); zv_check(zv_live == 0); zv_end();
}
void ctx_write(void) { switch (ZV_PICK(0, 4)) { case 0: wr("a,b\n1,\"x\"\"y\"", ',', 0, "a,b\n1,\"x\"\"y\"\n"); break; case 1: wr("h;g\n1;2\n3;\n", ';', 1, "\"h\";\"g\"\n1;2\n3;\n"); break; case 2: wr("\"a,b\",c", ',', 0, "\"a,b\",c\n"); break; case 3: wr("\"h\",k\n-5,0x1F", ',', 1, "\"h\",\"k\"\n-5,0x1f\n"); break; default: wr(" a , b \n\n c , d ", ',', 0, "a,b\nc,d\n"); } }
void ctx_ragged(void) {
    zpl_csv_object root; zpl_adt_node *c; zpl_string o; int i, k[3], r, p = 0; char w[40]; zpl_adt_node z = { 0 }; root = z;
    zv_check(!zpl_adt_make_branch(&root, zpl_heap(), 0, 1));
    for (i = 0; i < 3; i++) { c = zpl_adt_append_arr(&root, 0); k[i] = ZV_PICK(0, 2); for (r = 0; r < k[i]; r++) zv_check(zpl_adt_append_int(c, 0, i * 3 + r) != 0); }
    o = zpl_csv_write_string_delimiter(zpl_heap(), &root, ','); zv_check(o != 0);
    for (r = 0; r < k[0]; r++) for (i = 0; i < 3; i++) { if (r < k[i]) w[p++] = '0' + i * 3 + r; w[p++] = i == 2 ? '\n' : ','; }
    for (i = 0; i < p; i++) zv_check(o[i] == w[i]); zv_check(zpl_string_length(o) == p);
    zpl_string_free(o); zpl_csv_free(&root); zv_check(zv_live == 0); zv_end();
}
void ctx_wfail(void) {
    zpl_csv_object root; zpl_u8 e; zpl_string o; int k; char *s = join("a,b\n1,\"x\"", 0, "1", 1, "");
    e = zpl_csv_parse(&root, s, zpl_heap(), 0); zv_check(e == 0); k = ZV_PICK(0, 3); zv_fail_at = zv_alloc_no + k;
    o = zpl_csv_write_string(zpl_heap(), &root); zv_fail_at = -1; if (o) zpl_string_free(o); zpl_csv_free(&root); zv_check(zv_live == 0); zv_end();
}

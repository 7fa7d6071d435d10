/* C30 URI: exact-size texts against a reference splitter and decoder. */
//zv-all: steps=6000
#define ZPL_ENABLE_PARSER
#include "zv.h"
#include "zvs.h"
static char *join(char const *a, int n, char const *al, int k, char const *z) { int i, p = 0; char b[80], *r; for (; *a; a++) b[p++] = *a; for (i = 0; i < n; i++) b[p++] = al[ZV_PICK(0, k - 1)]; for (; *z; z++) b[p++] = *z; r = zs_raw(p); for (i = 0; i < p; i++) r[i] = b[i]; return r; }
#define J(a, n, al, z) join(a, n, al, sizeof(al) - 1, z)
static int ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int hx(char c) { return (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }
static struct { char t[24]; int n; } O, K[8], V[8]; static int np, hasO, hasV[8];
#define DEC(D, s, i) do { if (s[i] == '%' && hx(s[i + 1]) >= 0 && hx(s[i + 2]) >= 0) { D.t[D.n++] = (char)(hx(s[i + 1]) * 16 + hx(s[i + 2])); i += 3; } else { D.t[D.n++] = s[i] == '+' ? ' ' : s[i]; i++; } } while (0)
static void ref(char const *s) {
    int i = 0; np = 0; hasO = 0; O.n = 0;
    while (ws(s[i])) i++;
    if (!s[i]) return;
    if (s[i] != '?') { hasO = 1; while (s[i] && s[i] != '?' && !ws(s[i])) O.t[O.n++] = s[i++]; if (s[i] != '?') return; }
    i++;
    while (s[i] && !ws(s[i])) {
        K[np].n = V[np].n = 0; hasV[np] = 0;
        while (s[i] && s[i] != '&' && s[i] != '?' && s[i] != '=' && !ws(s[i])) DEC(K[np], s, i);
        if (s[i] == '=') { hasV[np] = 1; i++; while (s[i] && s[i] != '&' && s[i] != '?' && !ws(s[i])) DEC(V[np], s, i); }
        np++;
        if (s[i] != '&' && s[i] != '?') break;
        i++;
    }
}
static void same(char const *s, char const *t, int n) { int i; for (i = 0; i < n; i++) { zv_check(s[i] == t[i]); if (!t[i]) return; } zv_check(s[n] == 0); }
static int isnum(int k) { int i; if (!V[k].n) return 0; for (i = 0; i < V[k].n; i++) if (V[k].t[i] < '0' || V[k].t[i] > '9') return 0; return 1; }
static int txt(int k) { int i; for (i = 0; i < V[k].n; i++) { char c = V[k].t[i]; if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == 'e' || c == 'E' || c == 'x' || c == 0)) return 1; } return 0; }
static void go(char *s) {
    zpl_uri_object root; zpl_u8 e; int i, len = zs_len(s), k; long v;
    ref(s);
    e = zpl_uri_parse(&root, s, zpl_heap()); zv_check(e == 0 && s[len] == 0 && root.type == ZPL_ADT_TYPE_OBJECT);
    zv_check(zpl_array_count(root.nodes) == np + hasO);
    if (hasO) { zv_check(root.nodes[0].type == ZPL_ADT_TYPE_STRING); same(root.nodes[0].name, "__zpl_origin__", 14); same(root.nodes[0].string, O.t, O.n); }
    for (i = 0; i < np; i++) {
        zpl_adt_node *n = root.nodes + hasO + i; zv_check(n->parent == &root); same(n->name, K[i].t, K[i].n);
        if (!hasV[i]) { zv_check(n->type == ZPL_ADT_TYPE_REAL && n->props == ZPL_ADT_PROPS_TRUE && n->real == 1.0); continue; }
        if (isnum(i)) { for (k = 0, v = 0; k < V[i].n; k++) v = v * 10 + (V[i].t[k] - '0'); zv_check(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == v); }
        else if (V[i].n == 0 || txt(i)) { zv_check(n->type == ZPL_ADT_TYPE_STRING); same(n->string, V[i].t, V[i].n); }
    }
    zpl_uri_free(&root); zv_check(zv_live == 0); zv_end();
}
#ifdef ZV_THOROUGH
#define N 3
#else
#define N 2
#endif
#define A "?&=%41+a "
//zv: timeout=800
void ctx_start(void) { go(J("", ZV_PICK(0, N), A, "")); }
//zv: timeout=800
void ctx_query(void) { go(J("h?", N, A, "")); }
//zv: timeout=800
void ctx_name(void) { go(J("?a", N, A, "=1")); }
//zv: timeout=800
void ctx_value(void) { go(J("?a=", N + 1, "&?%4a+=", "")); }
//zv: timeout=800
void ctx_esc(void) { go(J("?k=%", N, "4fG%\n&", "")); }
//zv: timeout=800
void ctx_esc2(void) { go(J("o?%", N, "2aZ%=&", "&b")); }
//zv: timeout=800
void ctx_hexes(void) { go(J("?v=x%", 2, "09afAFg", "y")); }
//zv: timeout=800
void ctx_space(void) { go(J(" \t", N, "a?=& \n", " x")); }
void ctx_multi(void) { go(J("http://h/p?a=1&b&c=%20%3D+&&d=x", 0, "1", "")); }
void ctx_many(void) { go(J("?a&b=2&c&d=4&e&f=6&", 0, "1", "")); }
void ctx_any(void) { char *p = zs_raw(1); p[0] = ZV_PICK(0, 1) ? ZV_PICK(-128, -1) : ZV_PICK(1, 127); go(p); }
void ctx_any_esc(void) { char *p = zs_raw(4); p[0] = '?'; p[1] = '%'; p[2] = ZV_PICK(0, 1) ? ZV_PICK(-128, -1) : ZV_PICK(1, 127); p[3] = '1'; go(p); }
/* allocation failure is reported and leaks nothing */
void ctx_fail(void) { zpl_uri_object root; zpl_u8 e; char *s = J("h?a=1&b&c=3&d&e&f", 0, "1", ""); zv_fail_at = ZV_PICK(-1, 4); e = zpl_uri_parse(&root, s, zpl_heap()); zv_check((e == ZPL_URI_ERROR_OUT_OF_MEMORY) == (zv_fail_at >= 0 && zv_fail_at < zv_alloc_no)); zpl_uri_free(&root); zv_check(zv_live == 0); zv_end(); }
void ctx_init(void) { zpl_uri_object root; zpl_u8 e; int o = ZV_PICK(0, 1); zv_fail_at = ZV_PICK(-1, 2); e = zpl_uri_init(&root, o ? "x%d" : 0, zpl_heap()); if (e) zv_check(zv_fail_at >= 0); else { zv_check(root.type == ZPL_ADT_TYPE_OBJECT && zpl_array_count(root.nodes) == o); } zpl_uri_free(&root); zv_check(zv_live == 0); zv_end(); }
/* writing encodes every reserved byte, so that reading back yields the same parts */
static void wr(char const *origin, char const *k1, char const *v1, int flag, long num) {
    zpl_uri_object r, b; zpl_string o; char *s; int i, n, c = 0, base; zpl_u8 e = zpl_uri_init(&r, (char *)origin, zpl_heap()); zv_check(e == 0);
    if (k1) { zpl_adt_append_str(&r, k1, v1); c++; } if (flag) { zpl_adt_append_flt(&r, "fl", 1)->props = ZPL_ADT_PROPS_TRUE; c++; } if (num) { zpl_adt_append_int(&r, "n", num); c++; }
    o = zpl_uri_write_string(zpl_heap(), &r); zv_check(o != 0); n = zpl_string_length(o); s = zs_raw(n); for (i = 0; i < n; i++) { s[i] = o[i]; zv_check(o[i] != ' ' && o[i] > 0); }
    { int l = origin ? zs_len(origin) : 0; for (i = 0; i < l; i++) zv_check(o[i] == origin[i]); zv_check(o[l] == (c ? '?' : 0)); }
    e = zpl_uri_parse(&b, s, zpl_heap()); zv_check(e == 0); base = origin ? 1 : 0; zv_check(zpl_array_count(b.nodes) == base + c);
    if (origin) same(b.nodes[0].string, origin, zs_len(origin));
    i = base; if (k1) { same(b.nodes[i].name, k1, zs_len(k1)); zv_check(b.nodes[i].type == ZPL_ADT_TYPE_STRING); same(b.nodes[i].string, v1, zs_len(v1)); i++; }
    if (flag) { zv_check(b.nodes[i].props == ZPL_ADT_PROPS_TRUE); i++; } if (num) zv_check(b.nodes[i].type == ZPL_ADT_TYPE_INTEGER && b.nodes[i].integer == num);
    zpl_string_free(o); zpl_uri_free(&r); zpl_uri_free(&b); zv_check(zv_live == 0); zv_end();
}
//zv: timeout=800
void ctx_write(void) { static char const *const X[] = { "a b", "x&y=z", "100%s", "q?", "\xc3\xa9", "~-_.", "+", "\x01" }; wr(ZV_PICK(0, 1) ? "http://h/%d" : 0, ZV_PICK(0, 1) ? "k &" : "k", X[ZV_PICK(0, 7)], 1, 7); }
void ctx_write_none(void) { wr("h", 0, 0, 0, 0); }

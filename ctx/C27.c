/* C27 JSON memory safety: exact-size texts; whatever the answer, the tree can be freed and nothing is left over. */
#define ZPL_ENABLE_PARSER
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
static char *join(char const *a, int n, char const *al, int k, char const *z) { int i, p = 0; char b[80], *r; for (; *a; a++) b[p++] = *a; for (i = 0; i < n; i++) b[p++] = al[ZV_PICK(0, k - 1)]; for (; *z; z++) b[p++] = *z; r = zs_raw(p); for (i = 0; i < p; i++) r[i] = b[i]; return r; }
#define J(a, n, al, z) join(a, n, al, sizeof(al) - 1, z)
static int walk(zpl_adt_node *n, char const *s, int len, int depth) {
    int i, k = 1, c; zv_check(depth < 8);
    if (n->name) { zv_check(n->name >= s && n->name <= s + len); for (i = 0; n->name[i]; i++) ; }
    if (n->type == ZPL_ADT_TYPE_STRING || n->type == ZPL_ADT_TYPE_MULTISTRING) { zv_check(n->string > s && n->string <= s + len); for (i = 0; n->string[i]; i++) ; }
    if (n->type == ZPL_ADT_TYPE_ARRAY || n->type == ZPL_ADT_TYPE_OBJECT) { c = zpl_array_count(n->nodes); for (i = 0; i < c; i++) { zv_check(n->nodes[i].parent == n); k += walk(n->nodes + i, s, len, depth + 1); } }
    else zv_check(n->type > ZPL_ADT_TYPE_OBJECT);
    return k;
}
static void go(char *s) {
    zpl_adt_node root; int len = zs_len(s); zpl_u8 e = zpl_json_parse(&root, s, zpl_heap());
    zv_check(s[len] == 0);
    if (e == ZPL_JSON_ERROR_NONE) { zv_check(root.type == ZPL_ADT_TYPE_OBJECT || root.type == ZPL_ADT_TYPE_ARRAY); walk(&root, s, len, 0); }
    zpl_json_free(&root); zv_check(zv_live == 0); zv_end();
}
#ifdef ZV_THOROUGH
#define N 3
#else
#define N 2
#endif
#define A "{}[]\":,a1\\/*'-\n "
//zv: timeout=800
void ctx_start(void) { go(J("", ZV_PICK(0, 2), "{}[]\":,a1\\u/*'-.|=\n \t", "")); }
//zv: timeout=800
void ctx_obj(void) { go(J("{", N, A, "")); }
//zv: timeout=800
void ctx_val(void) { go(J("{a:", N, A, "")); }
//zv: timeout=800
void ctx_val2(void) { go(J("{a:", N, A, "}")); }
//zv: timeout=800
void ctx_after(void) { go(J("{a:1", N, A, "")); }
//zv: timeout=800
void ctx_arr(void) { go(J("[", N, A, "]")); }
//zv: timeout=800
void ctx_arr2(void) { go(J("[[1,", N, A, "")); }
//zv: timeout=800
void ctx_name(void) { go(J("{\"", N, "\"\\u0af:'\n}", "")); }
//zv: timeout=800
void ctx_esc(void) { go(J("{\"\\u00", N + 1, "\"\\a0:1", ":1}")); }
void ctx_esc_end(void) { go(J("{'\\u", ZV_PICK(0, 4), "'4", "")); }
//zv: timeout=800
void ctx_str(void) { go(J("['", N, "\"\\u'\n]`", "")); }
//zv: timeout=800
void ctx_mstr(void) { go(J("[`", N, "\\`\n],", "`]")); }
//zv: timeout=800
void ctx_comment(void) { go(J("{/", N + 1, "*/\na:1", "")); }
//zv: timeout=800
void ctx_comment2(void) { go(J("{a:1/*", N + 1, "*/ }", "")); }
//zv: timeout=800
void ctx_comment3(void) { go(J("[1,//", N, "*/\n2]", "")); }
//zv: timeout=800
void ctx_cfg(void) { go(J("a", N, "=:|1\n ,b", "")); }
//zv: timeout=800
void ctx_kw(void) { go(J("[", 1, "tfnIN-", "")); }
//zv: timeout=800
void ctx_kw2(void) { static char const *const K[] = { "t", "tru", "true", "truex", "fals", "false", "nul", "null", "Infinit", "Infinity", "-", "-I", "-Infinity", "-Na", "NaN", "-NaN", "-NaN1", "+", "-1", "--1", "-.5", ".", "1e", "0x" }; go(J(ZV_PICK(0, 1) ? "[" : "{a:", 0, "1", K[ZV_PICK(0, sizeof(K) / sizeof(K[0]) - 1)])); }
//zv: timeout=800
void ctx_kw3(void) { static char const *const K[] = { "[true", "[null", "[NaN", "[-NaN", "[12", "[{}", "[''", "[[]", "[`x`", "[-Infinity" }; go(J(K[ZV_PICK(0, sizeof(K) / sizeof(K[0]) - 1)], N, "],}1 x", "")); }
/* any bytes at all */
void ctx_any(void) { go(zs_any(ZV_PICK(0, 1))); }
void ctx_any_name(void) { char *p = zs_raw(6); p[0] = '{'; p[1] = '"'; p[2] = ZV_RANGE(-128, -1); p[3] = '"'; p[4] = ':'; p[5] = '1'; go(p); }
void ctx_any_str(void) { char *p = zs_raw(5); p[0] = '['; p[1] = '"'; p[2] = ZV_PICK(0, 1) ? ZV_RANGE(-128, -1) : ZV_RANGE(93, 127); p[3] = '"'; p[4] = ']'; go(p); }
/* growth of containers: every child stays linked, every allocation failure is reported and leaks nothing */
static void fail(char *s, int n) {
    zpl_adt_node root; zpl_u8 e; int len = zs_len(s); zv_fail_at = ZV_PICK(-1, n);
    e = zpl_json_parse(&root, s, zpl_heap());
    zv_check((e == ZPL_JSON_ERROR_OUT_OF_MEMORY) == (zv_fail_at >= 0 && zv_fail_at < zv_alloc_no)); zv_check(e == ZPL_JSON_ERROR_NONE || e == ZPL_JSON_ERROR_OUT_OF_MEMORY);
    if (!e) walk(&root, s, len, 0);
    zpl_json_free(&root); zv_check(zv_live == 0); zv_end();
}
void ctx_grow_arr(void) { fail(J("[1,2,3,4,5,6,7,8,9,10,11,12]", 0, "1", ""), 3); }
void ctx_grow_obj(void) { fail(J("{a:1,b:2,c:3,d:'x',e:[],f:{},g:6,h:[[7]],i:8}", 0, "1", ""), 8); }
void ctx_fail_nest(void) { fail(J("[[[]],{a:{b:[1]}}]", 0, "1", ""), 9); }

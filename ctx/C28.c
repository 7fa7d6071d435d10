/* C28 JSON acceptance: documents are generated together with the tree they spell, then damaged. */
#define ZPL_ENABLE_PARSER
#include "zv.h"
#include "zvs.h"
static char D[200]; static int dn, en; static struct { int type, props, cnt; long iv; char const *name, *str; } E[24];
static void put(char const *s) { while (*s) D[dn++] = *s++; }
static int ent(int type, char const *name) { E[en].type = type; E[en].props = 0; E[en].cnt = 0; E[en].name = name; E[en].str = 0; E[en].iv = 0; return en++; }
static void leaf(int k, char const *name) {
    int e = ent(ZPL_ADT_TYPE_REAL, name);
    switch (k) {
        case 0: put("12"); E[e].type = ZPL_ADT_TYPE_INTEGER; E[e].iv = 12; break;
        case 1: put("\"s t\""); E[e].type = ZPL_ADT_TYPE_STRING; E[e].str = "s t"; break;
        case 2: put("true"); E[e].props = ZPL_ADT_PROPS_TRUE; break;
        case 3: put("false"); E[e].props = ZPL_ADT_PROPS_FALSE; break;
        case 4: put("null"); E[e].props = ZPL_ADT_PROPS_NULL; break;
        case 5: put("-4"); E[e].type = ZPL_ADT_TYPE_INTEGER; E[e].iv = -4; break;
        case 6: put("'a\\'b'"); E[e].type = ZPL_ADT_TYPE_STRING; E[e].str = "a\\'b"; break;
        case 7: put("`m\nn`"); E[e].type = ZPL_ADT_TYPE_MULTISTRING; E[e].str = "m\nn"; break;
        case 8: put("2.5"); break;
        case 9: put("NaN"); E[e].props = ZPL_ADT_PROPS_NAN; break;
        case 10: put("-Infinity"); E[e].props = ZPL_ADT_PROPS_INFINITY_NEG; break;
        case 11: put("\"\""); E[e].type = ZPL_ADT_TYPE_STRING; E[e].str = ""; break;
        case 12: put("0x1F"); E[e].type = ZPL_ADT_TYPE_INTEGER; E[e].iv = 31; E[e].props = ZPL_ADT_PROPS_IS_HEX; break;
        case 13: put("Infinity"); E[e].props = ZPL_ADT_PROPS_INFINITY; break;
        default: put("-NaN"); E[e].props = ZPL_ADT_PROPS_NAN_NEG; break;
    }
}
static char const *nm(int k) { switch (k) { case 0: put("\"k\":"); return "k"; case 1: put("key : "); return "key"; case 2: put("'q r' ="); return "q r"; case 3: put("_u1:"); return "_u1"; default: put("\"\\u00e9\": "); return "\\u00e9"; } }
/* one value: a leaf or a container of containers */
static void value(int shape, int lf, char const *name) {
    int e; char const *n;
    switch (shape) {
        case 0: leaf(lf, name); break;
        case 1: put("{}"); ent(ZPL_ADT_TYPE_OBJECT, name); break;
        case 2: put("[ ]"); ent(ZPL_ADT_TYPE_ARRAY, name); break;
        case 3: e = ent(ZPL_ADT_TYPE_ARRAY, name); E[e].cnt = 2; put("["); leaf(lf, 0); put(" ,"); leaf(0, 0); put("]"); break;
        case 4: e = ent(ZPL_ADT_TYPE_OBJECT, name); E[e].cnt = 1; put("{ "); n = nm(lf % 5); leaf(lf, n); put("}"); break;
        case 5: e = ent(ZPL_ADT_TYPE_ARRAY, name); E[e].cnt = 2; put("["); value(3, lf, 0); put(","); value(1, 0, 0); put("]"); break;
        case 6: e = ent(ZPL_ADT_TYPE_OBJECT, name); E[e].cnt = 2; put("{"); n = nm(0); value(4, lf, n); put(",/*c*/"); n = nm(1); value(3, 2, n); put("//x\n}"); break;
    }
}
static int ci;
static void walk(zpl_adt_node *n, zpl_adt_node *parent) {
    int e = ci++, i; zv_check(e < en); zv_check(n->type == E[e].type); zv_check(n->parent == parent);
    if (E[e].name) { zv_check(n->name != 0); for (i = 0; E[e].name[i]; i++) zv_check(n->name[i] == E[e].name[i]); zv_check(n->name[i] == 0); } else zv_check(n->name == 0);
    if (E[e].str) { for (i = 0; E[e].str[i]; i++) zv_check(n->string[i] == E[e].str[i]); zv_check(n->string[i] == 0); }
    else if (n->type == ZPL_ADT_TYPE_INTEGER) { zv_check(n->integer == E[e].iv && n->props == E[e].props); }
    else if (n->type == ZPL_ADT_TYPE_REAL) { zv_check(n->props == E[e].props); if (!E[e].props) zv_check(n->real == 2.5); if (E[e].props == ZPL_ADT_PROPS_TRUE) zv_check(n->real == 1.0); }
    else { zv_check(zpl_array_count(n->nodes) == E[e].cnt); for (i = 0; i < E[e].cnt; i++) walk(n->nodes + i, n); }
}
static char *text(int n) { char *s = zs_raw(n); int i; for (i = 0; i < n; i++) s[i] = D[i]; return s; }
static void doc(int outer, int shape, int lf) {
    int e; char const *n; dn = en = 0;
    switch (outer) {
        case 0: value(shape, lf, 0); break;
        case 1: e = ent(ZPL_ADT_TYPE_OBJECT, 0); E[e].cnt = 2; put("{"); n = nm(lf % 5); value(shape, lf, n); put(","); n = nm(1); leaf(5, n); put("}"); break;
        case 2: e = ent(ZPL_ADT_TYPE_ARRAY, 0); E[e].cnt = 3; put("["); value(shape, lf, 0); put(",\n"); value(shape, 1, 0); put(","); leaf(4, 0); put("]"); break;
    }
}
static void accept(void) { zpl_adt_node root; zpl_u8 e; char *s = text(dn); e = zpl_json_parse(&root, s, zpl_heap()); zv_check(e == ZPL_JSON_ERROR_NONE); ci = 0; walk(&root, 0); zv_check(ci == en); zpl_json_free(&root); zv_check(zv_live == 0); zv_end(); }
static void reject(char *s) { zpl_adt_node root; zpl_u8 e = zpl_json_parse(&root, s, zpl_heap()); zv_check(e != ZPL_JSON_ERROR_NONE); zpl_json_free(&root); zv_check(zv_live == 0); zv_end(); }
//zv: timeout=800
void ctx_good_flat(void) { doc(ZV_PICK(1, 2), 0, ZV_PICK(0, 14)); accept(); }
//zv: timeout=800
void ctx_good_nest(void) { doc(ZV_PICK(0, 2), ZV_PICK(1, 4), ZV_PICK(0, 4)); accept(); }
//zv: timeout=800
void ctx_good_deep(void) { doc(ZV_PICK(0, 2), ZV_PICK(5, 6), ZV_PICK(5, 9)); accept(); }
/* every proper prefix of an enclosed document is unterminated */
//zv: timeout=800
void ctx_cut_flat(void) { doc(ZV_PICK(1, 2), 0, ZV_PICK(0, 14)); reject(text(ZV_PICK(1, dn - 1))); }
//zv: timeout=800
void ctx_cut_nest(void) { doc(ZV_PICK(0, 2), ZV_PICK(3, 4), ZV_PICK(0, 1) ? 1 : 6); reject(text(ZV_PICK(1, dn - 1))); }
#ifdef ZV_THOROUGH
#define DEEP ZV_PICK(0, 2)
#define WO ZV_PICK(0, 2)
#define WL ZV_PICK(0, 2)
#else
#define DEEP ZV_PICK(0, 1)
#define WO 1
#define WL 1
#endif
//zv: timeout=800
void ctx_cut_deep(void) { doc(DEEP, ZV_PICK(5, 6), 1); reject(text(ZV_PICK(1, dn - 1))); }
/* one structural character damaged, anywhere in the nesting */
static void swap_close(int at) { char c = D[at]; char *s = text(dn); s[at] = c == '}' ? ']' : '}'; reject(s); }
//zv: timeout=800
void ctx_mismatch(void) { int at; doc(ZV_PICK(0, 2), ZV_PICK(1, 6), 0); at = ZV_PICK(0, dn - 1); if (D[at] != '}' && D[at] != ']') return; swap_close(at); }
//zv: timeout=800
void ctx_no_colon(void) { int at; char *s; doc(ZV_PICK(0, 2), ZV_PICK(3, 6), 0); at = ZV_PICK(0, dn - 1); if (D[at] != ':') return; s = text(dn); s[at] = ' '; reject(s); }
//zv: timeout=800
void ctx_no_value(void) { int at; char *s; doc(ZV_PICK(0, 2), ZV_PICK(3, 6), 4); for (at = 0; at < dn; at++) if (D[at] == 'n' && D[at + 1] == 'u') break; s = text(dn); s[at] = s[at + 1] = s[at + 2] = s[at + 3] = ' '; if (at < dn) reject(s); }
//zv: timeout=800
void ctx_bad_word(void) { int at, k, d; char *s; doc(ZV_PICK(1, 2), 0, k = ZV_PICK(2, 4)); for (at = 0; at < dn; at++) if (D[at] == (k == 2 ? 't' : k == 3 ? 'f' : 'n') && D[at + 1] != '"') break; d = ZV_PICK(0, 3); s = text(dn); s[at + d] = 'z'; reject(s); }
//zv: timeout=800
void ctx_list(void) { static char const *const X[] = { "[1 2]", "[1,,2]", "{:1}", "{\"a\"}", "{a:}", "{a:,b:1}", "[,]", "{a:1]", "[1}", "{\"a:1}", "[\"x]", "['x\"]", "{a:/*}", "[/*]", "[1,/* *]", "{a:trueq}", "{a:tru}", "[nul]", "[-]", "[+]", "[.]", "{\"\\u12\":1}", "{\"\\uzzzz\":1}", "{a", "{a:1,b", "[{a:[1,{b:}]}]", "[[[]", "{a:{b:{c:1}}", "[{a:1}", "{a:[1,2}", "[1,2,{b:zz}]", "{1:2}", "{a:@}", "[#]" }; int i; char const *x = X[ZV_PICK(0, sizeof(X) / sizeof(X[0]) - 1)]; dn = 0; put(x); reject(text(dn)); }
/* the settings-file form: no braces */
static void form(char const *x, int cnt) { zpl_adt_node root; int i; zpl_u8 e; char *s; dn = 0; put(x); s = text(dn); e = zpl_json_parse(&root, s, zpl_heap()); zv_check(e == 0); zv_check(root.type == ZPL_ADT_TYPE_OBJECT && zpl_array_count(root.nodes) == cnt && root.cfg_mode); for (i = 0; i < cnt; i++) { zpl_adt_node *c = root.nodes + i; zv_check(c->name[0] == 'a' + i && c->name[1] == 0 && c->type == ZPL_ADT_TYPE_INTEGER && c->integer == i + 1); } zpl_json_free(&root); zv_check(zv_live == 0); zv_end(); }
void ctx_cfg(void) { switch (ZV_PICK(0, 3)) { case 0: form("a = 1\nb = 2\n", 2); break; case 1: form("a: 1, b: 2, c: 3", 3); break; case 2: form("a | 1 | b | 2", 2); break; default: form("// c\na: 1 /* x */\nb:2", 2); } }
/* what is written reads back as the same tree, in the indented and the compact style */
static void again(int indent) {
    zpl_adt_node root, copy; zpl_u8 e; int i, n; zpl_string o; char *s = text(dn);
    e = zpl_json_parse(&root, s, zpl_heap()); zv_check(e == ZPL_JSON_ERROR_NONE);
    o = zpl_json_write_string(zpl_heap(), &root, indent); zv_check(o != 0); n = zpl_string_length(o);
    s = zs_raw(n); for (i = 0; i < n; i++) s[i] = o[i];
    e = zpl_json_parse(&copy, s, zpl_heap()); zv_check(e == ZPL_JSON_ERROR_NONE); ci = 0; walk(&copy, 0); zv_check(ci == en);
    zpl_string_free(o); zpl_json_free(&copy); zpl_json_free(&root); zv_check(zv_live == 0); zv_end();
}
//zv: timeout=800
void ctx_write_flat(void) { doc(WO, 0, ZV_PICK(0, 14)); again(ZV_PICK(0, 1) ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT); }
//zv: timeout=800
void ctx_write_nest(void) { doc(WO, ZV_PICK(1, 4), WL); again(ZV_PICK(0, 1) ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT); }
//zv: timeout=800
void ctx_write_deep(void) { doc(0, ZV_PICK(5, 6), 2); again(ZV_PICK(0, 1) ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT); }

/* C57 what is written reads back: trees built through the interface, and a destination that refuses a write. */
#define ZPL_ENABLE_PARSER
#include "zv.h"
#include "zvs.h"
static int same(char const *a, char const *b) { int n = zs_len(b), i; if (!a) return 0; for (i = 0; i <= n; i++) if (a[i] != b[i]) return 0; return 1; }
static char *own(zpl_string o) { int i, n = zpl_string_length(o); char *s = zs_raw(n); for (i = 0; i < n; i++) s[i] = o[i]; zv_check(o[n] == 0); return s; }
static void build(zpl_adt_node *r, int arr, zpl_i64 iv, char const *sv, double rv) {
    zpl_adt_node z = { 0 }, *o, *a; *r = z; zv_check(!zpl_adt_make_branch(r, zpl_heap(), 0, arr));
    zv_check(zpl_adt_append_int(r, arr ? 0 : "i", iv) != 0); zv_check(zpl_adt_append_str(r, arr ? 0 : "s", sv) != 0); zv_check(zpl_adt_append_flt(r, arr ? 0 : "r", rv) != 0);
    a = zpl_adt_append_arr(r, arr ? 0 : "a"); zv_check(a != 0); zv_check(zpl_adt_append_int(a, 0, 1) != 0); zv_check(zpl_adt_append_str(a, 0, "x") != 0);
    o = zpl_adt_append_obj(a, 0); zv_check(o != 0); zv_check(zpl_adt_append_int(o, "n", -2) != 0);
    o = zpl_adt_append_obj(r, arr ? 0 : "o"); zv_check(o != 0); zv_check(zpl_adt_append_str(o, "t", "") != 0); a = zpl_adt_append_arr(o, "e"); zv_check(a != 0);
}
static void check(zpl_adt_node *r, int arr, zpl_i64 iv, char const *sv, double rv) {
    zpl_adt_node *c = r->nodes, *d; zv_check(r->type == (arr ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_OBJECT) && zpl_array_count(r->nodes) == 5);
    if (!arr) zv_check(same(c[0].name, "i") && same(c[1].name, "s") && same(c[2].name, "r") && same(c[3].name, "a") && same(c[4].name, "o"));
    zv_check(c[0].type == ZPL_ADT_TYPE_INTEGER && c[0].integer == iv); zv_check(c[1].type == ZPL_ADT_TYPE_STRING && same(c[1].string, sv)); zv_check(c[2].type == ZPL_ADT_TYPE_REAL && c[2].real == rv);
    zv_check(c[3].type == ZPL_ADT_TYPE_ARRAY && zpl_array_count(c[3].nodes) == 3); d = c[3].nodes; zv_check(d[0].integer == 1 && same(d[1].string, "x") && d[2].type == ZPL_ADT_TYPE_OBJECT && zpl_array_count(d[2].nodes) == 1 && same(d[2].nodes[0].name, "n") && d[2].nodes[0].integer == -2);
    zv_check(c[4].type == ZPL_ADT_TYPE_OBJECT && zpl_array_count(c[4].nodes) == 2); d = c[4].nodes; zv_check(same(d[0].name, "t") && same(d[0].string, "") && same(d[1].name, "e") && d[1].type == ZPL_ADT_TYPE_ARRAY && zpl_array_count(d[1].nodes) == 0);
}
static void trip(int arr, zpl_i64 iv, char const *sv, double rv) {
    zpl_adt_node r, b; zpl_string o; char *s; build(&r, arr, iv, sv, rv); o = zpl_json_write_string(zpl_heap(), &r, ZV_PICK(0, 1) ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT); zv_check(o != 0);
    check(&r, arr, iv, sv, rv); s = own(o); zv_check(zpl_json_parse(&b, s, zpl_heap()) == ZPL_JSON_ERROR_NONE); check(&b, arr, iv, sv, rv);
    zpl_string_free(o); zpl_adt_destroy_branch(&r); zpl_json_free(&b); zv_check(zv_live == 0); zv_end();
}
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_built_obj(void) { static zpl_i64 const I[] = { 0, 9, -10, 9007199254740993ll, -9223372036854775807ll }; trip(0, I[ZV_PICK(0, 4)], "v w", 2.5); }
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_built_arr(void) { static char const *const S[] = { "", "a", "[x]{y}", "a,b:c", "// no", "%d %s", "\xc3\xa9", "tab\tnl\n" }; trip(1, 7, S[ZV_PICK(0, 7)], 2.5); }
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_built_real(void) { static double const R[] = { 0.5, -0.25, 1024.75, 3.0625, -7.5 }; trip(ZV_PICK(0, 1), 1, "q", R[ZV_PICK(0, 4)]); }
/* a refused write, at any point, makes the writer report failure */
static long w_no, w_fail; static ZPL_FILE_WRITE_AT_PROC(w_write) { if (w_no++ == w_fail) { if (bytes_written) *bytes_written = 0; return false; } if (bytes_written) *bytes_written = size; return true; }
static ZPL_FILE_SEEK_PROC(w_seek) { if (new_offset) *new_offset = 0; return true; }
static ZPL_FILE_READ_AT_PROC(w_read) { return false; }
static ZPL_FILE_CLOSE_PROC(w_close) { }
static void mkfile(zpl_file *f) { static zpl_file_operations const ops = { w_read, w_write, w_seek, w_close }; zpl_zero_item(f); f->ops = ops; }
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_refused_json(void) { zpl_adt_node r; zpl_file f; zpl_b8 ok; build(&r, 0, 5, "s", 1.5); mkfile(&f); w_fail = ZV_PICK(-1, 60); ok = zpl_json_write(&f, &r, ZV_PICK(0, 1) ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT); zv_check(ok == (w_fail < 0 || w_fail >= w_no)); zv_end(); }
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_refused_csv(void) {
    zpl_csv_object r; zpl_file f; zpl_b8 ok; static char const T[] = "a,b\n1,\"x\"\n"; char *s = zs_raw(sizeof T - 1); int i; for (i = 0; T[i]; i++) s[i] = T[i]; zv_check(zpl_csv_parse(&r, s, zpl_heap(), ZV_PICK(0, 1)) == 0);
    mkfile(&f); w_fail = ZV_PICK(-1, 20); ok = zpl_csv_write(&f, &r); zv_check(ok == (w_fail < 0 || w_fail >= w_no)); zv_end();
}
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_refused_uri(void) { zpl_uri_object r; zpl_file f; zpl_b8 ok; zv_check(zpl_uri_init(&r, "h", zpl_heap()) == 0); zpl_adt_append_str(&r, "k", "v w"); zpl_adt_append_int(&r, "n", 3); mkfile(&f); w_fail = ZV_PICK(-1, 20); ok = zpl_uri_write(&f, &r); zv_check(ok == (w_fail < 0 || w_fail >= w_no)); zv_end(); }
/* no memory for the text: no text, and nothing kept */
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_no_memory(void) { zpl_adt_node r; zpl_string o; build(&r, 0, 5, "s", 1.5); zv_fail_at = zv_alloc_no + ZV_PICK(0, 4); int last = zv_fail_at; o = zpl_json_write_string(zpl_heap(), &r, 0); if (last < zv_alloc_no) zv_check(o == 0); else zv_check(o != 0); zv_fail_at = -1; if (o) zpl_string_free(o); zpl_adt_destroy_branch(&r); zv_check(zv_live == 0); zv_end(); }
/* values and names in each quoting style with each character the grammar gives a meaning elsewhere (a double quote in a single-quoted value is left out: it is written escaped, and escapes stay as spelled) */
static void put_s(char **p, char const *t) { while (*t) *(*p)++ = *t++; }
static void styled(int vs, int ns, char ch, int compact) {
    static char const Q[] = "\"'`"; zpl_adt_node r, b; zpl_string o; char buf[32], *p = buf, *s, *t; int n, i; char v[4] = { 'x', ch, 'y', 0 };
    put_s(&p, "{"); if (ns < 2) *p++ = Q[ns]; put_s(&p, "nm"); if (ns < 2) { *p++ = ch != Q[ns] ? ch : 'k'; *p++ = Q[ns]; } put_s(&p, ":"); *p++ = Q[vs]; put_s(&p, v); *p++ = Q[vs]; put_s(&p, ",z:1}"); n = p - buf;
    s = zs_raw(n); for (i = 0; i < n; i++) s[i] = buf[i];
    zv_check(zpl_json_parse(&r, s, zpl_heap()) == 0); zv_check(r.nodes[0].type == (vs == 2 ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING)); zv_check(same(r.nodes[0].string, v));
    o = zpl_json_write_string(zpl_heap(), &r, compact ? ZPL_JSON_INDENT_STYLE_COMPACT : 0); zv_check(o != 0); t = own(o);
    zv_check(zpl_json_parse(&b, t, zpl_heap()) == 0); zv_check(b.type == ZPL_ADT_TYPE_OBJECT && zpl_array_count(b.nodes) == 2 && b.nodes[0].type == r.nodes[0].type);
    zv_check(same(b.nodes[0].string, v)); zv_check(same(b.nodes[0].name, r.nodes[0].name)); zv_check(same(b.nodes[1].name, "z") && b.nodes[1].integer == 1);
    zpl_string_free(o); zpl_json_free(&r); zpl_json_free(&b); zv_check(zv_live == 0); zv_end();
}
static char const CH[] = "k\"'`,:{}[]#/ |=\n%&?\xc3";
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_styled_double(void) { int k = ZV_PICK(0, 19), ns = ZV_PICK(0, 2); if (CH[k] == '"') { zv_end(); return; } styled(0, ns, CH[k], (k + ns) & 1); }
//zv: timeout=800 slevel=6000 mlevel=6000 tier=thorough
void ctx_styled_double_other(void) { int k = ZV_PICK(0, 19), ns = ZV_PICK(0, 2); if (CH[k] == '"') { zv_end(); return; } styled(0, ns, CH[k], (k + ns + 1) & 1); }
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_styled_single(void) { int k = ZV_PICK(0, 19), ns = ZV_PICK(0, 2); if (CH[k] == '\'' || CH[k] == '"') { zv_end(); return; } styled(1, ns, CH[k], (k + ns) & 1); }
//zv: timeout=800 slevel=6000 mlevel=6000 tier=thorough
void ctx_styled_single_other(void) { int k = ZV_PICK(0, 19), ns = ZV_PICK(0, 2); if (CH[k] == '\'' || CH[k] == '"') { zv_end(); return; } styled(1, ns, CH[k], (k + ns + 1) & 1); }
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_styled_multi(void) { int k = ZV_PICK(0, 19), ns = ZV_PICK(0, 2); if (CH[k] == '`') { zv_end(); return; } styled(2, ns, CH[k], (k + ns) & 1); }
//zv: timeout=800 slevel=6000 mlevel=6000 tier=thorough
void ctx_styled_multi_other(void) { int k = ZV_PICK(0, 19), ns = ZV_PICK(0, 2); if (CH[k] == '`') { zv_end(); return; } styled(2, ns, CH[k], (k + ns + 1) & 1); }
/* the assignment and name styles a document was written in are kept */
//zv: timeout=800 slevel=6000 mlevel=6000
void ctx_styles_kept(void) {
    static char const *const T[] = { "{a:1,b=2,c|3}", "{\"a\"=1,'b'|2,c:3}", "a=1\nb|2\nc:3\n", "{a=`x`,b='y',c|\"z\"}" }; zpl_adt_node r, b; zpl_string o; char *s, *t; int k = ZV_PICK(0, 3), n = zs_len(T[k]), i;
    s = zs_raw(n); for (i = 0; i < n; i++) s[i] = T[k][i]; zv_check(zpl_json_parse(&r, s, zpl_heap()) == 0); zv_check(zpl_array_count(r.nodes) == 3);
    o = zpl_json_write_string(zpl_heap(), &r, ZV_PICK(0, 1) ? ZPL_JSON_INDENT_STYLE_COMPACT : 0); zv_check(o != 0); t = own(o); zv_check(zpl_json_parse(&b, t, zpl_heap()) == 0); zv_check(zpl_array_count(b.nodes) == 3); zv_check(b.cfg_mode == r.cfg_mode);
    for (i = 0; i < 3; i++) { zv_check(b.nodes[i].assign_style == r.nodes[i].assign_style); zv_check(b.nodes[i].name_style == r.nodes[i].name_style); zv_check(b.nodes[i].type == r.nodes[i].type); zv_check(same(b.nodes[i].name, r.nodes[i].name)); if (k < 3) zv_check(b.nodes[i].integer == i + 1); }
    zpl_string_free(o); zpl_json_free(&r); zpl_json_free(&b); zv_check(zv_live == 0); zv_end();
}

/* C07 a refused allocation, wherever it comes: the operation reports it or leaves its object as it was; contexts of other modules are in their own files. */
#include "zv.h"
#include "zvs.h"
static int eqs(char const *a, char const *b) { int i; for (i = 0; b[i]; i++) if (a[i] != b[i]) return 0; return a[i] == 0; }
#define REFUSED (zv_fail_at >= 0 && zv_alloc_no > zv_fail_at)
static void from(int lo, int hi) { zv_fail_at = ZV_PICK(lo, hi); if (zv_fail_at >= 0) zv_fail_at += zv_alloc_no; }
static void fin(void) { zv_check(zv_live == 0); zv_end(); }
/* ---- strings: a grown string, or NULL with the old one intact */
static zpl_string S;
static void str(char const *t, long len) { S = zpl_string_make_length(zpl_heap(), t, len); zv_check(S != 0); }
static void grown(zpl_string r, char const *old, char const *want) {
    if (REFUSED) { zv_check(r == 0); zv_check(eqs(S, old) && zpl_string_length(S) == zs_len(old)); zpl_string_free(S); }
    else { zv_check(r != 0); zv_check(eqs(r, want) && zpl_string_length(r) == zs_len(want) && zpl_string_capacity(r) >= zs_len(want)); zpl_string_free(r); }
    fin();
}
void ctx_string_append(void) {
    zpl_string r, o; int k = ZV_PICK(0, 4); str("ab", 2);
    if (k == 0) { from(-1, 1); r = zpl_string_appendc(S, "cd"); }
    else if (k == 1) { from(-1, 1); r = zpl_string_append_length(S, "cdX", 2); }
    else if (k == 2) { o = zpl_string_make(zpl_heap(), "cd"); from(-1, 1); r = zpl_string_append(S, o); zpl_string_free(o); }
    else if (k == 3) { from(-1, 1); r = zpl_string_append_rune(S, 'c'); grown(r, "ab", "abc"); return; }
    else { from(-1, 1); r = zpl_string_set(S, "abcd"); }
    grown(r, "ab", "abcd");
}
void ctx_string_space(void) { zpl_string r; str("ab", 2); from(-1, 1); r = zpl_string_make_space_for(S, ZV_PICK(0, 1) * 5); grown(r, "ab", "ab"); }
//zv: mlevel=4000
void ctx_string_fmt(void) { zpl_string r; str("ab", 2); from(-1, 1); r = zpl_string_append_fmt(S, "%c%s", 'c', "d"); grown(r, "ab", "abcd"); }
void ctx_string_make(void) {
    zpl_string r; int k = ZV_PICK(0, 3); if (k == 3) str("xy", 2); from(-1, 1);
    r = k == 0 ? zpl_string_make(zpl_heap(), "xy") : k == 1 ? zpl_string_make_length(zpl_heap(), "xyz", 2) : k == 2 ? zpl_string_make_reserve(zpl_heap(), 3) : zpl_string_duplicate(zpl_heap(), S);
    zv_check((r == 0) == REFUSED); if (r) zv_check(eqs(r, k == 2 ? "" : "xy")); if (r) zpl_string_free(r); if (k == 3) zpl_string_free(S); fin();
}
//zv: mlevel=4000
void ctx_string_sprintf(void) {
    zpl_string r; char b[16]; char *p = 0; int k = ZV_PICK(0, 2); from(-1, 1);
    if (k == 2) { zpl_asprintf(zpl_heap(), &p, "%s-%d", "a", 7); zv_check((p == 0) == REFUSED); if (p) { zv_check(eqs(p, "a-7")); zpl_mfree(p); } fin(); return; }
    r = k ? zpl_string_sprintf(zpl_heap(), b, 16, "%s-%d", "a", 7) : zpl_string_sprintf_buf(zpl_heap(), "%s-%d", "a", 7);
    zv_check((r == 0) == REFUSED); if (r) { zv_check(eqs(r, "a-7")); zpl_string_free(r); } fin();
}
void ctx_string_join(void) {
    static char const *P[] = { "a", "bc", "", "d" }; zpl_string r; int n = ZV_PICK(0, 4); from(-1, 7);
    r = zpl_string_join(zpl_heap(), P, n, "--"); zv_check((r == 0) == REFUSED);
    if (r) { zv_check(eqs(r, n == 0 ? "" : n == 1 ? "a" : n == 2 ? "a--bc" : n == 3 ? "a--bc--" : "a--bc----d")); zpl_string_free(r); } fin();
}
/* ---- plain text copies and codes */
void ctx_text(void) {
    char *r; int k = ZV_PICK(0, 1); from(-1, 1); r = k ? zpl_alloc_str(zpl_heap(), "hey") : zpl_alloc_str_len(zpl_heap(), "heyo", 3);
    zv_check((r == 0) == REFUSED); if (r) { zv_check(eqs(r, "hey")); zpl_mfree(r); } fin();
}
void ctx_lines(void) {
    char t[10] = { 'a', 'b', '\n', 'c', '\n', 'd', '\n', 'e', '\n', 0 }; char **l; int i; from(-1, 4); l = zpl_str_split_lines(zpl_heap(), t, ZV_PICK(0, 1));
    zv_check((l == 0) == REFUSED); if (l) { zv_check(zpl_array_count(l) >= 4); zv_check(eqs(l[0], "ab") && eqs(l[1], "c") && eqs(l[2], "d") && eqs(l[3], "e")); zpl_array_free(l); } fin();
}
void ctx_base64(void) {
    zpl_u8 *e, *d; from(-1, 2); e = zpl_base64_encode(zpl_heap(), "hello", 5); zv_check((e == 0) == REFUSED); if (!e) { fin(); return; }
    d = zpl_base64_decode(zpl_heap(), e, 8); zv_check((d == 0) == REFUSED); if (d) { zv_check(eqs((char *)d, "hello")); zpl_mfree(d); } zpl_mfree(e); fin();
}
/* ---- allocators over a backing that refuses: nothing to hand out, nothing to free twice */
void ctx_pool(void) {
    zpl_pool p; void *q; zpl_allocator a; from(-1, 1); zpl_pool_init(&p, zpl_heap(), 2, 16); a = zpl_pool_allocator(&p);
    zv_check((p.physical_start == 0) == REFUSED); if (REFUSED) zv_check(p.free_list == 0); else { q = zpl_alloc(a, 16); zv_check(q != 0); zpl_free(a, q); }
    zpl_free_all(a); zpl_pool_free(&p); fin(); /* an exhausted pool asserts, as documented */
}
void ctx_arena(void) {
    zpl_arena m; void *q; zpl_allocator a; from(-1, 1); zpl_arena_init_from_allocator(&m, zpl_heap(), 64); a = zpl_arena_allocator(&m);
    zv_check((m.physical_start == 0) == REFUSED); if (REFUSED) { q = zpl_alloc(a, 16); zv_check(q == 0 && zpl_arena_size_remaining(&m, 16) <= 0); } zpl_arena_free(&m); fin();
}
/* ---- numbers of any container are compared through a stream: the query reports nothing found, and leaks nothing */
//zv: slevel=40000 mlevel=4000
void ctx_adt_query(void) {
    zpl_adt_node r = { 0 }, *n, *h; zv_check(!zpl_adt_set_arr(&r, 0, zpl_heap())); n = zpl_adt_append_int(&r, 0, 4); n = zpl_adt_append_int(&r, 0, 57);
    n = r.nodes + 1; from(-1, 3); h = zpl_adt_query(&r, "[57]"); if (!REFUSED) zv_check(h == n); else zv_check(h == 0 || h == n); zpl_adt_destroy_branch(&r); fin();
}
void ctx_adt_build(void) {
    zpl_adt_node r = { 0 }, *n; int k = ZV_PICK(0, 4), was; zpl_u8 e; from(-1, 1); e = k & 1 ? zpl_adt_set_arr(&r, 0, zpl_heap()) : zpl_adt_set_obj(&r, 0, zpl_heap());
    zv_check((e != 0) == REFUSED); if (e) { zv_fail_at = -1; zpl_adt_destroy_branch(&r); fin(); return; }
    zv_fail_at = -1; for (was = 0; was < ZV_PICK(0, 6); was++) zv_check(zpl_adt_append_int(&r, "i", was) != 0);
    was = zpl_array_count(r.nodes); from(-1, 3);
    n = k == 0 ? zpl_adt_append_obj(&r, "o") : k == 1 ? zpl_adt_append_arr(&r, "a") : k == 2 ? zpl_adt_append_str(&r, "s", "v") : k == 3 ? zpl_adt_append_flt(&r, "f", 1.5) : zpl_adt_append_int(&r, "n", 3);
    zv_check((n == 0) == REFUSED); zv_check(zpl_array_count(r.nodes) == was + !REFUSED); { int i; for (i = 0; i < was; i++) zv_check(r.nodes[i].integer == i && r.nodes[i].parent == &r); }
    if (n) zv_check(n == r.nodes + was && n->parent == &r); zv_fail_at = -1; zpl_adt_destroy_branch(&r); fin();
}
/* ---- writing to a string: the whole text or nothing */
static void whole(zpl_string o, char const *want) { zv_check((o == 0) == REFUSED); if (o) { zv_check(eqs(o, want) && zpl_string_length(o) == zs_len(want)); zpl_string_free(o); } }
static void tree(zpl_adt_node *r, int arr) { zpl_adt_node z = { 0 }; *r = z; if (arr) zv_check(!zpl_adt_set_arr(r, 0, zpl_heap())); else zv_check(!zpl_adt_set_obj(r, 0, zpl_heap())); }
//zv: slevel=40000 mlevel=4000
void ctx_write_json(void) {
    zpl_adt_node r, *n; tree(&r, 0); n = zpl_adt_append_str(&r, "a", "x\"y"); n = zpl_adt_append_int(&r, "b", -12); n = zpl_adt_append_arr(&r, "c"); zpl_adt_append_flt(n, 0, 1)->props = ZPL_ADT_PROPS_TRUE;
    from(-1, 8); whole(zpl_json_write_string(zpl_heap(), &r, ZPL_JSON_INDENT_STYLE_COMPACT), "{\"a\":\"x\\\"y\",\"b\":-12,\"c\":[true]}"); zpl_json_free(&r); fin();
}
//zv: slevel=40000 mlevel=4000
void ctx_write_csv(void) {
    zpl_adt_node r, *n; int i; tree(&r, 1); for (i = 0; i < 2; i++) { n = zpl_adt_append_arr(&r, i ? "h" : "k"); zpl_adt_append_int(n, 0, i + 3); zpl_adt_append_str(n, 0, "q\"")->name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE; }
    from(-1, 8); whole(zpl_csv_write_string(zpl_heap(), &r), "\"k\",\"h\"\n3,4\n\"q\"\"\",\"q\"\"\"\n"); zpl_csv_free(&r); fin();
}
//zv: slevel=40000 mlevel=4000
void ctx_write_uri(void) {
    zpl_adt_node r; zv_check(!zpl_uri_init(&r, "h://x/", zpl_heap())); zpl_adt_append_str(&r, "a b", "c&"); zpl_adt_append_int(&r, "n", 42);
    from(-1, 8); whole(zpl_uri_write_string(zpl_heap(), &r), "h://x/?a+b=c%26&n=42"); zpl_uri_free(&r); fin();
}
//zv: slevel=40000 mlevel=4000
void ctx_stream_new(void) {
    zpl_file f; int i; from(-1, 3); if (!zpl_file_stream_new(&f, zpl_heap())) { zv_check(REFUSED); fin(); return; } zv_check(!REFUSED);
    for (i = 0; i < 3; i++) { int was = zpl_file_size(&f), n = 9; zpl_b32 ok = zpl_file_write(&f, "abcdefghi", n); zpl_isize sz; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); zv_check(sz == was + (ok ? n : 0)); zv_check(ok || REFUSED); if (sz) zv_check(b[0] == 'a' && b[sz - 1] == 'i'); }
    zpl_file_close(&f); fin();
}

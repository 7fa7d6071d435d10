/* C23 blocks: two allocators, each checking that what it is handed back is its own; a request may be refused at any point. When an
   operation returns, only its result is held; after the owner is freed, nothing is. */
#include <stdio.h>
static FILE zt_pipe; static int zt_pipes, zt_at;
void zv_check(int c);
FILE *zt_popen(char const *c, char const *m) { zt_pipes++; zt_at = 0; return &zt_pipe; }
int zt_pclose(FILE *f) { zt_pipes--; return 0; }
int zt_getc(FILE *f) { return zt_at < 9 ? 'a' + zt_at++ : EOF; }
char *zt_getenv(char const *n) { return "v"; }
#define getenv zt_getenv
#define popen zt_popen
#define pclose zt_pclose
#undef getc
#define getc zt_getc
#include "zv_os.h"
#include "zv.h"
#include "zvs.h"
/* ---- the caller's allocator: its own blocks, known one by one */
#define OWN_MAX 24
static void *own[OWN_MAX]; static int own_n, own_no, own_fail = -1; static long own_sz[OWN_MAX];
static int own_find(void *p) { int i; for (i = 0; i < OWN_MAX; i++) if (own[i] == p) return i; zv_check(0); return 0; }
static void *own_alloc(long n) { int i; void *p; if (own_no++ == own_fail) return 0; for (i = 0; i < OWN_MAX && own[i]; i++) ; zv_check(i < OWN_MAX); p = (malloc)(n); own[i] = p; own_sz[i] = n; own_n++; return p; }
static void own_free(void *p) { if (p) { own[own_find(p)] = 0; own_n--; (free)(p); } }
static ZPL_ALLOCATOR_PROC(own_proc) {
    void *p = 0; long i;
    switch (type) {
        case ZPL_ALLOCATION_ALLOC: p = own_alloc(size); if (p && (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) for (i = 0; i < size; i++) ((char *)p)[i] = 0; break;
        case ZPL_ALLOCATION_FREE: own_free(old_memory); break;
        case ZPL_ALLOCATION_RESIZE: if (!old_memory) { p = own_alloc(size); break; } if (size == 0) { own_free(old_memory); break; } zv_check(own_sz[own_find(old_memory)] >= old_size);
            p = own_alloc(size); if (!p) break; for (i = 0; i < size && i < old_size; i++) ((char *)p)[i] = ((char *)old_memory)[i]; own_free(old_memory); break;
        default: zv_check(0);
    }
    return p;
}
static zpl_allocator A(void) { zpl_allocator a = { own_proc, 0 }; return a; }
static int before; static void mark(void) { before = own_n; }
static void held(int n) { zv_check(own_n == before + n); zv_check(zv_live == 0); }
static void refuse(int hi) { own_fail = ZV_PICK(-1, hi); if (own_fail >= 0) own_fail += own_no; }
#define REFUSED (own_fail >= 0 && own_no > own_fail)
static void fin(void) { zv_check(own_n == 0 && zv_live == 0 && zt_pipes == 0); zv_check(zo_open_n == 0 && zo_dirs == 0); zv_end(); }
static char *text(char const *t) { char *p = zs_raw(zs_len(t)); int i; for (i = 0; t[i]; i++) p[i] = t[i]; return p; }
/* ---- documents */
static char const *JS[] = { "{\"a\":[1,{\"b\":2}],c:\"x\"}", "[1,[2,[3", "{\"a\":[1,2],\"b\":}", "{a:1,a:\"\\u00e9\"}", "[{},{\"k\":tru}]", "[1,2,3,4,5,6,7,8,9]", "" };
static zpl_adt_node root;
static void json(int k, int hi) { zpl_u8 e; zpl_string o; refuse(hi); e = zpl_json_parse(&root, text(JS[k]), A()); zv_check(zv_live == 0); own_fail = -1;
    if (!e) { mark(); o = zpl_json_write_string(A(), &root, ZV_PICK(0, 1) ? ZPL_JSON_INDENT_STYLE_COMPACT : 0); held(o != 0); zpl_string_free(o); held(0); }
    zpl_json_free(&root); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_json_0(void) { json(0, 6); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_json_bad(void) { static int const K[] = { 1, 2, 4, 6 }; json(K[ZV_PICK(0, 3)], 5); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_json_dup(void) { json(3, 3); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_json_long(void) { json(5, 4); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_json_write_refused(void) { zpl_string o; zv_check(!zpl_json_parse(&root, text("{a:[1,\"q\"]}"), A())); mark(); refuse(7); o = zpl_json_write_string(A(), &root, 0); held(o != 0); own_fail = -1; zpl_string_free(o); held(0); zpl_json_free(&root); fin(); }
static char const *CS[] = { "a,b\n1,\"x\"\"y\"\n3,4\n", "a,b\n1\n", "\"a\n", "a,b\n1,2,3\n", "1,2,3\n4,5,6\n7,8,9\n1,1,1\n2,2,2\n" };
static void csv(int k, int hi) { zpl_u8 e; zpl_string o; refuse(hi); e = zpl_csv_parse(&root, text(CS[k]), A(), ZV_PICK(0, 1)); zv_check(zv_live == 0); own_fail = -1;
    if (!e) { mark(); refuse(6); o = zpl_csv_write_string(A(), &root); held(o != 0); own_fail = -1; zpl_string_free(o); held(0); }
    zpl_csv_free(&root); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_csv_0(void) { csv(0, -1); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_csv_refused(void) { zpl_u8 e; refuse(8); e = zpl_csv_parse(&root, text(CS[0]), A(), ZV_PICK(0, 1)); zv_check(zv_live == 0); own_fail = -1; zpl_csv_free(&root); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_csv_bad(void) { zpl_u8 e; int k = ZV_PICK(1, 3); e = zpl_csv_parse(&root, text(CS[k]), A(), ZV_PICK(0, 1)); zv_check(zv_live == 0); zpl_csv_free(&root); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_csv_rows(void) { zpl_u8 e; refuse(7); e = zpl_csv_parse(&root, text(CS[4]), A(), ZV_PICK(0, 1)); zv_check(zv_live == 0); own_fail = -1; zpl_csv_free(&root); fin(); }
static char const *US[] = { "h://x/?a=1&b=%20c&d", "h?a=%zz&b", "?=&=", "x" };
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_uri(void) { zpl_u8 e; zpl_string o; int k = ZV_PICK(0, 3); refuse(4); e = zpl_uri_parse(&root, text(US[k]), A()); zv_check(zv_live == 0); own_fail = -1; if (!e) { mark(); o = zpl_uri_write_string(A(), &root); held(o != 0); zpl_string_free(o); held(0); } zpl_uri_free(&root); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_uri_write_refused(void) { zpl_string o; zv_check(!zpl_uri_parse(&root, text(US[0]), A())); mark(); refuse(7); o = zpl_uri_write_string(A(), &root); held(o != 0); own_fail = -1; zpl_string_free(o); zpl_uri_free(&root); fin(); }
/* a tree keeps its blocks in the allocator of its root, wherever its nodes are moved */
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_tree(void) {
    zpl_adt_node *a, *b, other = { 0 }; int k = ZV_PICK(0, 5); { zpl_adt_node z = { 0 }; root = z; }
    zv_check(!zpl_adt_set_obj(&root, 0, A())); a = zpl_adt_append_arr(&root, "a"); zpl_adt_append_int(a, 0, 1); zpl_adt_append_int(a, 0, 2); b = zpl_adt_append_obj(&root, "b"); zpl_adt_append_str(b, "s", "t"); a = root.nodes; b = root.nodes + 1;
    zv_check(!zpl_adt_set_arr(&other, 0, zpl_heap())); zpl_adt_append_int(&other, 0, 9);
    if (k == 0) zpl_adt_remove_node(a->nodes); else if (k == 1) zpl_adt_swap_nodes(a, b); else if (k == 2) zpl_adt_move_node(a->nodes, b); else if (k == 3) zpl_adt_move_node(a, &other);
    else if (k == 4) { zpl_adt_destroy_branch(a); zpl_adt_remove_node(a); } else zpl_adt_query(&root, "a/[2]");
    zpl_adt_destroy_branch(&root); zv_check(own_n == 0 || k == 3); zpl_adt_destroy_branch(&other); fin();
}
/* ---- strings and arrays */
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_string(void) {
    zpl_string s = zpl_string_make(A(), "ab"), r; int k = ZV_PICK(0, 8); mark(); refuse(2);
    r = k == 0 ? zpl_string_appendc(s, "longer than the room") : k == 1 ? zpl_string_append_fmt(s, "%d", 5) : k == 2 ? zpl_string_set(s, "longer than before") : k == 3 ? zpl_string_trim(s, "a") : k == 4 ? zpl_string_trim_space(s) : k == 5 ? zpl_string_make_space_for(s, 9) : k == 6 ? zpl_string_append_rune(s, 0x20ac) : k == 7 ? zpl_string_append_length(s, "c", 1) : s;
    held(0); own_fail = -1; if (r) s = r; if (k == 8) { zpl_string d; refuse(0); d = zpl_string_duplicate(A(), s); held(d != 0); own_fail = -1; zpl_string_free(d); }
    zpl_string_free(s); fin();
}
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_string_results(void) {
    static char const *P[] = { "a", "b", "c" }; char b[16], *p = 0, t[] = "x\ny\nz\n"; zpl_string r; char **l; int k = ZV_PICK(0, 7); mark(); refuse(5);
    if (k == 0) { r = zpl_string_join(A(), P, 3, ", and then "); held(r != 0); own_fail = -1; zpl_string_free(r); }
    else if (k == 1) { r = zpl_string_sprintf(A(), b, 16, "%d", 4); held(r != 0); own_fail = -1; zpl_string_free(r); }
    else if (k == 2) { r = zpl_string_sprintf_buf(A(), "%d", 4); held(r != 0); own_fail = -1; zpl_string_free(r); }
    else if (k == 3) { zpl_asprintf(A(), &p, "%d", 4); held(p != 0); own_fail = -1; zpl_free(A(), p); }
    else if (k == 4) { l = zpl_str_split_lines(A(), t, false); held(l != 0); own_fail = -1; zpl_array_free(l); }
    else if (k == 5) { r = zpl_get_env_str("HOME"); own_fail = -1; zv_check(own_n == 0); zv_check(zv_live == (r != 0)); zpl_string_free(r); }
    else if (k == 6) { r = zpl_system_command_str("c", A()); held(r != 0); own_fail = -1; zpl_string_free(r); }
    else { p = zpl_alloc_str(A(), "q"); held(p != 0); own_fail = -1; zpl_free(A(), p); }
    fin();
}
ZPL_TABLE(static inline, tab, tab_, int);
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_containers(void) {
    int k = ZV_PICK(0, 3), i;
    if (k == 0) { zpl_array(int) a; zpl_array_init(a, A()); refuse(4); if (a) for (i = 0; i < 9; i++) zpl_array_append(a, i); zv_check(own_n == 1 && zv_live == 0); zpl_array_set_capacity(a, 2); zpl_array_resize(a, 20); zv_check(own_n == 1); own_fail = -1; zpl_array_free(a); zv_check(own_n == 0); }
    else if (k == 1) { tab t; tab_init(&t, A()); refuse(5); for (i = 0; i < 9; i++) tab_set(&t, i * 3, i); zv_check(zv_live == 0); tab_rehash(&t, 3); tab_remove(&t, 3); own_fail = -1; tab_destroy(&t); zv_check(own_n == 0); }
    else if (k == 2) { zpl_buffer(int) b; refuse(0); zpl_buffer_init(b, A(), 4); zv_check(own_n == (b != 0)); own_fail = -1; zpl_buffer_free(b); zv_check(own_n == 0); }
    else { zpl_file f; refuse(4); if (zpl_file_stream_new(&f, A())) { for (i = 0; i < 3; i++) zpl_file_write(&f, "abcdefghijkl", 12); zpl_file_seek(&f, 1); zpl_file_read(&f, (char[4]){ 0 }, 3); own_fail = -1; zpl_file_close(&f); } zv_check(own_n == 0); own_fail = -1; }
    fin();
}
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_stream_copy(void) { zpl_file f; int fl = ZV_PICK(0, 3); static char src[8]; mark(); refuse(3); if (zpl_file_stream_open(&f, A(), (zpl_u8 *)src, 8, fl)) { zpl_file_write(&f, "abcdefghijkl", 12); own_fail = -1; zpl_file_close(&f); } held(0); fin(); }
/* ---- options and patterns */
static int parse_opts(int n, char **v, int bad) { zpl_opts o; int r; if (!zpl_opts_init(&o, A(), "app")) { held(0); return 0; }
    zpl_opts_add(&o, "s", "str", "", ZPL_OPTS_STRING); zpl_opts_add(&o, "i", "int", "", ZPL_OPTS_INT); zpl_opts_add(&o, "f", "flag", "", ZPL_OPTS_FLAG); zpl_opts_positional_add(&o, "str");
    r = zpl_opts_compile(&o, n, v); zv_check(zv_live == 0); own_fail = -1; zpl_opts_free(&o); held(0); return r; }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_opts(void) {
    static char *v0[] = { "app", "x", "-s", "y", "--str=z", "-i", "4" }, *v1[] = { "app", "--nope", "-i=", "-i", "q" }, *v2[] = { "app", "-s=a", "-s=b", "-s=c", "-s" }; int k = ZV_PICK(0, 2); refuse(9);
    parse_opts(k == 0 ? 7 : 5, k == 0 ? v0 : k == 1 ? v1 : v2, k); fin();
}
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_regex(void) {
    static char const *P[] = { "a(b|c)+d", "(a", "[x", "a**", "^[a-c]{1}$", "((x)(y))", "a)" }; int k = ZV_PICK(0, 6); zpl_re re; zpl_regex_error e; zpl_re_capture *c = 0; mark(); refuse(4);
    e = zpl_re_compile(&re, A(), P[k], zs_len(P[k])); held(e == 0 ? 1 : 0); own_fail = -1;
    if (!e) { if (k == 0) { refuse(2); if (zpl_re_match_all(&re, "abdacd", 6, 1, &c)) zv_check(c != 0); own_fail = -1; zpl_array_free(c); } zpl_re_destroy(&re); } held(0); fin();
}
/* ---- whole files, names, directories, base64 */
static void disk(int hi) { zo_size = 3; zo_full = 1; zo_fail_no = ZV_PICK(-2, hi); zo_nnames = 2; zo_names[0] = "f"; zo_names[1] = "d"; zo_types[0] = DT_REG; zo_types[1] = DT_DIR; mark(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_read_contents(void) { zpl_file_contents c; disk(6); refuse(1); c = zpl_file_read_contents(A(), 1, "n"); held(c.data != 0); own_fail = -1; if (c.data) { zpl_file_free_contents(&c); zv_check(c.data == 0); } held(0); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_read_lines(void) { zpl_array(char *) l = 0; char *t; disk(6); refuse(2); t = zpl_file_read_lines(A(), &l, "n", 0); held((t != 0) + (l != 0)); own_fail = -1; if (t) zpl_free(A(), t); zpl_array_free(l); held(0); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_full_name(void) { char *r; disk(1); refuse(1); r = zpl_path_get_full_name(A(), "q"); held(r != 0); zv_check(zo_real_live == zv_libc_freed); own_fail = -1; if (r) zpl_free(A(), r); held(0); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_dirlist(void) { zpl_string s; disk(2); refuse(9); s = zpl_path_dirlist(A(), "q", 1); held(s != 0); own_fail = -1; zpl_string_free(s); held(0); fin(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_base64(void) { zpl_u8 *e, *d = 0; zo_fails = 0; mark(); refuse(2); e = zpl_base64_encode(A(), "hello", 5); held(e != 0); if (e) { d = zpl_base64_decode(A(), e, 8); held(1 + (d != 0)); zpl_free(A(), e); if (d) zpl_free(A(), d); } held(0); own_fail = -1; d = zpl_base64_decode(A(), "!!!!", 4); held(d != 0); if (d) zpl_free(A(), d); held(0); fin(); }
/* ---- allocators built on another: what they took is given back, once */
//zv: slevel=40000 args=-eva-no-memexec mlevel=6000
void ctx_regions(void) {
    int k = ZV_PICK(0, 3); refuse(1);
    if (k == 0) { zpl_arena a; zpl_arena_init_from_allocator(&a, A(), 64); zpl_arena_free(&a); zv_check(own_n == 0); zpl_arena_free(&a); }
    else if (k == 1) { zpl_arena a; zpl_arena_init_from_allocator(&a, A(), 64); own_fail = -1; zpl_arena_free(&a); zpl_arena_free(&a); }
    else if (k == 2) { zpl_pool p; zpl_pool_init(&p, A(), 2, 16); if (p.physical_start) zpl_alloc(zpl_pool_allocator(&p), 16); zpl_pool_free(&p); }
    else { zpl_stack_memory s; zpl_stack_memory_init(&s, A(), 64); own_fail = -1; zpl_stack_memory_free(&s); }
    own_fail = -1; fin();
}

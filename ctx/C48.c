/* C48 whole-file and directory helpers over the operating-system model. */
#include "zv_os.h"
#include "zv.h"
#include "zvs.h"
#undef FBYTE
#define FBYTE(i) ((unsigned char)(33 + (i) % 90))
/* exact bytes for every size; short transfers, failures and failed allocations leave a consistent result */
void ctx_read_contents(void) {
    int zt = ZV_PICK(0, 1), i; zpl_file_contents c; zo_size = ZV_PICK(0, 4); zv_fail_at = ZV_PICK(-1, 1);
    c = zpl_file_read_contents(zpl_heap(), zt, "n");
    zv_check(zo_open_n == 0); zv_check(c.allocator.proc == zpl_heap().proc);
    zv_check((c.data != 0) == (c.size > 0) || zo_failed_any);
    if (c.data) {
        unsigned char *d = c.data; zv_check(c.size <= zo_size && (c.size == zo_size || zo_failed_any));
        for (i = 0; i < c.size; i++) zv_check(d[i] == FBYTE(i)); if (zt) zv_check(d[c.size] == 0);
        zpl_file_free_contents(&c); zv_check(c.data == 0 && c.size == 0);
    } else zv_check(c.size == 0 && (zo_size == 0 || zo_failed_any || zv_fail_at >= 0));
    zv_check(zv_live == 0); zv_end();
}
void ctx_read_contents_ok(void) { int zt = ZV_PICK(0, 1); zpl_file_contents c; zo_fails = 0; zo_full = 1; zo_size = ZV_PICK(1, 5); c = zpl_file_read_contents(zpl_heap(), zt, "n"); zv_check(c.data && c.size == zo_size); if (zt) zv_check(zs_len(c.data) == zo_size); zv_end(); }
void ctx_read_contents_folder(void) { zpl_file_contents c; zo_fails = 0; zo_st_dir = 1; zo_size = 5; c = zpl_file_read_contents(zpl_heap(), 1, "n"); zv_check(!c.data && !c.size && zo_open_n == 0 && zv_live == 0); zv_end(); }
void ctx_read_short(void) {   /* counts shorter than asked are continued, not taken for the end */
    zpl_file_contents c; int i; zo_fails = 0; zo_size = 3; c = zpl_file_read_contents(zpl_heap(), 0, "n");
    if (c.data) { unsigned char *d = c.data; for (i = 0; i < c.size; i++) zv_check(d[i] == FBYTE(i)); } zv_end();
}
void ctx_read_lines(void) {
    zpl_array(char *) l = 0; char *c; zo_size = ZV_PICK(0, 3); zv_fail_at = ZV_PICK(-1, 2);
    c = zpl_file_read_lines(zpl_heap(), &l, "n", ZV_PICK(0, 1));
    zv_check(zo_open_n == 0); zv_check((c != 0) == (l != 0));
    if (c) { zv_check(zs_len(c) <= zo_size); if (!zo_failed_any) { zv_check(zs_len(c) == zo_size); zv_check(zpl_array_count(l) == (zo_size > 0)); if (zo_size) zv_check(l[0] == c); } }
    else zv_check(zo_failed_any || zv_fail_at >= 0);
    zpl_mfree(c); zpl_array_free(l); zv_check(zv_live == 0); zv_end();
}
void ctx_full_name(void) {
    char *r; int i; zv_fail_at = ZV_PICK(-1, 0); r = zpl_path_get_full_name(zpl_heap(), "q");
    zv_check(zo_real_live == zv_libc_freed); zv_check((r != 0) == (zv_fail_at < 0));
    if (r) { if (zo_failed_any) zv_check(zs_eq(r, "q", 2)); else zv_check(zs_eq(r, "/abc", 5)); zpl_mfree(r); }
    zv_check(zv_live == 0); zv_end();
}
static int zp_frees; static void *zp_bad;
static ZPL_ALLOCATOR_PROC(zp_proc) { if (type == ZPL_ALLOCATION_ALLOC) return zv_malloc(size); if (type == ZPL_ALLOCATION_FREE) { if (old_memory && old_memory == zv_libc_block) zv_check(0); zv_free(old_memory); } return 0; }
void ctx_full_name_allocator(void) { zpl_allocator a; char *r; a.proc = zp_proc; a.data = 0; r = zpl_path_get_full_name(a, "q"); zv_check(zo_real_live == zv_libc_freed); zv_check(r != 0); zpl_free(a, r); zv_check(zv_live == 0); zv_end(); }
static int unk; /* a file system that leaves the types of entries to stat */
static void names(void) {
    int k = ZV_PICK(0, 3); char const *t[4][4] = { { ".", "..", "f", 0 }, { "..x", "d", 0, 0 }, { "...", ".h", "d", 0 }, { 0, 0, 0, 0 } }; int i;
    for (i = 0; t[k][i]; i++) { zo_names[i] = t[k][i]; zo_types[i] = unk ? DT_UNKNOWN : t[k][i][0] == 'd' ? DT_DIR : DT_REG; } zo_nnames = i;
}
static char want[64]; static int wl;
static void expect(void) { int i, j; for (i = 0; i < zo_nnames; i++) { char const *s = zo_names[i]; int n = zs_len(s); if (s[0] == '.' && (n == 1 || (n == 2 && s[1] == '.'))) continue; want[wl++] = 'q'; want[wl++] = '/'; for (j = 0; j < n; j++) want[wl++] = s[j]; want[wl++] = '\n'; } }
void ctx_dirlist(void) {
    zpl_string s; int rec = ZV_PICK(0, 1); unk = ZV_PICK(0, 1); zo_st_named = 1; names(); expect(); zv_fail_at = ZV_PICK(-1, 9);
    s = zpl_path_dirlist(zpl_heap(), "q", rec);
    zv_check(zo_dirs == 0); if (!s) zv_check(zv_fail_at >= 0);
    if (s && zv_fail_at < 0 && !zo_failed_any) { zv_check(zpl_string_length(s) == wl && zs_eq(s, want, wl)); zv_check(!rec || zo_dirused == 1 + (zo_nnames > 1 && (zo_names[1][0] == 'd' || (zo_nnames > 2 && zo_names[2][0] == 'd')))); }
    zpl_string_free(s); zv_check(zv_live == 0); zv_end();
}
void ctx_dirinfo(void) {
    zpl_dir_info d; names(); expect(); zo_fails = 0; zo_st_dir = ZV_PICK(0, 1); int i, n = 0; for (i = 0; i < wl; i++) n += want[i] == '\n';
    zpl_dirinfo_init(&d, "q"); zv_check(zs_eq(d.fullpath, "q", 2)); zv_check(zpl_array_count(d.entries) == n);
    int at = 0; for (i = 0; i < n; i++) { int j = 0; while (want[at] != '\n') { zv_check(d.entries[i].filename[j] == want[at]); j++; at++; } zv_check(d.entries[i].filename[j] == 0); at++; zv_check(d.entries[i].type == (zo_st_dir ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE)); zv_check(d.entries[i].dir_info == 0); }
    if (n > 0) { zpl_dirinfo_step(&d.entries[0]); zv_check(d.entries[0].dir_info != 0); zv_check(zs_eq(d.entries[0].dir_info->fullpath, zo_st_dir ? d.entries[0].filename : "q", zo_st_dir ? 3 : 2)); if (ZV_PICK(0, 1)) zpl_dirinfo_step(&d.entries[0]); }
    zpl_dirinfo_free(&d); zv_check(zv_live == 0 && zo_dirs == 0); zv_end();
}
void ctx_dirinfo_fail(void) {
    zpl_dir_info d; zo_nnames = 1; zo_names[0] = "f"; zo_types[0] = DT_REG; zv_fail_at = ZV_PICK(-1, 9);
    zpl_dirinfo_init(&d, "q"); if (d.entries && zpl_array_count(d.entries)) zpl_dirinfo_step(&d.entries[0]);
    zpl_dirinfo_free(&d); zv_check(zv_live == 0 && zo_dirs == 0); zv_end();
}
static zpl_file f;
void ctx_refresh(void) {
    char const *t[] = { "a/b", "b", "/b", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/b" }, *w[] = { "a", ".", "/" }; int k = ZV_PICK(0, 3);
    zo_fails = 0; zo_nnames = 1; zo_names[0] = "b"; zo_types[0] = DT_REG; zpl_file_open(&f, t[k]); if (ZV_PICK(0, 1)) zv_fail_at = zv_alloc_no + ZV_PICK(0, 3);
    zpl_file_dirinfo_refresh(&f); if (k < 3 && f.dir && f.dir->dir_info && f.dir->dir_info->fullpath) zv_check(zs_eq(f.dir->dir_info->fullpath, w[k], zs_len(w[k]) + 1));
    if (ZV_PICK(0, 1)) zpl_file_dirinfo_refresh(&f);
    zpl_file_close(&f); zv_check(zv_live == 0 && zo_dirs == 0 && zo_open_n == 0); zv_end();
}

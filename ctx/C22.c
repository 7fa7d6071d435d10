/* C22 resources: whole lives of objects over the system model, with a failure at any one call or at any of them. Nothing is held at
   the end, nothing is given back twice (the model checks every descriptor it is handed). */
#define ZV_DLL
#include <dlfcn.h>
static int dl_open, dl_n; static char const *dl_name;
void zv_check(int c);
void *zv_dlopen(char const *n, int f) { dl_name = n; if (dl_n < 0) return 0; dl_open++; return (void *)&dl_open; }
int zv_dlclose(void *h) { zv_check(h == (void *)&dl_open && dl_open == 1); dl_open--; return 0; }
#define dlopen zv_dlopen
#define dlclose zv_dlclose
#include "zv_os.h"
#include "zv.h"
#include "zvs.h"
static zpl_file f;
static void none(void) { zv_check(zo_open_n == 0 && zo_dirs == 0 && zo_streams == 0); zv_check(zv_live == 0 && zo_real_live == zv_libc_freed); }
static void life(int how) {
    unsigned char b[4] = "data"; zpl_file_error e; zo_size = 3; zo_st_dir = 0;
    e = how == 0 ? zpl_file_open(&f, "n") : how == 1 ? zpl_file_create(&f, "n") : how == 2 ? zpl_file_temp(&f) : zpl_file_open_mode(&f, ZPL_FILE_MODE_APPEND, "n");
    if (e == ZPL_FILE_ERROR_NONE) {
        zv_check(zo_open_n == 1);
        zpl_file_write(&f, b, 3); zpl_file_seek(&f, 0); zpl_file_read(&f, b, 2); zpl_file_size(&f); zpl_file_truncate(&f, 1);
        if (how != 2) { zpl_file_has_changed(&f); zpl_file_dirinfo_refresh(&f); }
        zv_check(zo_open_n == 1 && zo_dirs == 0);
        zv_check(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE);
    } else zv_check(zo_failed_any || zv_fail_at >= 0);
    none();
    if (ZV_PICK(0, 1)) { zpl_file_close(&f); none(); }
}
static void names(void) { zo_nnames = 1; zo_names[0] = "b"; zo_types[0] = DT_REG; zo_full = 1; }
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_file_open(void) { names(); zo_fail_no = ZV_PICK(-2, 14); life(0); zv_end(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_file_create(void) { names(); zo_fail_no = ZV_PICK(-2, 14); life(1); zv_end(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_file_temp(void) { names(); zo_fail_no = ZV_PICK(-2, 10); life(2); zv_end(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_file_append(void) { names(); zo_fail_no = ZV_PICK(-2, 14); life(3); zv_end(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_file_refused(void) { names(); zo_fails = 0; zv_fail_at = ZV_PICK(0, 9); life(ZV_PICK(0, 3)); zv_end(); }
//zv: slevel=40000
void ctx_reopen(void) { int i; zo_fails = 0; for (i = 0; i < 3; i++) { zv_check(zpl_file_open(&f, "n") == ZPL_FILE_ERROR_NONE && zo_open_n == 1); zpl_file_close(&f); none(); } zv_end(); }
//zv: slevel=40000
void ctx_many(void) { zpl_file a, b; zo_fail_no = ZV_PICK(-2, 3); zpl_file_open(&a, "a"); zpl_file_open(&b, "b"); zpl_file_close(&a); if (b.fd.i >= 0) zv_check(zo_open[b.fd.i]); zpl_file_close(&a); if (b.fd.i >= 0) zv_check(zo_open[b.fd.i]); zpl_file_close(&b); none(); zv_end(); }
/* a given descriptor belongs to the file object from then on */
void ctx_connect(void) { int fd; zo_fails = 0; fd = open("n", O_RDWR, 0); zpl_file_connect_handle(&f, (void *)(long)fd); zv_check(zo_open_n == 1); zpl_file_close(&f); none(); zv_end(); }
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_walk(void) {
    zpl_string s; int i; zo_nnames = 3; for (i = 0; i < 3; i++) { zo_names[i] = i == 1 ? "d" : i ? "g" : "f"; zo_types[i] = i == 1 ? DT_DIR : DT_REG; }
    zo_fail_no = ZV_PICK(-2, 3); zv_fail_at = ZV_PICK(-1, 14);
    s = zpl_path_dirlist(zpl_heap(), "q", 1); zv_check(zo_dirs == 0); zpl_string_free(s); none(); zv_end();
}
//zv: slevel=40000 args=-eva-no-memexec mlevel=4000
void ctx_whole_file(void) {
    zpl_file_contents c; int r; zo_size = ZV_PICK(0, 3); zo_fail_no = ZV_PICK(-2, 8); zv_fail_at = ZV_PICK(-1, 2);
    r = ZV_PICK(0, 2);
    if (r == 0) { c = zpl_file_read_contents(zpl_heap(), 1, "n"); zv_check(zo_open_n == 0); if (c.data) zpl_file_free_contents(&c); }
    else if (r == 1) { zpl_array(char *) l = 0; char *t = zpl_file_read_lines(zpl_heap(), &l, "n", 1); zv_check(zo_open_n == 0); zpl_mfree(t); zpl_array_free(l); }
    else { unsigned char b[4] = "data"; zpl_file_error e; zpl_file_write_contents("n", b, 4, &e); }
    none(); zv_end();
}
//zv: slevel=40000
void ctx_copy(void) { zo_size = ZV_PICK(0, 2); zo_full = 1; zo_fail_no = ZV_PICK(-2, 9); zpl_fs_copy("o", "n", ZV_PICK(0, 1)); none(); zv_end(); }
//zv: slevel=40000
void ctx_move_remove(void) { zo_fail_no = ZV_PICK(-2, 2); zpl_fs_move("o", "n"); zpl_fs_remove("n"); zpl_fs_exists("n"); zpl_fs_get_type("n"); zpl_fs_last_write_time("n"); none(); zv_end(); }
void ctx_library(void) {
    zpl_dll_handle h; dl_n = ZV_PICK(-1, 0); h = zpl_dll_load("lib"); zv_check(dl_name && (h != 0) == (dl_n == 0)); if (h) zpl_dll_unload(h); zv_check(dl_open == 0); zv_end();
}

/* C21 file operations over the operating-system model (ctx/zv_os.h). */
//zv-all: steps=6000
#include "zv_os.h"
#include "zv.h"
#include "zvs.h"
static zpl_file f;
void ctx_open_modes(void) {
    zpl_u32 m[] = { ZPL_FILE_MODE_READ, ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW };
    int want[] = { O_RDONLY, O_WRONLY | O_CREAT | O_TRUNC, O_WRONLY | O_APPEND | O_CREAT, O_RDWR, O_RDWR | O_CREAT | O_TRUNC, O_RDWR | O_APPEND | O_CREAT };
    int k = ZV_PICK(0, 5); char *n = zs_alpha(2, "x", 1); zpl_file_error e;
    zv_fail_at = ZV_PICK(-1, 0);
    e = zpl_file_open_mode(&f, m[k], n);
    if (e == ZPL_FILE_ERROR_NONE) {
        zv_check(!zo_failed_any && zv_fail_at < 0 && f.fd.i == 3 && zo_open[3]);
        zv_check((zo_flags[3] & ~O_CLOEXEC) == want[k]); zv_check(!(want[k] & O_CREAT) || (zo_mode[3] & 0600) == 0600);
        zv_check(zs_eq(zpl_file_name(&f), "xx", 3)); zv_check(zpl_file_name(&f) != n);
        zv_check(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE);
    } else zv_check(zo_failed_any || zv_fail_at == 0);
    zv_check(zo_open_n == 0); zv_check(zv_live == 0); zv_end();
}
void ctx_open_create(void) {
    int c = ZV_PICK(0, 1); zo_fails = 0;
    zv_check((c ? zpl_file_create(&f, "n") : zpl_file_open(&f, "n")) == ZPL_FILE_ERROR_NONE);
    zv_check(zo_flags[3] == (c ? O_RDWR | O_CREAT | O_TRUNC : O_RDONLY)); zv_end();
}
static void mk(void) { int s = zo_fails; zo_fails = 0; zpl_file_open_mode(&f, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW, "n"); zo_fails = s; zo_calls = 0; }
void ctx_read(void) {
    zpl_isize got = -7; int n = ZV_PICK(0, 3), off = ZV_PICK(0, 4), i; unsigned char *b = malloc(n); zpl_b32 ok;
    zo_size = ZV_PICK(0, 4); mk();
    ok = zpl_file_read_at_check(&f, b, n, off, &got);
    zv_check(zo_last_n == n && zo_last_off == off);
    zv_check((ok != 0) == (zo_last_r >= 0)); if (ok) { zv_check(got == zo_last_r); for (i = 0; i < got; i++) zv_check(b[i] == FBYTE(off + i)); }
    zv_end();
}
void ctx_read_null_count(void) { unsigned char b[2]; zpl_b32 ok; zo_size = 2; mk(); ok = zpl_file_read_at(&f, b, 2, 0); zv_check((ok != 0) == (zo_last_r >= 0)); zv_end(); }
void ctx_read_seq(void) { unsigned char b[3]; int s, n; zo_size = 4; zo_fails = 0; zo_full = 1; mk(); s = ZV_PICK(0, 4); n = ZV_PICK(0, 3); zpl_file_seek(&f, s); zv_check(zpl_file_read(&f, b, n) != 0); zv_check(zo_last_off == s && zo_last_n == n); zv_check(zpl_file_tell(&f) == s + n); zv_end(); }
void ctx_write(void) {
    zpl_isize got = -7; int n = ZV_PICK(0, 3), off = ZV_PICK(0, 3), at = ZV_PICK(0, 2), i; unsigned char *b = malloc(n); zpl_b32 ok; for (i = 0; i < n; i++) b[i] = 'p' + i;
    mk(); zo_pos[3] = at; zo_seek_ok = 1;
    ok = zpl_file_write_at_check(&f, b, n, off, &got);
    zv_check((ok != 0) == (zo_last_r >= 0)); zv_check(zo_last_n == n); zv_check(zo_last_off == off);
    if (ok) { zv_check(got == zo_last_r); for (i = 0; i < got; i++) zv_check(zo_out[off + i] == 'p' + i); }
    zv_end();
}
void ctx_write_seq(void) { unsigned char b[3] = "abc"; int s, n; zo_fails = 0; zo_full = 1; mk(); s = ZV_PICK(0, 4); n = ZV_PICK(0, 3); zpl_file_seek(&f, s); zv_check(zpl_file_write(&f, b, n) != 0); zv_check(zo_last_off == s && zo_last_n == n); zv_check(zpl_file_tell(&f) == s + n); zv_end(); }
void ctx_write_seq_fail(void) { unsigned char b[3] = "abc"; zpl_b32 ok; mk(); ok = zpl_file_write(&f, b, 3); zv_check((ok != 0) == (zo_last_r >= 0)); zv_end(); }
void ctx_seek(void) {
    zpl_i64 o = -5; int wh = ZV_PICK(0, 2), off = ZV_PICK(-3, 3), at = ZV_PICK(0, 3); long want; zpl_b32 ok; zo_size = ZV_PICK(0, 4); mk(); zo_pos[3] = at; zo_seek_ok = 1;
    want = wh == 0 ? off : wh == 1 ? at + off : zo_size + off;
    ok = f.ops.seek(f.fd, off, wh, &o);
    if (ok) zv_check(o == want && zo_pos[3] == want); else zv_check(zo_failed_any || want < 0), zv_check(zo_pos[3] == at);
    zv_end();
}
void ctx_seek_helpers(void) {
    int at = ZV_PICK(0, 3), k = ZV_PICK(0, 4); zo_fails = 0; zo_size = 5; mk(); zo_pos[3] = at; zo_seek_ok = 1;
    if (k == 0) zv_check(zpl_file_seek(&f, 2) == 2 && zo_pos[3] == 2); else if (k == 1) zv_check(zpl_file_seek_to_end(&f) == 5 && zo_pos[3] == 5);
    else if (k == 2) zv_check(zpl_file_skip(&f, 3) == at + 3 && zo_pos[3] == at + 3); else if (k == 3) zv_check(zpl_file_tell(&f) == at && zo_pos[3] == at);
    else zv_check(zpl_file_size(&f) == 5 && zo_pos[3] == at);
    zv_end();
}
void ctx_truncate(void) { int n = ZV_PICK(0, 3); zpl_file_error e; mk(); e = zpl_file_truncate(&f, n); if (zo_failed_any) zv_check(e == ZPL_FILE_ERROR_TRUNCATION_FAILURE); else zv_check(e == ZPL_FILE_ERROR_NONE && zo_trunc == n); zv_end(); }
void ctx_exists(void) { zpl_b32 r = zpl_fs_exists("n"); zv_check((r != 0) == !zo_failed_any); zv_check(zo_access == F_OK); zv_end(); }
void ctx_close(void) {
    zpl_file_error e; mk(); zv_check(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE); zv_check(zo_open_n == 0 && zv_live == 0);
    e = zpl_file_close(&f); zv_check(e == ZPL_FILE_ERROR_INVALID); zv_check(zpl_file_close(0) == ZPL_FILE_ERROR_INVALID);
    zv_check(zo_open_n == 0); zv_check(zpl_file_name(&f)[0] == 0); zv_end();
}
void ctx_standard(void) { int k = ZV_PICK(0, 2); zv_check(zpl_file_get_standard(k)->fd.i == k); zv_check(zpl_file_get_standard(k) == zpl_file_get_standard(k)); zv_check(zpl_file_get_standard(k)->ops.write_at != 0); zv_end(); }
void ctx_temp(void) { zpl_file_error e = zpl_file_temp(&f); zv_check((e == ZPL_FILE_ERROR_NONE) == !zo_failed_any); zv_check(zo_streams == 0); if (!e) { zv_check(zo_open[f.fd.i] && f.is_temp && zo_open_n == 1); zo_fails = 0; zpl_file_close(&f); } zv_check(zo_open_n == 0); zv_end(); }
void ctx_changed(void) {
    zo_fails = 0; mk(); zo_mtime = 100; zv_check(zpl_file_has_changed(&f)); zv_check(!zpl_file_has_changed(&f)); zo_mtime = 101; zv_check(zpl_file_has_changed(&f)); zv_check(!zpl_file_has_changed(&f)); zv_end();
}
void ctx_mtime(void) { zo_mtime = ZV_PICK(1, 3); zpl_file_time t = zpl_fs_last_write_time("n"); if (zo_failed_any) zv_check(t == 0); else zv_check(t == zo_mtime); zv_end(); }
void ctx_type(void) { int f[] = { S_IFREG, S_IFDIR, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK }, t; zo_st_fmt = f[ZV_PICK(0, 5)]; t = zpl_fs_get_type("n"); zv_check(t == (zo_failed_any ? ZPL_DIR_TYPE_UNKNOWN : zo_st_fmt == S_IFDIR ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE)); zv_end(); }
void ctx_move(void) { zpl_b32 r = zpl_fs_move("o", "n"); zv_check((r != 0) == (zo_linked == 1 && zo_unlinked == 1)); zv_check((r != 0) == !zo_failed_any); if (r) zv_check(zo_la[0] == 'o' && zo_lb[0] == 'n' && zo_ua[0] == 'o'); zv_check(zo_linked || !zo_unlinked); zv_end(); }
void ctx_remove(void) { zpl_b32 r = zpl_fs_remove("n"); zv_check((r != 0) == (zo_unlinked == 1)); if (r) zv_check(zo_ua[0] == 'n'); zv_end(); }
//zv: timeout=200
void ctx_copy(void) {
    int ex = ZV_PICK(0, 1); zpl_b32 r; zo_size = ZV_PICK(0, 2); zo_fail_no = ZV_PICK(-2, 7);
    r = zpl_fs_copy("o", "n", ex);
    zv_check(zo_open_n == 0);
    if (r) { zv_check(zo_out_len == zo_size && (zo_fail_no < 0 || !zo_failed_any || zo_out_len == zo_size)); zv_check(zo_flags[4] & O_CREAT); zv_check(((zo_flags[4] & O_EXCL) != 0) == (ex != 0)); zv_check((zo_flags[4] & O_TRUNC) || zo_trunc == 0); zv_check(zo_flags[3] == O_RDONLY && zo_path[3][0] == 'o' && zo_path[4][0] == 'n'); }
    else zv_check(zo_failed_any);
    zv_end();
}
void ctx_copy_each_failure(void) { zpl_b32 r; zo_size = 2; zo_full = 1; zo_fail_no = ZV_PICK(-2, 7); r = zpl_fs_copy("o", "n", 0); zv_check(zo_open_n == 0); if (zo_fail_no >= 0 && zo_fail_no < 7 && zo_failed_any && zo_calls > zo_fail_no + 1 - 0 && !r) {} if (r) zv_check(zo_out_len == 2); if (!zo_failed_any) zv_check(r); zv_end(); }
void ctx_copy_self(void) { zo_fails = 0; zo_size = 2; zo_full = 1; zv_check(!zpl_fs_copy("s", "s", 0)); zv_check(zo_trunc < 0 && zo_sf_calls == 0 && zo_open_n == 0 && !(zo_flags[4] & O_TRUNC)); zv_end(); }
void ctx_mkdir(void) {
    int t[] = { EPERM, EACCES, EEXIST, ENAMETOOLONG, EIO, ENOENT }, w[] = { ZPL_FILE_ERROR_PERMISSION, ZPL_FILE_ERROR_PERMISSION, ZPL_FILE_ERROR_EXISTS, ZPL_FILE_ERROR_NAME_TOO_LONG, ZPL_FILE_ERROR_UNKNOWN, ZPL_FILE_ERROR_UNKNOWN }, k = ZV_PICK(0, 5); zpl_file_error e;
    zo_errno = t[k]; e = zpl_path_mkdir("d", 0751); zv_check(e == (zo_failed_any ? w[k] : ZPL_FILE_ERROR_NONE)); zv_check(zo_mkmode == 0751 && zo_mkbuf[0][0] == 'd'); zv_end();
}
void ctx_rmdir(void) {
    int t[] = { EPERM, EACCES, ENOENT, ENOTEMPTY, ENAMETOOLONG, EIO }, w[] = { ZPL_FILE_ERROR_PERMISSION, ZPL_FILE_ERROR_PERMISSION, ZPL_FILE_ERROR_NOT_EXISTS, ZPL_FILE_ERROR_NOT_EMPTY, ZPL_FILE_ERROR_NAME_TOO_LONG, ZPL_FILE_ERROR_UNKNOWN }, k = ZV_PICK(0, 5); zpl_file_error e;
    zo_errno = t[k]; e = zpl_path_rmdir("d"); zv_check(e == (zo_failed_any ? w[k] : ZPL_FILE_ERROR_NONE)); zv_end();
}
void ctx_mkdir_recursive(void) {
    zo_fails = 0; zv_check(zpl_path_mkdir_recursive("a/bc/d", 0700) == 0); zv_check(zo_mk == 3);
    zv_check(zs_eq(zo_mkbuf[0], "a", 2) && zs_eq(zo_mkbuf[1], "a/bc", 5) && zs_eq(zo_mkbuf[2], "a/bc/d", 7)); zv_check(zo_mkmode == 0700); zv_end();
}
void ctx_mkdir_recursive_abs(void) { zo_fails = 0; zv_check(zpl_path_mkdir_recursive("/a/b/", 0700) == 0); zv_check(zs_eq(zo_mkbuf[0], "/a", 3) && zs_eq(zo_mkbuf[1], "/a/b", 5)); zv_end(); }
void ctx_mkdir_recursive_fail(void) { zpl_isize r; int ex = ZV_PICK(0, 1); zo_errno = ex ? EEXIST : EIO; zo_fail_no = ZV_PICK(0, 2); zo_st_dir = ZV_PICK(0, 1); r = zpl_path_mkdir_recursive("a/b", 0700); zv_check(r == (zo_fail_no == 1 && !(ex && zo_st_dir) ? -1 : 0)); zv_end(); }
//zv: defs=ZPL_MAX_PATH=16
void ctx_mkdir_recursive_long(void) { char *p = AL(16, "x"); int i; zo_fails = 0; zv_check(zpl_path_mkdir_recursive(p, 0700) == -1); zv_check(zo_mk == 0); zv_end(); }
void ctx_write_contents(void) {
    zpl_file_error e = 99; zpl_b32 ok; unsigned char b[4] = "data"; int n = ZV_PICK(0, 4), i, withe = ZV_PICK(0, 1);
    zv_fail_at = ZV_PICK(-1, 0);
    ok = zpl_file_write_contents("n", b, n, withe ? &e : 0);
    if (ok) { zv_check(zo_out_len == n); for (i = 0; i < n; i++) zv_check(zo_out[i] == b[i]); zv_check(!withe || e == ZPL_FILE_ERROR_NONE); zv_check(zo_flags[3] == (O_WRONLY | O_CREAT | O_TRUNC)); }
    else { zv_check(zo_failed_any || zv_fail_at == 0); zv_check(!withe || (e != ZPL_FILE_ERROR_NONE && e != 99)); }
    zv_check(zo_open_n == 0 && zv_live == 0); zv_end();
}

/* C24 tar: writer against the format, reader against the writer and against damaged archives, extraction against the destination. */
#include "zv_pre.h"
static int ls_printf(char const *f, ...);
#include "zv_os.h"
#include "zv.h"
#include "zvs.h"
#define A_MAX 4096
static unsigned char arc[A_MAX]; static long a_len, a_pos; static int a_fail_at = -1, a_writes;
static ZPL_FILE_WRITE_AT_PROC(a_write) { long i; zv_check(size >= 0 && offset >= 0 && offset + size <= A_MAX); if (a_writes++ == a_fail_at) { if (ZV_PICK(0, 1)) return false; if (bytes_written) *bytes_written = size / 2; return true; } for (i = 0; i < size; i++) arc[offset + i] = ((unsigned char const *)buffer)[i]; if (offset + size > a_len) a_len = offset + size; if (bytes_written) *bytes_written = size; return true; }
static ZPL_FILE_READ_AT_PROC(a_read) { long i, n = size; zv_check(size >= 0 && offset >= 0); if (offset >= a_len) n = 0; else if (n > a_len - offset) n = a_len - offset; for (i = 0; i < n; i++) ((unsigned char *)buffer)[i] = arc[offset + i]; if (bytes_read) *bytes_read = n; return true; }
static ZPL_FILE_SEEK_PROC(a_seek) { long p = whence == 0 ? offset : whence == 1 ? a_pos + offset : a_len + offset; if (p < 0) return false; a_pos = p; if (new_offset) *new_offset = p; return true; }
static ZPL_FILE_CLOSE_PROC(a_close) { }
static zpl_file ar;
static void mkar(void) { static zpl_file_operations const ops = { a_read, a_write, a_seek, a_close }; zpl_zero_item(&ar); ar.ops = ops; }
static long oct(unsigned char const *p, int n) { long v = 0; int i; for (i = 0; i < n && p[i] == ' '; i++) ; for (; i < n && p[i] >= '0' && p[i] <= '7'; i++) v = v * 8 + (p[i] - '0'); zv_check(i == n || p[i] == 0 || p[i] == ' '); return v; }
static long sum(unsigned char const *h) { long s = 0; int i; for (i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : h[i]; return s; }
static void put(unsigned char *p, long v) { int i; for (i = 6; i >= 0; i--) { p[i] = '0' + v % 8; v /= 8; } p[7] = 0; }
/* what the format demands of the entry at off: returns the offset behind it */
static long check_entry(long off, char const *name, long size, int from) {
    unsigned char *h = arc + off; long i, n = zs_len(name), pad = (size + 511) / 512 * 512;
    zv_check(off + 512 + pad <= a_len);
    zv_check(zs_eq((char *)h, name, n)); zv_check(n == 100 || h[n] == 0);
    zv_check(oct(h + 124, 12) == size);
    zv_check(oct(h + 148, 8) == sum(h));
    zv_check(h[156] == '0'); zv_check(oct(h + 100, 8) == 0664); 
    zv_check(oct(h + 136, 12) == zo_mtime || (zo_fail_no != -2 && oct(h + 136, 12) == 0));
    for (i = 0; i < size; i++) zv_check(h[512 + i] == FBYTE(i));
    for (; i < pad; i++) zv_check(h[512 + i] == 0);
    return off + 512 + pad;
}
static void check_end(long off) { long i; zv_check(a_len == off + 1024); for (i = 0; i < 1024; i++) zv_check(arc[off + i] == 0); }
/* the second byte of a name is the first of a two-byte UTF-8 character where there is room */
static char *name_of(int k) { char *p = zs_raw(k); int i; for (i = 0; i < k; i++) p[i] = 'a' + i % 26; if (k > 3) { p[1] = (char)0xc3; p[2] = (char)0xa9; } return p; }
static int n_len[] = { 1, 11, 12, 13, 99 };
void ctx_pack(void) {
    char const *p[2]; long sizes[] = { 0, 1, 511, 512, 513, 1024 }; zo_fails = 0; zo_full = 1; zo_size = sizes[ZV_PICK(0, 5)]; mkar(); p[0] = name_of(12);
    zv_check(zpl_tar_pack(&ar, p, 1) == 0); check_end(check_entry(0, p[0], zo_size, 0)); zv_check(zo_open_n == 0 && zv_live == 0); zv_end();
}
void ctx_pack_names(void) { char const *p[1]; zo_fails = 0; zo_full = 1; zo_size = 5; mkar(); p[0] = name_of(n_len[ZV_PICK(0, 4)]); zv_check(zpl_tar_pack(&ar, p, 1) == 0); check_end(check_entry(0, p[0], zo_size, 0)); zv_check(zo_open_n == 0 && zv_live == 0); zv_end(); }
void ctx_pack_two(void) { char const *p[2] = { "one", "dir/two" }; zo_fails = 0; zo_full = 1; zo_size = 5; mkar(); zv_check(zpl_tar_pack(&ar, p, 2) == 0); check_end(check_entry(check_entry(0, p[0], 5, 0), p[1], 5, 0)); zv_check(zo_open_n == 0); zv_end(); }
void ctx_pack_mtime(void) { char const *p[1] = { "m" }; int t[] = { 0, 8, 1600000000, 2147483647 }; zo_fails = 0; zo_full = 1; zo_size = 3; zo_mtime = t[ZV_PICK(0, 3)]; mkar(); zv_check(zpl_tar_pack(&ar, p, 1) == 0); check_entry(0, "m", 3, 0); zv_end(); }
void ctx_pack_none(void) { mkar(); zv_check(zpl_tar_pack(&ar, (char const *[]){ "x" }, 0) == 0); check_end(0); zv_end(); }
void ctx_pack_long_name(void) { char const *p[1]; int k = ZV_PICK(0, 1) ? 100 : 130; zo_fails = 0; zo_full = 1; mkar(); p[0] = name_of(k); zv_check(zpl_tar_pack(&ar, p, 1) < 0); zv_check(zo_open_n == 0); zv_end(); }
/* a size whose octal text is longer than one int; nothing is read */
void ctx_pack_big(void) {
    char const *p[1] = { "big" }; long s[] = { 0x80000000l, 0x1ffffffffl, 0x200000000l, 0x4000000000l }; int k = ZV_PICK(0, 3); zpl_isize r; zo_fail_no = 3; zo_seek_ok = 1; zo_size = s[k]; mkar();
    r = zpl_tar_pack(&ar, p, 1); zv_check(r < 0);
    if (a_len) { zv_check(k < 2); zv_check(oct(arc + 124, 12) == s[k] && oct(arc + 148, 8) == sum(arc)); } zv_check(zo_open_n == 0); zv_end();
}
void ctx_pack_folder(void) { char const *p[1] = { "d" }; zo_fails = 0; zo_st_dir = 1; mkar(); zv_check(zpl_tar_pack(&ar, p, 1) == 0); check_end(0); zv_check(zo_open_n == 0); zv_end(); }
/* failures of any call or write are reported */
void ctx_pack_failures(void) {
    char const *p[2] = { "one", "two" }; zpl_isize r; zo_full = 1; zo_size = 3; zo_seek_ok = 1; mkar(); int w = ZV_PICK(0, 1);
    if (w) { zo_fails = 0; a_fail_at = ZV_PICK(0, 7); } else zo_fail_no = ZV_PICK(-2, 12);
    r = zpl_tar_pack(&ar, p, 2);
    if (w) zv_check(r < 0 || a_writes <= a_fail_at); else if (r == 0) { check_end(check_entry(check_entry(0, p[0], 3, 0), p[1], 3, 0)); }
    zv_check(zo_open_n == 0); zv_check(r <= 0); zv_end();
}
void ctx_pack_failures_mtime(void) { char const *p[1] = { "one" }; zo_full = 1; zo_size = 3; zo_seek_ok = 1; zo_fail_no = 1; mkar(); zpl_isize r = zpl_tar_pack(&ar, p, 1); zv_check(r < 0 && zo_open_n == 0); zv_end(); }
void ctx_pack_dir(void) {
    zpl_isize r; zo_fails = 0; zo_full = 1; zo_size = 4; zo_nnames = 2; zo_names[0] = "f"; zo_names[1] = "gg"; zo_types[0] = zo_types[1] = DT_REG; mkar();
    if (ZV_PICK(0, 1)) zv_fail_at = ZV_PICK(0, 12);
    r = zpl_tar_pack_dir(&ar, "q", zpl_heap()); if (zv_fail_at < 0) zv_check(r == 0); if (r == 0) check_end(check_entry(check_entry(0, "q/f", 4, 0), "q/gg", 4, 0));
    zv_check(zv_live == 0 && zo_dirs == 0 && zo_open_n == 0); zv_end();
}
/* ---- reader */
static int cb_n, cb_ret; static char cb_path[4][128]; static long cb_off[4], cb_len[4], cb_err[4]; static char cb_type[4];
static ZPL_TAR_UNPACK_PROC(cb) { int i; zv_check(cb_n < 4); for (i = 0; i < 127 && file->path[i]; i++) cb_path[cb_n][i] = file->path[i]; cb_path[cb_n][i] = 0; cb_off[cb_n] = file->offset; cb_len[cb_n] = file->length; cb_err[cb_n] = file->error; cb_type[cb_n] = file->type; zv_check(a_pos == file->offset); cb_n++; return cb_ret; }
static long entry(long off, char const *name, int nlen, long size, char type) { int i; unsigned char *h = arc + off; long v = size; for (i = 0; i < nlen; i++) h[i] = name[i]; for (i = 10; i >= 0; i--) { h[124 + i] = '0' + v % 8; v /= 8; } h[156] = type; put(h + 148, sum(h)); for (i = 0; i < size; i++) h[512 + i] = FBYTE(i); return off + 512 + (size + 511) / 512 * 512; }
void ctx_unpack(void) {
    long e, s = ZV_PICK(0, 2), sizes[] = { 0, 5, 513 }; char *nm = name_of(n_len[ZV_PICK(0, 4)]); mkar(); e = entry(0, nm, zs_len(nm), sizes[s], '0'); e = entry(e, "two", 3, 4, '5'); a_len = e + 1024;
    zv_check(zpl_tar_unpack(&ar, cb, 0) == 0); zv_check(cb_n == 2);
    zv_check(zs_eq(cb_path[0], nm, zs_len(nm) + 1) && cb_len[0] == sizes[s] && cb_off[0] == 512 && cb_err[0] == 0 && cb_type[0] == '0');
    zv_check(zs_eq(cb_path[1], "two", 4) && cb_len[1] == 4 && cb_off[1] == e - 512 && cb_err[1] == 0 && cb_type[1] == '5'); zv_end();
}
void ctx_unpack_full_fields(void) {      /* name of 100 bytes and size of 12 digits: no terminators */
    char *nm = name_of(100); int i; mkar(); entry(0, nm, 100, 3, '0'); for (i = 0; i < 12; i++) arc[124 + i] = '0'; arc[135] = '3'; for (i = 0; i < 8; i++) arc[136 + i] = '7'; put(arc + 148, sum(arc)); a_len = 1024 + 1024;
    zv_check(zpl_tar_unpack(&ar, cb, 0) == 0); zv_check(cb_n == 1 && cb_len[0] == 3 && zs_eq(cb_path[0], nm, 101) && cb_err[0] == 0); zv_end();
}
void ctx_round_trip(void) { char const *p[2] = { "one", "dir/two" }; zo_fails = 0; zo_full = 1; zo_size = ZV_PICK(0, 1) * 513; mkar(); zpl_tar_pack(&ar, p, 2); a_pos = 0; zv_check(zpl_tar_unpack(&ar, cb, 0) == 0); zv_check(cb_n == 2 && zs_eq(cb_path[0], "one", 4) && zs_eq(cb_path[1], "dir/two", 8) && cb_len[0] == zo_size && cb_len[1] == zo_size && !cb_err[0] && !cb_err[1]); zv_end(); }
void ctx_checksum(void) { int at[] = { 0, 99, 100, 124, 130, 147, 157, 300, 511 }, k = ZV_PICK(0, 8); mkar(); entry(0, "n", 1, 8, '0'); a_len = 2048 + 512; arc[at[k]] ^= 1; zv_check(zpl_tar_unpack(&ar, cb, 0) < 0); zv_check(cb_n >= 1 && cb_err[0] != 0); zv_end(); }
void ctx_checksum_type(void) { mkar(); entry(0, "n", 1, 8, '0'); a_len = 2048; arc[156] = '2'; zv_check(zpl_tar_unpack(&ar, cb, 0) < 0); zv_check(cb_err[0] != 0); zv_end(); }
void ctx_truncated(void) { long l[] = { 0, 1, 511, 512, 513, 700, 1023, 1024, 1025, 1535 }; mkar(); entry(0, "n", 1, 8, '0'); a_len = l[ZV_PICK(0, 9)]; zv_check(zpl_tar_unpack(&ar, cb, 0) < 0); zv_check(cb_n <= 1); zv_end(); }
//zv: slevel=5000
void ctx_damaged_size(void) { int i; mkar(); entry(0, "n", 1, 8, '0'); char *s = AL(3, "-7 "); for (i = 0; i < 3; i++) arc[124 + i] = s[i]; put(arc + 148, sum(arc)); a_len = 2048; zpl_isize r = zpl_tar_unpack(&ar, cb, 0); zv_check(cb_n >= 1 && cb_len[0] >= 0); zv_end(); }
void ctx_garbage(void) { int i; mkar(); for (i = 0; i < 512; i++) arc[i] = 'x'; int at[] = { 0, 99, 124, 135, 148, 155, 156 }, k = ZV_PICK(0, 6); arc[at[k]] = AL(1, "x7-")[0]; arc[(at[k] + 1) % 512] = AL(1, " 7")[0]; a_len = ZV_PICK(0, 1) ? 512 : 1024; zpl_isize r = zpl_tar_unpack(&ar, cb, 0); zv_check(r <= 0); zv_end(); }
void ctx_interrupt(void) { mkar(); entry(0, "n", 1, 8, '0'); entry(1024, "m", 1, 8, '0'); a_len = 3072; cb_ret = 1; zv_check(zpl_tar_unpack(&ar, cb, 0) == -ZPL_TAR_ERROR_INTERRUPTED); zv_check(cb_n == 1); zv_end(); }
/* ---- extraction: every file created lies strictly below the destination */
static void inside(char const *p, char const *dst) { int i, n = zs_len(dst), st = 1; zv_check(zs_eq(p, dst, n)); zv_check(p[n] == '/' || p[n - 1] == '/'); for (i = n; p[i]; i++) { if (p[i] == '/') st = 1; else { if (st && p[i] == '.' && p[i + 1] == '.' && (p[i + 2] == 0 || p[i + 2] == '/')) zv_check(0); st = 0; } } }
static void extract(char *nm, char const *dst) {
    int i; zpl_isize r; zpl_tar_record rec = { 0 }; zo_fails = 0; mkar(); rec.type = '0'; rec.path = nm; rec.offset = 512; rec.length = 0;
    r = zpl_tar_default_unpack_file(&ar, &rec, (void *)dst);
    if (zo_pathbuf[3][0]) inside(zo_pathbuf[3], dst);
    for (i = 0; i < zo_mk && i < 8; i++) { int n = zs_len(dst), k = zs_len(zo_mkbuf[i]); if (k > n) inside(zo_mkbuf[i], dst); else zv_check(zs_eq(zo_mkbuf[i], dst, k)); }
    zv_check(zo_open_n == 0);
}
//zv: defs=ZPL_MAX_PATH=24 timeout=250
void ctx_extract_names(void) { extract(AL(ZV_PICK(1, 5), "./a"), "dst"); zv_end(); }
//zv: defs=ZPL_MAX_PATH=24
void ctx_extract_names_slash(void) { extract(AL(4, "./a"), "dst/"); zv_end(); }
//zv: defs=ZPL_MAX_PATH=24
void ctx_extract_empty_dst(void) { char *n = AL(3, "./a"); int i; zpl_tar_record rec = { 0 }; zo_fails = 0; mkar(); rec.type = '0'; rec.path = n; zpl_tar_default_unpack_file(&ar, &rec, (void *)""); zv_check(zo_pathbuf[3][0] != '/'); if (zo_pathbuf[3][0] == '.' && zo_pathbuf[3][1] == '.') zv_check(zo_pathbuf[3][2] != '/' && zo_pathbuf[3][2] != 0); zv_end(); }
//zv: defs=ZPL_MAX_PATH=16
void ctx_extract_long(void) { char *n = name_of(ZV_PICK(8, 20)); zpl_tar_record rec = { 0 }; zo_fails = 0; mkar(); rec.type = '0'; rec.path = n; zpl_isize r = zpl_tar_default_unpack_file(&ar, &rec, (void *)"dst"); zv_check(r == 0 ? zs_len(n) + 4 == zs_len(zo_pathbuf[3]) : zo_pathbuf[3][0] == 0); zv_check(zo_open_n == 0); zv_end(); }
//zv: defs=ZPL_MAX_PATH=24
void ctx_extract_skip(void) { zpl_tar_record rec = { 0 }; int k = ZV_PICK(0, 1); mkar(); rec.type = k ? '0' : '2'; rec.error = k; rec.path = "n"; zv_check(zpl_tar_default_unpack_file(&ar, &rec, (void *)"dst") == 0); zv_check(zo_calls == 0); zv_end(); }
//zv: defs=ZPL_MAX_PATH=24
void ctx_extract_body(void) {
    long s[] = { 0, 5, 512 }, sz = s[ZV_PICK(0, 2)]; int i; zo_fails = 0; zo_full = 1; mkar(); entry(0, "d/n", 3, sz, '0'); a_len = 512 + (sz + 511) / 512 * 512 + 1024;
    zv_check(zpl_tar_unpack_dir(&ar, "dst") == 0); zv_check(zo_out_len == sz && zs_eq(zo_pathbuf[3], "dst/d/n", 8)); for (i = 0; i < sz && i < 64; i++) zv_check(zo_out[i] == FBYTE(i)); zv_check((zo_flags[3] & O_TRUNC) && zo_open_n == 0 && zv_live == 0); zv_end();
}
//zv: defs=ZPL_MAX_PATH=24
void ctx_extract_body_short(void) { int i; zo_fails = 0; zo_full = 1; mkar(); entry(0, "n", 1, 600, '0'); a_len = 512 + 300; zv_check(zpl_tar_unpack_dir(&ar, "dst") < 0); zv_check(zo_open_n == 0); zv_end(); }
//zv: defs=ZPL_MAX_PATH=24
void ctx_extract_failures(void) { zpl_isize r; zo_full = 1; zo_seek_ok = 1; zo_fail_no = ZV_PICK(-2, 6); zv_fail_at = ZV_PICK(-1, 0); mkar(); entry(0, "n", 1, 5, '0'); a_len = 2048; r = zpl_tar_unpack_dir(&ar, "dst"); if (r == 0) zv_check(zo_out_len == 5); zv_check(zo_open_n == 0 && zv_live == 0); zv_end(); }
/* ---- listing: one line per regular entry, nothing for the rest (formatting itself: C18, C56) */
static int ls_n; static char const *ls_path; static long long ls_v[2];
static int ls_printf(char const *f, ...) { va_list va; int i, k = 0, s = 0; va_start(va, f); for (i = 0; f[i]; i++) if (f[i] == '%') { i++; if (f[i] == 's') { ls_path = va_arg(va, char *); s++; } else { zv_check(f[i] == 'l' && f[i + 1] == 'l' && f[i + 2] == 'd' && k < 2); i += 2; ls_v[k++] = va_arg(va, long long); } } va_end(va); zv_check(s == 1 && k == 2); ls_n++; return i; }
//zv: replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_printf=ls_printf
void ctx_list(void) {
    char ty[] = { '0', '5', '2', 0 }; int k = ZV_PICK(0, 3), e = ZV_PICK(0, 1); zpl_tar_record rec = { 0 }; mkar();
    rec.type = ty[k]; rec.error = e ? ZPL_TAR_ERROR_BAD_CHECKSUM : ZPL_TAR_ERROR_NONE; rec.path = "n"; rec.offset = 512; rec.length = 7;
    zv_check(zpl_tar_default_list_file(&ar, &rec, 0) == 0);
    if (k == 0 && e == 0) zv_check(ls_n == 1 && ls_path == rec.path && ls_v[0] == 512 && ls_v[1] == 7); else zv_check(ls_n == 0);
    zv_end();
}

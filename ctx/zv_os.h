/* Operating-system model: every call may fail (any errno of its set), descriptors/handles are tracked,
   counts are any value the interface allows. Included before zv.h. */
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <errno.h>
#include <dirent.h>
#include "__fc_builtin.h"
#define NFD 8
static int zo_fails = 1;                       /* 0: calls succeed */
static int zo_fail_no = -1, zo_calls;          /* when >= 0: exactly the n'th OS call fails */
static int zo_seek_ok; /* 1: seeking within range never fails */
static int zo_errno = EIO;                     /* errno given by a failing call */
static int zo_open_n, zo_open[NFD], zo_flags[NFD], zo_mode[NFD];   /* descriptor table (0..2 standard) */
static char const *zo_path[NFD]; static char zo_pathbuf[NFD][32];
static long zo_pos[NFD], zo_size = 0, zo_ino[NFD];
static int zo_full = 0;                        /* 1: transfers are never short */
static int zo_dirs, zo_streams;                /* live DIR*, FILE* */
static int zo_failed_any;                      /* some call failed (returned an error or a short transfer) */
static int zo_fail(void) {
    int n = zo_calls++;
    if (!zo_fails) return 0;
    if (zo_fail_no >= 0 ? n == zo_fail_no : (zo_fail_no == -1 && Frama_C_interval_split(0, 1))) { errno = zo_errno; zo_failed_any = 1; return 1; }
    return 0;
}
static int zo_fd(int fd) { zv_check(fd >= 0 && fd < NFD); zv_check(fd <= 2 || zo_open[fd]); return fd; }
static int zo_new(void) { int i; for (i = 3; i < NFD; i++) if (!zo_open[i]) break; zv_check(i < NFD); zo_open[i] = 1; zo_open_n++; zo_pos[i] = 0; return i; }
static int zo_open3(char const *p, int fl, int mode) { int fd; zv_check(p != 0); if (zo_fail()) return -1; fd = zo_new(); zo_flags[fd] = fl; zo_mode[fd] = mode; zo_path[fd] = p; { int i; for (i = 0; i < 31 && p[i]; i++) zo_pathbuf[fd][i] = p[i]; zo_pathbuf[fd][i] = 0; } zo_ino[fd] = p[0]; return fd; }
#define open(p, fl, m) zo_open3(p, fl, m)
int close(int fd) { zo_fd(fd); if (fd > 2) { zo_open[fd] = 0; zo_open_n--; } return zo_fail() ? -1 : 0; }
int dup(int fd) { int n; zo_fd(fd); if (zo_fail()) return -1; n = zo_new(); zo_pos[n] = zo_pos[fd]; return n; }
long lseek(int fd, long off, int wh) {
    long p; zo_fd(fd); zv_check(wh >= 0 && wh <= 2);
    p = wh == 0 ? off : wh == 1 ? zo_pos[fd] + off : zo_size + off;
    if (p < 0 || (!zo_seek_ok && zo_fail())) { errno = 22; return -1; }
    zo_pos[fd] = p; return p;
}
#define FBYTE(i) ((unsigned char)(33 + (i) % 90))
static long zo_count(long n) { long r = n; if (!zo_full && n > 0) { r = Frama_C_interval_split(0, n > 6 ? 6 : n); if (r < n) zo_failed_any = 1; } return r; }
static long zo_last_n = -9, zo_last_off = -9, zo_last_r = -9; static int zo_last_p = -1;
long pread(int fd, void *b, unsigned long n, long off) {
    long i, r; zo_fd(fd); zv_check((long)n >= 0 && off >= 0); zo_last_n = n; zo_last_off = off; zo_last_p = 1;
    if (zo_fail()) return zo_last_r = -1;
    r = off >= zo_size ? 0 : (long)n < zo_size - off ? (long)n : zo_size - off; r = zo_count(r);
    for (i = 0; i < r; i++) ((unsigned char *)b)[i] = FBYTE(off + i);
    return zo_last_r = r;
}
static unsigned char zo_out[64]; static long zo_out_len;
static long zo_write(int fd, void const *b, unsigned long n, long off) {
    long i, r; zo_fd(fd); zv_check((long)n >= 0 && off >= 0);
    if (zo_fail()) return zo_last_r = -1;
    r = zo_count(n);
    for (i = 0; i < r; i++) if (off + i < 64) zo_out[off + i] = ((unsigned char const *)b)[i];
    if (off + r > zo_out_len) zo_out_len = off + r;
    return zo_last_r = r;
}
long pwrite(int fd, void const *b, unsigned long n, long off) { zo_last_p = 1; zo_last_off = off; zo_last_n = n; return zo_write(fd, b, n, off); }
long write(int fd, void const *b, unsigned long n) { long r; zo_fd(fd); zo_last_p = 0; zo_last_off = zo_pos[fd]; zo_last_n = n; r = zo_write(fd, b, n, zo_pos[fd]); if (r > 0) zo_pos[fd] += r; return r; }
static long zo_trunc = -1;
int ftruncate(int fd, long n) { zo_fd(fd); if (n < 0 || zo_fail()) return -1; zo_trunc = n; return 0; }
static int zo_access;
int access(char const *p, int m) { zv_check(p != 0); zo_access = m; return zo_fail() ? -1 : 0; }
static FILE zo_file;
FILE *tmpfile(void) { int fd; if (zo_fail()) return 0; fd = zo_new(); zo_streams++; zo_file.__fc_FILE_id = fd; return &zo_file; }
int fileno(FILE *f) { zv_check(f == &zo_file && zo_streams == 1); return f->__fc_FILE_id; }
int fclose(FILE *f) { zv_check(f == &zo_file && zo_streams == 1); zo_streams--; zo_open[f->__fc_FILE_id] = 0; zo_open_n--; return 0; }
static int zo_st_dir, zo_mtime = 77, zo_st_fmt, zo_st_named; /* zo_st_named: names starting with d are directories */
static int zo_named_dir(char const *p) { int i, b = 0; for (i = 0; p[i]; i++) if (p[i] == '/') b = i + 1; return p[b] == 'd'; }
int stat(char const *p, struct stat *s) { zv_check(p != 0); if (zo_fail()) return -1; s->st_mode = zo_st_fmt ? zo_st_fmt | 0755 : (zo_st_named ? zo_named_dir(p) : zo_st_dir) ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = zo_size; s->st_mtime = zo_mtime; s->st_dev = 1; s->st_ino = p[0]; return 0; }
int lstat(char const *p, struct stat *s) { return stat(p, s); }
int fstat(int fd, struct stat *s) { zo_fd(fd); if (zo_fail()) return -1; s->st_mode = S_IFREG | 0644; s->st_size = zo_size; s->st_mtime = zo_mtime; s->st_dev = 1; s->st_ino = zo_ino[fd]; return 0; }
static int zo_linked, zo_unlinked, zo_mk, zo_rm; static char const *zo_la, *zo_lb, *zo_ua;
int link(char const *a, char const *b) { if (zo_fail()) return -1; zo_linked++; zo_la = a; zo_lb = b; return 0; }
int rename(char const *a, char const *b) { if (zo_fail()) return -1; zo_linked++; zo_unlinked++; zo_la = a; zo_lb = b; zo_ua = a; return 0; }
int unlink(char const *a) { if (zo_fail()) return -1; zo_unlinked++; zo_ua = a; return 0; }
int remove(char const *a) { if (zo_fail()) return -1; zo_unlinked++; zo_ua = a; return 0; }
static char zo_mkbuf[8][16]; static int zo_mkmode;
int mkdir(char const *p, mode_t m) { int i; if (zo_mk < 8) for (i = 0; i < 15 && p[i]; i++) zo_mkbuf[zo_mk][i] = p[i]; zo_mkmode = m; if (zo_fail()) return -1; zo_mk++; return 0; }
int rmdir(char const *p) { if (zo_fail()) return -1; zo_rm++; return 0; }
static int zo_sf_calls;
ssize_t sendfile(int out, int in, off_t *off, size_t n) { long r; zo_fd(out); zo_fd(in); zo_sf_calls++; zv_check((long)n > 0 || n == 0); if (zo_fail()) return -1; r = zo_count(n > (unsigned long)zo_size - zo_pos[in] ? zo_size - zo_pos[in] : n); zo_pos[in] += r; zo_out_len += r; return r; }
/* directories: zo_names[] with d_type; nested directories list nothing */
static char const *zo_names[8]; static unsigned char zo_types[8]; static int zo_nnames;
static struct __fc_zdir { int at, n; } zo_dir[4]; static int zo_dirused;
static struct dirent zo_ent;
DIR *opendir(char const *p) { zv_check(p != 0); if (zo_fail()) return 0; zv_check(zo_dirused < 4); zo_dir[zo_dirused].at = 0; zo_dir[zo_dirused].n = zo_dirused ? 0 : zo_nnames; zo_dirs++; return (DIR *)&zo_dir[zo_dirused++]; }
struct dirent *readdir(DIR *d) { struct __fc_zdir *z = (struct __fc_zdir *)d; int i; char const *s; if (z->at >= z->n) return 0; s = zo_names[z->at]; for (i = 0; s[i]; i++) zo_ent.d_name[i] = s[i]; zo_ent.d_name[i] = 0; zo_ent.d_type = zo_types[z->at]; z->at++; return &zo_ent; }
int closedir(DIR *d) { zo_dirs--; return 0; }
/* the C library's own heap: distinct from zpl's allocators */
static int zo_real_live;
char *realpath(char const *p, char *out) { char *r; zv_check(out == 0); if (zo_fail()) return 0; { long q = zv_fail_at; zv_fail_at = -1; r = zv_malloc(5); zv_fail_at = q; } zv_live--; zv_alloc_no--; zo_real_live++; zv_libc_block = r; r[0] = '/'; r[1] = 'a'; r[2] = 'b'; r[3] = 'c'; r[4] = 0; return r; }

/* C20 memory-backed files: exact-size buffers, any offset and size. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
#ifdef ZV_THOROUGH
#define ZVL 4
#else
#define ZVL 2
#endif
#define W ZPL_FILE_STREAM_WRITABLE
#define CW ZPL_FILE_STREAM_CLONE_WRITABLE
static zpl_file f; static unsigned char *src; static int L; static int wr[24]; static int model_len, cw;
static void open_any(int flags) {
    int i; { int t[] = { 0, 1, 4, 2, 3 }; L = t[ZV_PICK(0, ZVL)]; } src = malloc(L); for (i = 0; i < L; i++) src[i] = 10 + i;
    zv_check(zpl_file_stream_open(&f, zpl_heap(), src, L, flags));
}
static int at(int i) { return wr[i] ? wr[i] : i < L ? 10 + i : 0; }
static zpl_i64 pick_off(void) { int k = ZV_PICK(-2, 9); return k == -2 ? -0x7fffffffffffffffl - 1 : k == 9 ? 0x7ffffffffffffffdl : k == 8 ? 0x100000001l : k; }
void ctx_read(void) {
    int fl = ZV_PICK(0, 2), i; zpl_i64 off = pick_off(); int n = 2 * ZV_PICK(0, 3) ; zpl_isize got = -5; unsigned char *d = malloc(n);
    open_any(fl == 0 ? 0 : fl == 1 ? W : CW);
    zpl_b32 ok = zpl_file_read_at_check(&f, d, n, off, &got);
    if (off < 0) zv_check(!ok);
    else {
        int avail = off >= L ? 0 : L - off, m = n < avail ? n : avail;
        zv_check(ok && got == m);
        for (i = 0; i < m; i++) zv_check(d[i] == 10 + off + i);
    }
    for (i = 0; i < L; i++) zv_check(src[i] == 10 + i);
    zpl_file_close(&f); zv_check(zv_live == 2); zv_end();
}
void ctx_read_negative(void) { open_any(0); zv_check(!zpl_file_read_at(&f, src, -1, 0)); zv_check(!zpl_file_write_at(&f, src, -1, 0)); zv_end(); }
static zpl_isize do_write(zpl_i64 off, int n, int base, int flags) {
    int i, room; zpl_isize got = -5; unsigned char *s = malloc(n); for (i = 0; i < n; i++) s[i] = base + i;
    zpl_b32 ok = zpl_file_write_at_check(&f, s, n, off, &got);
    free(s);
    if (!(flags & (W | CW)) || off < 0) { zv_check(!ok); return 0; }
    if (flags & CW) { if (!ok) { zv_check(zv_fail_at >= 0 || off > 100); return 0; } zv_check(got == n); if (n > 0 && off + n > model_len) model_len = off + n; for (i = 0; i < n; i++) wr[off + i] = base + i; }
    else { room = off >= L ? 0 : L - off; zv_check(ok ? got == (n < room ? n : room) : room < n); for (i = 0; i < n && i < room; i++) if (ok) wr[off + i] = base + i; }
    return got;
}
static void verify(int flags) {
    zpl_isize sz = -1, i; zpl_u8 *b = zpl_file_stream_buf(&f, &sz);
    zv_check(sz == model_len && zpl_file_size(&f) == model_len);
    for (i = 0; i < sz; i++) zv_check(b[i] == at(i));
    if (!(flags & CW)) { zv_check(b == src); } else for (i = 0; i < L; i++) zv_check(src[i] == 10 + i);
}
void ctx_write(void) {
    int fl = ZV_PICK(0, 2), flags = fl == 0 ? 0 : fl == 1 ? W : CW; zpl_i64 off = ZV_PICK(-1, 6);
    open_any(flags); model_len = L;
    do_write(off, ZV_PICK(0, 2) * 2, 40, flags);
    verify(flags); zpl_file_close(&f); zv_check(zv_live == 1); zv_end();
}
void ctx_write_huge_offset(void) { int fl = ZV_PICK(0, 1) ? W : 0; open_any(fl); model_len = L; do_write(pick_off(), ZV_PICK(0, 3), 40, fl); verify(fl); zv_end(); }
void ctx_write_overflow(void) { unsigned char s[4]; open_any(CW); zv_check(!zpl_file_write_at(&f, s, 4, 0x7ffffffffffffffdl)); model_len = L; verify(CW); zv_end(); }
void ctx_write_twice(void) {
    open_any(CW); model_len = L;
    do_write(ZV_PICK(0, 2) * 2, ZV_PICK(0, 1) * 3, 40, CW); do_write(ZV_PICK(0, 6), ZV_PICK(1, 2), 60, CW);
    verify(CW); zpl_file_close(&f); zv_check(zv_live == 1); zv_end();
}
/* sequential use: a fresh stream, writes at the cursor, seeks, read back */
void ctx_sequence(void) {
    int i, k, n = 0, cur = 0; unsigned char s[4]; model_len = 0; L = 0;
    zv_check(zpl_file_stream_new(&f, zpl_heap()));
    for (k = 0; k < 3; k++) {
        int op = ZV_PICK(0, 2), m = ZV_PICK(0, 3);
        if (op == 0) { for (i = 0; i < m; i++) s[i] = wr[cur + i] = 20 + 4 * k + i; zv_check(zpl_file_write(&f, s, m)); cur += m; if (cur > model_len) model_len = cur; }
        else if (op == 1) { zv_check(zpl_file_seek(&f, m) == (m > model_len ? model_len : m)); cur = m > model_len ? model_len : m; }
        else { zv_check(zpl_file_skip(&f, -m) == (cur - m < 0 ? 0 : cur - m)); cur = cur - m < 0 ? 0 : cur - m; }
        zv_check(zpl_file_tell(&f) == cur);
    }
    verify(CW); zpl_file_close(&f); zv_check(zv_live == 0); zv_end();
}
void ctx_read_cursor(void) {
    unsigned char d[3]; int n = ZV_PICK(0, 3), m = ZV_PICK(0, 3), i; open_any(0);
    zv_check(zpl_file_read(&f, d, n)); zv_check(zpl_file_tell(&f) == (n > L ? L : n));
    for (i = 0; i < n && i < L; i++) zv_check(d[i] == 10 + i);
    n = zpl_file_tell(&f); zv_check(zpl_file_read(&f, d, m));
    for (i = 0; i < m && n + i < L; i++) zv_check(d[i] == 10 + n + i);
    zv_end();
}
void ctx_seek(void) {
    zpl_i64 o = -5, off = pick_off(); int a = ZV_PICK(0, 2); open_any(ZV_PICK(0, 1) ? CW : 0);
    zpl_file_seek(&f, a); a = a > L ? L : a;
    int w = ZV_PICK(0, 2); zpl_i64 base = w == 0 ? 0 : w == 1 ? a : L;
    zv_check(f.ops.seek(f.fd, off, w, &o)); zv_check(o >= 0 && o <= L && o == zpl_file_tell(&f));
    if (off >= -10 && off <= 10) zv_check(o == (base + off < 0 ? 0 : base + off > L ? L : base + off));
    zv_check(zpl_file_seek_to_end(&f) == L);
    zv_end();
}
/* a failed allocation: no stream, or a stream that still holds its data; nothing leaks */
void ctx_alloc_fail(void) {
    long l; L = 3; src = malloc(3); src[0] = 10; src[1] = 11; src[2] = 12; l = zv_live; zv_alloc_no = 0; zv_fail_at = ZV_PICK(-1, 4);
    int nw = ZV_PICK(0, 1); model_len = nw ? 0 : 3; if (nw) L = 0;
    zpl_b8 ok = nw ? zpl_file_stream_new(&f, zpl_heap()) : zpl_file_stream_open(&f, zpl_heap(), src, 3, CW);
    if (ok) { unsigned char s[6] = { 40, 41, 42, 43, 44, 45 }; int i;
        if (zpl_file_write_at(&f, s, 6, 1)) { for (i = 0; i < 6; i++) wr[1 + i] = 40 + i; model_len = 7; } else zv_check(zv_fail_at >= 0);
        { zpl_isize sz = -1; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); zv_check(sz == model_len); for (i = 0; i < sz; i++) zv_check(b[i] == at(i)); }
        zpl_file_close(&f); }
    else zv_check(zv_fail_at >= 0);
    zv_check(zv_live == l); zv_end();
}

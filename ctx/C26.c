/* C26 path helpers: exact-size strings, every alphabet combination. */
//zv-all: steps=6000
#include "zv.h"
#include "zvs.h"
static char *mk(void) { return AL(ZV_PICK(0, 5), "/.a"); }
void ctx_base(void) { char *p = mk(); int n = zs_len(p), i, k = 0; char const *r; for (i = 0; i < n; i++) if (p[i] == '/') k = i + 1; r = zpl_path_base_name(p); zv_check(r == p + k); zv_end(); }
void ctx_ext(void) { char *p = mk(); int n = zs_len(p), i, k = -1; char const *r; for (i = 0; i < n; i++) if (p[i] == '.') k = i + 1; r = zpl_path_extension(p); zv_check(k < 0 ? r == 0 : r == p + k); zv_end(); }
void ctx_kind(void) { char *p = mk(); int abs = p[0] == '/'; zv_check((zpl_path_is_absolute(p) != 0) == abs && (zpl_path_is_relative(p) != 0) == !abs); zv_check((zpl_path_is_root(p) != 0) == (abs && p[1] == 0)); zv_end(); }
void ctx_any(void) { int n = ZV_PICK(0, 3); char *p = zs_any(n); char const *r = zpl_path_base_name(p), *e = zpl_path_extension(p); zv_check(r >= p && r <= p + n); zv_check(e == 0 || (e > p && e <= p + n)); zpl_path_is_absolute(p); zpl_path_is_root(p); zv_end(); }
void ctx_fix(void) { char *p = AL(ZV_PICK(0, 4), "/\\a"), q[6]; int i, n = zs_len(p); for (i = 0; i <= n; i++) q[i] = p[i]; zpl_path_fix_slashes(p); for (i = 0; i <= n; i++) zv_check(p[i] == q[i]); zv_end(); }

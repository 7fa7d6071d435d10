/* C53 environment and command helpers: the system's side is modelled; every pipe and block is counted. */
#define _GNU_SOURCE
#include <stdio.h>
#include "__fc_builtin.h"
void zv_check(int c);
static char const *env_name, *env_val, *set_name, *set_val; static int env_set, env_unset, set_over;
char *zv_getenv(char const *n) { env_name = n; return (char *)env_val; }
int zv_setenv(char const *n, char const *v, int o) { set_name = n; set_val = v; set_over = o; env_set++; return 0; }
int zv_unsetenv(char const *n) { set_name = n; env_unset++; return 0; }
static FILE pipe_; static int pipes, opened, at, fail; static char const *cmd, *mode; static unsigned char const *out; static int outn;
FILE *zv_popen(char const *c, char const *m) { cmd = c; mode = m; if (fail) return 0; pipes++; opened++; at = 0; return &pipe_; }
int zv_pclose(FILE *f) { zv_check(f == &pipe_ && pipes == 1); pipes--; return 0; }
int zv_getc(FILE *f) { zv_check(f == &pipe_ && pipes == 1); return at < outn ? out[at++] : EOF; }
unsigned long zv_fread(void *p, unsigned long sz, unsigned long n, FILE *f) { unsigned long i, k = sz * n; zv_check(f == &pipe_ && pipes == 1); for (i = 0; i < k && at < outn; i++) ((unsigned char *)p)[i] = out[at++]; return sz ? i / sz : 0; }
char *zv_fgets(char *b, int n, FILE *f) { int i = 0; zv_check(f == &pipe_ && pipes == 1 && n > 0); while (i + 1 < n && at < outn) { b[i] = out[at++]; if (b[i++] == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
int zv_feof(FILE *f) { return at >= outn; }
#define getenv zv_getenv
#define setenv zv_setenv
#define unsetenv zv_unsetenv
#define popen zv_popen
#define pclose zv_pclose
#undef getc
#define getc zv_getc
#define fgetc zv_getc
#define fread zv_fread
#define fgets zv_fgets
#define feof zv_feof
#include "zv.h"
#include "zvs.h"
static void done(void) { zv_check(pipes == 0 && zv_live == 0); zv_end(); }
#ifdef ZV_THOROUGH
#define N 24
#else
#define N 9
#endif
//zv: slevel=40000 args=-eva-no-memexec
void ctx_env(void) {
    int n = ZV_PICK(0, N), i, absent = ZV_PICK(0, 1), f = ZV_PICK(0, 1); char *v = zs_raw(n), *r; zpl_string s;
    for (i = 0; i < n; i++) v[i] = i == 0 ? -1 : i == 1 ? '%' : i == 2 ? '\n' : 'a' + i % 26;
    env_val = absent ? 0 : v;
    zv_check(zpl_get_env_buf("NAME") == env_val && zs_eq(env_name, "NAME", 5));
    if (f) zv_fail_at = zv_alloc_no;
    r = (char *)zpl_get_env("NAME");
    if (absent || f) zv_check(r == 0); else { zv_check(r != 0 && r != v && zs_len(r) == n); zv_check(zs_eq(r, v, n + 1)); zpl_mfree(r); }
    if (f) zv_fail_at = zv_alloc_no;
    s = zpl_get_env_str("NAME");
    if (absent || f) zv_check(s == 0); else { zv_check(zpl_string_length(s) == n && s[n] == 0); zv_check(zs_eq(s, v, n + 1)); zpl_string_free(s); }
    done();
}
//zv: slevel=4000
void ctx_set(void) { char *n = zs_any(2), *v = zs_any(2); zpl_set_env(n, v); zv_check(env_set == 1 && set_name == n && set_val == v && set_over); zpl_unset_env(n); zv_check(env_unset == 1 && set_name == n); done(); }
/* what a command prints: any byte may occur (0, 255, newlines) */
static void output(int n) { int i; unsigned char *o = (unsigned char *)zs_raw(n); for (i = 0; i < n; i++) o[i] = i == 1 ? 255 : i == 2 ? '\n' : i == 3 ? 0 : 'a' + i % 26; out = o; outn = n; }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_command(void) {
    int n = ZV_PICK(0, N), len = ZV_PICK(0, N + 2), i, k; char *b; unsigned r;
    output(n); fail = ZV_PICK(0, 1); k = n < len ? n : len - 1;
    b = malloc(len); zv_live--; for (i = 0; i < len; i++) b[i] = 'Z';
    r = zpl_system_command("cmd", len, b); zv_check(zs_eq(cmd, "cmd", 4) && mode[0] == 'r' && !mode[1]);
    zv_check((r != 0) == !fail);
    if (!fail && len > 0) { for (i = 0; i < k; i++) zv_check((unsigned char)b[i] == out[i]); zv_check(b[k] == 0); }
    done();
}
//zv: slevel=40000 args=-eva-no-memexec
void ctx_command_str(void) {
    int n = ZV_PICK(0, 2 * N), i; zpl_string s; output(n); fail = ZV_PICK(0, 1); zv_fail_at = ZV_PICK(-1, 4);
    s = zpl_system_command_str("cmd", zpl_heap()); zv_check(zs_eq(cmd, "cmd", 4) && mode[0] == 'r' && !mode[1]);
    if (fail) zv_check(s == 0);
    else if (zv_fail_at < 0 || zv_fail_at >= zv_alloc_no) { zv_check(s != 0); zv_check(zpl_string_length(s) == n && s[n] == 0); for (i = 0; i < n; i++) zv_check((unsigned char)s[i] == out[i]); }
    else zv_check(s == 0);
    if (s) zpl_string_free(s);
    done();
}

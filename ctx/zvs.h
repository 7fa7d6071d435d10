/* string builders for contexts: exact-size heap strings so that any over-read is an alarm */
static char *zs_raw(int n) { long f = zv_fail_at; char *p; zv_fail_at = -1; p = zv_malloc(n + 1); zv_fail_at = f; zv_alloc_no--; zv_live--; p[n] = 0; return p; }
/* n characters, each one of the alphabet (every combination analysed separately) */
static char *zs_alpha(int n, char const *al, int k) { char *p = zs_raw(n); int i; for (i = 0; i < n; i++) p[i] = al[ZV_PICK(0, k - 1)]; return p; }
/* n unknown non-NUL characters */
static char *zs_any(int n) { char *p = zs_raw(n); int i; for (i = 0; i < n; i++) if (ZV_PICK(0, 1)) p[i] = ZV_RANGE(1, 127); else p[i] = ZV_RANGE(-128, -1); return p; }
static int zs_len(char const *s) { int n = 0; while (s[n]) n++; return n; }
static int zs_eq(char const *a, char const *b, int n) { int i; for (i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
#define AL(n, str) zs_alpha(n, str, sizeof(str) - 1)

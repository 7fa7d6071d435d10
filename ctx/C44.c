/* C44 sort, radix sort, search, shuffle, reverse */
//zv-all: steps=6000
#include "zv_pre.h"
struct zpl_random;
unsigned long zv_u64(struct zpl_random *); unsigned zv_u32(struct zpl_random *); long zv_isz(struct zpl_random *); void zv_rinit(struct zpl_random *);
#include "zv.h"
#include "zvs.h"
#define MAXN 24
typedef struct { int k, tag, rest; } e12;
static int keys[MAXN], N, SZ; static unsigned char *arr;
static void wr(int i, int key, int tag) { if (SZ == 4) ((int *)arr)[i] = key; else if (SZ == 2) ((short *)arr)[i] = key; else if (SZ == 8) ((long long *)arr)[i] = key; else if (SZ == 1) arr[i] = key; else { e12 e; e.k = key; e.tag = tag; e.rest = ~tag; ((e12 *)arr)[i] = e; } }
static int rd(int i) { return SZ == 4 ? ((int *)arr)[i] : SZ == 2 ? ((short *)arr)[i] : SZ == 8 ? (int)((long long *)arr)[i] : SZ == 1 ? arr[i] : ((e12 *)arr)[i].k; }
static void mk(int n, int sz) { int i; N = n; SZ = sz; arr = (unsigned char *)zv_malloc(n * sz ? n * sz : 1); for (i = 0; i < n; i++) wr(i, keys[i], i); }
static zpl_compare_proc *cmpof(void) { return SZ == 4 || SZ == 12 ? zpl_i32_cmp(0) : SZ == 2 ? zpl_i16_cmp(0) : SZ == 8 ? zpl_i64_cmp(0) : zpl_u8_cmp(0); }
/* same multiset of elements (the wide ones with their companions) */
static void perm(void) { int i, j, used[MAXN] = { 0 }; for (i = 0; i < N; i++) { int ok = 0; if (SZ == 12) { int t = ((e12 *)arr)[i].tag; zv_check(t >= 0 && t < N && !used[t] && ((e12 *)arr)[i].rest == ~t && keys[t] == rd(i)); used[t] = 1; } else { for (j = 0; j < N; j++) if (!used[j] && keys[j] == rd(i)) { used[j] = 1; ok = 1; break; } zv_check(ok); } } }
static void sorted(void) { int i; for (i = 1; i < N; i++) zv_check(rd(i - 1) <= rd(i)); perm(); }
static void go(int n, int sz) { mk(n, sz); zpl_sort(arr, n, sz, cmpof()); sorted(); }
static int sizes[] = { 1, 2, 4, 8, 12 };
//zv: slevel=4000
void ctx_sort_small(void) { int i, n = ZV_PICK(0, 4); for (i = 0; i < n; i++) keys[i] = ZV_PICK(0, 2); go(n, ZV_PICK(0, 1) ? 4 : 12); zv_end(); }
void ctx_sort_shapes_small(void) { int i, n = ZV_PICK(5, 8), k = ZV_PICK(0, 3); for (i = 0; i < n; i++) keys[i] = k == 0 ? i : k == 1 ? n - i : k == 2 ? (i * 5) % 7 : 3; go(n, sizes[ZV_PICK(0, 4)]); zv_end(); }
static int shape(int k, int i, int n) { switch (k) { case 0: return i; case 1: return n - i; case 2: return 7; case 3: return i < n / 2 ? i : n - i; case 4: return i & 1; case 5: return i * 7 % n; case 6: return i * i % 11; case 7: return i == n / 2 ? 0 : 50 - i; case 8: return (i + 1) % n; default: return i * 5 % 13; } }
//zv: slevel=3000
void ctx_sort_quick_9(void) { int i, n = 9, k = ZV_PICK(0, 9); for (i = 0; i < n; i++) keys[i] = shape(k, i, n); go(n, 4); zv_end(); }
//zv: slevel=3000
void ctx_sort_quick_wide(void) { int i, n = ZV_PICK(10, 11), k = ZV_PICK(0, 9); for (i = 0; i < n; i++) keys[i] = shape(k, i, n); go(n, 12); zv_end(); }
//zv: slevel=3000
void ctx_sort_quick_20(void) { int i, n = 20, k = ZV_PICK(0, 9); for (i = 0; i < n; i++) keys[i] = shape(k, i, n); go(n, 2); zv_end(); }
//zv: slevel=8000
void ctx_sort_quick_01(void) { int i, n = 9, m = ZV_PICK(0, 127); for (i = 0; i < 7; i++) keys[i] = m >> i & 1; keys[7] = 1; keys[8] = 0; go(n, 1); zv_end(); }
//zv: slevel=8000 tier=thorough
void ctx_sort_quick_012(void) { int i, n = 10; for (i = 0; i < n; i++) keys[i] = i < 6 ? ZV_PICK(0, 2) : i % 3; go(n, 4); zv_end(); }
/* any comparison outcome: insertion sort stays inside the array */
static ZPL_COMPARE_PROC(any_cmp) { zv_check((unsigned char const *)a >= arr && (unsigned char const *)a + SZ <= arr + N * SZ && (unsigned char const *)b >= arr && (unsigned char const *)b + SZ <= arr + N * SZ); return ZV_RANGE(-1, 1); }
//zv: slevel=4000
void ctx_sort_any_order(void) { mk(ZV_PICK(0, 5), 4); zpl_sort(arr, N, 4, any_cmp); zv_end(); }
/* ---- radix sort: result in the caller's array, for each width */
static unsigned char ky[] = { 0, 255, 128, 1 };
#define RADIX(T, B, name) \
    static void radix_##name(void) { int n = ZV_PICK(0, 5), i, j, k = ZV_PICK(0, 2); T *a = (T *)zv_malloc(n * sizeof(T) + 1), *t = (T *)zv_malloc(n * sizeof(T) + 1), v[8]; for (i = 0; i < n; i++) { v[i] = k == 0 ? (T)((T)(n - i) << (8 * (i % B))) : k == 1 ? (T)(((T)ky[i % 4] << (8 * (B - 1))) + i) : (T)(~(T)0 - (i & 1)); a[i] = v[i]; } zpl_radix_sort_##name(a, t, n); for (i = 1; i < n; i++) zv_check(a[i - 1] <= a[i]); for (i = 0; i < n; i++) { int c = 0; for (j = 0; j < n; j++) c += (a[j] == v[i]) - (v[j] == v[i]); zv_check(c == 0); } zv_end(); }
RADIX(zpl_u8, 1, u8)
//zv: slevel=2000
void ctx_radix_u8(void) { radix_u8(); }
RADIX(zpl_u16, 2, u16)
//zv: slevel=2000
void ctx_radix_u16(void) { radix_u16(); }
RADIX(zpl_u32, 4, u32)
//zv: slevel=2000
void ctx_radix_u32(void) { radix_u32(); }
RADIX(zpl_u64, 8, u64)
//zv: slevel=8000
void ctx_radix_u64(void) { radix_u64(); }
/* ---- search */
//zv: slevel=2000
void ctx_search(void) { int n = ZV_PICK(0, 7), i, key, r; int sz = ZV_PICK(0, 1) ? 4 : 12; e12 k; for (i = 0; i < n; i++) keys[i] = 2 * i + 1; mk(n, sz); key = ZV_PICK(0, 15); k.k = key; r = zpl_binary_search(arr, n, sz, &k, zpl_i32_cmp(0)); if (key % 2 == 1 && key < 2 * n + 1) { zv_check(r >= 0 && r < n && rd(r) == key); } else zv_check(r == -1); zv_end(); }
void ctx_search_equal(void) { int n = ZV_PICK(1, 6), i, k = 5, r; for (i = 0; i < n; i++) keys[i] = 5; mk(n, 4); r = zpl_binary_search(arr, n, 4, &k, zpl_i32_cmp(0)); zv_check(r >= 0 && r < n); zv_end(); }
/* ---- reverse, shuffle */
//zv: slevel=2000
void ctx_reverse(void) { int n = ZV_PICK(0, 7), i; for (i = 0; i < n; i++) keys[i] = 10 + i; mk(n, sizes[ZV_PICK(0, 4)]); zpl_reverse(arr, n, SZ); for (i = 0; i < n; i++) zv_check(rd(i) == 10 + n - 1 - i); perm(); zv_end(); }
zpl_u64 zv_u64(zpl_random *r) { static zpl_u64 v[] = { 0, 1, 2, 7, 0x8000000000000001ull, ~0ull }; return v[ZV_PICK(0, 5)]; }
zpl_u32 zv_u32(zpl_random *r) { return (zpl_u32)zv_u64(r); }
zpl_isize zv_isz(zpl_random *r) { return (zpl_isize)zv_u64(r); }
void zv_rinit(zpl_random *r) { int i; r->value = 0; for (i = 0; i < 8; i++) r->offsets[i] = i; }
//zv: slevel=5000 replace=zpl_random_gen_u64=zv_u64,zpl_random_gen_u32=zv_u32,zpl_random_gen_isize=zv_isz,zpl_random_init=zv_rinit,zpl_memset=zv_memset
void ctx_shuffle(void) { int n = ZV_PICK(0, 4), i; for (i = 0; i < n; i++) keys[i] = 10 + i; mk(n, ZV_PICK(0, 1) ? 12 : 1); zpl_shuffle(arr, n, SZ); perm(); zv_end(); }
/* ---- comparison helpers */
#define CMP(T, name, lo, hi) { T a[3], b[3]; T s[] = { lo, (T)(lo + 1), 0, 1, hi }; int i = ZV_PICK(0, 4), j = ZV_PICK(0, 4), off = ZV_PICK(0, 2), r; a[off] = s[i]; b[off] = s[j]; r = name(off * sizeof(T))(a, b); zv_check(s[i] < s[j] ? r < 0 : s[i] > s[j] ? r > 0 : r == 0); }
void ctx_cmp_u8(void) { CMP(zpl_u8, zpl_u8_cmp, 0, 255) zv_end(); }
void ctx_cmp_i16(void) { CMP(zpl_i16, zpl_i16_cmp, -32768, 32767) zv_end(); }
void ctx_cmp_i32(void) { CMP(zpl_i32, zpl_i32_cmp, -2147483647 - 1, 2147483647) zv_end(); }
void ctx_cmp_i64(void) { CMP(zpl_i64, zpl_i64_cmp, -9223372036854775807ll - 1, 9223372036854775807ll) zv_end(); }
void ctx_cmp_isize(void) { CMP(zpl_isize, zpl_isize_cmp, -9223372036854775807ll - 1, 9223372036854775807ll) zv_end(); }
void ctx_cmp_f32(void) { CMP(zpl_f32, zpl_f32_cmp, -1e30f, 1e30f) zv_end(); }
void ctx_cmp_f64(void) { CMP(zpl_f64, zpl_f64_cmp, -1e300, 1e300) zv_end(); }
void ctx_cmp_str(void) { char *a[2], *b[2]; int off = ZV_PICK(0, 1), i, r, w = 0; char *x = AL(ZV_PICK(0, 2), "a\xc3"), *y = AL(ZV_PICK(0, 2), "a\xc3"); a[off] = x; b[off] = y; for (i = 0; ; i++) { if (x[i] != y[i]) { w = (unsigned char)x[i] < (unsigned char)y[i] ? -1 : 1; break; } if (!x[i]) break; } r = zpl_str_cmp(off * sizeof(char *))(a, b); zv_check(w < 0 ? r < 0 : w > 0 ? r > 0 : r == 0); zv_end(); }
/* the caller's comparison is asked a bounded number of times: the search and the sort come to an end */
static int asked; static ZPL_COMPARE_PROC(asking) { asked++; zv_check(asked <= 200); return *(int const *)a - *(int const *)b; }
void ctx_search_ends(void) { int n = ZV_PICK(0, 9), i, key = ZV_PICK(-1, 19); for (i = 0; i < n; i++) keys[i] = 2 * i; mk(n, 4); zv_check(zpl_binary_search(arr, n, 4, &key, asking) == (key >= 0 && key % 2 == 0 && key < 2 * n ? key / 2 : -1)); zv_end(); }
//zv: slevel=4000
void ctx_sort_ends(void) { int n = 12, i, k = ZV_PICK(0, 4); for (i = 0; i < n; i++) keys[i] = k == 0 ? i : k == 1 ? n - i : k == 2 ? 7 : k == 3 ? i % 3 : i * 5 % 12; mk(n, 4); zpl_sort(arr, n, 4, asking); sorted(); zv_end(); }

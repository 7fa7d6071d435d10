/* C08 dynamic arrays against a list model; every element access is bounds-checked by the analysis. */
//zv-all: steps=6000
#include "zv.h"
typedef struct { int a; char b[7]; } rec;
#if defined(T_BYTES)
#define T char
#define MK(v) ((char)(v))
#define VAL(x) (x)
#elif defined(T_REC)
#define T rec
#define MK(v) ((rec){(v),{(char)(v)}})
#define VAL(x) ((x).a)
#else
#define T int
#define MK(v) (v)
#define VAL(x) (x)
#endif
static int model[64], mn; static T *arr;
static void same(void) {
    int i;
    zv_check(zpl_array_count(arr) == mn);
    zv_check(zpl_array_capacity(arr) >= mn);
    zv_check(zpl_array_elem_size(arr) == sizeof(T));
    for (i = 0; i < mn; i++) zv_check(VAL(arr[i]) == model[i]);
}
static void m_insert(int at, int v) { int i; if (at < 0) at = 0; if (at > mn) at = mn; for (i = mn; i > at; i--) model[i] = model[i-1]; model[at] = v; mn++; }
static void m_remove(int at) { int i; for (i = at; i + 1 < mn; i++) model[i] = model[i+1]; mn--; }
static int next = 1;
static void op(int k) {
    T v[3]; int i, at; zpl_isize c; long b; void *old;
    switch (k) {
        case 0: if (zpl_array_append(arr, MK(next))) m_insert(mn, next); else zv_check(zv_fail_at >= 0); next++; break;
        case 1: at = ZV_PICK(-1, 3); if (zpl_array_append_at(arr, MK(next), at)) m_insert(at, next); else zv_check(zv_fail_at >= 0); next++; break;
        case 2: c = ZV_PICK(0, 1) * 3; for (i = 0; i < 3; i++) v[i] = MK(next + i);
            if (zpl_array_appendv(arr, v, c)) for (i = 0; i < c; i++) m_insert(mn, next + i); else zv_check(zv_fail_at >= 0); next += 3; break;
        case 3: at = ZV_PICK(-1, 3); for (i = 0; i < 2; i++) v[i] = MK(next + i);
            if (zpl_array_appendv_at(arr, v, 2, at)) for (i = 0; i < 2; i++) m_insert((at < 0 ? 0 : at > mn - i ? mn - i : at) + i, next + i); else zv_check(zv_fail_at >= 0); next += 2; break;
        case 4: if (mn) { zpl_array_pop(arr); mn--; } break;
        case 5: if (mn) { at = ZV_PICK(0, 2); if (at < mn) { zpl_array_remove_at(arr, at); m_remove(at); } } break;
        case 6: zpl_array_clear(arr); mn = 0; break;
        case 7: c = ZV_PICK(0, 2) * 2; b = mn;
            if (zpl_array_resize(arr, c)) { for (i = b; i < c; i++) { arr[i] = MK(77); model[i] = 77; } mn = c; } else zv_check(zv_fail_at >= 0); break;
        case 8: c = ZV_PICK(0, 2) * 5; if (zpl_array_reserve(arr, c)) zv_check(zpl_array_capacity(arr) >= c); else zv_check(zv_fail_at >= 0); break;
        case 9: c = ZV_PICK(0, 2) * 2; if (zpl_array_set_capacity(arr, c)) { zv_check(zpl_array_capacity(arr) == c); if (mn > c) mn = c; } break;
        case 10: if (mn > 1) { zpl_array_fill(arr, 1, mn, MK(55)); for (i = 1; i < mn; i++) model[i] = 55; } break;
        case 11: { T *cp = 0; int j; if (zpl_array_copy_init(cp, arr)) { zv_check(zpl_array_count(cp) == mn); for (j = 0; j < mn; j++) { zv_check(VAL(cp[j]) == model[j]); cp[j] = MK(0); } zpl_array_free(cp); } else zv_check(zv_fail_at >= 0); } break;
        case 12: if (mn) { zv_check(VAL(zpl_array_back(arr)) == model[mn-1]); zv_check(VAL(zpl_array_front(arr)) == model[0]); zv_check(zpl_array_end(arr) == arr + (mn - 1)); } break;
    }
    same();
}
static void start(int lo, int hi) {
    int i, n; zpl_isize cap = ZV_PICK(0, 1) * 4;
    zv_check(zpl_array_init_reserve(arr, zpl_heap_allocator(), cap));
    zv_check(zpl_array_capacity(arr) == cap);
    n = ZV_PICK(lo, hi);
    for (i = 0; i < n; i++) { zpl_array_append(arr, MK(next)); m_insert(mn, next); next++; }
    same();
}
static void finish(void) { zpl_array_free(arr); zv_check(zv_live == 0); zv_end(); }
#ifdef ZV_THOROUGH
#define LO 0
#define HI 4
#define OPS ZV_PICK(0, 12)
#else
#define LO 0
#define HI 3
#define OPS ZV_PICK(0, 12)
#endif
static void hist(int first_lo, int first_hi) { start(LO, HI); op(ZV_PICK(first_lo, first_hi)); op(OPS); finish(); }
void ctx_hist_a(void) { hist(0, 1); }
void ctx_hist_b(void) { hist(2, 3); }
void ctx_hist_c(void) { hist(4, 6); }
void ctx_hist_d(void) { hist(7, 8); }
void ctx_hist_e(void) { hist(9, 12); }
/* other element sizes */
//zv: defs=T_BYTES
void ctx_bytes(void) { start(2, 3); op(OPS); op(0); finish(); }
//zv: defs=T_REC
void ctx_records(void) { start(2, 3); op(OPS); op(0); finish(); }
/* a refused allocation leaves the array as it was */
void ctx_refused(void) { start(0, 4); zv_fail_at = zv_alloc_no + ZV_PICK(0, 0); op(OPS); zv_fail_at = -2; if (ZV_PICK(0, 1)) op(0); zv_fail_at = 0; finish(); }
void ctx_init_refused(void) {
    zv_fail_at = 0;
    zv_check(!zpl_array_init(arr, zpl_heap_allocator()));
    zv_check(zv_live == 0);
    zpl_array_free(arr);
    zv_end();
}
/* growth: reserve and grow formulas for any capacity; long fill */
void ctx_growth(void) {
    int i, n = 60;
    zv_check(zpl_array_init(arr, zpl_heap_allocator()));
    for (i = 0; i < n; i++) { zv_check(zpl_array_append(arr, MK(i))); zv_check(zpl_array_count(arr) == i + 1 && zpl_array_capacity(arr) > i); }
    for (i = 0; i < n; i++) zv_check(VAL(arr[i]) == i);
    zv_check(zpl_array_grow(arr, 500)); zv_check(zpl_array_capacity(arr) >= 500 && zpl_array_count(arr) == n);
    finish();
}

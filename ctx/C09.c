/* C09 buffers and rings against a queue model. */
//zv-all: steps=6000
#include "zv.h"
typedef struct { int v; char pad[5]; } rec;
ZPL_RING(static, ri_, int);
static ri_int r; static int q[16], qn, cap, next = 1;
static void push(int v) { int i; if (qn == cap) { for (i = 0; i + 1 < qn; i++) q[i] = q[i+1]; qn--; } q[qn++] = v; }
static int pop(void) { int v = q[0], i; for (i = 0; i + 1 < qn; i++) q[i] = q[i+1]; qn--; return v; }
static void state(void) {
    zv_check(ri_empty(&r) == (qn == 0));
    zv_check((ri_full(&r) != 0) == (qn == cap));
    zv_check(r.head < r.capacity && r.tail < r.capacity);
    zv_check(r.capacity == zpl_buffer_capacity(r.buf));
}
static void step(int k) {
    int i, *g;
    if (k == 0) { ri_append(&r, next); push(next++); }
    else if (k == 1) {
        g = ri_get(&r);
        if (qn == 0) zv_check(g == 0); else { zv_check(g != 0); zv_check(*g == pop()); }
    } else if (k == 2) {
        zpl_array(int) a; int n = ZV_PICK(0, 1) * 3;
        zpl_array_init(a, zpl_heap_allocator());
        for (i = 0; i < n; i++) { zpl_array_append(a, next); push(next++); }
        ri_append_array(&r, a);
        zpl_array_free(a);
    } else {
        zpl_usize m = ZV_PICK(0, 3); zpl_array(int) o = ri_get_array(&r, m, zpl_heap_allocator());
        int want = (int)m < qn ? (int)m : qn;
        zv_check(zpl_array_count(o) == want);
        for (i = 0; i < want; i++) zv_check(o[i] == pop());
        zpl_array_free(o);
    }
    state();
}
#ifdef ZV_THOROUGH
#define N 5
#else
#define N 4
#endif
static void hist(int c) {
    int s, i; cap = c;
    ri_init(&r, zpl_heap_allocator(), cap);
    state();
    for (s = 0; s < N; s++) step(ZV_PICK(0, 3));
    for (i = 0; qn > 0; i++) { int *g = ri_get(&r); zv_check(g != 0); zv_check(*g == pop()); }
    zv_check(ri_get(&r) == 0);
    ri_free(&r); zv_check(zv_live == 0); zv_end();
}
void ctx_ring1(void) { hist(1); }
void ctx_ring2(void) { hist(2); }
void ctx_ring3(void) { hist(3); }
/* any reachable index pair: bounds hold for every head/tail */
void ctx_ring_any_state(void) {
    int *g; cap = 4;
    ri_init(&r, zpl_heap_allocator(), cap);
    for (int i = 0; i < 5; i++) r.buf[i] = i;
    r.head = ZV_PICK(0, 4); r.tail = ZV_PICK(0, 4);
    zpl_usize h = r.head, t = r.tail, n = (h + 5 - t) % 5;
    if (ZV_PICK(0, 1)) {
        ri_append(&r, 42);
        zv_check(r.head == (h + 1) % 5 && r.buf[h] == 42);
        zv_check(r.tail == (n == 4 ? (t + 1) % 5 : t));
    } else {
        g = ri_get(&r);
        zv_check(r.head == h);
        if (n) { zv_check(g == &r.buf[t]); zv_check(r.tail == (t + 1) % 5); } else { zv_check(g == 0); zv_check(r.tail == t); }
    }
    zv_end();
}
void ctx_ring_refused(void) {
    zv_fail_at = 0;
    ri_init(&r, zpl_heap_allocator(), 3);
    ri_append(&r, 1); zv_check(ri_get(&r) == 0); ri_free(&r);
    zv_check(zv_live == 0); zv_end();
}
void ctx_ring_get_array_refused(void) {
    zpl_array(int) o;
    ri_init(&r, zpl_heap_allocator(), 12); cap = 12;
    for (int i = 0; i < 12; i++) { ri_append(&r, i); push(i); }
    zv_fail_at = zv_alloc_no + ZV_PICK(0, 1);
    o = ri_get_array(&r, 20, zpl_heap_allocator());
    if (o) { for (int i = 0; i < zpl_array_count(o); i++) zv_check(o[i] == pop()); zpl_array_free(o); }
    while (qn) { int *g = ri_get(&r); zv_check(g != 0); zv_check(*g == pop()); }   /* nothing was lost */
    ri_free(&r); zv_check(zv_live == 0); zv_end();
}
/* fixed capacity buffer */
#define BUFTEST(T, MK, V) { \
    T *b, *c; T it[3]; int n = 0, k, s, i, m[8]; \
    zpl_buffer_init(b, zpl_heap_allocator(), 4); \
    zv_check(zpl_buffer_capacity(b) == 4 && zpl_buffer_count(b) == 0); \
    for (s = 0; s < 4; s++) { \
        k = ZV_PICK(0, 3); \
        if (k == 0 && n < 4) { zpl_buffer_append(b, MK(next)); m[n++] = next++; } \
        if (k == 1 && n) { zpl_buffer_pop(b); n--; } \
        if (k == 2) { zpl_buffer_clear(b); n = 0; } \
        if (k == 3) { int cn = ZV_PICK(0, 2); if (n + cn <= 4) { for (i = 0; i < cn; i++) { it[i] = MK(next); m[n++] = next++; } zpl_buffer_appendv(b, it, cn); } } \
        zv_check(zpl_buffer_count(b) == n); \
        for (i = 0; i < n; i++) zv_check(V(b[i]) == m[i]); \
        if (n) zv_check(zpl_buffer_end(b) == b + n - 1); \
    } \
    for (i = n; i < 4; i++) b[i] = MK(0); \
    zpl_buffer_copy_init(c, b); \
    zv_check(zpl_buffer_count(c) == n && zpl_buffer_capacity(c) == 4); \
    for (i = 0; i < n; i++) { zv_check(V(c[i]) == m[i]); c[i] = MK(0); } \
    for (i = 0; i < n; i++) zv_check(V(b[i]) == m[i]); \
    zpl_buffer_free(b); zpl_buffer_free(c); zv_check(zv_live == 0); zv_end(); }
#define ID(x) (x)
#define RV(x) ((x).v)
#define RM(x) ((rec){ (x), { (char)(x) } })
void ctx_buffer_int(void) BUFTEST(int, ID, ID)
void ctx_buffer_rec(void) BUFTEST(rec, RM, RV)
void ctx_buffer_refused(void) { int *b; zv_fail_at = 0; zpl_buffer_init(b, zpl_heap_allocator(), 4); zv_check(b == 0); zpl_buffer_free(b); zv_check(zv_live == 0); zv_end(); }

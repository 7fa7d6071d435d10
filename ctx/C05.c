/* C05 resizing keeps the old contents, for every allocator that supports it. */
#define ZV_REAL_HEAP
#include "zv.h"
#include "zv_abs.h"
static zpl_isize N1, N2, AL;
static int fails, al4;
static void resize_in(zpl_allocator a, int shrink_moves) {
    zpl_isize sz[] = { 0, 1, 5, 8, 17, 24 }, i, m;
    zpl_isize al[] = { 4, 8, 32 };
    N1 = sz[ZV_PICK(1, 5)]; N2 = sz[ZV_PICK(0, 5)]; AL = al[ZV_PICK(0, 2)];
    char *other = zpl_alloc_align(a, 6, 4);
    char *p = zpl_alloc_align(a, N1, AL), *q;
    zv_check(p != 0 && other != 0);
    for (i = 0; i < 6; i++) other[i] = 99;
    for (i = 0; i < N1; i++) p[i] = i + 1;
    if (fails) zv_abs_fail_at = zv_abs_no;
    q = zpl_resize_align(a, p, N1, N2, AL);
    if (N2 == 0) { zv_check(q == 0); zv_end(); return; }
    if (N2 == N1) zv_check(q == p);
    if (!q) {                                     /* refused: the old block is untouched */
        for (i = 0; i < N1; i++) zv_check(p[i] == i + 1);
        for (i = 0; i < 6; i++) zv_check(other[i] == 99);
        zv_end(); return;
    }
    zv_check((unsigned long)q % AL == 0);
    m = N1 < N2 ? N1 : N2;
    for (i = 0; i < m; i++) zv_check(q[i] == i + 1);
    for (i = 0; i < N2; i++) q[i] = 7;
    for (i = 0; i < 6; i++) zv_check(other[i] == 99);   /* neighbours undisturbed */
    zv_end();
}
//zv: abs=0x1000-0x2fff
void ctx_resize_arena(void) {
    zpl_arena ar; zpl_arena_init_from_memory(&ar, (void *)0x1010, ZV_PICK(0, 1) ? 256 : 75);
    resize_in(zpl_arena_allocator(&ar), 0);
    zv_check(ar.total_allocated <= ar.total_size);
}
//zv: abs=0x1000-0x2fff
void ctx_resize_scratch(void) {
    zpl_scratch_memory s; zpl_scratch_memory_init(&s, (void *)0x1010, 1024);
    resize_in(zpl_scratch_allocator(&s), 0);
}
/* fresh allocation when there was none */
//zv: abs=0x1000-0x2fff
void ctx_resize_from_null(void) {
    zpl_arena ar; zpl_arena_init_from_memory(&ar, (void *)0x1010, 256);
    zpl_isize n = ZV_PICK(1, 20), i; char *p;
    p = zpl_resize(zpl_arena_allocator(&ar), 0, 0, n);
    zv_check(p != 0);
    for (i = 0; i < n; i++) p[i] = 1;
    zv_check(ar.total_allocated >= n);
    zv_end();
}
/* default resize over an arbitrary allocator: exactly one request, exactly one release, order copy-then-free */
static int log_[8], nlog; static char mem[2][40]; static int used[2]; static int refuse;
static ZPL_ALLOCATOR_PROC(model) {
    zv_check(nlog < 8);
    log_[nlog++] = type;
    if (type == ZPL_ALLOCATION_ALLOC) {
        int k = used[0] ? 1 : 0;
        if (refuse) return 0;
        zv_check(!used[k] && size <= 40); used[k] = 1; return mem[k];
    }
    if (type == ZPL_ALLOCATION_FREE) {
        int k = old_memory == mem[1]; long i;
        zv_check(old_memory == mem[0] || old_memory == mem[1]);
        zv_check(used[k]); used[k] = 0;
        for (i = 0; i < 40; i++) mem[k][i] = -1;
        return 0;
    }
    if (type == ZPL_ALLOCATION_RESIZE) { zpl_allocator a = { model, 0 }; nlog--; return zpl_default_resize_align(a, old_memory, old_size, size, alignment); }
    zv_check(0 == 1);
    return 0;
}
static void dflt(int resize_api) {
    zpl_allocator a = { model, 0 }; zpl_isize n1 = ZV_PICK(1, 9), n2 = ZV_PICK(0, 12), i; char *p, *q;
    p = zpl_alloc(a, n1);
    zv_check(p == mem[0] && nlog == 1);
    for (i = 0; i < n1; i++) p[i] = i + 1;
    refuse = ZV_PICK(0, 1);
    q = resize_api ? zpl_resize(a, p, n1, n2) : zpl_default_resize_align(a, p, n1, n2, 8);
    if (n2 == 0) { zv_check(q == 0 && !used[0] && !used[1]); zv_check(nlog == 2); }
    else if (n2 == n1) { zv_check(q == p && nlog == 1); }
    else if (q == 0) { zv_check(refuse && used[0]); for (i = 0; i < n1; i++) zv_check(p[i] == i + 1); }
    else {
        zv_check(q == p ? (used[0] && !used[1]) : (q == mem[1] && !used[0] && used[1]));
        for (i = 0; i < (n1 < n2 ? n1 : n2); i++) zv_check(q[i] == i + 1);
        if (n2 > n1) zv_check(q == mem[1]);
    }
    zv_end();
}
void ctx_default_resize(void) { dflt(0); }
void ctx_resize_api(void) { dflt(1); }
/* heap */
static void heap_(void) {
    zpl_allocator a = zpl_heap_allocator(); zpl_isize n1 = ZV_PICK(1, 9), n2 = ZV_PICK(0, 12), i; char *p, *q;
    p = zpl_alloc(a, n1);
    for (i = 0; i < n1; i++) p[i] = i + 1;
    if (ZV_PICK(0, 1)) zv_fail_at = zv_alloc_no;
    q = zpl_resize(a, p, n1, n2);
    if (n2 == 0) { zv_check(q == 0 && zv_live == 0); zv_end(); return; }
    if (n2 == n1) zv_check(q == p);
    zv_check(zv_live == 1);
    if (!q) { zv_check(zv_fail_at >= 0); for (i = 0; i < n1; i++) zv_check(p[i] == i + 1); zpl_free(a, p); }
    else { for (i = 0; i < (n1 < n2 ? n1 : n2); i++) zv_check(q[i] == i + 1); for (i = 0; i < n2; i++) q[i] = 0; zpl_free(a, q); }
    zv_check(zv_live == 0);
    zv_end();
}
void ctx_resize_heap(void) { heap_(); }
//zv: defs=ZPL_HEAP_ANALYSIS
void ctx_resize_heap_analysis(void) { heap_(); }
void ctx_alloc_copy(void) {
    char src[9]; zpl_isize n = ZV_PICK(0, 9), i; char *p;
    for (i = 0; i < 9; i++) src[i] = i + 1;
    if (ZV_PICK(0, 1)) zv_fail_at = 0;
    p = ZV_PICK(0, 1) ? zpl_alloc_copy(zpl_heap_allocator(), src, n) : zpl_alloc_copy_align(zpl_heap_allocator(), src, n, 32);
    if (p) { for (i = 0; i < n; i++) zv_check(p[i] == i + 1); zpl_mfree(p); } else zv_check(zv_fail_at == 0);
    zv_check(zv_live == 0);
    zv_end();
}

/* C04 heap allocator: alignment, size, zero fill, free of null, balanced statistics.
 * Each context is analysed with and without heap analysis. */
#define ZV_REAL_HEAP
#include "zv.h"
#include "zv_absheap.h"
static zpl_isize pal(void) { zpl_isize t[] = { 1, 2, 4, 8, 16, 32, 64 }; return t[ZV_PICK(0, 6)]; }
static zpl_isize psz(void) { zpl_isize t[] = { 0, 1, 7, 8, 24, 33 }; return t[ZV_PICK(0, 5)]; }
/* the block lies inside one live system block */
static void inside_live(char *p, zpl_isize n) {
    int i, ok = 0;
    for (i = 0; i < zv_hp_no; i++) if (zv_hp[i].live && (long)p >= zv_hp[i].p && (long)p + n <= zv_hp[i].p + zv_hp[i].n) ok = 1;
    zv_check(ok);
}
static void one(void) {
    zpl_allocator a = zpl_heap_allocator(); zpl_isize n = psz(), al = pal(), i;
    char *p = zpl_alloc_align(a, n, al);
    zv_check(p != 0);
    zv_check((long)p % al == 0);
    inside_live(p, n);
    for (i = 0; i < n; i++) zv_check(p[i] == 0);      /* default flags clear to zero */
    for (i = 0; i < n; i++) p[i] = 3;
    zpl_free(a, p);
    zv_check(zv_hp_live == 0);
    zpl_free(a, 0);
    a.proc(a.data, ZPL_ALLOCATION_FREE, 0, 0, 0, 0, 0);   /* freeing null through the procedure itself */
    zv_check(zv_hp_live == 0);
    zpl_mfree(0);
    p = zpl_malloc(n);
    zv_check((long)p % ZPL_DEFAULT_MEMORY_ALIGNMENT == 0);
    inside_live(p, n);
    zpl_mfree(p);
    p = a.proc(a.data, ZPL_ALLOCATION_ALLOC, n, al, 0, 0, 0);   /* no clearing asked for */
    zv_check((long)p % al == 0);
    inside_live(p, n);
    zpl_free(a, p);
    zv_check(zv_hp_live == 0);
    zv_end();
}
//zv: abs=0x1000-0x2fff defs=ZV_OWN_ALLOC
void ctx_heap_one(void) { one(); }
//zv: abs=0x1000-0x2fff defs=ZV_OWN_ALLOC,ZPL_HEAP_ANALYSIS
void ctx_heap_one_analysis(void) { one(); }

/* a history of allocations, frees, resizes and failures; statistics always equal the model */
static char *blk[4]; static zpl_isize len[4]; static char tag[4];
static void check_all(void) {
    zpl_isize used = 0, cnt = 0, i, j;
    for (i = 0; i < 4; i++) if (blk[i]) {
        used += len[i]; cnt++;
        inside_live(blk[i], len[i]);
        for (j = 0; j < len[i]; j++) zv_check(blk[i][j] == tag[i]);
        for (j = 0; j < 4; j++) if (j != i && blk[j]) zv_check(blk[i] + len[i] <= blk[j] || blk[j] + len[j] <= blk[i]);
    }
#ifdef ZPL_HEAP_ANALYSIS
    zv_check(zpl_heap_stats_used_memory() == used);
    zv_check(zpl_heap_stats_alloc_count() == cnt);
#endif
    zv_check(zv_hp_live == cnt);
}
static void history(int steps) {
    zpl_allocator a = zpl_heap_allocator(); int s, i; zpl_isize j;
    zpl_isize sz[] = { 0, 5, 16 };
    zpl_heap_stats_init();
    zv_hp_fail = ZV_PICK(-1, 3);
    for (s = 0; s < steps; s++) {
        i = ZV_PICK(0, 1);
        if (!blk[i]) {
            long before = zv_hp_no;
            len[i] = sz[ZV_PICK(0, 2)]; tag[i] = s + 1;
            blk[i] = zpl_alloc_align(a, len[i], ZV_PICK(0, 1) ? 32 : 8);
            zv_check((blk[i] == 0) == (before == zv_hp_fail));
            if (blk[i]) for (j = 0; j < len[i]; j++) blk[i][j] = tag[i];
        } else if (ZV_PICK(0, 1)) {
            zpl_free(a, blk[i]); blk[i] = 0;
        } else {
            zpl_isize nn = len[i] + 9; char *q = zpl_resize_align(a, blk[i], len[i], nn, 16);
            if (q) { for (j = len[i]; j < nn; j++) q[j] = tag[i]; blk[i] = q; len[i] = nn; }
        }
        check_all();
    }
    for (i = 0; i < 2; i++) if (blk[i]) { zpl_free(a, blk[i]); blk[i] = 0; }
    check_all();
#ifdef ZPL_HEAP_ANALYSIS
    zpl_heap_stats_check();
#endif
    zv_end();
}
#ifdef ZV_THOROUGH
#define STEPS 4
#else
#define STEPS 3
#endif
//zv: abs=0x1000-0x2fff defs=ZV_OWN_ALLOC
void ctx_heap_history(void) { history(STEPS); }
//zv: abs=0x1000-0x2fff defs=ZV_OWN_ALLOC,ZPL_HEAP_ANALYSIS
void ctx_heap_history_analysis(void) { history(STEPS); }

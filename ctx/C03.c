/* C03 stack and scratch allocators */
#include "zv.h"
#include "zv_abs.h"
static zpl_isize al(void) { zpl_isize t[] = { 4, 8, 16, 32 }; return t[ZV_PICK(0, 3)]; }
static zpl_isize sz(void) {
#ifdef ZV_THOROUGH
    zpl_isize t[] = { 0, 1, 4, 7, 8, 12, 20, 40 }; return t[ZV_PICK(0, 7)];
#else
    zpl_isize t[] = { 0, 1, 8, 12, 20 }; return t[ZV_PICK(0, 4)];
#endif
}
static void inside(char *p, zpl_isize n, zpl_isize a, char *lo, zpl_isize total) {
    zv_check((unsigned long)p % a == 0);                        /* aligned */
    zv_check((unsigned long)p >= (unsigned long)lo + 8);        /* room for the header below */
    zv_check((unsigned long)p + n <= (unsigned long)lo + total); /* inside */
}
static void fillb(char *p, zpl_isize n, char v) { for (zpl_isize i = 0; i < n; i++) p[i] = v; }
static void holds(char *p, zpl_isize n, char v) { for (zpl_isize i = 0; i < n; i++) zv_check(p[i] == v); }

/* --------------------------------------------------------------- stack */
/* stack on caller memory: LIFO restores the exact level */
//zv: abs=0x1000-0x2fff
void ctx_stack_lifo(void) {
    zpl_stack_memory s; zpl_allocator a;
    char *lo = (char *)0x1000 + ZV_PICK(0, 1) * 8;
    zpl_stack_memory_init_from_memory(&s, lo, 512);
    zv_check(s.backing.proc == 0);           /* nothing to grow into or to free */
    a = zpl_stack_allocator(&s);
    zpl_isize n1 = sz(), a1 = al(), n2 = sz(), a2 = al();
    char *p = zpl_alloc_align(a, n1, a1);
    inside(p, n1, a1, lo, 512); fillb(p, n1, 1);
    zpl_usize l1 = s.allocated;
    zv_check(l1 <= 512 && l1 >= n1);
    char *q = zpl_alloc_align(a, n2, a2);
    inside(q, n2, a2, lo, 512);
    zv_check((unsigned long)q >= (unsigned long)p + n1 + 8);    /* header and block after p's end */
    for (zpl_isize i = 0; i < n2; i++) zv_check(q[i] == 0);     /* default flags clear to zero */
    fillb(q, n2, 2);
    holds(p, n1, 1);
    zpl_free(a, q);
    zv_check(s.allocated == l1);                                /* exact previous level */
    holds(p, n1, 1);
    char *r = zpl_alloc_align(a, n2, a2);
    zv_check(r == q);                                           /* same space is handed out again */
    zpl_free(a, r);
    zpl_free(a, p);
    zv_check(s.allocated == 0);
    zpl_stack_memory_free(&s);
    zv_end();
}
/* growth: the recorded size is the real size and contents survive */
//zv: abs=0x1000-0x2fff
void ctx_stack_grow(void) {
    zpl_stack_memory s; zpl_allocator a;
    zpl_stack_memory_init(&s, zv_abs(), 24 + ZV_PICK(0, 3) * 4);
    a = zpl_stack_allocator(&s);
    zpl_isize n1 = ZV_PICK(0, 6) * 4, n2 = ZV_PICK(0, 9) * 5, a2 = al();
    char *p = zpl_alloc_align(a, n1, 8);
    zv_check(s.total_size <= zv_abs_last_size);
    inside(p, n1, 8, s.physical_start, zv_abs_last_size);
    zpl_isize off = p - (char *)s.physical_start;
    fillb(p, n1, 7);
    char *q = zpl_alloc_align(a, n2, a2);
    zv_check(s.total_size <= zv_abs_last_size);                 /* never more than was obtained */
    inside(q, n2, a2, s.physical_start, s.total_size);
    zv_check(s.allocated <= s.total_size);
    p = (char *)s.physical_start + off;
    holds(p, n1, 7);                                            /* contents moved along */
    fillb(q, n2, 3);
    holds(p, n1, 7);
    zpl_free_all(a);
    zv_check(s.allocated == 0);
    zv_end();
}
//zv: abs=0x1000-0x2fff
void ctx_stack_grow_fails(void) {
    zpl_stack_memory s; zpl_allocator a;
    zpl_stack_memory_init(&s, zv_abs(), 32);
    a = zpl_stack_allocator(&s);
    char *p = zpl_alloc_align(a, 8, 8);
    zpl_usize l = s.allocated, t = s.total_size; void *st = s.physical_start;
    zv_abs_fail_at = zv_abs_no;
    char *q = zpl_alloc_align(a, 100, 8);
    zv_check(q == 0);
    zv_check(s.allocated == l && s.total_size == t && s.physical_start == st);
    zv_end();
}
//zv: abs=0x1000-0x2fff
void ctx_stack_no_memory(void) {
    zpl_stack_memory s;
    zv_abs_fail_at = 0;
    zpl_stack_memory_init(&s, zv_abs(), 32);
    zv_check(s.physical_start == 0 && s.total_size == 0 && s.allocated == 0);
    zv_check(!zpl_stack_memory_is_in_use(&s, (void *)0x1100));
    zpl_stack_memory_free(&s);
    zv_check(zv_abs_live == 0);
    zv_end();
}
//zv: abs=0x1000-0x2fff
void ctx_stack_in_use(void) {
    zpl_stack_memory s;
    zpl_stack_memory_init_from_memory(&s, (void *)0x1100, 64);
    zv_check(!zpl_stack_memory_is_in_use(&s, (void *)0x1110));
    char *p = zpl_alloc_align(zpl_stack_allocator(&s), 8, 8);
    zv_check(zpl_stack_memory_is_in_use(&s, p));
    zv_check(!zpl_stack_memory_is_in_use(&s, (void *)(0x1000L + ZV_RANGE(0, 255))));
    zv_check(!zpl_stack_memory_is_in_use(&s, (void *)(0x1140L + ZV_RANGE(0, 255))));
    zv_end();
}

/* --------------------------------------------------------------- scratch ring */
static int disjoint(char *p, zpl_isize n, char *q, zpl_isize m) {
    return (unsigned long)p + n <= (unsigned long)q || (unsigned long)q + m <= (unsigned long)p;
}
/* a history of allocations and frees over a small ring: every live block keeps its bytes */
static char *blk[8]; static zpl_isize len[8]; static int live[8];
static void history(char *lo, zpl_isize total, int steps) {
    zpl_scratch_memory s; zpl_allocator a;
    int n = 0, i, j, k, step;
    zpl_scratch_memory_init(&s, lo, total);
    a = zpl_scratch_allocator(&s);
    zv_check(s.alloc_point == lo && s.free_point == lo);
    for (step = 0; step < steps; step++) {
        k = ZV_PICK(0, 3);
        if (k < 2) {
            zpl_isize z[] = { 12, 40 }, al[] = { 4, 16 };
            zpl_isize m = z[k], alg = al[k];
            char *p = zpl_alloc_align(a, m, alg);
            if (p) {
                inside(p, m, alg, lo, total);
                for (j = 0; j < n; j++) if (live[j]) zv_check(disjoint(p - 8, m + 8, blk[j], len[j]));
                for (j = 0; j < m; j++) zv_check(p[j] == 0);
                fillb(p, m, n + 1);
                blk[n] = p; len[n] = m; live[n] = 1; n++;
            }
        } else {
            /* free the oldest (k==2) or the newest (k==3) live block */
            for (i = -1, j = 0; j < n; j++) if (live[j]) { i = j; if (k == 2) break; }
            if (i >= 0) { zpl_free(a, blk[i]); live[i] = 0; }
        }
        for (j = 0; j < n; j++) if (live[j]) holds(blk[j], len[j], j + 1);
    }
    /* once everything is freed the whole ring is available again */
    for (j = 0; j < n; j++) if (live[j]) { zpl_free(a, blk[j]); live[j] = 0; }
    zv_check(s.free_point == s.alloc_point);
    char *p = zpl_alloc_align(a, total - 64, 4);
    zv_check(p != 0);
    inside(p, total - 64, 4, lo, total);
    zpl_free_all(a);
    zv_check(s.free_point == s.alloc_point);
}
//zv: abs=0x1000-0x2fff
void ctx_scratch_history(void) {
    history((char *)0x1000, 120,
#ifdef ZV_THOROUGH
    8
#else
    6
#endif
    );
    zv_end();
}
//zv: abs=0x1000-0x2fff
void ctx_scratch_odd_size(void) { history((char *)0x1000, 101, 5); zv_end(); }

//zv: abs=0x1000-0x2fff
void ctx_scratch_full(void) {
    zpl_scratch_memory s; zpl_allocator a;
    zpl_scratch_memory_init(&s, (void *)0x1000, 64);
    a = zpl_scratch_allocator(&s);
    char *p = zpl_alloc_align(a, 24, 4);
    fillb(p, 24, 5);
    void *ap = s.alloc_point, *fp = s.free_point;
    char *q = zpl_alloc_align(a, ZV_PICK(9, 100) * 4, 4);       /* does not fit */
    zv_check(q == 0);
    zv_check(s.alloc_point == ap && s.free_point == fp);
    holds(p, 24, 5);
    zv_end();
}

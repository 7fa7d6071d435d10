/* C02 pool allocator: live blocks are distinct, in range, aligned; frees recycle exactly. */
//zv-all: steps=6000
#include "zv.h"
#include "zv_abs.h"

static zpl_pool pool;
static zpl_isize N, BS, AL, poolsize;

static int setup(zpl_isize n, zpl_isize bs, zpl_isize al) {
    N = n; BS = bs; AL = al;
    zpl_pool_init_align(&pool, zv_abs(), n, bs, al);
    poolsize = zv_abs_last_size;
    return pool.physical_start != 0;
}
static void check_block(char *p) {
    char *lo = (char *)pool.physical_start;
    zv_check(p != 0);
    zv_check((unsigned long)p >= (unsigned long)lo);                 /* inside the pool's memory */
    zv_check((unsigned long)p + BS <= (unsigned long)lo + poolsize);
    zv_check((unsigned long)p % AL == 0);                            /* aligned */
}
static void check_disjoint(char *p, char *q) {
    zv_check((unsigned long)p + BS <= (unsigned long)q || (unsigned long)q + BS <= (unsigned long)p);
}
static void scribble(char *p, char v) { for (zpl_isize i = 0; i < BS; i++) p[i] = v; }
static void holds(char *p, char v) { for (zpl_isize i = 0; i < BS; i++) zv_check(p[i] == v); } /* nobody else wrote the block */
static void *get(void) { return zpl_alloc_align(zpl_pool_allocator(&pool), BS, AL); }
static void put(void *p) { zpl_free(zpl_pool_allocator(&pool), p); }

static void pick_shape(int n) {
    zpl_isize bs[] = { 1, 2, 8, 12, 16, 24, 33 };
    setup(n, bs[ZV_PICK(0, 6)], (zpl_isize)1 << ZV_PICK(0, 5));
}

/* drain the pool: every block distinct, contents undisturbed by later operations */
//zv: abs=0x1000-0x2fff
void ctx_pool_drain(void) {
    pick_shape(3);
    char *a = get(), *b, *c;
    scribble(a, 1); b = get(); scribble(b, 2); c = get(); scribble(c, 3);
    check_block(a); check_block(b); check_block(c);
    check_disjoint(a, b); check_disjoint(a, c); check_disjoint(b, c);
    holds(a, 1); holds(b, 2); holds(c, 3);
    zv_check(pool.total_size == 3 * BS);
    zv_check(pool.free_list == 0);              /* exactly num_blocks blocks */
    zpl_pool_free(&pool);
    zv_check(zv_abs_live == 0);
    zv_end();
}

/* frees in any order, then the freed blocks are exactly the available ones */
//zv: abs=0x1000-0x2fff
void ctx_pool_recycle(void) {
    pick_shape(4);
    char *blk[4], *f1, *f2, *r1, *r2, *r3;
    int i, x = ZV_PICK(0, 3), y = ZV_PICK(0, 3);
    if (x == y) { zv_end(); return; }
    for (i = 0; i < 4; i++) { blk[i] = get(); scribble(blk[i], i); }
    f1 = blk[x]; f2 = blk[y];
    put(f1);
    zv_check(pool.total_size == 3 * BS);
    put(f2);
    zv_check(pool.total_size == 2 * BS);
    for (i = 0; i < 4; i++) if (i != x && i != y) holds(blk[i], i);
    r1 = get(); scribble(r1, 9); r2 = get();
    zv_check((r1 == f1 && r2 == f2) || (r1 == f2 && r2 == f1));
    zv_check(pool.free_list == 0);
    for (i = 0; i < 4; i++) if (i != x && i != y) holds(blk[i], i);
    holds(r1, 9);
    zv_check(pool.total_size == 4 * BS);
    zv_end();
}

/* free-all makes every block available again, whatever was live */
//zv: abs=0x1000-0x2fff
void ctx_pool_free_all(void) {
    pick_shape(3);
    char *b[3]; int i, k = ZV_PICK(0, 3), fr = ZV_PICK(0, 3);
    for (i = 0; i < k; i++) { b[i] = get(); scribble(b[i], 5); }
    if (fr < k) put(b[fr]);
    zpl_free_all(zpl_pool_allocator(&pool));
    zv_check(pool.total_size == 0);
    for (i = 0; i < 3; i++) { b[i] = get(); check_block(b[i]); scribble(b[i], i); }
    check_disjoint(b[0], b[1]); check_disjoint(b[0], b[2]); check_disjoint(b[1], b[2]);
    for (i = 0; i < 3; i++) holds(b[i], i);
    zv_check(pool.free_list == 0);
    zv_check(pool.total_size == 3 * BS);
    zv_end();
}

//zv: abs=0x1000-0x2fff
void ctx_pool_misc(void) {
    zpl_pool_init(&pool, zv_abs(), 2, 8);
    N = 2; BS = 8; AL = ZPL_DEFAULT_MEMORY_ALIGNMENT; poolsize = zv_abs_last_size;
    char *a = get(), *b = get();
    check_block(a); check_block(b); check_disjoint(a, b);
    for (int i = 0; i < 8; i++) zv_check(a[i] == 0);         /* clear-to-zero default */
    /* freeing null changes nothing */
    zpl_pool_allocator(&pool).proc(&pool, ZPL_ALLOCATION_FREE, 0, 0, NULL, 0, 0);
    zv_check(pool.total_size == 16 && pool.free_list == 0);
    zv_end();
}

//zv: abs=0x1000-0x2fff
void ctx_pool_no_memory(void) {
    zv_abs_fail_at = 0;
    zpl_pool_init(&pool, zv_abs(), 4, 16);
    zv_check(pool.physical_start == 0);
    zv_check(pool.free_list == 0);
    zpl_pool_free(&pool);
    zv_check(zv_abs_live == 0);
    zv_end();
}

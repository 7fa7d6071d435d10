//zv-all: steps=6000
/* C01 arena blocks: aligned, inside, disjoint; snapshots; sub arenas.
 * The arena's memory is an absolute address range so that pointer alignment is exact arithmetic. */
#include "zv.h"
#define BASE 0x1000

static zpl_isize pick_size(void) {
#ifdef ZV_THOROUGH
    zpl_isize t[] = { 0, 1, 7, 8, 13, 16, 24, 40 };
    return t[ZV_PICK(0, 7)];
#else
    zpl_isize t[] = { 0, 1, 7, 13, 24 };
    return t[ZV_PICK(0, 4)];
#endif
}
static zpl_isize pick_align(void) {
#ifdef ZV_THOROUGH
    return (zpl_isize)1 << ZV_PICK(0, 5);
#else
    zpl_isize t[] = { 1, 4, 16, 32 };
    return t[ZV_PICK(0, 3)];
#endif
}

static void check_block(char *p, zpl_isize size, zpl_isize align, char *lo, char *hi) {
    if (p) {
        zv_check((unsigned long)p % align == 0); /* aligned */
        zv_check((unsigned long)p >= (unsigned long)lo); /* inside_low */
        zv_check((unsigned long)p + size <= (unsigned long)hi); /* inside_high */
    }
}

//zv: abs=0x1000-0x1fff
void ctx_arena_two_blocks(void) {
    zpl_arena arena; zpl_allocator a;
    char *base = (char *)(BASE + ZV_PICK(0, 1) * 4 + ZV_PICK(0, 1)); /* offsets 0,1,4,5 */
    zpl_isize total = ZV_PICK(0, 4) * 17;
    zpl_arena_init_from_memory(&arena, base, total);
    a = zpl_arena_allocator(&arena);
    zpl_isize s1 = pick_size(), al1 = pick_align();
    char *p = zpl_alloc_align(a, s1, al1);
    check_block(p, s1, al1, base, base + total);
    if (!p) {
        zv_check(arena.total_allocated == 0); /* refused_leaves_arena */
        zpl_isize pad = (al1 - (long)base % al1) % al1;
        zv_check(s1 + pad > total); /* refused_only_when_full */
        zv_end();
        return;
    }
    zpl_isize used = arena.total_allocated;
    zv_check(used >= s1 && used <= total); /* fill_level */
    zpl_isize s2 = pick_size(), al2 = pick_align();
    char *q = zpl_alloc_align(a, s2, al2);
    check_block(q, s2, al2, p + s1, base + total);   /* q starts after p's end: disjoint */
    if (!q) {
        zv_check(arena.total_allocated == used); /* refused_leaves_arena2 */
    }
    zpl_free(a, p);
    zpl_free_all(a);
    zv_check(arena.total_allocated == 0); /* emptied */
    zv_end();
}

/* an arbitrary fill level, large and small requests */
//zv: abs=0x1000-0x1fff
void ctx_arena_fill_level(void) {
    zpl_arena arena;
    zpl_isize total = 64, align = pick_align(), size;
    zpl_arena_init_from_memory(&arena, (char *)BASE + 8, total);
    zpl_isize fill = ZV_PICK(0, 32) * 2;
    arena.total_allocated = fill;
    size = ZV_PICK(0, 22) * 3;
    char *p = zpl_alloc_align(zpl_arena_allocator(&arena), size, align);
    check_block(p, size, align, (char *)BASE + 8 + fill, (char *)BASE + 8 + total);
    if (!p) {
        zv_check(arena.total_allocated == fill); /* refused_keeps_fill */
    } else {
        zv_check(BASE + 8 + arena.total_allocated >= (unsigned long)p + size); /* covers_block */
        zv_check(arena.total_allocated <= total); /* within */
    }
    zv_end();
}

/* huge requests must be refused rather than wrap around */
//zv: abs=0x1000-0x1fff
void ctx_arena_huge(void) {
    zpl_arena arena;
    zpl_arena_init_from_memory(&arena, (char *)BASE, 256);
    arena.total_allocated = ZV_RANGE(0, 256);
    zpl_isize big[] = { 257, 4096, 0x7fffffff, 0x7fffffffffffff00, 0x7ffffffffffffe00 };
    void *p = zpl_alloc_align(zpl_arena_allocator(&arena), big[ZV_PICK(0, 4)], 16);
    zv_check(p == 0); /* refused */
    zv_end();
}

//zv: abs=0x1000-0x1fff
void ctx_arena_resize(void) {
    zpl_arena arena; zpl_allocator a;
    zpl_isize total = 96;
    zpl_arena_init_from_memory(&arena, (char *)BASE, total);
    a = zpl_arena_allocator(&arena);
    zpl_isize s1 = ZV_PICK(1, 6) * 5, s2 = ZV_PICK(0, 12) * 7;
    char *p = zpl_alloc(a, s1);
    char *o = zpl_alloc(a, 3);     /* another live block */
    p[0] = 11; p[s1 - 1] = 22; if (o) o[0] = 33;
    char *q = zpl_resize(a, p, s1, s2);
    if (q && s2 > 0) {
        check_block(q, s2, ZPL_DEFAULT_MEMORY_ALIGNMENT, (char *)BASE, (char *)BASE + total);
        zv_check(q == p || (unsigned long)q >= (unsigned long)o + 3); /* resized_disjoint */
        if (s1 > 1 && s2 >= s1) {
            zv_check(q[0] == 11); /* kept_first */
            zv_check(q[s1-1] == 22); /* kept_last */
        }
        if (o) {
            zv_check(o[0] == 33); /* other_untouched */
        }
    }
    zv_end();
}

//zv: abs=0x1000-0x1fff
void ctx_arena_snapshot(void) {
    zpl_arena arena; zpl_allocator a;
    zpl_arena_init_from_memory(&arena, (char *)BASE, 128);
    a = zpl_arena_allocator(&arena);
    char *p = zpl_alloc(a, ZV_PICK(0, 24));
    zpl_isize before = arena.total_allocated, tc = arena.temp_count;
    zpl_arena_snapshot s = zpl_arena_snapshot_begin(&arena);
    zv_check(arena.total_allocated == before); /* begin_keeps_fill */
    char *q = zpl_alloc(a, ZV_PICK(0, 3) * 9);
    zpl_arena_snapshot s2 = zpl_arena_snapshot_begin(&arena);
    zpl_isize mid = arena.total_allocated;
    zpl_alloc(a, 8);
    zpl_arena_snapshot_end(s2);
    zv_check(arena.total_allocated == mid); /* inner_restored */
    zpl_arena_snapshot_end(s);
    zv_check(arena.total_allocated == before); /* restored */
    zv_check(arena.temp_count == tc); /* count_restored */
    zpl_arena_check(&arena);
    char *r = zpl_alloc(a, 8);
    check_block(r, 8, ZPL_DEFAULT_MEMORY_ALIGNMENT, (char *)BASE + before, (char *)BASE + 128);
    zv_end();
}

//zv: abs=0x1000-0x1fff
void ctx_arena_sub(void) {
    zpl_arena parent, sub; 
    zpl_isize n = ZV_PICK(1, 5) * 24;
    zpl_arena_init_from_memory(&parent, (char *)BASE + 8, 100);
    zpl_arena_init_sub(&sub, &parent, n);
    if (!sub.physical_start) { zv_check(sub.total_size == 0); zv_end(); return; }
    char *o = zpl_alloc_align(zpl_arena_allocator(&parent), 4, 4);
    zpl_isize s = ZV_PICK(0, 20), al = pick_align();
    char *p = zpl_alloc_align(zpl_arena_allocator(&sub), s, al);
    check_block(p, s, al, (char *)BASE + 8, (char *)BASE + 108);
    if (p && o && s) {
        zv_check((unsigned long)p + s <= (unsigned long)o || (unsigned long)o + 4 <= (unsigned long)p); /* sub_disjoint_from_parent */
        p[s - 1] = 1;
    }
    zpl_arena_free(&sub);
    zv_check(sub.physical_start == 0); /* freed */
    zv_end();
}

void ctx_arena_from_heap(void) {
    zpl_arena arena;
    zv_fail_at = ZV_PICK(-1, 0);
    zpl_arena_init_from_allocator(&arena, zpl_heap(), 64);
    zv_check((arena.physical_start != 0 && arena.total_size == 64) || (arena.physical_start == 0 && arena.total_size == 0)); /* size_matches_memory */
    zv_check(arena.total_allocated == 0); /* empty */
    zpl_arena_free(&arena);
    zv_check(zv_live == 0); /* backing_released */
    zv_check(arena.physical_start == 0); /* backing_cleared */
    zv_end();
}

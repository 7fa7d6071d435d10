/* C10 hash table against an association-list model; adversarial keys (all collide, wrap, extremes). */
//zv-all: steps=6000
#include "zv.h"
typedef struct { int a, b; } val;
ZPL_TABLE(static, tab, tab_, val);
static tab h; static zpl_u64 keys[4]; static int mv[4], mp[4], NK, next = 1;
static int visits;
static void visit(zpl_u64 k, val v) { int i, f = 0; for (i = 0; i < NK; i++) if (keys[i] == k) { f = 1; zv_check(mp[i] && mv[i] == v.a); } zv_check(f); visits++; }
static void visit_mut(zpl_u64 k, val *v) { int i; for (i = 0; i < NK; i++) if (keys[i] == k) { v->a = ++mv[i]; } visits++; }
static void agree(void) {
    int i, n = 0; zpl_isize j;
    for (i = 0; i < NK; i++) {
        val *v = tab_get(&h, keys[i]); zpl_isize s = tab_slot(&h, keys[i]);
        if (mp[i]) { n++; zv_check(v != 0); zv_check(v->a == mv[i]); zv_check(s >= 0 && s < zpl_array_count(h.entries)); zv_check(h.entries[s].key == keys[i]); }
        else { zv_check(v == 0); zv_check(s == -1); }
    }
    zv_check(zpl_array_count(h.entries) == n);
    for (j = 0; j < zpl_array_count(h.hashes); j++) zv_check(h.hashes[j] >= -1 && h.hashes[j] < n);
    for (j = 0; j < n; j++) zv_check(h.entries[j].next >= -1 && h.entries[j].next < n);
}
static void op(int k) {
    int i, n = 0; val v;
    switch (k) {
        case 0: i = ZV_PICK(0, NK - 1); v.a = next; v.b = -next; tab_set(&h, keys[i], v); if (zv_fail_at < 0 || tab_get(&h, keys[i])) { if (zv_fail_at < 0 || tab_get(&h, keys[i])->a == next) { mp[i] = 1; mv[i] = next; } } next++; break;
        case 1: i = ZV_PICK(0, NK - 1); tab_remove(&h, keys[i]); mp[i] = 0; break;
        case 2: i = ZV_PICK(0, NK - 1); { zpl_isize s = tab_slot(&h, keys[i]); if (s >= 0) { tab_remove_entry(&h, s); mp[i] = 0; } } break;
        case 3: tab_clear(&h); for (i = 0; i < NK; i++) mp[i] = 0; break;
        case 4: tab_rehash(&h, ZV_PICK(0, 2) * 3); break;
        case 5: tab_grow(&h); break;
        case 6: tab_rehash_fast(&h); break;
        case 7: for (i = 0; i < NK; i++) n += mp[i]; visits = 0; tab_map(&h, visit); zv_check(visits == n); break;
        case 8: for (i = 0; i < NK; i++) n += mp[i]; visits = 0; tab_map_mut(&h, visit_mut); zv_check(visits == n); break;
    }
    zv_check(zpl_array_count(h.entries) <= NK);
}
static void fill(int n) { int i; for (i = 0; i < n; i++) { val v; v.a = next; v.b = -next; tab_set(&h, keys[i], v); mp[i] = 1; mv[i] = next++; } }
static void setup(int fam, int nk) {
    int i; NK = nk;
    for (i = 0; i < nk; i++) keys[i] = fam == 0 ? 24ull * i + 5 : fam == 1 ? (zpl_u64)i : ~0ull - 3ull * i * 8;
    tab_init(&h, zpl_heap_allocator());
    agree();
}
static void fin(void) { tab_destroy(&h); zv_check(zv_live == 0); zv_end(); }
#ifdef ZV_THOROUGH
#define LAST() op(ZV_PICK(0, 8)); op(ZV_PICK(0, 6)); op(ZV_PICK(0, 2))
#else
#define LAST() op(ZV_PICK(0, 8)); op(ZV_PICK(0, 2))
#endif
static void chain(int lo, int hi) { setup(0, 3); fill(3); op(ZV_PICK(lo, hi)); LAST(); agree(); fin(); }
void ctx_chain_set(void) { chain(0, 0); }       /* all keys in one bucket */
void ctx_chain_remove(void) { chain(1, 1); }
void ctx_chain_remove_entry(void) { chain(2, 2); }
void ctx_chain_rebuild(void) { chain(3, 6); }
void ctx_chain_map(void) { setup(0, 3); fill(ZV_PICK(0, 3)); op(ZV_PICK(7, 8)); agree(); fin(); }
void ctx_spread(void)    { setup(1, 3); fill(ZV_PICK(0, 3)); op(ZV_PICK(0, 8)); op(ZV_PICK(0, 4)); agree(); fin(); }
void ctx_extreme(void)   { setup(2, 3); fill(3); op(ZV_PICK(0, 8)); agree(); fin(); }
void ctx_empty(void)     { setup(0, 2); op(ZV_PICK(0, 8)); op(ZV_PICK(0, 2)); agree(); fin(); }
/* many keys: growth through several rehashes, both colliding and spread */
void ctx_many(void) {
    int i, n = 11, d; zpl_u64 mul = 184 * ZV_PICK(0, 1) + 1;
    NK = 0; tab_init(&h, zpl_heap_allocator());
    for (i = 0; i < n; i++) { val v; v.a = i; v.b = 0; tab_set(&h, i * mul, v); }
    for (i = 0; i < n; i++) { val *v = tab_get(&h, i * mul); zv_check(v != 0); zv_check(v->a == i); }
    zv_check(zpl_array_count(h.entries) == n);
    d = ZV_PICK(0, 2) * 5;
    tab_remove(&h, d * mul);
    for (i = 0; i < n; i++) { val *v = tab_get(&h, i * mul); if (i == d) zv_check(v == 0); else { zv_check(v != 0); zv_check(v->a == i); } }
    zv_check(0.75f * zpl_array_count(h.hashes) >= zpl_array_count(h.entries));
    fin();
}
/* allocation refused at any point: the table still answers for what it holds */
void ctx_refused(void) {
    setup(0, 3); fill(ZV_PICK(0, 1) * 3);
    zv_fail_at = zv_alloc_no + ZV_PICK(0, 3);
    op(ZV_PICK(0, 5)); agree();
    zv_fail_at = -1; op(0); agree(); fin();
}
void ctx_init_refused(void) {
    val v = { 1, 2 };
    zv_fail_at = ZV_PICK(0, 1);
    tab_init(&h, zpl_heap_allocator());
    zv_fail_at = -1;
    tab_set(&h, 5, v); zv_check(tab_get(&h, 5) == 0);
    tab_remove(&h, 5); tab_clear(&h); tab_grow(&h); tab_rehash(&h, 9); tab_rehash_fast(&h);
    zv_check(tab_slot(&h, 5) == -1);
    tab_map(&h, visit); tab_map_mut(&h, visit_mut);
    fin();
}

/* C46 random numbers: ranges, determinism, uniqueness */
#include "zv_pre.h"
static unsigned long zv_tick(void); static double zv_rel(void); static unsigned long zv_ms(void);
#include "zv.h"
typedef long long L; typedef unsigned long long U; typedef unsigned u;
static zpl_random mk(u v) { zpl_random r; int i; r.value = v; for (i = 0; i < 8; i++) r.offsets[i] = 0x12345 * (i + 1) + v; return r; }
/* any state */
static zpl_random any(void) { zpl_random r; int i; r.value = Frama_C_interval(0, 2147483647) * 2u + ZV_RANGE(0, 1); for (i = 0; i < 8; i++) r.offsets[i] = Frama_C_interval(0, 2147483647) * 2u + ZV_RANGE(0, 1); return r; }
static L los[] = { -9223372036854775807ll - 1, -9223372036854775807ll, -5, -1, 0, 1, 7, 9223372036854775806ll, 9223372036854775807ll };
#define T(lo, d) { L r; r = zpl_random_range_i64(&s, lo, (L)(lo) + (d)); zv_check(r >= (lo) && r <= (lo) + (d)); r = zpl_random_range_isize(&s, lo, (L)(lo) + (d)); zv_check(r >= (lo) && r <= (lo) + (d)); }
void ctx_range_any_state(void) { zpl_random s = any(); T(0, 0) T(0, 1) T(0, 5) T(0, 99) T(0, 0x7fffffffffffffffll) T(7, 0) T(7, 3) T(4000000000ll, 17) T(4000000000ll, 5000000000ll) T(1, 0x7ffffffffffffffell) T(0x7fffffffffffffffll, 0) T(0x7ffffffffffffff0ll, 15) zv_end(); }
//zv: slevel=3000 overflow=1
void ctx_range_bounds(void) { int i = ZV_PICK(0, 8), j = ZV_PICK(0, 8); L r; zpl_random s = mk(ZV_PICK(0, 4) * 77777777u); if (los[i] > los[j]) { zv_end(); return; } r = zpl_random_range_i64(&s, los[i], los[j]); zv_check(r >= los[i] && r <= los[j]); r = zpl_random_range_isize(&s, los[i], los[j]); zv_check(r >= los[i] && r <= los[j]); zv_end(); }
/* every value of a small range is reachable */
void ctx_range_covers(void) { zpl_random s = mk(1); int i, seen = 0; for (i = 0; i < 60; i++) seen |= 1 << zpl_random_range_i64(&s, 0, 3); zv_check(seen == 15); zv_end(); }
//zv: slevel=2000
void ctx_f64(void) { zpl_random s = mk(ZV_PICK(0, 9) * 123456789u); static double lo[] = { 0.0, -1.0, -1e308, 0.1 }, hi[] = { 1.0, 1.0, 1e308, 0.3 }; int k = ZV_PICK(0, 3); double r = zpl_random_range_f64(&s, lo[k], hi[k]); zv_check(r >= lo[k] && r <= hi[k] && r == r); zv_end(); }
static u val[] = { 0, 1, 2, 65535, 65536, 65537, 2147483645u, 2147483646u, 2147483647u, 2147483648u, 4294967289u, 4294967290u, 4294967291u, 4294967295u, 3000000001u };
static u qpr(u x) { U p = 4294967291u; u r; if (x >= p) return x; r = (u)((U)x * x % p); return x <= p / 2 ? r : (u)(p - r); }
/* the definition of the generator, from states around every boundary of its permutation */
//zv: slevel=2000
void ctx_unique(void) { zpl_random s = mk(0); int i; u x = s.value = val[ZV_PICK(0, 14)], v = x, r; for (i = 0; i < 8; i++) x = (qpr(x) + s.offsets[i]) ^ 0x5bf03635; r = zpl_random_gen_u32_unique(&s); zv_check(r == x); zv_check(s.value == v + 1); for (i = 0; i < 8; i++) zv_check(s.offsets[i] == mk(0).offsets[i]); zv_end(); }
//zv: slevel=2000
void ctx_unique_pairs(void) { zpl_random s = mk(5), t = mk(5); u a, b; s.value = val[ZV_PICK(0, 14)]; t.value = val[ZV_PICK(0, 14)]; u sv = s.value, tv = t.value; a = zpl_random_gen_u32_unique(&s); b = zpl_random_gen_u32_unique(&t); zv_check((a == b) == (sv == tv)); zv_end(); }
//zv: slevel=2000
void ctx_deterministic(void) { u v = val[ZV_PICK(0, 14)]; zpl_random s = mk(v), t = mk(v); int i; U a = zpl_random_gen_u64(&s), b; zv_check(zpl_random_gen_u64(&t) == a); b = zpl_random_gen_u32(&t); zv_check(zpl_random_gen_u32(&s) == b); zv_check(s.value == t.value); for (i = 0; i < 8; i++) zv_check(s.offsets[i] == t.offsets[i]); zv_check(zpl_random_gen_isize(&s) == (L)zpl_random_gen_u64(&t)); zv_end(); }
/* the offsets count up like one long number, so states do not repeat */
void ctx_advances(void) { zpl_random s = mk(3); int k = ZV_PICK(0, 8), i; for (i = 0; i < k; i++) s.offsets[i] = ~0u; if (k < 8) s.offsets[k] = 41; zpl_random_gen_u32(&s); for (i = 0; i < k; i++) zv_check(s.offsets[i] == 0); if (k < 8) zv_check(s.offsets[k] == 42); for (i = k + 1; i < 8; i++) zv_check(s.offsets[i] == mk(3).offsets[i]); zv_end(); }
/* a fresh generator is wholly initialised, whatever the clocks say, and two made at the same instant differ */
static unsigned long t_tick, t_ms; static double t_rel; static unsigned long zv_tick(void) { return t_tick; } static double zv_rel(void) { return t_rel; } static unsigned long zv_ms(void) { return t_ms; }
//zv: slevel=4000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_rdtsc=zv_tick,zpl_time_rel=zv_rel,zpl_time_tz_ms=zv_ms
void ctx_init(void) {
    zpl_random *r = malloc(sizeof *r), *q = malloc(sizeof *q); int i, same = 1; L a; t_tick = ZV_PICK(0, 2) * 0x123456789abcull; t_ms = ZV_PICK(0, 1) * 1700000000123ull; t_rel = ZV_PICK(0, 2) * 1234.5;
    zpl_random_init(r); zpl_random_init(q); for (i = 0; i < 8; i++) if (r->offsets[i] != q->offsets[i]) same = 0; zv_check(!same); zv_check(r->value == q->value);
    a = zpl_random_range_i64(r, -3, 3); zv_check(a >= -3 && a <= 3); zv_end();
}

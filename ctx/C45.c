/* C45 bit, byte-order and alignment helpers */
#include "zv_pre.h"
#include "zv.h"
typedef unsigned long long U; typedef unsigned u;
static U rev(U x, int n) { U r = 0; int i; for (i = 0; i < n; i++) r |= (x >> 8 * i & 0xff) << 8 * (n - 1 - i); return r; }
static U pats[] = { 0, ~0ull, 0x0123456789abcdefull, 0x8000000000000001ull, 0xa5a5a5a55a5a5a5aull, 0x00ff00ff00ff00ffull };
void ctx_swap_bits(void) { int i = ZV_PICK(0, 63), inv = ZV_PICK(0, 1); U x = 1ull << i; if (inv) x = ~x; zv_check(zpl_endian_swap64(x) == rev(x, 8)); zv_check(zpl_endian_swap32((u)x) == (u)rev((u)x, 4)); zv_check(zpl_endian_swap16((unsigned short)x) == (unsigned short)rev((unsigned short)x, 2)); zv_end(); }
//zv: slevel=4000
void ctx_swap_bytes(void) { int at = ZV_PICK(0, 7), i; U x; U b = pats[ZV_PICK(1, 3)]; for (i = 0; i < 256; i += 15) { x = (b & ~(0xffull << 8 * at)) | (U)i << 8 * at; zv_check(zpl_endian_swap64(x) == rev(x, 8)); zv_check(zpl_endian_swap32((u)x) == (u)rev((u)x, 4)); zv_check(zpl_endian_swap16((unsigned short)x) == (unsigned short)rev((unsigned short)x, 2)); } zv_end(); }
void ctx_count_one(void) { static int js[] = { 0, 1, 7, 31, 32, 62, 63 }; int i = ZV_PICK(0, 63), j = js[ZV_PICK(0, 6)]; zv_check(zpl_count_set_bits(1ull << i | 1ull << j) == 1 + (i != j)); zv_end(); }
//zv: slevel=20000
void ctx_count(void) { int i = ZV_PICK(0, 255), sh = ZV_PICK(0, 2) * 28; int c = 0, k; for (k = 0; k < 8; k++) c += i >> k & 1; zv_check(zpl_count_set_bits((U)i << sh) == c); zv_check(zpl_count_set_bits(~((U)i << sh)) == 64 - c); zv_end(); }
static u words[] = { 0, 0xffffffffu, 0x5a5a5a5au, 0x80000001u };
void ctx_bits(void) { u b = ZV_PICK(0, 31), w = words[ZV_PICK(0, 3)], x = w; zv_check((zpl_bit_get(w, b) != 0) == (w >> b & 1)); zpl_bit_set(&x, b); zv_check(x == (w | 1u << b)); zpl_bit_reset(&x, b); zv_check(x == (w & ~(1u << b))); zv_end(); }
void ctx_bits_pairs(void) { u b = ZV_PICK(0, 31), c = ZV_PICK(0, 31), x = 1u << c; zv_check((zpl_bit_get(x, b) != 0) == (b == c)); zpl_bit_set(&x, b); zv_check(x == (1u << b | 1u << c)); zpl_bit_reset(&x, c); zv_check(x == (b == c ? 0 : 1u << b)); zv_end(); }
//zv: slevel=8000
void ctx_align(void) { U a = 1ull << ZV_PICK(0, 12), k = ZV_PICK(0, 3), d = ZV_PICK(0, 4); U base = k == 0 ? 0 : k == 1 ? a : k == 2 ? 1ull << 40 : 0x7fffffffffff0000ull; U v = base + (d == 0 ? 0 : d == 1 ? 1 : d == 2 ? a - 1 : d == 3 ? a / 2 : 2 * a + 1), w = (v + a - 1) / a * a; zv_check(zpl_align_forward_u64(v, a) == w); zv_check(zpl_align_forward_i64((long long)v, (long)a) == (long long)w); zv_end(); }
//zv: slevel=8000
void ctx_align_any(void) { long a = ZV_PICK(1, 17), v = ZV_PICK(-20, 40), r = zpl_align_forward_i64(v, a); zv_check(r >= v && r < v + a && r % a == 0); if (v >= 0) zv_check((long)zpl_align_forward_u64(v, a) == r); zv_end(); }
//zv: slevel=4000 abs=0x1000-0x1fff
void ctx_align_pointer(void) { U a = 1ull << ZV_PICK(0, 6), v = 0x1000 + ZV_PICK(0, 80), w = (v + a - 1) / a * a; zv_check((U)zpl_align_forward((void *)v, a) == w); zv_end(); }
void ctx_pointers(void) { char b[32]; int i = ZV_PICK(0, 16), j = ZV_PICK(0, 16); zv_check((char *)zpl_pointer_add(b + i, j) == b + i + j); zv_check((char *)zpl_pointer_sub(b + 16 + i, j) == b + 16 + i - j); zv_check((char const *)zpl_pointer_add_const(b + i, j) == b + i + j); zv_check((char const *)zpl_pointer_sub_const(b + 16 + i, j) == b + 16 + i - j); zv_check(zpl_pointer_diff(b + i, b + j) == j - i); zv_end(); }
//zv: slevel=4000
void ctx_pow2(void) { long k = ZV_PICK(0, 62), d = ZV_PICK(-1, 1), v = (1l << k) + d; int is = d == 0 || v == 1 || v == 2; if (v == 4 && d == 1) is = 1; zv_check((zpl_is_power_of_two(v) != 0) == is); zv_check(!zpl_is_power_of_two(-v) || v == 0); zv_check(!zpl_is_power_of_two(0)); zv_check(!zpl_is_power_of_two(-9223372036854775807l - 1)); zv_end(); }
void ctx_next_pow2(void) { int k = ZV_PICK(1, 29); zv_check(zpl_next_pow2(1 << k) == 1 << k); zv_check(zpl_next_pow2((1 << k) + 1) == 1 << (k + 1)); zv_check(zpl_next_pow2((1 << (k + 1)) - 1) == 1 << (k + 1 - (k == 0))); zv_check(zpl_next_pow2(1) == 1); zv_end(); }
void ctx_macros(void) { int a = ZV_PICK(-3, 3), b = ZV_PICK(-3, 3), c = ZV_PICK(-3, 3), lo = b < c ? b : c, hi = b < c ? c : b, t = a, s = b; zv_check(zpl_min(a, b) == (a < b ? a : b) && zpl_max(a, b) == (a < b ? b : a)); zv_check(zpl_min3(a, b, c) == (a < lo ? a : lo) && zpl_max3(a, b, c) == (a > hi ? a : hi)); zv_check(zpl_clamp(a, lo, hi) == (a < lo ? lo : a > hi ? hi : a)); zv_check(zpl_is_between(a, lo, hi) == (a >= lo && a <= hi) && zpl_is_between_limit(a, lo, hi) == (a >= lo && a < hi)); zv_check(zpl_abs(a) == (a < 0 ? -a : a)); zpl_swap(int, t, s); zv_check(t == b && s == a); zv_end(); }
void ctx_macros_mask(void) { u v = words[ZV_PICK(0, 3)], m = words[ZV_PICK(0, 3)], x = v, y = v; ZPL_MASK_SET(x, 1, m); zv_check(x == (v | m)); ZPL_MASK_SET(y, 0, m); zv_check(y == (v & ~m)); zv_check(ZPL_BIT(5) == 32); zv_check(zpl_count_of(words) == 4); zv_end(); }

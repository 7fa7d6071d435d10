/* C35 checksums and hashes against their definitions: every table entry, every small length, block boundaries */
#include "zv_pre.h"
#include "zv.h"
#include "zvs.h"
typedef unsigned long long U; typedef unsigned u;
static u rcrc32(unsigned char const *p, long n) { u c = ~0u; long i; int k; for (i = 0; i < n; i++) { c ^= p[i]; for (k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; } return ~c; }
static U rcrc64(unsigned char const *p, long n) { U c = 0; long i; int k; for (i = 0; i < n; i++) { c ^= p[i]; for (k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x95ac9329ac4bc9b5ull : c >> 1; } return c; }
static u radler(unsigned char const *p, long n) { u a = 1, b = 0; long i; for (i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
static u rfnv32(unsigned char const *p, long n, int a) { u h = 2166136261u; long i; for (i = 0; i < n; i++) { if (a) { h ^= p[i]; h *= 16777619u; } else { h *= 16777619u; h ^= p[i]; } } return h; }
static U rfnv64(unsigned char const *p, long n, int a) { U h = 14695981039346656037ull; long i; for (i = 0; i < n; i++) { if (a) { h ^= p[i]; h *= 1099511628211ull; } else { h *= 1099511628211ull; h ^= p[i]; } } return h; }
static u rot(u x, int r) { return x << r | x >> (32 - r); }
static u rm32(unsigned char const *p, long n, u seed) { u h = seed, k; long i; for (i = 0; i + 4 <= n; i += 4) { k = p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (u)p[i + 3] << 24; h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u; h = rot(h, 13) * 5 + 0xe6546b64u; } if (n & 3) { int j; for (k = 0, j = (n & 3) - 1; j >= 0; j--) k = k << 8 | p[i + j]; h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u; } h ^= n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; return h ^ h >> 16; }
/* tail: where the last n % 8 bytes are taken from */
static U rm64(unsigned char const *p, long n, U seed, long tail) { U m = 0xc6a4a7935bd1e995ull, h = seed ^ n * m, k; long i; int j; for (i = 0; i + 8 <= n; i += 8) { for (k = 0, j = 7; j >= 0; j--) k = k << 8 | p[i + j]; k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; } if (n & 7) { for (k = 0, j = (n & 7) - 1; j >= 0; j--) k = k << 8 | p[tail + j]; h ^= k; h *= m; } h ^= h >> 47; h *= m; return h ^ h >> 47; }
static unsigned char *blk(long n) { return n ? (unsigned char *)zs_raw(n - 1) : (unsigned char *)zs_raw(0); }
static unsigned char *fill(long n, int k) { unsigned char *p = blk(n); long i; if (n == 0) p[0] = 1; for (i = 0; i < n; i++) p[i] = k == 0 ? 37 * i + 11 : k == 1 ? 255 : i * i + 128; return p; }
/* all 256 entries of each table */
void ctx_crc32_table(void) { int i; unsigned char b[1]; for (i = 0; i < 256; i++) { b[0] = i; zv_check(zpl_crc32(b, 1) == rcrc32(b, 1)); } zv_end(); }
void ctx_crc64_table(void) { int i; unsigned char b[1]; for (i = 0; i < 256; i++) { b[0] = i; zv_check(zpl_crc64(b, 1) == rcrc64(b, 1)); } zv_end(); }
void ctx_crc32(void) { long n = ZV_PICK(0, 20); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_crc32(p, n) == rcrc32(p, n)); zv_end(); }
void ctx_crc64(void) { long n = ZV_PICK(0, 20); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_crc64(p, n) == rcrc64(p, n)); zv_end(); }
void ctx_adler(void) { long n = ZV_PICK(0, 40); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_adler32(p, n) == radler(p, n)); zv_end(); }
static void big(long n, int k) { unsigned char *p = fill(n, k); zv_check(zpl_adler32(p, n) == radler(p, n)); }
//zv: slevel=40000 tier=thorough
void ctx_adler_5551(void) { big(5551, 1); zv_end(); }
//zv: slevel=40000 tier=thorough
void ctx_adler_5552(void) { big(5552, 1); zv_end(); }
//zv: slevel=40000
void ctx_adler_5559(void) { big(5559, 2); zv_end(); }
//zv: slevel=60000 tier=thorough
void ctx_adler_11103(void) { big(11103, 1); zv_end(); }
void ctx_fnv(void) { long n = ZV_PICK(0, 17); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_fnv32(p, n) == rfnv32(p, n, 0)); zv_check(zpl_fnv32a(p, n) == rfnv32(p, n, 1)); zv_check(zpl_fnv64(p, n) == rfnv64(p, n, 0)); zv_check(zpl_fnv64a(p, n) == rfnv64(p, n, 1)); zv_end(); }
void ctx_fnv_bytes(void) { int i; unsigned char b[2]; for (i = 0; i < 256; i++) { b[0] = i; b[1] = 255 - i; zv_check(zpl_fnv32(b, 2) == rfnv32(b, 2, 0)); zv_check(zpl_fnv32a(b, 2) == rfnv32(b, 2, 1)); zv_check(zpl_fnv64(b, 2) == rfnv64(b, 2, 0)); zv_check(zpl_fnv64a(b, 2) == rfnv64(b, 2, 1)); } zv_end(); }
void ctx_murmur32(void) { long n = ZV_PICK(0, 21); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_murmur32(p, n) == rm32(p, n, 0x9747b28c)); zv_check(zpl_murmur32_seed(p, n, 12345) == rm32(p, n, 12345)); zv_end(); }
void ctx_murmur64_whole_words(void) { long n = 8 * ZV_PICK(0, 4); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_murmur64(p, n) == rm64(p, n, 0x9747b28c, 0)); zv_check(zpl_murmur64_seed(p, n, ~0ull) == rm64(p, n, ~0ull, 0)); zv_end(); }
void ctx_murmur64_short(void) { long n = ZV_PICK(0, 7); int k = ZV_PICK(0, 2); unsigned char *p = fill(n, k); zv_check(zpl_murmur64(p, n) == rm64(p, n, 0x9747b28c, 0)); zv_end(); }
/* longer than a word with a rest: the recorded finding is that the rest comes from the start of the data */
static void m64(int as_recorded) { long n = ZV_PICK(9, 23); int k = 2 * ZV_PICK(0, 1); unsigned char *p; U h; if (n % 8 == 0) { zv_end(); return; } p = fill(n, k); h = zpl_murmur64(p, n); if (as_recorded) zv_check(h == rm64(p, n, 0x9747b28c, 0) || h == rm64(p, n, 0x9747b28c, n / 8 * 8)); else
        zv_check(h == rm64(p, n, 0x9747b28c, n / 8 * 8));
    zv_end();
}
void ctx_murmur64_rest(void) { m64(0); }
void ctx_murmur64_rest_recorded(void) { m64(1); }
/* any bytes: nothing outside the range is read */
void ctx_bounds(void) { long n = ZV_PICK(0, 33), i; unsigned char *p = blk(n); for (i = 0; i < n; i++) p[i] = ZV_RANGE(0, 255); zpl_crc32(p, n); zpl_crc64(p, n); zpl_adler32(p, n); zpl_fnv32(p, n); zpl_fnv32a(p, n); zpl_fnv64(p, n); zpl_fnv64a(p, n); zpl_murmur32(p, n); zpl_murmur64(p, n); zv_end(); }
/* any content, any length: a first partial block from the start value, then a whole block from any reduced state; the sums stay below 2^32 until they are reduced */
//zv: slevel=400000 args=-warn-unsigned-overflow timeout=250
void ctx_adler_sums(void) { long n = 5552 + 5551; unsigned char *p = blk(n); Frama_C_make_unknown((char *)p, n); zpl_adler32(p, n); zv_end(); }

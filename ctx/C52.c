/* C52 clocks and sleep: the system clocks are modelled (any reading), the library's conversions are analysed. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include "__fc_builtin.h"
void zv_check(int c);
static long mono_s, mono_ns, real_s, real_ns; static int reads;
static void tick(void);
int zv_clock_gettime(clockid_t c, struct timespec *t) { zv_check(c == 1 || c == 0 || c == CLOCK_MONOTONIC); reads++; if (c == 0) { t->tv_sec = real_s; t->tv_nsec = real_ns; } else { tick(); t->tv_sec = mono_s; t->tv_nsec = mono_ns; } return 0; }
static struct timespec sl; static int nsl;
int zv_nanosleep(struct timespec const *r, struct timespec *rem) { sl = *r; nsl++; return 0; }
/* local time: zone = seconds west of UTC in standard time, dst = shift now in force (0, or any shift with is_dst) */
static long zone_w, dst_shift; static int dst_on;
struct zv_tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long tm_gmtoff; char const *tm_zone; };
static void split(long s, struct zv_tm *t) { t->tm_sec = s % 60; s /= 60; t->tm_min = s % 60; s /= 60; t->tm_hour = s % 24; s /= 24; t->tm_mday = 1 + s % 28; s /= 28; t->tm_mon = s % 12; t->tm_year = s / 12; t->tm_wday = 0; t->tm_yday = 0; }
static long unsplit(struct zv_tm const *t) { return t->tm_sec + 60L * (t->tm_min + 60L * (t->tm_hour + 24L * (t->tm_mday - 1 + 28L * (t->tm_mon + 12L * t->tm_year)))); }
struct zv_tm *zv_gmtime_r(time_t const *s, struct zv_tm *t) { split(*s, t); t->tm_isdst = 0; t->tm_gmtoff = 0; t->tm_zone = "UTC"; return t; }
struct zv_tm *zv_localtime_r(time_t const *s, struct zv_tm *t) { split(*s - zone_w + dst_shift, t); t->tm_isdst = dst_on; t->tm_gmtoff = -zone_w + dst_shift; t->tm_zone = "LOC"; return t; }
long zv_mktime(struct zv_tm *t) { return unsplit(t) + zone_w - dst_shift; }
long zv_timegm(struct zv_tm *t) { return unsplit(t); }
#define tm zv_tm
#define clock_gettime zv_clock_gettime
#define nanosleep zv_nanosleep
#define gmtime_r zv_gmtime_r
#define localtime_r zv_localtime_r
#define mktime zv_mktime
#define timegm zv_timegm
#define timezone zone_w
#include "zv.h"
static void tick(void) { }
#define EPOCH 11644473600000ul
/* relative clock: whole milliseconds since the first use, never decreasing */
static void at(long ms, long extra) { mono_s = ms / 1000; mono_ns = ms % 1000 * 1000000 + extra; }
//zv: slevel=40000 float=none
void ctx_rel(void) {
    static long const T[] = { 1, 999, 1000, 1001, 61999, 4294967295L, 4294967296L, 86400000999L, 9007199254740L }; static long const D[] = { 0, 1, 2, 999, 1000, 1001, 59999, 4294967296L, 31536000001L };
    static long const X[] = { 0, 1, 500000, 999999 };
    long t = T[ZV_PICK(0, 8)], d = D[ZV_PICK(0, 8)], e = D[ZV_PICK(0, 8)], x = X[ZV_PICK(0, 3)], y = X[ZV_PICK(0, 3)]; unsigned long a, b, c;
    at(t, x); a = zpl_time_rel_ms(); zv_check(a == 0); at(t + d, y); if (d == 0 && y < x) at(t, x); b = zpl_time_rel_ms(); zv_check(b == (unsigned long)d); at(t + d + e, e ? 0 : 999999); c = zpl_time_rel_ms(); zv_check(c == (unsigned long)(d + e) && c >= b);
    zv_end();
}
/* any nanosecond part belongs to its millisecond */
//zv: slevel=40000 float=none
void ctx_rel_ns(void) { long m = ZV_PICK(0, 999), s = ZV_PICK(0, 1) ? 5 : 1000000; unsigned long b; at(1000, 0); zv_check(zpl_time_rel_ms() == 0); mono_s = s; mono_ns = m * 1000000 + ZV_RANGE(0, 999999); b = zpl_time_rel_ms(); zv_check(b == (unsigned long)(s * 1000 + m - 1000)); zv_end(); }
/* wall clock */
//zv: slevel=40000 float=none
void ctx_utc(void) { static long const S[] = { 0, 1, 1000000000L, 1700000000L, 2147483647L, 2147483648L, 4294967296L, 253402300799L }; long m = ZV_PICK(0, 99) * 10 + ZV_PICK(0, 1) * 9, s = S[ZV_PICK(0, 7)]; real_s = s; real_ns = m * 1000000 + ZV_RANGE(0, 999999); zv_check(zpl_time_utc_ms() == s * 1000ul + m + EPOCH); zv_end(); }
//zv: slevel=40000 float=none
void ctx_tz(void) {
    static long const S[] = { 200000, 1000000000L, 1700000000L, 2147483648L, 4294967296L }; static long const Z[] = { 0, 3600, -3600, 18000, -19800, -37800, 43200, -50400 }; static long const Q[] = { 0, 0, 3600, 1800, 7200, -3600 };
    long m = ZV_PICK(0, 2) * 499, s = S[ZV_PICK(0, 4)]; int q = ZV_PICK(0, 5);
    zone_w = Z[ZV_PICK(0, 7)]; dst_on = q > 1; dst_shift = Q[q]; real_s = s; real_ns = m * 1000000 + 999999;
    zv_check(zpl_time_tz_ms() == (unsigned long)(s - zone_w + dst_shift) * 1000ul + m + EPOCH); zv_end();
}
/* seconds are the millisecond readings divided by a thousand */
//zv: slevel=40000 float=none
void ctx_seconds(void) {
    double r, u, z; at(1000, 0); zpl_time_rel_ms(); at(1000 + 1234567, 0); real_s = 1700000000L; real_ns = 250 * 1000000;
    r = zpl_time_rel(); u = zpl_time_utc(); z = zpl_time_tz();
    zv_check(r > 1234.5669 && r < 1234.5671); zv_check(u > 13344473600.2499 && u < 13344473600.2501); zv_check(z > 13344473600.2499 && z < 13344473600.2501); zv_end();
}
/* sleep */
static void sleep_is(unsigned ms) { nsl = 0; zpl_sleep_ms(ms); zv_check(nsl == 1 && sl.tv_sec == ms / 1000 && sl.tv_nsec == (long)(ms % 1000) * 1000000); }
//zv: slevel=40000 float=none
void ctx_sleep(void) { static unsigned const B[] = { 0, 1000, 2000, 3000, 7000, 59000, 999000, 1000000, 2147483000u, 4294966000u }; unsigned b = B[ZV_PICK(0, 9)]; sleep_is(b + ZV_PICK(0, 499) * 2 + 1); zv_end(); }
//zv: slevel=40000 float=none
void ctx_sleep_max(void) { sleep_is(4294967295u - ZV_PICK(0, 296)); zv_end(); }

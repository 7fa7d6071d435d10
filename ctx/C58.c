/* C58 system queries: the answers of the processor count, the dynamic loader and the exit call reach the caller unchanged. */
#define ZV_DLL
#include "zv_thr.h"
#include <dlfcn.h>
#include <stdlib.h>
static long cpus, asked_other; static void symf(void) { } static int lib, dl_close_n, dl_mode; static char const *dl_name, *dl_sym; static void *dl_h; static int dl_fail;
static int exit_code = -1, exits, yields;
long zv_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return cpus; asked_other++; return -1; }
void *zv_dlopen(char const *n, int m) { dl_name = n; dl_mode = m; return dl_fail == 1 ? 0 : (void *)&lib; }
int zv_dlclose(void *h) { zv_check(h == (void *)&lib); dl_close_n++; return 0; }
void *zv_dlsym(void *h, char const *n) { dl_h = h; dl_sym = n; return dl_fail == 2 ? 0 : (void *)symf; }
void zv_exit(int c) { exits++; exit_code = c; }
#define sysconf zv_sysconf
#define dlopen zv_dlopen
#define dlclose zv_dlclose
#define dlsym zv_dlsym
#define exit zv_exit
#include "zv.h"
#include "zvs.h"
void ctx_cores(void) {
    static long const N[] = { 1, 2, 8, 63, 64, 65, 128, 1024, 0, -1 }; zpl_affinity a; long n, c, i; cpus = N[ZV_PICK(0, 9)]; n = cpus > 0 ? cpus : 1; zpl_affinity_init(&a);
    zv_check(a.core_count == n && a.thread_count >= a.core_count && a.threads_per_core >= 1 && a.thread_count == a.core_count * a.threads_per_core); zv_check(!!a.is_accurate == (cpus > 0));
    zv_check(zpl_affinity_thread_count_for_core(&a, 0) == a.threads_per_core && zpl_affinity_thread_count_for_core(&a, n - 1) == a.threads_per_core);
    zpl_affinity_destroy(&a); zv_end();
}
void ctx_library(void) {
    zpl_dll_handle h; zpl_dll_proc p; char *n = zs_raw(3), *s = zs_raw(2); dl_fail = ZV_PICK(0, 2); h = zpl_dll_load(n); zv_check(dl_name == n && (dl_mode & (RTLD_LAZY | RTLD_NOW))); 
    if (dl_fail == 1) zv_check(h == 0); else { zv_check((void *)h == (void *)&lib); p = zpl_dll_proc_address(h, s); zv_check(dl_h == (void *)&lib && dl_sym == s );  if (dl_fail == 2) zv_check(p == 0); else zv_check(p == (zpl_dll_proc)symf); zv_check(dl_close_n == 0); zpl_dll_unload(h); zv_check(dl_close_n == 1); } zv_end();
}
void ctx_exit(void) { zpl_u32 c[] = { 0, 1, 3, 255 }, k = c[ZV_PICK(0, 3)]; zpl_exit(k); zv_check(exits == 1 && exit_code == (int)k); zv_end(); }

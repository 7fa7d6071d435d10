/* C25 virtual memory over a model of mmap/munmap/madvise/sysconf that records its arguments. */
//zv-all: steps=6000
#include <sys/mman.h>
#include <unistd.h>
#include "__fc_builtin.h"
static int mm_n, um_n, ad_n, mm_fail; static long mm_size, um_addr[4], um_size[4], ad_addr, ad_size, pgsz; static int mm_prot, mm_flags, mm_fd, ad_adv, last_rc; static void *mm_addr;
static void *v_mmap(void *a, unsigned long n, int prot, int flags, int fd, long off) { mm_n++; mm_addr = a; mm_size = n; mm_prot = prot; mm_flags = flags; mm_fd = fd; zv_check(off == 0); return mm_fail ? MAP_FAILED : (void *)0x10000; }
static int v_munmap(void *a, unsigned long n) { zv_check(um_n < 4); um_addr[um_n] = (long)a; um_size[um_n] = n; um_n++; return last_rc = -Frama_C_interval_split(0, 1); }
static int v_madvise(void *a, unsigned long n, int adv) { ad_n++; ad_addr = (long)a; ad_size = n; ad_adv = adv; return last_rc = -Frama_C_interval_split(0, 1); }
static long v_sysconf(int k) { zv_check(k == _SC_PAGESIZE); return pgsz; }
#ifndef _SC_PAGE_SIZE
#define _SC_PAGE_SIZE _SC_PAGESIZE
#endif
#define mmap v_mmap
#define munmap v_munmap
#define madvise v_madvise
#define sysconf v_sysconf
#include "zv.h"
static long pick(void) { long t[] = { 0, 1, 4096, 8192, 12288, 0x100000000l }; return t[ZV_PICK(0, 5)]; }
void ctx_alloc(void) {
    long n = pick(); zpl_virtual_memory v; void *at = ZV_PICK(0, 1) ? (void *)0x7000 : 0; if (n == 0) { zv_end(); return; } mm_fail = ZV_PICK(0, 1);
    v = zpl_vm_alloc(at, n); zv_check(mm_n == 1 && mm_size == n && mm_addr == at && mm_fd == -1);
    zv_check(mm_prot == (PROT_READ | PROT_WRITE) && mm_flags == (MAP_PRIVATE | MAP_ANONYMOUS));
    if (mm_fail) zv_check(v.data == 0 && v.size == 0); else zv_check(v.data == (void *)0x10000 && v.size == n);
    zv_end();
}
void ctx_free(void) { long n = pick(); zpl_b32 r = zpl_vm_free(zpl_vm((void *)0x20000, n)); zv_check(um_n == 1 && um_addr[0] == 0x20000 && um_size[0] == n && (r != 0) == (last_rc == 0)); zv_end(); }
void ctx_vm(void) { long n = pick(); zpl_virtual_memory v = zpl_vm((void *)0x20000, n); zv_check(v.size == n && v.data == (void *)0x20000); zv_end(); }
void ctx_trim(void) {
    long total = pick(), lead = pick(), n = pick(), trail; zpl_virtual_memory v; int k = 0;
    if (lead + n > total) { zv_end(); return; }
    trail = total - lead - n;
    v = zpl_vm_trim(zpl_vm((void *)0x40000, total), lead, n);
    zv_check(v.data == (void *)(0x40000 + lead) && v.size == n);
    if (lead) { zv_check(um_n > k && um_addr[k] == 0x40000 && um_size[k] == lead); k++; }
    if (trail) { zv_check(um_n > k && um_addr[k] == 0x40000 + lead + n && um_size[k] == trail); k++; }
    zv_check(um_n == k); zv_end();
}
/* any sizes: the released ranges never touch the kept one and stay in the mapping */
void ctx_trim_any(void) {
    long total = 0x10000, lead = ZV_PICK(0, 16) * 4096, n = ZV_PICK(0, 16) * 4096; int i; if (lead + n > total) { zv_end(); return; }
    zpl_vm_trim(zpl_vm((void *)0x40000, total), lead, n);
    for (i = 0; i < um_n; i++) { zv_check(um_addr[i] >= 0x40000 && um_addr[i] + um_size[i] <= 0x50000); zv_check(um_addr[i] + um_size[i] <= 0x40000 + lead || um_addr[i] >= 0x40000 + lead + n); }
    zv_end();
}
void ctx_purge(void) { long n = pick(); zpl_b32 r = zpl_vm_purge(zpl_vm((void *)0x20000, n)); zv_check(ad_n == 1 && ad_addr == 0x20000 && ad_size == n && ad_adv == MADV_DONTNEED); zv_check((r != 0) == (last_rc == 0)); zv_end(); }
void ctx_page(void) { zpl_isize a = -1, r; pgsz = ZV_PICK(0, 1) ? 4096 : 16384; r = zpl_virtual_memory_page_size(&a); zv_check(r == pgsz && a == pgsz); zv_check(zpl_virtual_memory_page_size(0) == pgsz); zv_end(); }

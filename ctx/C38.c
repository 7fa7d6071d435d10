/* C38 locks: every step of the lock functions on the shared word is checked against interference by other threads.
   Atomic operations are taken by their meaning (proved in C37); before each one the other threads may act. */
#include "zv_thr.h"
static struct zpl_atomic32 *W32; static struct zpl_atomic64 *W64;
static long word; static int mine, acquired, released, budget, hold;
/* others: a held word (not by us) may be freed, a free one may be taken, at most budget times; then it is free */
static void env(void) { if (hold && !mine) { word = budget > 0; if (budget > 0) budget--; return; } if (mine) { zv_check(word == 1); return; } if (budget > 0) { budget--; word = Frama_C_interval_split(0, 1); } else word = 0; }
static long change(long v) { long old = word; zv_check(v == 0 || v == 1); if (old == 0 && v == 1) { mine = 1; acquired++; } else if (old == 1 && v == 0) { zv_check(mine); mine = 0; released++; } word = v; return old; }
static long cas(void *a, long e, long d) { env(); { long old = word; if (old == e && e != d) change(d); return old; } }
static long xchg(void *a, long d) { env(); return change(d); }
static int m_load32(void const *a) { zv_check(a == (void *)W32); env(); return word; }
static void m_store32(void *a, int v) { zv_check(a == (void *)W32); env(); change(v); }
static int m_cas32(void *a, int e, int d) { zv_check(a == (void *)W32); return cas(a, e, d); }
static int m_xchg32(void *a, int d) { zv_check(a == (void *)W32); return xchg(a, d); }
static int m_and32(void *a, int d) { zv_check(a == (void *)W32); env(); return change(word & d); }
static int m_or32(void *a, int d) { zv_check(a == (void *)W32); env(); return change(word | d); }
static long m_load64(void const *a) { zv_check(a == (void *)W64); env(); return word; }
static void m_store64(void *a, long v) { zv_check(a == (void *)W64); env(); change(v); }
static long m_cas64(void *a, long e, long d) { zv_check(a == (void *)W64); return cas(a, e, d); }
static long m_xchg64(void *a, long d) { zv_check(a == (void *)W64); return xchg(a, d); }
static long m_and64(void *a, long d) { zv_check(a == (void *)W64); env(); return change(word & d); }
static long m_or64(void *a, long d) { zv_check(a == (void *)W64); env(); return change(word | d); }
/* pthread and semaphore primitives: counted, arguments checked */
static void *pobj; static int pop, pn, pres; enum { INIT = 1, DESTROY, LOCK, TRY, UNLOCK };
static int prim(void *m, int op) { zv_check(m == pobj); pop = op; pn++; return pres; }
int zv_mi(pthread_mutex_t *m, void const *a) { zv_check(a == 0); return prim(m, INIT); }
int zv_md(pthread_mutex_t *m) { return prim(m, DESTROY); }
int zv_ml(pthread_mutex_t *m) { return prim(m, LOCK); }
int zv_mt(pthread_mutex_t *m) { return prim(m, TRY); }
int zv_mu(pthread_mutex_t *m) { return prim(m, UNLOCK); }
#define pthread_mutex_init zv_mi
#define pthread_mutex_destroy zv_md
#define pthread_mutex_lock zv_ml
#define pthread_mutex_trylock zv_mt
#define pthread_mutex_unlock zv_mu
static int scount, sinit, sdead, sinterrupt, sposts; static void *sobj;
int zv_si(sem_t *s, int sh, unsigned v) { zv_check((void *)s == sobj && v == 0 && sh == 0); sinit++; scount = 0; return 0; }
int zv_sd(sem_t *s) { zv_check((void *)s == sobj); sdead++; return 0; }
int zv_sp(sem_t *s) { zv_check((void *)s == sobj); scount++; sposts++; return 0; }
int zv_sw(sem_t *s) { zv_check((void *)s == sobj); if (sinterrupt > 0) { sinterrupt--; if (Frama_C_interval_split(0, 1)) { errno = EINTR; return -1; } } if (scount == 0) scount++; /* another thread posts */ scount--; return 0; }
int zv_st(sem_t *s) { zv_check((void *)s == sobj); if (!scount) { errno = EAGAIN; return -1; } scount--; return 0; }
#define sem_init zv_si
#define sem_destroy zv_sd
#define sem_post zv_sp
#define sem_wait zv_sw
#define sem_trywait zv_st
#include "zv.h"
static struct zpl_atomic32 A; static struct zpl_atomic64 B; static struct zpl_atomic_ptr C;
static void world(int k) { W32 = &A; W64 = k == 2 ? (struct zpl_atomic64 *)&C : &B; budget = 3; word = ZV_PICK(0, 1); }
static int lock_(int k, long t) { return k == 0 ? zpl_atomic32_spin_lock(&A, t) : k == 1 ? zpl_atomic64_spin_lock(&B, t) : zpl_atomic_ptr_spin_lock(&C, t); }
static int try_(int k) { return k == 0 ? zpl_atomic32_try_acquire_lock(&A) : k == 1 ? zpl_atomic64_try_acquire_lock(&B) : zpl_atomic_ptr_try_acquire_lock(&C); }
static void unlock_(int k) { if (k == 0) zpl_atomic32_spin_unlock(&A); else if (k == 1) zpl_atomic64_spin_unlock(&B); else zpl_atomic_ptr_spin_unlock(&C); }
//zv: slevel=40000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=m_load32,zpl_atomic32_store=m_store32,zpl_atomic32_compare_exchange=m_cas32,zpl_atomic32_exchange=m_xchg32,zpl_atomic32_fetch_and=m_and32,zpl_atomic32_fetch_or=m_or32,zpl_atomic64_load=m_load64,zpl_atomic64_store=m_store64,zpl_atomic64_compare_exchange=m_cas64,zpl_atomic64_exchange=m_xchg64,zpl_atomic64_fetch_and=m_and64,zpl_atomic64_fetch_or=m_or64
void ctx_spin(void) {
    int k = ZV_PICK(0, 2), r; long t = ZV_PICK(-1, 3); world(k);
    r = lock_(k, t); zv_check((r != 0) == mine); zv_check(released == 0 && acquired == mine); if (t < 0) zv_check(r); 
    if (r) { unlock_(k); zv_check(!mine && released == 1); } zv_end();
}
/* a lock freed while it is waited for is taken within the time allowed */
//zv: slevel=40000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=m_load32,zpl_atomic32_store=m_store32,zpl_atomic32_compare_exchange=m_cas32,zpl_atomic32_exchange=m_xchg32,zpl_atomic32_fetch_and=m_and32,zpl_atomic32_fetch_or=m_or32,zpl_atomic64_load=m_load64,zpl_atomic64_store=m_store64,zpl_atomic64_compare_exchange=m_cas64,zpl_atomic64_exchange=m_xchg64,zpl_atomic64_fetch_and=m_and64,zpl_atomic64_fetch_or=m_or64
void ctx_waits(void) { int k = ZV_PICK(0, 2); world(k); hold = 1; budget = ZV_PICK(0, 3); word = budget > 0; zv_check(lock_(k, ZV_PICK(0, 1) ? -1 : 8)); zv_check(mine); zv_end(); }
/* a free lock is taken, whatever the time allowed, if nobody interferes */
//zv: slevel=40000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=m_load32,zpl_atomic32_store=m_store32,zpl_atomic32_compare_exchange=m_cas32,zpl_atomic32_exchange=m_xchg32,zpl_atomic32_fetch_and=m_and32,zpl_atomic32_fetch_or=m_or32,zpl_atomic64_load=m_load64,zpl_atomic64_store=m_store64,zpl_atomic64_compare_exchange=m_cas64,zpl_atomic64_exchange=m_xchg64,zpl_atomic64_fetch_and=m_and64,zpl_atomic64_fetch_or=m_or64
void ctx_free_lock(void) { int k = ZV_PICK(0, 2); world(k); budget = 0; word = 0; if (ZV_PICK(0, 1)) zv_check(lock_(k, ZV_PICK(-1, 2))); else zv_check(try_(k)); zv_check(mine); zv_end(); }
//zv: slevel=40000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=m_load32,zpl_atomic32_store=m_store32,zpl_atomic32_compare_exchange=m_cas32,zpl_atomic32_exchange=m_xchg32,zpl_atomic32_fetch_and=m_and32,zpl_atomic32_fetch_or=m_or32,zpl_atomic64_load=m_load64,zpl_atomic64_store=m_store64,zpl_atomic64_compare_exchange=m_cas64,zpl_atomic64_exchange=m_xchg64,zpl_atomic64_fetch_and=m_and64,zpl_atomic64_fetch_or=m_or64
void ctx_try(void) { int k = ZV_PICK(0, 2), r; world(k); r = try_(k); zv_check((r != 0) == mine && released == 0); if (r) { unlock_(k); zv_check(!mine); } zv_end(); }
/* mutexes: each call reaches the primitive once; initialising, destroying and trying report success as true */
static zpl_mutex M; static zpl_semaphore S;
//zv: slevel=4000
void ctx_mutex(void) {
    int op = ZV_PICK(INIT, UNLOCK), r = 1; pobj = &M.pthread_mutex; pres = op == LOCK || op == UNLOCK ? 0 : ZV_PICK(0, 1) * EBUSY;
    if (op == INIT) r = zpl_mutex_init(&M); else if (op == DESTROY) r = zpl_mutex_destroy(&M); else if (op == LOCK) zpl_mutex_lock(&M); else if (op == TRY) r = zpl_mutex_try_lock(&M); else zpl_mutex_unlock(&M);
    zv_check(pn == 1 && pop == op); zv_check((r != 0) == (pres == 0)); zv_end();
}
/* semaphores: posts add exactly the count, a wait takes exactly one and is not ended by a signal */
//zv: slevel=4000
void ctx_semaphore(void) {
    int n = ZV_PICK(-1, 5), w, i; sobj = &S.unix_handle; sinterrupt = ZV_PICK(0, 3);
    zpl_semaphore_init(&S); zv_check(sinit == 1); zpl_semaphore_post(&S, n); if (n < 0) n = 0; zv_check(scount == n); zpl_semaphore_release(&S); zv_check(scount == n + 1);
    w = ZV_PICK(0, 1); if (w) { zpl_semaphore_wait(&S); zv_check(scount == n); n--; }
    for (i = 0; i <= n; i++) zv_check(zpl_semaphore_trywait(&S) == 0); zv_check(scount == 0); zv_check(zpl_semaphore_trywait(&S) != 0); 
    zpl_semaphore_destroy(&S); zv_check(sdead == 1 && sinit == 1); zv_end();
}

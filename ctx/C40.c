/* C40 jobs: the hand-off protocol of each worker's status cell, from the worker's side and from the owner's side.
   Before every atomic access the other side may take the steps the protocol allows it; every step taken by the analysed side is checked. */
#include "zv_thr.h"
enum { R = 0, B = 1, W = 2, X = 3 }; /* READY BUSY WAITING TERM */
#define NW 2
static int st[NW], worker_side, budget, handed, taken, ran, termed, late; static void *cell[NW];
static void env(int i); static void step(int i, int from, int to);
static int idx(void const *a) { int i; for (i = 0; i < NW; i++) if (cell[i] == a) return i; zv_check(0); return 0; }
static int m_load(void const *a) { int i = idx(a); env(i); return st[i]; }
static void m_store(void *a, int v) { int i = idx(a); env(i); step(i, st[i], v); st[i] = v; }
static int m_cas(void *a, int e, int d) { int i = idx(a), o; env(i); o = st[i]; if (o == e) { step(i, o, d); st[i] = d; } return o; }
static int o_load(void const *a); static void o_store(void *a, int v); static int o_cas(void *a, int e, int d);
static int m_xchg(void *a, int d) { int i = idx(a), o; env(i); o = st[i]; step(i, o, d); st[i] = d; return o; }
/* thread primitives */
static int sem, created, joined, pend;
int zv_pa1(void *a) { return 0; } int zv_pa2(void *a, long d) { return 0; }
#define pthread_attr_init(a) zv_pa1(a)
#define pthread_attr_destroy(a) zv_pa1(a)
#define pthread_attr_setdetachstate(a, d) zv_pa2(a, d)
#define pthread_attr_setstacksize(a, d) zv_pa2(a, d)
static void *targ[NW]; static int tfail = -1;
int zv_thread_create(unsigned long *t, pthread_attr_t const *a, void *(*f)(void *), void *arg) { if (created == tfail) return 11; zv_check(created < NW); targ[created] = arg; *t = 0x1000 + created; created++; pend = 1; return 0; }
int zv_thread_join(unsigned long t, void **r) { int i = t - 0x1000; zv_check(i >= 0 && i < created); zv_check(st[i] == X); joined |= 1 << i; return 0; } /* would wait for ever unless the worker was told to stop */
int zv_si(sem_t *s, int sh, unsigned v) { sem++; return 0; }
int zv_sd(sem_t *s) { sem--; return 0; }
int zv_sp(sem_t *s) { return 0; }
int zv_sw(sem_t *s) { zv_check(pend); pend = 0; return 0; }     /* the started thread posts (C41) */
int zv_yield(void) { return 0; }
#define sem_init zv_si
#define sem_destroy zv_sd
#define sem_post zv_sp
#define sem_wait zv_sw
#define sched_yield zv_yield
#include "zv.h"
/* ---------------- the worker */
static zpl_thread TH; static zpl_thread_worker TW; static int jobs, running;
static void job(void *d) { zv_check(worker_side && st[0] != R && st[0] != W); zv_check(d == (void *)&jobs); zv_check(!running && taken == ran + 1); running = 1; env(0); env(0); running = 0; ran++; }
static void intact(int i);
static void env(int i) {
    int k; if (!worker_side) { /* the owner is analysed: workers take and finish jobs */
        if (st[i] == R || st[i] == B) intact(i);
        if (st[i] == R && ZV_PICK(0, 1)) { st[i] = B; taken++; }
        if (st[i] == B && ZV_PICK(0, 1)) { st[i] = W; ran++; }
        return;
    }
    if (termed) return;
    if (budget-- <= 0) { st[i] = X; termed = 1; return; }
    k = ZV_PICK(0, 2);
    if (k == 1 && st[i] == W) { TW.job.proc = job; TW.job.data = &jobs; handed++; st[i] = R; }
    if (k == 2) { st[i] = X; termed = 1; }
}
static void step(int i, int from, int to) {
    if (from == to) return;
    if (worker_side) { zv_check((from == R && to == B) || (from == B && to == W)); if (to == B) taken++; else zv_check(ran == taken); }
    else { zv_check((from == W && to == R) || to == X || (created <= i && to == W)); if (to == R) handed++; }
}
#ifdef ZV_THOROUGH
#define BUD 12
#else
#define BUD 9
#endif
//zv: slevel=40000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=m_load,zpl_atomic32_store=m_store,zpl_atomic32_compare_exchange=m_cas,zpl_atomic32_exchange=m_xchg
void ctx_worker(void) {
    worker_side = 1; cell[0] = &TW.status; st[0] = W; budget = BUD; TH.user_data = &TW;
    zv_check(zpl__jobs_entry(&TH) == 0);
    zv_check(termed && st[0] == X);                       /* it only ends when told to */
    zv_check(ran == taken && ran <= handed && ran + 1 >= handed); zv_end();   /* every job run once; at most the one cut off by termination is dropped */
}
/* ---------------- the owner */
static zpl_jobs_system P; static int slot[8]; static int seen[8], nseen;
static void j0(void *d) {} static void j1(void *d) {}
static void chk(void) { }
static int last[5];
static zpl_thread_job given[NW];
static void intact(int i) { zv_check(P.workers[i].job.proc == given[i].proc && P.workers[i].job.data == given[i].data); } /* a worker still busy with its job finds it unchanged */
static void record(int i, zpl_thread_job j) { given[i] = j; int k = (int *)j.data - slot; zv_check(k >= 0 && k < 8 && !seen[k]); seen[k] = 1; nseen++; zv_check(j.proc == (k % 2 ? j1 : j0)); }
static void setup(int nw, int nj) { int i; for (i = 0; i < nw; i++) st[i] = 9; zpl_jobs_init_with_limit(&P, zpl_heap(), nw, nj); }
/* the worker's status cells are only known once the workers exist: take their addresses from the system itself */
static int mm_idx(void const *a) { return (zpl_thread_worker *)((char *)a - __builtin_offsetof(zpl_thread_worker, status)) - P.workers; }
static int o_load(void const *a) { int i = mm_idx(a); cell[i] = (void *)a; return m_load(a); }
static void o_give(int i, int v) { if (v == R && st[i] == W) record(i, P.workers[i].job); }
static void o_store(void *a, int v) { int i = mm_idx(a); cell[i] = a; o_give(i, v); m_store(a, v); }
static int o_cas(void *a, int e, int d) { int i = mm_idx(a); cell[i] = a; if (st[i] == e) o_give(i, d); return m_cas(a, e, d); }
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=o_load,zpl_atomic32_store=o_store,zpl_atomic32_compare_exchange=o_cas
void ctx_owner(void) {
    int nw = ZV_PICK(1, NW), n = ZV_PICK(0, 3), i, p = ZV_PICK(0, 2) * 2, q = ZV_PICK(0, 1) ? p : 2, r; setup(nw, 3);
    zv_check(created == nw && P.max_threads == nw); for (i = 0; i < nw; i++) zv_check(st[i] == W && targ[i] == &P.workers[i].thread && P.workers[i].thread.user_data == &P.workers[i] && P.workers[i].thread.proc == zpl__jobs_entry);
    zv_check(zpl_jobs_done(&P) && zpl_jobs_empty_all(&P));
    for (i = 0; i < n; i++) { zv_check(zpl_jobs_enqueue_with_priority(&P, i % 2 ? j1 : j0, &slot[i], i == 1 ? q : p)); zv_check(!zpl_jobs_done(&P)); }
    zv_check((zpl_jobs_process(&P) != 0) == (n > 0)); zv_check(handed <= nw && handed == nseen);
    if (ZV_PICK(0, 1)) zpl_jobs_process(&P);
    zv_check(handed == nseen && handed <= n); if (p == q) for (i = 1; i < n; i++) zv_check(!seen[i] || seen[i - 1]);
    r = zpl_jobs_done(&P); if (r) zv_check(handed == n && ran == n);
    zpl_jobs_free(&P); zv_check(joined == (1 << nw) - 1 && sem == 0); zv_check(zv_live == 0); zv_end();
}
/* nothing is lost: with workers that finish, repeated passes hand out every job exactly once */
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=o_load,zpl_atomic32_store=o_store,zpl_atomic32_compare_exchange=o_cas
void ctx_drain(void) {
    int i, n = 0, k, pr, rot = ZV_PICK(0, 2), passes = 0; setup(1, 2); P.counter = rot;
    for (pr = 0; pr < ZPL_JOBS_MAX_PRIORITIES; pr++) if (ZV_PICK(0, 1)) { zv_check(zpl_jobs_enqueue_with_priority(&P, n % 2 ? j1 : j0, &slot[n], pr)); n++; }
    for (i = 0; i < 120 && nseen < n; i++) { zpl_jobs_process(&P); if (st[0] == R) { st[0] = W; ran++; } passes++; }
    zv_check(nseen == n && zpl_jobs_empty_all(&P) && zpl_jobs_done(&P)); zv_check(!zpl_jobs_process(&P)); zpl_jobs_free(&P); zv_check(zv_live == 0); zv_end();
}
/* a full queue refuses, and its slots come back once jobs are taken */
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=o_load,zpl_atomic32_store=o_store,zpl_atomic32_compare_exchange=o_cas
void ctx_full(void) {
    int i, m = ZV_PICK(1, 3); setup(1, m); st[0] = W;
    for (i = 0; i < m; i++) { zv_check(!zpl_jobs_full(&P, 2)); zv_check(zpl_jobs_enqueue(&P, i % 2 ? j1 : j0, &slot[i])); }
    zv_check(zpl_jobs_full(&P, 2) && !zpl_jobs_enqueue(&P, j0, &slot[7]) && !zpl_jobs_full_all(&P) && !zpl_jobs_full(&P, 1) && zpl_jobs_empty(&P, 1));
    for (i = 0; i < 20 && !nseen; i++) zpl_jobs_process(&P);
    zv_check(nseen == 1 && seen[0] && !zpl_jobs_full(&P, 2)); zv_check(zpl_jobs_enqueue(&P, m % 2 ? j1 : j0, &slot[m]) && zpl_jobs_full(&P, 2));
    zpl_jobs_free(&P); zv_check(zv_live == 0); zv_end();
}
/* memory or threads run out while starting: what could be started works, what could not is refused */
//zv: slevel=400000 mlevel=4000 args=-eva-no-memexec replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,zpl_atomic32_load=o_load,zpl_atomic32_store=o_store,zpl_atomic32_compare_exchange=o_cas
void ctx_fail(void) {
    int nw = ZV_PICK(1, NW), i, ok = 0, pr, got[ZPL_JOBS_MAX_PRIORITIES]; zv_fail_at = ZV_PICK(-1, 5); tfail = ZV_PICK(-1, 1); setup(nw, 3); zv_fail_at = -1;
    zv_check((int)P.max_threads == created && created <= nw && sem == created);
    for (pr = 0; pr < ZPL_JOBS_MAX_PRIORITIES; pr++) { zv_check(zpl_jobs_empty(&P, pr)); got[pr] = zpl_jobs_enqueue_with_priority(&P, ok % 2 ? j1 : j0, &slot[ok], pr); zv_check(got[pr] == !zpl_jobs_empty(&P, pr)); ok += got[pr]; }
    if (created == 0) zv_check(ok == 0); else zv_check(ok >= 4);       /* at most one queue has no room; without a worker nothing is accepted */
    for (i = 0; i < 160 && nseen < ok; i++) { int k; zpl_jobs_process(&P); for (k = 0; k < created; k++) if (st[k] == R) { st[k] = W; ran++; } }
    zv_check(nseen == ok && zpl_jobs_done(&P));
    zpl_jobs_free(&P); zv_check(joined == (1 << created) - 1 && sem == 0); zv_check(zv_live == 0); zv_end();
}

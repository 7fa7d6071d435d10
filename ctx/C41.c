/* C41 thread lifecycle: the new thread's body may run as soon as it is created, while the starter waits for it, or as late as the join. */
#include "zv_thr.h"
static int attrs, detached, fail, runpoint, created, joined, pending, began, ended, sem, sems, semdead; static unsigned long stack; static void *(*body)(void *); static void *barg;
static void run(void) { if (pending) { pending = 0; (*body)(barg); } }
int zv_ai(pthread_attr_t *a) { attrs++; detached = 0; stack = 0; return 0; }
int zv_ad(pthread_attr_t *a) { zv_check(attrs == 1); attrs--; return 0; }
int zv_as(pthread_attr_t *a, int d) { zv_check(attrs == 1); detached = d == PTHREAD_CREATE_DETACHED; return 0; }
int zv_ak(pthread_attr_t *a, unsigned long n) { zv_check(attrs == 1); stack = n; return 0; }
#define pthread_attr_init zv_ai
#define pthread_attr_destroy zv_ad
#define pthread_attr_setdetachstate zv_as
#define pthread_attr_setstacksize zv_ak
int zv_thread_create(unsigned long *t, pthread_attr_t const *a, void *(*f)(void *), void *arg) {
    zv_check(created == joined && !pending); zv_check(a == 0 || (attrs == 1 && !detached));
    if (fail) { *t = 0xdeadul; return EAGAIN; }
    body = f; barg = arg; created++; pending = 1;
    if (runpoint == 0) run();
    *t = 0x1000; return 0;
}
int zv_thread_join(unsigned long t, void **r) { zv_check(t == 0x1000 && joined < created); run(); zv_check(ended == created); joined++; if (r) *r = 0; return 0; }
int zv_si(sem_t *s, int sh, unsigned v) { zv_check(v == 0); sem = 0; sems++; return 0; }
int zv_sd(sem_t *s) { zv_check(sems == 1); zv_check(created == joined); sems--; semdead++; return 0; }
int zv_sp(sem_t *s) { zv_check(sems == 1); sem++; return 0; }
int zv_sw(sem_t *s) { zv_check(sems == 1); if (runpoint <= 1) run(); else if (!sem) { run(); } zv_check(sem > 0); sem--; return 0; }
#define sem_init zv_si
#define sem_destroy zv_sd
#define sem_post zv_sp
#define sem_wait zv_sw
#include "zv.h"
static zpl_thread T; static int datum; static void *expect; static long ret;
static zpl_isize proc(struct zpl_thread *t) { zv_check(t == &T && t->user_data == expect && t->is_running); if (!t->nowait) zv_check(sem >= 0); began++; ended++; return ret; }
static zpl_isize other(struct zpl_thread *t) { zv_check(0); return 0; }
static void mk(int nowait) { T.proc = other; T.user_data = 0; T.posix_handle = 99; T.is_running = 1; T.return_value = 5; if (nowait) zpl_thread_init_nowait(&T); else zpl_thread_init(&T); zv_check(sems == !nowait); zv_check(!zpl_thread_is_running(&T)); }
static void done(int nowait) { zv_check(attrs == 0); zv_check(created == joined && ended == created && !pending); zv_check(sems == 0 && semdead == !nowait); zv_end(); }
//zv: slevel=4000
void ctx_life(void) {
    int nowait = ZV_PICK(0, 1), how = ZV_PICK(0, 3), r; long sz = ZV_PICK(0, 1) * 65536; runpoint = ZV_PICK(0, 2); ret = ZV_PICK(-1, 1) * 12; expect = ZV_PICK(0, 1) ? &datum : 0;
    mk(nowait); r = sz ? zpl_thread_start_with_stack(&T, proc, expect, sz) : zpl_thread_start(&T, proc, expect);
    zv_check(r != 0 && created == 1); zv_check(stack == (unsigned long)sz); if (!nowait) zv_check(began == 1 && sem == 0);
    if (how != 0) { zpl_thread_join(&T); zv_check(joined == 1 && T.return_value == ret && !zpl_thread_is_running(&T)); }
    if (how == 2) { zpl_thread_join(&T); zv_check(joined == 1); }                /* nothing left to wait for */
    if (how == 3) { zv_check(zpl_thread_start(&T, proc, expect) != 0); zv_check(created == 2); }   /* a finished thread can be started again */
    zpl_thread_destroy(&T); zv_check(joined == created && T.return_value == ret); done(nowait);
}
//zv: slevel=4000
void ctx_fail(void) { int nowait = ZV_PICK(0, 1), r; fail = 1; mk(nowait); r = zpl_thread_start_with_stack(&T, proc, &datum, ZV_PICK(0, 1) * 4096); zv_check(r == 0); zv_check(!zpl_thread_is_running(&T) && began == 0); if (ZV_PICK(0, 1)) { fail = 0; expect = &datum; zv_check(zpl_thread_start(&T, proc, &datum) != 0); zv_check(created == 1); } zpl_thread_destroy(&T); zv_check(joined == created); done(nowait); }
//zv: slevel=4000
void ctx_unstarted(void) { int nowait = ZV_PICK(0, 1); mk(nowait); zpl_thread_destroy(&T); zv_check(created == 0 && joined == 0); done(nowait); }

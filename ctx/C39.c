/* C39 barrier: rely-guarantee. Whenever the state mutex is taken, the counters are set to anything the invariant allows
   (other threads ran); whenever it is given back, the invariant must hold again. Between, unlocked, the counters are poisoned:
   an access outside the mutex is seen. */
#include "zv_thr.h"
#define POISON (-12345)
static struct zpl_sync *S;
static int held, start_locked, start_mine, sem, woken, inits, dead, posts, waits; /* ghost state */
static int filling, in_drain;        /* what the caller may rely on at its next acquisition */
static int g_target, g_current, g_waiting;      /* state seen at the last acquisition */
static int u_target, u_current, u_waiting, u_start, u_sem, rounds;     /* state given back at the last release */
static int slept_ok; static void rely(void); static void guarantee(void);
static int is_start(pthread_mutex_t *m); static int is_state(pthread_mutex_t *m);
static int i_start, i_state, i_sem, d_start, d_state, d_sem;
int zv_mi(pthread_mutex_t *m, void const *a) { if (is_start(m)) i_start++; else if (is_state(m)) i_state++; else zv_check(0); return 0; }
int zv_md(pthread_mutex_t *m) { if (is_start(m)) d_start++; else if (is_state(m)) d_state++; else zv_check(0); return 0; }
int zv_ml(pthread_mutex_t *m) {
    if (is_start(m)) { zv_check(!held); zv_check(!start_mine); start_locked = 1; start_mine = 1; }
    else { zv_check(is_state(m) && !held); held = 1; rely(); }
    return 0;
}
int zv_mu(pthread_mutex_t *m) {
    if (is_start(m)) { zv_check(start_locked); start_locked = 0; }
    else { zv_check(is_state(m) && held); guarantee(); held = 0; }
    return 0;
}
#define pthread_mutex_init zv_mi
#define pthread_mutex_destroy zv_md
#define pthread_mutex_lock zv_ml
#define pthread_mutex_unlock zv_mu
int zv_si(sem_t *s, int sh, unsigned v) { zv_check(v == 0); i_sem++; return 0; }
int zv_sd(sem_t *s) { d_sem++; return 0; }
int zv_sp(sem_t *s) { zv_check(held); sem++; posts++; return 0; }
int zv_sw(sem_t *s) { zv_check(!held); waits++; in_drain = 1; slept_ok = u_current == g_current + 1 && u_waiting == g_waiting + 1 && u_target == g_target && u_current < u_target; return 0; }  /* returns once another thread has posted */
#define sem_init zv_si
#define sem_destroy zv_sd
#define sem_post zv_sp
#define sem_wait zv_sw
#include "zv.h"
static zpl_sync Y;
static int is_start(pthread_mutex_t *m) { return m == &Y.start.pthread_mutex; }
static int is_state(pthread_mutex_t *m) { return m == &Y.mutex.pthread_mutex; }
#define T 4
static void rely(void) {
    zv_check(Y.target == POISON && Y.current == POISON && Y.waiting == POISON);
    sem = 0; woken = 0;
    if (in_drain) { Y.target = ZV_PICK(1, T); Y.current = Y.target; Y.waiting = ZV_PICK(1, T); if (Y.waiting >= Y.target) Y.waiting = Y.target - 1; if (Y.waiting == 0) { Y.waiting = 1; Y.target = Y.current = 2; } woken = 1; start_locked = 1; in_drain = 0; }
    else if (filling) { Y.target = ZV_PICK(1, T); Y.current = ZV_PICK(0, T - 1); Y.waiting = ZV_PICK(0, T - 1); if (Y.current >= Y.target) Y.current = Y.target - 1; if (Y.waiting > Y.current) Y.waiting = Y.current; start_locked = 1; }
    else { Y.target = 0; Y.current = ZV_PICK(0, T); Y.waiting = 0; }
    g_target = Y.target; g_current = Y.current; g_waiting = Y.waiting; rounds++;
}
static void guarantee(void) {
    u_target = Y.target; u_current = Y.current; u_waiting = Y.waiting; u_start = start_locked; u_sem = sem;
    zv_check(Y.waiting >= 0 && Y.target >= 0);
    if (Y.target == 0) zv_check(Y.waiting == 0 && sem == 0 && !start_locked);                              /* idle: the next target can be set */
    else if (Y.current < Y.target) zv_check(Y.waiting <= Y.current && sem == 0 && start_locked);           /* filling: nobody woken yet */
    else zv_check(Y.current == Y.target && Y.waiting >= 1 && sem == 1 && start_locked);                    /* draining: exactly one wake-up under way */
    Y.target = Y.current = Y.waiting = POISON;
}
static void poison(void) { Y.target = Y.current = Y.waiting = POISON; }
static void done(void) { zv_check(!held); zv_check(Y.target == POISON && Y.current == POISON && Y.waiting == POISON); zv_end(); }
//zv: slevel=40000
void ctx_init(void) { Y.target = 7; Y.current = 3; Y.waiting = 2; zpl_sync_init(&Y); zv_check(i_start == 1 && i_state == 1 && i_sem == 1); zv_check(Y.target == 0 && Y.current == 0 && Y.waiting == 0); zpl_sync_destroy(&Y); zv_check(d_start == 1 && d_state == 1 && d_sem == 1 && i_start == 1); zv_end(); }
//zv: slevel=40000
void ctx_set_target(void) { int n = ZV_PICK(1, T); poison(); zpl_sync_set_target(&Y, n); zv_check(rounds == 1 && start_locked && start_mine && u_target == n && u_current == 0 && u_waiting == 0 && posts == 0); done(); }
//zv: slevel=40000
void ctx_reach(void) {
    int n; poison(); filling = 1; n = zpl_sync_reach(&Y);
    zv_check(rounds == 1 && n == g_current + 1); if (n < g_target) zv_check(u_current == n && u_target == g_target && u_waiting == g_waiting && posts == 0);
    else if (g_waiting) zv_check(u_current == n && u_target == g_target && u_waiting == g_waiting && posts == 1); else zv_check(u_target == 0 && !u_start && posts == 0);
    done();
}
//zv: slevel=40000
void ctx_reach_and_wait(void) {
    poison(); filling = 1; zpl_sync_reach_and_wait(&Y);
    if (rounds == 1) { zv_check(waits == 0 && g_current + 1 == g_target); if (g_waiting) zv_check(posts == 1 && u_target == g_target && u_current == g_target && u_waiting == g_waiting); else zv_check(posts == 0 && u_target == 0 && !u_start); }
    else { zv_check(rounds == 2 && waits == 1 && slept_ok); if (g_waiting > 1) zv_check(posts == 1 && u_waiting == g_waiting - 1 && u_target == g_target && u_current == g_target); else zv_check(posts == 0 && u_target == 0 && !u_start); }
    done();
}
/* a waiter woken while others still wait passes the wake-up on; released directly, too */
//zv: slevel=40000
void ctx_release(void) { poison(); in_drain = ZV_PICK(0, 1); filling = 0; zpl_mutex_lock(&Y.mutex); if (Y.target == 0) { Y.waiting = 0; start_locked = 1; } else Y.waiting--; { int w = Y.waiting; zpl_sync_release(&Y); zv_check(posts == (w > 0)); zv_check(start_locked == (w > 0)); if (!w) zv_check(Y.target == 0); } zpl_mutex_unlock(&Y.mutex); done(); }

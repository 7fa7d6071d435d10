/* C11 linked lists: any insertion/removal history keeps both link directions consistent. */
//zv-all: steps=6000
#include "zv.h"
#define N 5
static zpl_list nd[N]; static int order[N], n;
static void agree(void) {
    int i; zpl_list *l; int c = 0;
    for (i = 0; i < n; i++) {
        l = &nd[order[i]];
        zv_check(l->next == (i + 1 < n ? &nd[order[i + 1]] : 0));
        zv_check(l->prev == (i > 0 ? &nd[order[i - 1]] : 0));
        zv_check(l->ptr == (void *)&nd[order[i]]);
    }
    for (l = &nd[order[0]]; l; l = l->next) { c++; zv_check(c <= n); }
    zv_check(c == n);
}
static int in(int x) { int i; for (i = 0; i < n; i++) if (order[i] == x) return i; return -1; }
static void step(void) {
    int x = ZV_PICK(0, N - 1), at = in(x), i;
    if (at < 0) {
        int after = ZV_PICK(0, 3); if (after >= n) return;
        zpl_list *r = zpl_list_add(&nd[order[after]], &nd[x]);
        zv_check(r == &nd[x]);
        for (i = n; i > after + 1; i--) order[i] = order[i - 1];
        order[after + 1] = x; n++;
    } else {
        if (n == 1) return;
        zpl_list *r = zpl_list_remove(&nd[x]);
        zv_check(r == (at + 1 < n ? &nd[order[at + 1]] : 0));
        for (i = at; i + 1 < n; i++) order[i] = order[i + 1];
        n--;
    }
    agree();
}
static void begin(int k) { int i; for (i = 0; i < N; i++) { nd[i].next = nd[i].prev = (zpl_list *)&nd[0]; zpl_list_init(&nd[i], &nd[i]); zv_check(nd[i].next == 0 && nd[i].prev == 0); }
    order[0] = 0; n = 1; for (i = 1; i < k; i++) { zpl_list_add(&nd[order[n - 1]], &nd[i]); order[n++] = i; } agree(); }
#ifdef ZV_THOROUGH
#define MORE step();
#else
#define MORE
#endif
void ctx_grow(void) { begin(1); step(); step(); step(); MORE zv_end(); }
void ctx_mid(void) { begin(3); step(); step(); step(); MORE zv_end(); }
void ctx_full(void) { begin(5); step(); step(); step(); MORE zv_end(); }

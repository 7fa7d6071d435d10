/* system allocator as absolute addresses: honours exactly the alignment asked for (never more) */
#define ZV_HEAP_LO 0x1000L
#define ZV_HEAP_HI 0x3000L
static long zv_hp_next = ZV_HEAP_LO, zv_hp_no, zv_hp_fail = -1, zv_hp_live;
static struct { long p, n; int live; } zv_hp[32];
void *aligned_alloc(unsigned long a, unsigned long n) {
    long p, i;
    zv_check(a != 0 && (a & (a - 1)) == 0);
    if (zv_hp_no == zv_hp_fail) { zv_hp_no++; return 0; }
    p = (zv_hp_next + a - 1) / a * a;
    if (p % (2 * a) == 0) p += a;                  /* aligned to a and to nothing more */
    zv_hp_next = p + n;
    zv_check(zv_hp_next < ZV_HEAP_HI);
    zv_hp[zv_hp_no].p = p; zv_hp[zv_hp_no].n = n; zv_hp[zv_hp_no].live = 1; zv_hp_no++; zv_hp_live++;
    for (i = 0; i < (long)n; i++) ((char *)p)[i] = 0x5a;
    return (void *)p;
}
void zv_absfree(void *q) {
    long i;
    if (!q) return;
    for (i = 0; i < zv_hp_no; i++) if (zv_hp[i].live && zv_hp[i].p == (long)q) { zv_hp[i].live = 0; zv_hp_live--; return; }
    zv_check(0 == 1); /* free of something that is not a live block */
}

/* a backing allocator whose blocks are absolute addresses (exact pointer arithmetic) */
static long zv_abs_next = 0x1000, zv_abs_live, zv_abs_no, zv_abs_fail_at = -1, zv_abs_last_size;
static ZPL_ALLOCATOR_PROC(zv_abs_proc) {
    if (type == ZPL_ALLOCATION_ALLOC) {
        if (zv_abs_no++ == zv_abs_fail_at) return NULL;
        long p = (zv_abs_next + alignment - 1) / alignment * alignment;
        zv_abs_next = p + size + 3;
        zv_check(zv_abs_next < 0x3000); /* backing request is of a sane size */
        zv_abs_live++; zv_abs_last_size = size;
        return (void *)p;
    }
    if (type == ZPL_ALLOCATION_FREE) { if (old_memory) zv_abs_live--; return NULL; }
    if (type == ZPL_ALLOCATION_RESIZE) {
        char *n; long i;
        if (zv_abs_no++ == zv_abs_fail_at) return NULL;
        n = (char *)((zv_abs_next + alignment - 1) / alignment * alignment);
        zv_abs_next = (long)n + size + 3; zv_abs_last_size = size;
        zv_check(zv_abs_next < 0x3000);
        for (i = 0; i < old_size && i < size; i++) n[i] = ((char *)old_memory)[i];
        return n;
    }
    return NULL;
}
static zpl_allocator zv_abs(void) { zpl_allocator a; a.proc = zv_abs_proc; a.data = 0; return a; }

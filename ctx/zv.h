#define ZPL_IMPL
#ifndef ZV_THREADING
#define ZPL_DISABLE_THREADING
#endif
#ifndef ZV_SOCKET
#define ZPL_DISABLE_SOCKET
#endif
#ifndef ZV_DLL
#define ZPL_DISABLE_DLL
#endif
#ifndef ZV_MATH
#define ZPL_DISABLE_MATH
#endif
#include "zpl.h"
#define ZV_RANGE(lo,hi) Frama_C_interval(lo,hi)
#define ZV_PICK(lo,hi) Frama_C_interval_split(lo,hi)
static void zv_end(void) { Frama_C_show_each_ZV_END(1); }
#if !defined(ZV_REAL_HEAP) && !defined(ZV_OWN_ALLOC)
static void *zv_heap_exact(void *d, zpl_alloc_type type, zpl_isize size, zpl_isize alignment, void *old, zpl_isize old_size, zpl_u64 flags) {
    void *p = 0;
    if (type == ZPL_ALLOCATION_ALLOC) { zv_check(size >= 0); p = zv_malloc(size); if (p && (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) memset(p, 0, size); }
    else if (type == ZPL_ALLOCATION_FREE) zv_free(old);
    else if (type == ZPL_ALLOCATION_RESIZE) p = zpl_default_resize_align(zpl_heap_allocator(), old, old_size, size, alignment);
    return p;
}
#endif

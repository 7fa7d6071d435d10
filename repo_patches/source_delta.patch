From ed3f89b15c7c26cfd7d6f4c512c6bbf40d0599fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 001/106] fix: arena: account for alignment padding in the
 bounds check

---
 code/source/essentials/memory_custom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8a14656..b574464 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -172,10 +172,10 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             void *end = zpl_pointer_add(arena->physical_start, arena->total_allocated);
-            zpl_isize total_size = zpl_align_forward_i64(size, alignment);
+            zpl_isize total_size = zpl_arena_alignment_of(arena, alignment) + size;
 
             // NOTE: Out of memory
-            if (arena->total_allocated + total_size > cast(zpl_isize) arena->total_size) {
+            if (total_size > cast(zpl_isize) arena->total_size - arena->total_allocated) {
                 return NULL;
             }
 
-- 
2.43.0


From f68c29fd8f3a496d7e613099276ca75f1705b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 002/106] fix: arena: an arena whose backing allocation failed
 has no space

---
 code/header/essentials/memory_custom.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index ec9b383..6b6742c 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -338,7 +338,7 @@ ZPL_IMPL_INLINE void zpl_arena_init_from_memory(zpl_arena *arena, void *start, z
 ZPL_IMPL_INLINE void zpl_arena_init_from_allocator(zpl_arena *arena, zpl_allocator backing, zpl_isize size) {
     arena->backing = backing;
     arena->physical_start = zpl_alloc(backing, size); // NOTE: Uses default alignment
-    arena->total_size = size;
+    arena->total_size = arena->physical_start ? size : 0;
     arena->total_allocated = 0;
     arena->temp_count = 0;
 }
-- 
2.43.0


From 0c95c0a023e9d798768576759f29625064cd9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 003/106] fix: pool: keep every block aligned and survive a
 failed backing allocation

---
 code/source/essentials/memory_custom.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index b574464..5152614 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -204,6 +204,12 @@ ZPL_ALLOCATOR_PROC(zpl_arena_allocator_proc) {
 // Pool Allocator
 //
 
+// NOTE: every block starts aligned and has room for the free list link
+zpl_internal zpl_isize zpl__pool_block_stride(zpl_pool *pool) {
+    zpl_isize size = zpl_max(pool->block_size + pool->block_align, zpl_size_of(zpl_uintptr));
+    return zpl_align_forward_i64(size, pool->block_align);
+}
+
 void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_blocks, zpl_isize block_size, zpl_isize block_align) {
     zpl_isize actual_block_size, pool_size, block_index;
     void *data, *curr;
@@ -216,10 +222,11 @@ void zpl_pool_init_align(zpl_pool *pool, zpl_allocator backing, zpl_isize num_bl
     pool->block_align = block_align;
     pool->num_blocks = num_blocks;
 
-    actual_block_size = block_size + block_align;
+    actual_block_size = zpl__pool_block_stride(pool);
     pool_size = num_blocks * actual_block_size;
 
     data = zpl_alloc_align(backing, pool_size, block_align);
+    if (!data) return;
 
     // NOTE: Init intrusive freelist
     curr = data;
@@ -271,8 +278,9 @@ ZPL_ALLOCATOR_PROC(zpl_pool_allocator_proc) {
             void *curr;
             zpl_uintptr *end;
 
-            actual_block_size = pool->block_size + pool->block_align;
+            actual_block_size = zpl__pool_block_stride(pool);
             pool->total_size = 0;
+            if (!pool->physical_start) break;
 
             // NOTE: Init intrusive freelist
             curr = pool->physical_start;
-- 
2.43.0


From 89ed5d6159fdbf0ff0a7d0227c93a5dcae045b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 004/106] fix: memory: initialise the stack allocator's backing
 and check failed allocations

---
 code/header/essentials/memory_custom.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/memory_custom.h b/code/header/essentials/memory_custom.h
index 6b6742c..e139a56 100644
--- a/code/header/essentials/memory_custom.h
+++ b/code/header/essentials/memory_custom.h
@@ -284,6 +284,7 @@ ZPL_IMPL_INLINE void *zpl_alloc_copy_align(zpl_allocator a, void const *src, zpl
 ZPL_IMPL_INLINE char *zpl_alloc_str_len(zpl_allocator a, char const *str, zpl_isize len) {
     char *result;
     result = cast(char *) zpl_alloc(a, len + 1);
+    if (!result) return NULL;
     zpl_memmove(result, str, len);
     result[len] = '\0';
     return result;
@@ -435,6 +436,8 @@ ZPL_IMPL_INLINE void zpl_allocation_header_fill(zpl_allocation_header_ev *header
 ZPL_STATIC_ASSERT(ZPL_STACK_ALLOC_OFFSET == 8, "ZPL_STACK_ALLOC_OFFSET != 8");
 
 ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void *start, zpl_isize size) {
+    s->backing.proc = NULL;
+    s->backing.data = NULL;
     s->physical_start = start;
     s->total_size = size;
     s->allocated = 0;
@@ -443,7 +446,7 @@ ZPL_IMPL_INLINE void zpl_stack_memory_init_from_memory(zpl_stack_memory *s, void
 ZPL_IMPL_INLINE void zpl_stack_memory_init(zpl_stack_memory *s, zpl_allocator backing, zpl_isize size) {
     s->backing = backing;
     s->physical_start = zpl_alloc(backing, size);
-    s->total_size = size;
+    s->total_size = s->physical_start ? size : 0;
     s->allocated = 0;
 }
 
-- 
2.43.0


From 976cdbea8b8ad1d4613f3319df2999ebee5a6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 005/106] fix: stack allocator: align the block, record the
 grown size, keep memory on failure

---
 code/source/essentials/memory_custom.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 5152614..8b872a4 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -406,24 +406,27 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
     void *ptr = NULL;
     ZPL_ASSERT_NOT_NULL(s);
     zpl_unused(old_size);
-    zpl_unused(flags);
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
             size += ZPL_STACK_ALLOC_OFFSET;
             zpl_u64 alloc_offset = s->allocated;
 
-            void *curr =
-                cast(zpl_u64 *) zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
+            // NOTE: The header sits right below the aligned block
+            void *curr = zpl_pointer_sub(
+                zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment),
+                ZPL_STACK_ALLOC_OFFSET);
 
             if (cast(zpl_u64 *) zpl_pointer_add(curr, size) > cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->total_size)) {
                 if (s->backing.proc) {
-                    void *old_start = s->physical_start;
-                    s->physical_start =
-                        zpl_resize_align(s->backing, s->physical_start, s->total_size, s->total_size + size, alignment);
-                    curr = cast(zpl_u64 *)
-                        zpl_align_forward(cast(zpl_u64 *) zpl_pointer_add(s->physical_start, s->allocated), alignment);
-                    s->total_size = zpl_pointer_diff(old_start, s->physical_start);
+                    zpl_isize new_size = s->total_size + size + alignment;
+                    void *new_start = zpl_resize_align(s->backing, s->physical_start, s->total_size, new_size, alignment);
+                    if (!new_start) return NULL;
+                    s->physical_start = new_start;
+                    s->total_size = new_size;
+                    curr = zpl_pointer_sub(
+                        zpl_align_forward(zpl_pointer_add(s->physical_start, s->allocated + ZPL_STACK_ALLOC_OFFSET), alignment),
+                        ZPL_STACK_ALLOC_OFFSET);
                 } else {
                     ZPL_PANIC("Can not resize stack's memory! Allocator not defined!");
                 }
@@ -435,6 +438,7 @@ ZPL_ALLOCATOR_PROC(zpl_stack_allocator_proc) {
             curr = zpl_pointer_add(curr, ZPL_STACK_ALLOC_OFFSET);
 
             ptr = curr;
+            if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size - ZPL_STACK_ALLOC_OFFSET);
         } break;
 
         case ZPL_ALLOCATION_FREE: {
-- 
2.43.0


From da1d99387f0c4071144ad98836f1606b2835bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 006/106] fix: scratch allocator: reserve header and padding,
 never overrun, release by block

---
 code/source/essentials/memory_custom.c | 48 ++++++++++++++++----------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index 8b872a4..b5976a9 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -336,29 +336,36 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
     switch (type) {
         case ZPL_ALLOCATION_ALLOC: {
-            void *pt = s->alloc_point;
-            zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) pt;
-            void *data = zpl_align_forward(header + 1, alignment);
+            zpl_allocation_header_ev *header;
+            void *data, *pt;
             void *end = zpl_pointer_add(s->physical_start, s->total_size);
 
             ZPL_ASSERT(alignment % 4 == 0);
-            size = ((size + 3) / 4) * 4;
-            pt = zpl_pointer_add(pt, size);
-
-            // NOTE: Wrap around
-            if (pt > end) {
-                header->size = zpl_pointer_diff(header, end) | ZPL_ISIZE_HIGH_BIT;
-                pt = s->physical_start;
-                header = cast(zpl_allocation_header_ev *) pt;
+            size = zpl_align_forward_i64(size, zpl_size_of(*header));
+
+            // NOTE: Nothing is in use, start over
+            if (s->alloc_point == s->free_point) { s->alloc_point = s->free_point = s->physical_start; }
+
+            header = cast(zpl_allocation_header_ev *) s->alloc_point;
+            data = zpl_align_forward(header + 1, alignment);
+            pt = zpl_pointer_add(data, size);
+
+            if (s->alloc_point < s->free_point) {
+                if (pt >= s->free_point) return NULL;
+            } else if (pt > end) {
+                // NOTE: Wrap around
+                header = cast(zpl_allocation_header_ev *) s->physical_start;
                 data = zpl_align_forward(header + 1, alignment);
-                pt = zpl_pointer_add(pt, size);
+                pt = zpl_pointer_add(data, size);
+                if (pt >= s->free_point) return NULL;
+                if (zpl_pointer_diff(s->alloc_point, end) >= zpl_size_of(*header)) {
+                    (cast(zpl_allocation_header_ev *) s->alloc_point)->size = zpl_pointer_diff(s->alloc_point, end) | ZPL_ISIZE_HIGH_BIT;
+                }
             }
 
-            if (!zpl_scratch_memory_is_in_use(s, pt)) {
-                zpl_allocation_header_fill(header, pt, zpl_pointer_diff(header, pt));
-                s->alloc_point = cast(zpl_u8 *) pt;
-                ptr = data;
-            }
+            zpl_allocation_header_fill(header, data, zpl_pointer_diff(header, pt));
+            s->alloc_point = pt;
+            ptr = data;
 
             if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
         } break;
@@ -376,10 +383,13 @@ ZPL_ALLOCATOR_PROC(zpl_scratch_allocator_proc) {
 
                     while (s->free_point != s->alloc_point) {
                         zpl_allocation_header_ev *header = cast(zpl_allocation_header_ev *) s->free_point;
+                        if (zpl_pointer_diff(s->free_point, end) < zpl_size_of(*header)) {
+                            s->free_point = s->physical_start;
+                            continue;
+                        }
                         if ((header->size & ZPL_ISIZE_HIGH_BIT) == 0) break;
 
-                        s->free_point = zpl_pointer_add(s->free_point, h->size & (~ZPL_ISIZE_HIGH_BIT));
-                        if (s->free_point == end) s->free_point = s->physical_start;
+                        s->free_point = zpl_pointer_add(s->free_point, header->size & (~ZPL_ISIZE_HIGH_BIT));
                     }
                 }
             }
-- 
2.43.0


From bf6db9eab44fc2f75f7f1a47272e55555b7a0101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 007/106] fix: heap allocator: survive failed allocations and
 honour alignment under heap analysis

---
 code/source/essentials/memory_custom.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/code/source/essentials/memory_custom.c b/code/source/essentials/memory_custom.c
index b5976a9..c0f4312 100644
--- a/code/source/essentials/memory_custom.c
+++ b/code/source/essentials/memory_custom.c
@@ -80,8 +80,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 
 #    ifdef ZPL_HEAP_ANALYSIS
         zpl_isize alloc_info_size = zpl_size_of(zpl__heap_alloc_info);
-        zpl_isize alloc_info_remainder = (alloc_info_size % alignment);
-        zpl_isize track_size = zpl_max(alloc_info_size, alignment) + alloc_info_remainder;
+        zpl_isize track_size = zpl_align_forward_i64(alloc_info_size, alignment);
         switch (type) {
             case ZPL_ALLOCATION_FREE: {
                 if (!old_memory) break;
@@ -101,7 +100,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
 #if defined(ZPL_COMPILER_MSVC) || (defined(ZPL_COMPILER_GCC) && defined(ZPL_SYSTEM_WINDOWS)) || (defined(ZPL_COMPILER_TINYC) && defined(ZPL_SYSTEM_WINDOWS))
         case ZPL_ALLOCATION_ALLOC:
         ptr = _aligned_malloc(size, alignment);
-        if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) zpl_zero_size(ptr, size);
+        if (ptr && (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) zpl_zero_size(ptr, size);
         break;
         case ZPL_ALLOCATION_FREE: _aligned_free(old_memory); break;
         case ZPL_ALLOCATION_RESIZE: {
@@ -113,7 +112,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
         case ZPL_ALLOCATION_ALLOC: {
             ptr = aligned_alloc(alignment, (size + alignment - 1) & ~(alignment - 1));
 
-            if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) { zpl_zero_size(ptr, size); }
+            if (ptr && (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) { zpl_zero_size(ptr, size); }
         } break;
 
         case ZPL_ALLOCATION_FREE: {
@@ -128,7 +127,7 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
         case ZPL_ALLOCATION_ALLOC: {
             posix_memalign(&ptr, alignment, size);
 
-            if (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) { zpl_zero_size(ptr, size); }
+            if (ptr && (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO)) { zpl_zero_size(ptr, size); }
         } break;
 
         case ZPL_ALLOCATION_FREE: {
@@ -145,8 +144,8 @@ ZPL_ALLOCATOR_PROC(zpl_heap_allocator_proc) {
     }
 
 #    ifdef ZPL_HEAP_ANALYSIS
-        if (type == ZPL_ALLOCATION_ALLOC) {
-            zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + alloc_info_remainder);
+        if (type == ZPL_ALLOCATION_ALLOC && ptr) {
+            zpl__heap_alloc_info *alloc_info = cast(zpl__heap_alloc_info *)(cast(char *)ptr + track_size) - 1;
             zpl_zero_item(alloc_info);
             alloc_info->size = size - track_size;
             alloc_info->physical_start = ptr;
-- 
2.43.0


From f6981af71f791eb9ee36683d0f31b322e218d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 008/106] fix: memswap: short ranges evaluated the moving
 pointers twice

---
 code/source/essentials/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/memory.c b/code/source/essentials/memory.c
index 284492a..9064cff 100644
--- a/code/source/essentials/memory.c
+++ b/code/source/essentials/memory.c
@@ -17,7 +17,7 @@ void zpl_memswap(void *i, void *j, zpl_isize size) {
         zpl_u8 *a = cast(zpl_u8 *) i;
         zpl_u8 *b = cast(zpl_u8 *) j;
         if (a != b) {
-            while (size--) { zpl_swap(zpl_u8, *a++, *b++); }
+            while (size--) { zpl_swap(zpl_u8, *a, *b); a++; b++; }
         }
     } else {
         char buffer[256];
-- 
2.43.0


From 2b2111037d2a973174e349b30da3b757ea085356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 009/106] fix: array: clamp the insert position where the item
 is stored

---
 code/header/essentials/collections/array.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index f237874..930b346 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -148,9 +148,13 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_helper(void **x) {
 
 #define zpl_array_append(x, item) (zpl__array_append_helper(cast(void **) & (x)) && (((x)[zpl_array_count(x)++] = (item)), true))
 
+ZPL_IMPL_INLINE zpl_isize zpl__array_clamp_index(void *x, zpl_isize ind) {
+    if (ind > zpl_array_count(x)) ind = zpl_array_count(x);
+    return ind < 0 ? 0 : ind;
+}
+
 ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
-    if (ind >= zpl_array_count(*x)) ind = zpl_array_count(*x) - 1;
-    if (ind < 0) ind = 0;
+    ind = zpl__array_clamp_index(*x, ind);
     if (zpl_array_capacity(*x) < zpl_array_count(*x) + 1) {
         if (!zpl__array_grow(x, 0)) return false;
     }
@@ -159,7 +163,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_append_at_helper(void **x, zpl_isize ind) {
     return true;
 }
 
-#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[ind] = (item)), zpl_array_count(x)++, true))
+#define zpl_array_append_at(x, item, ind) (zpl__array_append_at_helper(cast(void **) & (x), (ind)) && (((x)[zpl__array_clamp_index((x), (ind))] = (item)), zpl_array_count(x)++, true))
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv(void **x, void *items, zpl_isize item_size, zpl_isize item_count) {
     ZPL_ASSERT(item_size == zpl_array_elem_size(*x));
@@ -175,6 +179,7 @@ ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv(void **x, void *items, zpl_isize item_
 
 ZPL_IMPL_INLINE zpl_b8 zpl__array_appendv_at(void **x, void *items, zpl_isize item_size, zpl_isize item_count, zpl_isize ind) {
     if (ind >= zpl_array_count(*x)) return zpl__array_appendv(x, items, item_size, item_count);
+    if (ind < 0) ind = 0;
     ZPL_ASSERT(item_size == zpl_array_elem_size(*x));
     if (zpl_array_capacity(*x) < zpl_array_count(*x) + item_count) {
         if (!zpl__array_grow(x, zpl_array_count(*x) + item_count)) return false;
-- 
2.43.0


From 626a9f778f2399f69971d20b6caa0dddb4b19fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 010/106] fix: buffer: check the allocation and the capacity on
 append

---
 code/header/essentials/collections/buffer.h | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/code/header/essentials/collections/buffer.h b/code/header/essentials/collections/buffer.h
index 9a0c6bd..0d479c1 100644
--- a/code/header/essentials/collections/buffer.h
+++ b/code/header/essentials/collections/buffer.h
@@ -40,16 +40,22 @@ do {
     void **nx = cast(void **) & (x);                                                                               \
     zpl_buffer_header *zpl__bh =                                                                                   \
     cast(zpl_buffer_header *) zpl_alloc((allocator), sizeof(zpl_buffer_header) + (cap)*zpl_size_of(*(x)));     \
-    zpl__bh->backing = allocator;                                                                                  \
-    zpl__bh->count = 0;                                                                                            \
-    zpl__bh->capacity = cap;                                                                                       \
-    *nx = cast(void *)(zpl__bh + 1);                                                                               \
+    *nx = NULL;                                                                                                    \
+    if (zpl__bh) {                                                                                                 \
+        zpl__bh->backing = allocator;                                                                              \
+        zpl__bh->count = 0;                                                                                        \
+        zpl__bh->capacity = cap;                                                                                   \
+        *nx = cast(void *)(zpl__bh + 1);                                                                           \
+    }                                                                                                              \
 } while (0)
 
-#define zpl_buffer_free(x) (zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)))
+#define zpl_buffer_free(x) ((x) ? zpl_free(ZPL_BUFFER_HEADER(x)->backing, ZPL_BUFFER_HEADER(x)) : (void)0)
 
 #define zpl_buffer_append(x, item)                                                                                     \
-do { (x)[zpl_buffer_count(x)++] = (item); } while (0)
+do {                                                                                                               \
+    ZPL_ASSERT(zpl_buffer_count(x) < zpl_buffer_capacity(x));                                                      \
+    (x)[zpl_buffer_count(x)++] = (item);                                                                           \
+} while (0)
 
 #define zpl_buffer_appendv(x, items, item_count)                                                                       \
 do {                                                                                                               \
@@ -62,8 +68,10 @@ do {
 #define zpl_buffer_copy_init(y, x)                                                                                     \
 do {                                                                                                               \
     zpl_buffer_init(y, zpl_buffer_allocator(x), zpl_buffer_capacity(x));                                   \
-    zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                                   \
-    zpl_buffer_count(y) = zpl_buffer_count(x);                                                                     \
+    if (y) {                                                                                                       \
+        zpl_memcopy(y, x, zpl_buffer_capacity(x) * zpl_size_of(*x));                                               \
+        zpl_buffer_count(y) = zpl_buffer_count(x);                                                                 \
+    }                                                                                                              \
 } while (0)
 
 #define zpl_buffer_pop(x)                                                                                              \
-- 
2.43.0


From 3248cbd42c09876b9124e0cfd765c97cb10eebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 011/106] fix: ring: get_array takes max_size elements and
 loses none

---
 code/header/essentials/collections/ring.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index d4ac319..980302f 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -67,6 +67,7 @@ return ((pad->head + 1) % pad->capacity) == pad->tail;
 zpl_b32 ZPL_JOIN2(func, empty)(ZPL_JOIN2(func, type) * pad) { return pad->head == pad->tail; }        \
 \
 void ZPL_JOIN2(func, append)(ZPL_JOIN2(func, type) * pad, type data) {                            \
+if (!pad->buf) return;                                                                                         \
 pad->buf[pad->head] = data;                                                                                    \
 pad->head = (pad->head + 1) % pad->capacity;                                                                   \
 \
@@ -90,9 +91,10 @@ return data;
 zpl_array(type)                                                                                                    \
 ZPL_JOIN2(func, get_array)(ZPL_JOIN2(func, type) * pad, zpl_usize max_size, zpl_allocator a) {    \
 zpl_array(type) vals = 0;                                                                                          \
-zpl_array_init(vals, a);                                                                                       \
-while (--max_size && !ZPL_JOIN2(func, empty)(pad)) {                                               \
-zpl_array_append(vals, *ZPL_JOIN2(func, get)(pad));                                            \
+if (!zpl_array_init(vals, a)) return NULL;                                                                     \
+while (max_size-- && !ZPL_JOIN2(func, empty)(pad)) {                                               \
+if (!zpl_array_append(vals, pad->buf[pad->tail])) break;                                       \
+ZPL_JOIN2(func, get)(pad);                                                                     \
 }                                                                                                              \
 return vals;                                                                                                   \
 }
-- 
2.43.0


From 14c55a21df1fe13d71176eebd0e6e120e9b844c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 012/106] fix: list: keep the successor's back link

---
 code/header/essentials/collections/list.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/list.h b/code/header/essentials/collections/list.h
index 65847a0..d681a70 100644
--- a/code/header/essentials/collections/list.h
+++ b/code/header/essentials/collections/list.h
@@ -65,7 +65,10 @@ ZPL_IMPL_INLINE void zpl_list_init(zpl_list *list, void const *ptr) {
 ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
     item->next = NULL;
 
-    if (list->next) { item->next = list->next; }
+    if (list->next) {
+        item->next = list->next;
+        item->next->prev = item;
+    }
 
     list->next = item;
     item->prev = list;
@@ -74,6 +77,7 @@ ZPL_IMPL_INLINE zpl_list *zpl_list_add(zpl_list *list, zpl_list *item) {
 
 ZPL_IMPL_INLINE zpl_list *zpl_list_remove(zpl_list *list) {
     if (list->prev) { list->prev->next = list->next; }
+    if (list->next) { list->next->prev = list->prev; }
 
     return list->next;
 }
-- 
2.43.0


From 059b75b298ebe40a9dfe393ca0c17b65c1e2b9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 013/106] fix: hashtable: relink the buckets after remove_entry

---
 code/header/essentials/collections/hashtable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/header/essentials/collections/hashtable.h b/code/header/essentials/collections/hashtable.h
index fc24cdf..42cad8c 100644
--- a/code/header/essentials/collections/hashtable.h
+++ b/code/header/essentials/collections/hashtable.h
@@ -196,6 +196,7 @@ typedef struct zpl_hash_table_find_result {
                                                                                                                     \
     void ZPL_JOIN2(FUNC, remove_entry)(NAME * h, zpl_isize idx) {                                                   \
         zpl_array_remove_at(h->entries, idx);                                                                       \
+        ZPL_JOIN2(FUNC, rehash_fast)(h);                                                                            \
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, map)(NAME * h, void (*map_proc)(zpl_u64 key, VALUE value)) {                               \
-- 
2.43.0


From c7aad19953ed12a100cead8b35a376612ab92b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 014/106] fix: hashtable: survive failed allocations

---
 .../header/essentials/collections/hashtable.h | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/code/header/essentials/collections/hashtable.h b/code/header/essentials/collections/hashtable.h
index 42cad8c..ba4c10a 100644
--- a/code/header/essentials/collections/hashtable.h
+++ b/code/header/essentials/collections/hashtable.h
@@ -82,8 +82,12 @@ typedef struct zpl_hash_table_find_result {
 
 #define ZPL_TABLE_DEFINE(NAME, FUNC, VALUE)                                                                         \
     void ZPL_JOIN2(FUNC, init)(NAME * h, zpl_allocator a) {                                                         \
-        zpl_array_init(h->hashes, a);                                                                               \
-        zpl_array_init(h->entries, a);                                                                              \
+        h->hashes = NULL, h->entries = NULL;                                                                        \
+        if (!zpl_array_init(h->hashes, a)) return;                                                                  \
+        if (!zpl_array_init(h->entries, a)) {                                                                       \
+            zpl_array_free(h->hashes);                                                                              \
+            h->hashes = NULL;                                                                                       \
+        }                                                                                                           \
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, destroy)(NAME * h) {                                                                       \
@@ -92,11 +96,13 @@ typedef struct zpl_hash_table_find_result {
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, clear)(NAME * h) {                                                                         \
+        if (!h->hashes) return;                                                                                     \
         for (int i = 0; i < zpl_array_count(h->hashes); i++) h->hashes[i] = -1;                                     \
         zpl_array_clear(h->entries);                                                                                \
     }                                                                                                               \
                                                                                                                     \
     zpl_isize ZPL_JOIN2(FUNC, slot)(NAME * h, zpl_u64 key) {                                                        \
+        if (!h->entries) return -1;                                                                                 \
         for (zpl_isize i = 0; i < zpl_array_count(h->entries); i++) {                                               \
             if (h->entries[i].key == key) {                                                                         \
                 return i;                                                                                           \
@@ -111,13 +117,13 @@ typedef struct zpl_hash_table_find_result {
         e.key = key;                                                                                                \
         e.next = -1;                                                                                                \
         index = zpl_array_count(h->entries);                                                                        \
-        zpl_array_append(h->entries, e);                                                                            \
+        if (!zpl_array_append(h->entries, e)) return -1;                                                            \
         return index;                                                                                               \
     }                                                                                                               \
                                                                                                                     \
     zpl_internal zpl_hash_table_find_result ZPL_JOIN2(FUNC, _find)(NAME * h, zpl_u64 key) {                         \
         zpl_hash_table_find_result r = { -1, -1, -1 };                                                              \
-        if (zpl_array_count(h->hashes) > 0) {                                                                       \
+        if (h->hashes && zpl_array_count(h->hashes) > 0) {                                                          \
             r.hash_index = key % zpl_array_count(h->hashes);                                                        \
             r.entry_index = h->hashes[r.hash_index];                                                                \
             while (r.entry_index >= 0) {                                                                            \
@@ -134,6 +140,7 @@ typedef struct zpl_hash_table_find_result {
     }                                                                                                               \
                                                                                                                     \
     void ZPL_JOIN2(FUNC, grow)(NAME * h) {                                                                          \
+        if (!h->entries) return;                                                                                    \
         zpl_isize new_count = ZPL_ARRAY_GROW_FORMULA(zpl_array_count(h->entries));                                  \
         ZPL_JOIN2(FUNC, rehash)(h, new_count);                                                                      \
     }                                                                                                               \
@@ -141,14 +148,18 @@ typedef struct zpl_hash_table_find_result {
     void ZPL_JOIN2(FUNC, rehash)(NAME * h, zpl_isize new_count) {                                                   \
         zpl_isize i, j;                                                                                             \
         NAME nh = { 0 };                                                                                            \
+        if (!h->hashes) return;                                                                                     \
+        if (new_count < 1) new_count = ZPL_ARRAY_GROW_FORMULA(zpl_array_count(h->entries));                         \
         ZPL_JOIN2(FUNC, init)(&nh, zpl_array_allocator(h->hashes));                                                 \
-        zpl_array_resize(nh.hashes, new_count);                                                                     \
-        zpl_array_reserve(nh.entries, zpl_array_count(h->entries));                                                 \
+        if (!nh.hashes || !zpl_array_resize(nh.hashes, new_count) ||                                                \
+            !zpl_array_reserve(nh.entries, zpl_array_count(h->entries))) {                                          \
+            ZPL_JOIN2(FUNC, destroy)(&nh);                                                                          \
+            return;                                                                                                 \
+        }                                                                                                           \
         for (i = 0; i < new_count; i++) nh.hashes[i] = -1;                                                          \
         for (i = 0; i < zpl_array_count(h->entries); i++) {                                                         \
             ZPL_JOIN2(NAME, Entry) * e;                                                                             \
             zpl_hash_table_find_result fr;                                                                          \
-            if (zpl_array_count(nh.hashes) == 0) ZPL_JOIN2(FUNC, grow)(&nh);                                        \
             e = &h->entries[i];                                                                                     \
             fr = ZPL_JOIN2(FUNC, _find)(&nh, e->key);                                                               \
             j = ZPL_JOIN2(FUNC, _add_entry)(&nh, e->key);                                                           \
@@ -166,6 +177,7 @@ typedef struct zpl_hash_table_find_result {
                                                                                                                     \
     void ZPL_JOIN2(FUNC, rehash_fast)(NAME * h) {                                                                   \
         zpl_isize i;                                                                                                \
+        if (!h->entries) return;                                                                                    \
         for (i = 0; i < zpl_array_count(h->entries); i++) h->entries[i].next = -1;                                  \
         for (i = 0; i < zpl_array_count(h->hashes); i++) h->hashes[i] = -1;                                         \
         for (i = 0; i < zpl_array_count(h->entries); i++) {                                                         \
@@ -202,6 +214,7 @@ typedef struct zpl_hash_table_find_result {
     void ZPL_JOIN2(FUNC, map)(NAME * h, void (*map_proc)(zpl_u64 key, VALUE value)) {                               \
         ZPL_ASSERT_NOT_NULL(h);                                                                                     \
         ZPL_ASSERT_NOT_NULL(map_proc);                                                                              \
+        if (!h->entries) return;                                                                                    \
         for (zpl_isize i = 0; i < zpl_array_count(h->entries); ++i) {                                               \
             map_proc(h->entries[i].key, h->entries[i].value);                                                       \
         }                                                                                                           \
@@ -210,6 +223,7 @@ typedef struct zpl_hash_table_find_result {
     void ZPL_JOIN2(FUNC, map_mut)(NAME * h, void (*map_proc)(zpl_u64 key, VALUE * value)) {                         \
         ZPL_ASSERT_NOT_NULL(h);                                                                                     \
         ZPL_ASSERT_NOT_NULL(map_proc);                                                                              \
+        if (!h->entries) return;                                                                                    \
         for (zpl_isize i = 0; i < zpl_array_count(h->entries); ++i) {                                               \
             map_proc(h->entries[i].key, &h->entries[i].value);                                                      \
         }                                                                                                           \
@@ -218,12 +232,15 @@ typedef struct zpl_hash_table_find_result {
     void ZPL_JOIN2(FUNC, set)(NAME * h, zpl_u64 key, VALUE value) {                                                 \
         zpl_isize index;                                                                                            \
         zpl_hash_table_find_result fr;                                                                              \
+        if (!h->hashes) return;                                                                                     \
         if (zpl_array_count(h->hashes) == 0) ZPL_JOIN2(FUNC, grow)(h);                                              \
+        if (zpl_array_count(h->hashes) == 0) return;                                                                \
         fr = ZPL_JOIN2(FUNC, _find)(h, key);                                                                        \
         if (fr.entry_index >= 0) {                                                                                  \
             index = fr.entry_index;                                                                                 \
         } else {                                                                                                    \
             index = ZPL_JOIN2(FUNC, _add_entry)(h, key);                                                            \
+            if (index < 0) return;                                                                                  \
             if (fr.entry_prev >= 0) {                                                                               \
                 h->entries[fr.entry_prev].next = index;                                                             \
             } else {                                                                                                \
-- 
2.43.0


From e7b54ef14b5acca36e9c2bd53264a14936c3ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 015/106] fix: array: a failed shrink keeps every element

---
 code/header/essentials/collections/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/essentials/collections/array.h b/code/header/essentials/collections/array.h
index 930b346..c8f5f71 100644
--- a/code/header/essentials/collections/array.h
+++ b/code/header/essentials/collections/array.h
@@ -115,10 +115,10 @@ do {
 ZPL_IMPL_INLINE zpl_b8 zpl__array_set_capacity(void **array, zpl_isize capacity) {
     zpl_array_header *h = ZPL_ARRAY_HEADER(*array);
     if (capacity == h->capacity) return true;
-    if (capacity < h->count) h->count = capacity;
     zpl_isize size = zpl_size_of(zpl_array_header) + h->elem_size * capacity;
     zpl_array_header *nh = cast(zpl_array_header *) zpl_alloc(h->allocator, size);
     if (!nh) return false;
+    if (capacity < h->count) h->count = capacity;
     zpl_memmove(nh, h, zpl_size_of(zpl_array_header) + h->elem_size * h->count);
     nh->allocator = h->allocator;
     nh->elem_size = h->elem_size;
-- 
2.43.0


From 4586567b09c972d413c2d17b29cf688c1da7fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 016/106] fix: strcpy/strcat: terminate the destination

---
 code/header/core/string.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index d6f7559..513c5eb 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -237,6 +237,7 @@ ZPL_IMPL_INLINE char *zpl_strcpy(char *dest, const char *source) {
     if (source) {
         char *str = dest;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
@@ -247,6 +248,7 @@ ZPL_IMPL_INLINE char *zpl_strcat(char *dest, const char *source) {
         char *str = dest;
         while (*str) ++str;
         while (*source) *str++ = *source++;
+        *str = '\0';
     }
     return dest;
 }
-- 
2.43.0


From a7e9b3673fc07e15266abb79efb011a751c94d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 017/106] fix: strncmp: order by the differing byte, not by
 address

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 513c5eb..764c5ab 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -304,7 +304,7 @@ ZPL_IMPL_INLINE char *zpl_strrev(char *str) {
 ZPL_IMPL_INLINE zpl_i32 zpl_strncmp(const char *s1, const char *s2, zpl_isize len) {
     for (; len > 0; s1++, s2++, len--) {
         if (*s1 != *s2)
-            return ((s1 < s2) ? -1 : +1);
+            return ((cast(zpl_u8) *s1 < cast(zpl_u8) *s2) ? -1 : +1);
         else if (*s1 == '\0')
             return 0;
     }
-- 
2.43.0


From 4f12ecc5fc1de04ab9db60676670fae3fec18807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 018/106] fix: char_to_hex_digit: letters are worth 10 to 15

---
 code/header/core/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 764c5ab..36d6a9b 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -149,9 +149,9 @@ ZPL_IMPL_INLINE zpl_u8 zpl_char_to_hex_digit(char c) {
     if (c >= '0' && c <= '9')
         return (zpl_u8)(c - '0');
     if (c >= 'a' && c <= 'f')
-        return (zpl_u8)(c - 'a');
+        return (zpl_u8)(c - 'a' + 10);
     if (c >= 'A' && c <= 'F')
-        return (zpl_u8)(c - 'A');
+        return (zpl_u8)(c - 'A' + 10);
     return 0;
 }
 
-- 
2.43.0


From fc1ca26a9ba1514e40706900ba1e6c79bdd884cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 019/106] fix: strnlen: stop at the terminator

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 36d6a9b..7d3bb1f 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -179,9 +179,9 @@ ZPL_IMPL_INLINE zpl_isize zpl_strlen(const char *str) {
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_strnlen(const char *str, zpl_isize max_len) {
-    const char *end = cast(const char *) zpl_memchr(str, 0, max_len);
-    if (end) return end - str;
-    return max_len;
+    zpl_isize len = 0;
+    while (len < max_len && str[len]) len++;
+    return len;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
-- 
2.43.0


From 53cfa436abc227a22bb3656106b3813f49018add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 020/106] fix: strntok: leave room for the terminator

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 7d3bb1f..1782aa4 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -321,7 +321,7 @@ ZPL_IMPL_INLINE const char *zpl_strtok(char *output, const char *src, const char
 ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char *src, const char *delimit) {
     ZPL_ASSERT(len > 0);
     *(output+len-1) = 0;
-    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 0) {
+    while (*src && zpl_char_first_occurence(delimit, *src) == NULL && len > 1) {
         *output++ = *src++;
         len --;
     }
-- 
2.43.0


From 57d165b6f5065b1aadfee057a448559564913758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 021/106] fix: str_control_skip/str_skip_literal: stay inside
 the string

---
 code/header/core/string.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 1782aa4..0262719 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -341,7 +341,8 @@ ZPL_IMPL_INLINE zpl_b32 zpl__is_delim_char(char c) { return !!zpl_strchr(",|\n",
 
 
 ZPL_IMPL_INLINE char const *zpl_str_control_skip(char const *str, char c) {
-    while ((*str && *str != c) || (*(str - 1) == '\\' && *str == c && zpl_char_is_control(c))) { ++str; }
+    char const *start = str;
+    while (*str && (*str != c || (str != start && *(str - 1) == '\\' && zpl_char_is_control(c)))) { ++str; }
 
     return str;
 }
@@ -404,7 +405,7 @@ ZPL_IMPL_INLINE char const *zpl_str_skip_literal(char const *str, char c) {
         return str;
     str++;
 
-    while ((*str && *str != c) || (*str == c && *(str-1) == '\\')) { ++str; }
+    while (*str && (*str != c || *(str-1) == '\\')) { ++str; }
     return str;
 }
 
-- 
2.43.0


From f253d67939e72e7b0396be9b7c56f0e411b0e6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 022/106] fix: strdup: check the allocation and terminate the
 copy

---
 code/header/core/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 0262719..2531467 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -427,10 +427,10 @@ ZPL_IMPL_INLINE zpl_f32 zpl_str_to_f32(const char *str, char **end_ptr) {
 
 ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len) {
     ZPL_ASSERT_NOT_NULL(src);
-    zpl_isize len = zpl_strlen(src);
-    char *dest = cast(char *) zpl_alloc(a, max_len);
-    zpl_memset(dest + len, 0, max_len - len);
+    char *dest = cast(char *) zpl_alloc(a, max_len + 1);
+    if (!dest) return NULL;
     zpl_strncpy(dest, src, max_len);
+    dest[max_len] = '\0';
 
     return dest;
 }
-- 
2.43.0


From bf7c8715089d9337809e20832b66b04382fa5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 023/106] fix: str_split_lines: stop at the end of the text

---
 code/header/core/string.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 2531467..f16f348 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -437,21 +437,18 @@ ZPL_IMPL_INLINE char *zpl_strdup(zpl_allocator a, char *src, zpl_isize max_len)
 
 ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zpl_b32 strip_whitespace) {
     char **lines = NULL, *p = source, *pd = p;
-    zpl_array_init(lines, alloc);
+    if (!zpl_array_init(lines, alloc)) return NULL;
 
-    while (*p) {
+    while (*pd) {
         if (*pd == '\n') {
             *pd = 0;
-            if (*(pd - 1) == '\r') *(pd - 1) = 0;
-            if (strip_whitespace && (pd - p) == 0) {
-                p = pd + 1;
-                continue;
-            }
-            zpl_array_append(lines, p);
+            if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
+            if (!strip_whitespace || (pd - p) != 0) zpl_array_append(lines, p);
             p = pd + 1;
         }
         ++pd;
     }
+    if (*p) zpl_array_append(lines, p);
     return lines;
 }
 
-- 
2.43.0


From 16a966d0996e986544a16a38da2582974ab1d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 024/106] fix: utf-8/ucs-2: do not step over the terminator or
 an empty buffer

---
 code/header/core/string.h | 7 +++----
 code/source/core/string.c | 3 +++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index f16f348..02a6e2a 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -200,14 +200,14 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strlen(zpl_u8 const *str) {
         else
             return -1;
 
-        str += inc;
+        for (; inc > 0 && *str; inc--) str++;
     }
     return count;
 }
 
 ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len) {
     zpl_isize count = 0;
-    for (; *str && max_len > 0; count++) {
+    for (; max_len > 0 && *str; count++) {
         zpl_u8 c = *str;
         zpl_isize inc = 0;
         if (c < 0x80)
@@ -221,8 +221,7 @@ ZPL_IMPL_INLINE zpl_isize zpl_utf8_strnlen(zpl_u8 const *str, zpl_isize max_len)
         else
             return -1;
 
-        str += inc;
-        max_len -= inc;
+        for (; inc > 0 && max_len > 0 && *str; inc--) str++, max_len--;
     }
     return count;
 }
diff --git a/code/source/core/string.c b/code/source/core/string.c
index 76d837c..da95e7c 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -221,6 +221,7 @@ zpl_f64 zpl_str_to_f64(const char *str, char **end_ptr) {
 zpl_u16 *zpl_utf8_to_ucs2(zpl_u16 *buffer, zpl_isize len, zpl_u8 const *str) {
     zpl_rune c;
     zpl_isize i = 0;
+    if (len < 1) return NULL;
     len--;
     while (*str) {
         if (i >= len) return NULL;
@@ -270,6 +271,7 @@ zpl_u16 *zpl_utf8_to_ucs2(zpl_u16 *buffer, zpl_isize len, zpl_u8 const *str) {
 
 zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
     zpl_isize i = 0;
+    if (len < 1) return NULL;
     len--;
     while (*str) {
         if (*str < 0x80) {
@@ -283,6 +285,7 @@ zpl_u8 *zpl_ucs2_to_utf8(zpl_u8 *buffer, zpl_isize len, zpl_u16 const *str) {
         } else if (*str >= 0xd800 && *str < 0xdc00) {
             zpl_rune c;
             if (i + 4 > len) return NULL;
+            if (str[1] < 0xdc00 || str[1] > 0xdfff) return NULL;
             c = ((str[0] - 0xd800) << 10) + ((str[1]) - 0xdc00) + 0x10000;
             buffer[i++] = cast(char)(0xf0 + (c >> 18));
             buffer[i++] = cast(char)(0x80 + ((c >> 12) & 0x3f));
-- 
2.43.0


From 3ad6261ff6db59135cea3c9ddbfc9777f7471c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:04 +0000
Subject: [PATCH 025/106] fix: i64 text conversion: no overflow, digits must
 belong to the base

---
 code/source/core/string.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/code/source/core/string.c b/code/source/core/string.c
index da95e7c..586958d 100644
--- a/code/source/core/string.c
+++ b/code/source/core/string.c
@@ -10,7 +10,7 @@ ZPL_BEGIN_C_DECLS
 
 zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64 *value) {
     const char *text_begin = text;
-    zpl_i64 result = 0;
+    zpl_u64 result = 0;
     zpl_b32 negative = false;
 
     if (*text == '-') {
@@ -21,7 +21,7 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
     if (base == 16 && zpl_strncmp(text, "0x", 2) == 0) text += 2;
 
     for (;;) {
-        zpl_i64 v;
+        zpl_u64 v;
         if (zpl_char_is_digit(*text))
             v = *text - '0';
         else if (base == 16 && zpl_char_is_hex_digit(*text))
@@ -29,14 +29,15 @@ zpl_internal zpl_isize zpl__scan_zpl_i64(const char *text, zpl_i32 base, zpl_i64
         else
             break;
 
+        if (v >= cast(zpl_u64) base) break;
         result *= base;
         result += v;
         text++;
     }
 
     if (value) {
-        if (negative) result = -result;
-        *value = result;
+        if (negative) result = 0 - result;
+        *value = cast(zpl_i64) result;
     }
 
     return (text - text_begin);
@@ -58,6 +59,7 @@ zpl_internal zpl_isize zpl__scan_zpl_u64(const char *text, zpl_i32 base, zpl_u64
             break;
         }
 
+        if (v >= cast(zpl_u64) base) break;
         result *= base;
         result += v;
         text++;
@@ -114,10 +116,9 @@ void zpl_i64_to_str(zpl_i64 value, char *string, zpl_i32 base) {
 
     if (value < 0) {
         negative = true;
-        value = -value;
     }
 
-    v = cast(zpl_u64) value;
+    v = negative ? 0 - cast(zpl_u64) value : cast(zpl_u64) value;
     if (v != 0) {
         while (v > 0) {
             *buf++ = zpl__num_to_char_table[v % base];
-- 
2.43.0


From 6d9d0587fd1810ca04edcb3359042b3d119f0983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 026/106] fix: string join/append: survive failed allocations

---
 code/source/core/stringlib.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 6db304b..02cbc72 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -65,6 +65,7 @@ zpl_string zpl_string_sprintf(zpl_allocator a, char *buf, zpl_isize num_bytes, c
 }
 
 zpl_string zpl_string_append_length(zpl_string str, void const *other, zpl_isize other_len) {
+    if (str == NULL) return NULL;
     if (other_len > 0) {
         zpl_isize curr_len = zpl_string_length(str);
 
@@ -88,12 +89,16 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts
 
     ret = zpl_string_make(a, NULL);
 
-    for (i=0; i<count; ++i) {
-        ret = zpl_string_appendc(ret, parts[i]);
+    for (i=0; ret && i<count; ++i) {
+        zpl_string next = zpl_string_appendc(ret, parts[i]);
 
-        if ((i+1) < count) {
-            ret = zpl_string_appendc(ret, glue);
+        if (next && (i+1) < count) {
+            ret = next;
+            next = zpl_string_appendc(ret, glue);
         }
+
+        if (!next) zpl_string_free(ret);
+        ret = next;
     }
 
     return ret;
-- 
2.43.0


From 2645d3e80171f7d7e6d6593970ff1c19591d5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 027/106] fix: char_is_control: NUL is not a control escape

---
 code/header/core/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 02a6e2a..617a4c1 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -331,7 +331,7 @@ ZPL_IMPL_INLINE const char *zpl_strntok(char *output, zpl_isize len, const char
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl_char_is_control(char c) {
-    return !!zpl_strchr("\"\\/bfnrt", c);
+    return c && !!zpl_strchr("\"\\/bfnrt", c);
 }
 
 ZPL_IMPL_INLINE zpl_b32 zpl__is_special_char(char c) { return !!zpl_strchr("<>:/", c); }
-- 
2.43.0


From f2026fdc9ef93d6376289bafb006821f63272d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 028/106] fix: formatted printing stays inside the given buffer
 and reports truncation

---
 code/source/core/print.c | 119 +++++++++++++++++----------------------
 1 file changed, 53 insertions(+), 66 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b01e199..dfa874e 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -14,6 +14,7 @@ zpl_isize zpl_printf_err_va(char const *fmt, va_list va) {
 zpl_isize zpl_fprintf_va(struct zpl_file *f, char const *fmt, va_list va) {
     zpl_local_persist zpl_thread_local char buf[ZPL_PRINTF_MAXLEN];
     zpl_isize len = zpl_snprintf_va(buf, zpl_size_of(buf), fmt, va);
+    if (len < 0) return -1;
     zpl_b32 res = zpl_file_write(f, buf, len - 1); // NOTE: prevent extra whitespace
     return res ? len : -1;
 }
@@ -122,15 +123,18 @@ typedef struct {
     zpl_i32 precision;
 } zpl__format_info;
 
+// NOTE: copies what fits, returns the length of the whole text
+zpl_internal zpl_isize zpl__print_copy(char *text, zpl_isize max_len, char const *str, zpl_isize len) {
+    if (max_len > 0) zpl_strlcpy(text, str, zpl_min(len, max_len));
+    return len;
+}
+
 zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__format_info *info, char const *str) {
     zpl_isize res = 0, len = 0;
     zpl_isize remaining = max_len;
     char *begin = text;
 
-    if (str == NULL && max_len >= 6) {
-        res += zpl_strlcpy(text, "(null)", 6);
-        return res;
-    }
+    if (str == NULL) str = "(null)";
 
     if (info && info->precision >= 0)
         len = zpl_strnlen(str, info->precision);
@@ -143,32 +147,32 @@ zpl_internal zpl_isize zpl__print_string(char *text, zpl_isize max_len, zpl__for
 
     if (info && (info->width == 0 || info->flags & ZPL_FMT_MINUS)) {
         if (info->precision > 0) len = info->precision < len ? info->precision : len;
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
-        text += res;
+        res += zpl__print_copy(text, remaining, str, len);
+        text += zpl_min(res, remaining);
+        remaining -= zpl_min(res, remaining);
 
         if (info->width > res) {
             zpl_isize padding = info->width - len;
 
             char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
+            for (; padding > 0 && remaining > 0; padding--, remaining--) *text++ = pad, res++;
+            res += zpl_max(padding, 0);
         }
     } else {
         if (info && (info->width > res)) {
             zpl_isize padding = info->width - len;
             char pad = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-            while (padding-- > 0 && remaining-- > 0) *text++ = pad, res++;
+            for (; padding > 0 && remaining > 0; padding--, remaining--) *text++ = pad, res++;
+            res += zpl_max(padding, 0);
         }
 
-        if (res+len > max_len) return res;
-        res += zpl_strlcpy(text, str, len);
+        res += zpl__print_copy(text, remaining, str, len);
     }
 
-    if (info) {
-        if (info->flags & ZPL_FMT_UPPER)
-            zpl_str_to_upper(begin);
-        else if (info->flags & ZPL_FMT_LOWER)
-            zpl_str_to_lower(begin);
+    if (info && (info->flags & (ZPL_FMT_UPPER | ZPL_FMT_LOWER))) {
+        // NOTE: the text is not terminated yet
+        for (len = zpl_min(res, max_len); len-- > 0; begin++)
+            *begin = (info->flags & ZPL_FMT_UPPER) ? zpl_char_to_upper(*begin) : zpl_char_to_lower(*begin);
     }
 
     return res;
@@ -184,7 +188,7 @@ zpl_internal zpl_isize zpl__print_repeated_char(char *text, zpl_isize max_len, z
     zpl_isize res = 0;
     zpl_i32 rem = (info) ? (info->width > 0) ? info->width : 1 : 1;
     res = rem;
-    while (rem-- > 0) *text++ = arg;
+    while (rem-- > 0 && max_len-- > 0) *text++ = arg;
 
     return res;
 }
@@ -203,92 +207,74 @@ zpl_internal zpl_isize zpl__print_u64(char *text, zpl_isize max_len, zpl__format
 
 zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format_info *info, zpl_b32 is_hexadecimal, zpl_f64 arg) {
     // TODO: Handle exponent notation
-    zpl_isize width, len, remaining = max_len;
-    char *text_begin = text;
+    zpl_isize width, i, len = 0;
 
     if (arg) {
         zpl_u64 value;
         if (arg < 0) {
-            if (remaining > 1) *text = '-', remaining--;
-            text++;
+            len += zpl__print_copy(text, max_len, "-", 1);
             arg = -arg;
         } else if (info->flags & ZPL_FMT_MINUS) {
-            if (remaining > 1) *text = '+', remaining--;
-            text++;
+            len += zpl__print_copy(text, max_len, "+", 1);
         }
 
         value = cast(zpl_u64) arg;
-        len = zpl__print_u64(text, remaining, NULL, value);
-        text += len;
-
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        i = zpl_min(len, max_len);
+        len += zpl__print_u64(text + i, max_len - i, NULL, value);
         arg -= value;
 
         if (info->precision < 0) info->precision = 6;
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
             zpl_i64 mult = 10;
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
+            i = zpl_min(len, max_len);
+            len += zpl__print_copy(text + i, max_len - i, ".", 1);
             while (info->precision-- > 0) {
                 value = cast(zpl_u64)(arg * mult);
-                len = zpl__print_u64(text, remaining, NULL, value);
-                text += len;
-                if (len >= remaining)
-                    remaining = zpl_min(remaining, 1);
-                else
-                    remaining -= len;
+                i = zpl_min(len, max_len);
+                len += zpl__print_u64(text + i, max_len - i, NULL, value);
                 arg -= cast(zpl_f64) value / mult;
                 mult *= 10;
             }
         }
     } else {
-        if (remaining > 1) *text = '0', remaining--;
-        text++;
+        len += zpl__print_copy(text, max_len, "0", 1);
         if (info->flags & ZPL_FMT_ALT) {
-            if (remaining > 1) *text = '.', remaining--;
-            text++;
+            i = zpl_min(len, max_len);
+            len += zpl__print_copy(text + i, max_len - i, ".", 1);
         }
     }
 
-    width = info->width - (text - text_begin);
+    width = info->width - len;
     if (width > 0) {
         char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
-        char *end = text + remaining - 1;
-        len = (text - text_begin);
 
-        for (len = (text - text_begin); len--;) {
-            if ((text_begin + len + width) < end) *(text_begin + len + width) = *(text_begin + len);
+        for (i = len; i--;) {
+            if (i + width < max_len) text[i + width] = text[i];
         }
 
-        len = width;
-        text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
-
-        while (len--) {
-            if (text_begin + len < end) text_begin[len] = fill;
-        }
+        for (i = zpl_min(width, max_len); i--;) text[i] = fill;
+        len += width;
     }
 
-    return (text - text_begin);
+    return len;
 }
 
 ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char const *fmt, va_list va) {
     char const *text_begin = text;
-    zpl_isize remaining = max_len, res;
+    // NOTE: one byte is kept for the terminator
+    zpl_isize remaining = zpl_max(max_len - 1, 0), res;
+    zpl_b32 truncated = max_len <= 0;
 
     while (*fmt) {
         zpl__format_info info = { 0 };
         zpl_isize len = 0;
         info.precision = -1;
 
-        while (*fmt && *fmt != '%' && remaining) *text++ = *fmt++;
+        for (; *fmt && *fmt != '%'; fmt++) {
+            if (remaining > 0) *text++ = *fmt, remaining--;
+            else truncated = true;
+        }
 
         if (*fmt == '%') {
             do {
@@ -441,16 +427,17 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             }
         }
 
+        if (len > remaining) {
+            truncated = true;
+            len = remaining;
+        }
         text += len;
-        if (len >= remaining)
-            remaining = zpl_min(remaining, 1);
-        else
-            remaining -= len;
+        remaining -= len;
     }
 
-    *text++ = '\0';
+    if (max_len > 0) *text++ = '\0';
     res = (text - text_begin);
-    return (res >= max_len || res < 0) ? -1 : res;
+    return truncated ? -1 : res;
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 2e55327f327dd61063500ebed62b3b2a731f6e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 029/106] fix: memory streams read and write only inside their
 buffer

---
 code/source/core/file_stream.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/code/source/core/file_stream.c b/code/source/core/file_stream.c
index bbf0651..d59900c 100644
--- a/code/source/core/file_stream.c
+++ b/code/source/core/file_stream.c
@@ -45,7 +45,10 @@ zpl_b8 zpl_file_stream_new(zpl_file* file, zpl_allocator allocator) {
     d->alloc = allocator;
     d->flags = ZPL_FILE_STREAM_CLONE_WRITABLE;
     d->cap = 0;
-    if (!zpl_array_init(d->buf, allocator)) return false;
+    if (!zpl_array_init(d->buf, allocator)) {
+        zpl_free(allocator, d);
+        return false;
+    }
     file->ops = zpl_memory_file_operations;
     file->fd = zpl__file_stream_fd_make(d);
     file->dir = NULL;
@@ -63,7 +66,10 @@ zpl_b8 zpl_file_stream_open(zpl_file* file, zpl_allocator allocator, zpl_u8 *buf
     d->alloc = allocator;
     d->flags = flags;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
-        if (!zpl_array_init_reserve(d->buf, allocator, size)) return false;
+        if (!zpl_array_init_reserve(d->buf, allocator, size)) {
+            zpl_free(allocator, d);
+            return false;
+        }
         zpl_memcopy(d->buf, buffer, size);
         d->cap = zpl_array_count(d->buf) = size;
     } else {
@@ -103,8 +109,10 @@ zpl_internal ZPL_FILE_SEEK_PROC(zpl__memory_file_seek) {
 zpl_internal ZPL_FILE_READ_AT_PROC(zpl__memory_file_read) {
     zpl_unused(stop_at_newline);
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
-    zpl_memcopy(buffer, d->buf + offset, size);
-    if (bytes_read) *bytes_read = size;
+    if (offset < 0 || size < 0) return false;
+    zpl_isize rlen = zpl_min(size, zpl_max(0, d->cap - offset));
+    if (rlen > 0) zpl_memcopy(buffer, d->buf + offset, rlen);
+    if (bytes_read) *bytes_read = rlen;
     return true;
 }
 
@@ -112,18 +120,20 @@ zpl_internal ZPL_FILE_WRITE_AT_PROC(zpl__memory_file_write) {
     zpl__memory_fd *d = zpl__file_stream_from_fd(fd);
     if (!(d->flags & (ZPL_FILE_STREAM_CLONE_WRITABLE|ZPL_FILE_STREAM_WRITABLE)))
         return false;
+    if (offset < 0 || size < 0 || size > ZPL_ISIZE_MAX - offset) return false;
     zpl_isize buflen = d->cap;
-    zpl_isize extralen = zpl_max(0, size-(buflen-offset));
-    zpl_isize rwlen = size-extralen;
-    zpl_isize new_cap = buflen+extralen;
+    zpl_isize rwlen = zpl_clamp(buflen-offset, 0, size);
+    zpl_isize extralen = size-rwlen;
+    zpl_isize new_cap = extralen > 0 ? offset+size : buflen;
     if (d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) {
         if(zpl_array_capacity(d->buf) < new_cap) {
             if (!zpl_array_grow(d->buf, (zpl_i64)(new_cap))) return false;
         }
     }
-    zpl_memcopy(d->buf + offset, buffer, rwlen);
+    if (rwlen > 0) zpl_memcopy(d->buf + offset, buffer, rwlen);
 
     if ((d->flags & ZPL_FILE_STREAM_CLONE_WRITABLE) && extralen > 0) {
+        if (offset > buflen) zpl_memset(d->buf + buflen, 0, offset - buflen);
         zpl_memcopy(d->buf + offset + rwlen, zpl_ptr_add_const(buffer, rwlen), extralen);
         d->cap = zpl_array_count(d->buf) = new_cap;
     } else {
-- 
2.43.0


From 6a2846a99d1df3dd2af78148e0be7d812f707f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 030/106] fix: memory streams at high addresses are closed as
 well

---
 code/source/core/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index c819fee..35fc2cc 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -259,7 +259,7 @@ zpl_file_error zpl_file_close(zpl_file *f) {
 #if defined(ZPL_SYSTEM_WINDOWS)
     if (f->fd.p == INVALID_HANDLE_VALUE) return ZPL_FILE_ERROR_INVALID;
 #else
-    if (f->fd.i < 0) return ZPL_FILE_ERROR_INVALID;
+    if (f->fd.i < 0 && !f->is_temp) return ZPL_FILE_ERROR_INVALID; // NOTE: a stream's descriptor is an address
 #endif
     
     if (f->is_temp)
-- 
2.43.0


From e8870ea56b3976266612e05a011f533a3c0d24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 031/106] fix: closing a file leaves no stale name or
 descriptor; a failed open releases its descriptor

---
 code/source/core/file.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 35fc2cc..8513440 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -231,6 +231,7 @@ zpl_file_error zpl_file_new(zpl_file *f, zpl_file_descriptor fd, zpl_file_operat
     f->dir = NULL;
     f->last_write_time = 0;
     f->filename = zpl_alloc_array(zpl_heap_allocator( ), char, len + 1);
+    if (f->filename == NULL) return ZPL_FILE_ERROR_UNKNOWN;
     zpl_memcopy(cast(char *) f->filename, cast(char *) filename, len + 1);
 
     return err;
@@ -245,7 +246,13 @@ zpl_file_error zpl_file_open_mode(zpl_file *f, zpl_file_mode mode, char const *f
 #else
     err = zpl__posix_file_open(&f->fd, &f->ops, mode, filename);
 #endif
-    if (err == ZPL_FILE_ERROR_NONE) return zpl_file_new(f, f->fd, f->ops, filename);
+    if (err == ZPL_FILE_ERROR_NONE) {
+        err = zpl_file_new(f, f->fd, f->ops, filename);
+        if (err != ZPL_FILE_ERROR_NONE) {
+            f->ops.close(f->fd);
+            f->fd.i = -1;
+        }
+    }
     return err;
 }
 
@@ -255,6 +262,7 @@ zpl_file_error zpl_file_close(zpl_file *f) {
     if (!f) return ZPL_FILE_ERROR_INVALID;
 
     if (f->filename) zpl_free(zpl_heap_allocator( ), cast(char *) f->filename);
+    f->filename = NULL;
 
 #if defined(ZPL_SYSTEM_WINDOWS)
     if (f->fd.p == INVALID_HANDLE_VALUE) return ZPL_FILE_ERROR_INVALID;
@@ -265,11 +273,14 @@ zpl_file_error zpl_file_close(zpl_file *f) {
     if (f->is_temp)
     {
         f->ops.close(f->fd);
+        f->fd.i = -1;
+        f->is_temp = false;
         return ZPL_FILE_ERROR_NONE;
     }
 
     if (!f->ops.read_at) f->ops = zpl_default_file_operations;
     f->ops.close(f->fd);
+    f->fd.i = -1;
 
     if (f->dir) {
         zpl__dirinfo_free_entry(f->dir);
-- 
2.43.0


From c343a7bb982331b93735f3e239c9e0415e95c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 032/106] fix: zpl_file_temp does not leak its stream

---
 code/source/core/file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 8513440..d7ddf0b 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -427,7 +427,10 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
 #if defined(ZPL_SYSTEM_WINDOWS) && !defined(ZPL_COMPILER_GCC)
     file->fd.i = _get_osfhandle(_fileno(fd));
 #else 
-    file->fd.i = fileno(fd);
+    // NOTE: keep the descriptor only, the stream itself is not needed anymore
+    file->fd.i = dup(fileno(fd));
+    fclose(fd);
+    if (file->fd.i < 0) { return ZPL_FILE_ERROR_INVALID; }
 #endif
     file->ops = zpl_default_file_operations;
     file->is_temp = true;
-- 
2.43.0


From 269d32cc00aca05ba26d5420ed8881099d8e8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 033/106] fix: whole-file helpers check every read, write and
 allocation

---
 code/header/core/file.h |  2 +-
 code/source/core/file.c | 43 +++++++++++++++++++++++++++++++++--------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/code/header/core/file.h b/code/header/core/file.h
index 5a6a911..2956548 100644
--- a/code/header/core/file.h
+++ b/code/header/core/file.h
@@ -324,7 +324,7 @@ ZPL_DEF zpl_b32           zpl_file_write_contents(char const* filepath, void con
  * @param  lines            Reference to zpl_array container we store lines to
  * @param  filename         Path to the file
  * @param  strip_whitespace Strip whitespace when we split to lines?
- * @return                  File content we've read itself
+ * @return                  File content we've read itself, NULL (and NULL lines) on failure
  */
 ZPL_DEF char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char const *filename, zpl_b32 strip_whitespace);
 
diff --git a/code/source/core/file.c b/code/source/core/file.c
index d7ddf0b..4340d01 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -437,6 +437,18 @@ zpl_file_error zpl_file_temp(zpl_file *file) {
     return ZPL_FILE_ERROR_NONE;
 }
 
+// NOTE: reads up to size bytes from the start of the file, a short count means the file ended early
+zpl_internal zpl_b32 zpl__file_read_all(zpl_file *f, void *buffer, zpl_isize size, zpl_isize *bytes_read) {
+    zpl_isize total = 0, count = 0;
+    while (total < size) {
+        if (!zpl_file_read_at_check(f, cast(zpl_u8 *) buffer + total, size - total, total, &count)) return false;
+        if (count <= 0) break;
+        total += count;
+    }
+    *bytes_read = total;
+    return true;
+}
+
 zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate, char const *filepath) {
     zpl_file_contents result = { 0 };
     zpl_file file = { 0 };
@@ -454,11 +466,14 @@ zpl_file_contents zpl_file_read_contents(zpl_allocator a, zpl_b32 zero_terminate
         zpl_isize file_size = cast(zpl_isize) zpl_file_size(&file);
         if (file_size > 0) {
             result.data = zpl_alloc(a, zero_terminate ? file_size + 1 : file_size);
-            result.size = file_size;
-            zpl_file_read_at(&file, result.data, result.size, 0);
-            if (zero_terminate) {
+            if (result.data && !zpl__file_read_all(&file, result.data, file_size, &result.size)) {
+                zpl_free(a, result.data);
+                result.data = NULL;
+                result.size = 0;
+            }
+            if (result.data && zero_terminate) {
                 zpl_u8 *str = cast(zpl_u8 *) result.data;
-                str[file_size] = '\0';
+                str[result.size] = '\0';
             }
         }
         zpl_file_close(&file);
@@ -488,21 +503,33 @@ zpl_b32 zpl_file_write_contents(char const* filepath, void const* buffer, zpl_is
         return false;
     }
 
-    write_ok = zpl_file_write(&f, buffer, size);
+    zpl_isize written = 0;
+    write_ok = zpl_file_write_at_check(&f, buffer, size, 0, &written) && written == size;
     zpl_file_close(&f);
+    if (err) *err = write_ok ? ZPL_FILE_ERROR_NONE : ZPL_FILE_ERROR_UNKNOWN;
     return write_ok;
 }
 
 char *zpl_file_read_lines(zpl_allocator alloc, zpl_array(char *)*lines, char const *filename, zpl_b32 strip_whitespace) {
     zpl_file f = { 0 };
-    zpl_file_open(&f, filename);
+    *lines = NULL;
+    if (zpl_file_open(&f, filename) != ZPL_FILE_ERROR_NONE) return NULL;
     zpl_isize fsize = (zpl_isize)zpl_file_size(&f);
 
     char *contents = (char *)zpl_alloc(alloc, fsize + 1);
-    zpl_file_read(&f, contents, fsize);
+    if (contents && !zpl__file_read_all(&f, contents, fsize, &fsize)) {
+        zpl_free(alloc, contents);
+        contents = NULL;
+    }
+    zpl_file_close(&f);
+    if (contents == NULL) return NULL;
+
     contents[fsize] = 0;
     *lines = zpl_str_split_lines(alloc, contents, strip_whitespace);
-    zpl_file_close(&f);
+    if (*lines == NULL) {
+        zpl_free(alloc, contents);
+        return NULL;
+    }
 
     return contents;
 }
-- 
2.43.0


From 7987ab80e805ff37833e79301780fd5ce894189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 034/106] fix: splitting lines reports a failed allocation
 instead of dropping lines

---
 code/header/core/string.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/header/core/string.h b/code/header/core/string.h
index 617a4c1..1fad758 100644
--- a/code/header/core/string.h
+++ b/code/header/core/string.h
@@ -442,12 +442,18 @@ ZPL_IMPL_INLINE char **zpl_str_split_lines(zpl_allocator alloc, char *source, zp
         if (*pd == '\n') {
             *pd = 0;
             if (pd > p && *(pd - 1) == '\r') *(pd - 1) = 0;
-            if (!strip_whitespace || (pd - p) != 0) zpl_array_append(lines, p);
+            if ((!strip_whitespace || (pd - p) != 0) && !zpl_array_append(lines, p)) {
+                zpl_array_free(lines);
+                return NULL;
+            }
             p = pd + 1;
         }
         ++pd;
     }
-    if (*p) zpl_array_append(lines, p);
+    if (*p && !zpl_array_append(lines, p)) {
+        zpl_array_free(lines);
+        return NULL;
+    }
     return lines;
 }
 
-- 
2.43.0


From 5fe66938a528f93b7dad2b61b676bee37f8a3923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 035/106] fix: zpl_fs_last_write_time read an unset stat buffer

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 0cebc0d..57982ab 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -90,7 +90,7 @@ ZPL_BEGIN_C_DECLS
         time_t result = 0;
         struct stat file_stat;
 
-        if (stat(filepath, &file_stat)) result = file_stat.st_mtime;
+        if (stat(filepath, &file_stat) == 0) result = file_stat.st_mtime;
 
         return cast(zpl_file_time) result;
     }
-- 
2.43.0


From 02e32715c09c65b640ee68239362ec27a9256cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 036/106] fix: zpl_fs_copy checks its calls, truncates the
 target and honours fail_if_exists

---
 code/source/core/file_misc.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 57982ab..f6d90a3 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -103,8 +103,8 @@ ZPL_BEGIN_C_DECLS
 
 
     zpl_b32 zpl_fs_copy(char const *existing_filename, char const *new_filename, zpl_b32 fail_if_exists) {
-        zpl_unused(fail_if_exists);
 #    if defined(ZPL_SYSTEM_OSX)
+        if (fail_if_exists && zpl_fs_exists(new_filename)) return false;
         return copyfile(existing_filename, new_filename, NULL, COPYFILE_DATA) == 0;
 #    elif defined(ZPL_SYSTEM_OPENBSD)
         ZPL_NOT_IMPLEMENTED;
@@ -114,22 +114,35 @@ ZPL_BEGIN_C_DECLS
         return 0;
 #    else
         int existing_fd = open(existing_filename, O_RDONLY, 0);
-        struct stat stat_existing;
-        fstat(existing_fd, &stat_existing);
+        if (existing_fd < 0) return false;
+        struct stat stat_existing, stat_new;
+        zpl_isize size = 0;
+        int new_fd = -1;
+        zpl_b32 result = false;
 
-        zpl_isize size;
-        int new_fd = open(new_filename, O_WRONLY | O_CREAT, stat_existing.st_mode);
+        if (fstat(existing_fd, &stat_existing) == 0)
+            new_fd = open(new_filename, O_WRONLY | O_CREAT | (fail_if_exists ? O_EXCL : 0), stat_existing.st_mode);
 
+        // NOTE: a file is never copied over itself
+        if (new_fd >= 0 && fstat(new_fd, &stat_new) == 0
+            && !(stat_new.st_dev == stat_existing.st_dev && stat_new.st_ino == stat_existing.st_ino)
+            && ftruncate(new_fd, 0) == 0) {
 #    if defined(ZPL_SYSTEM_FREEBSD)
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
+            size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size, NULL, 0, 0);
 #    else
-        size = sendfile(new_fd, existing_fd, 0, stat_existing.st_size);
+            while (size < stat_existing.st_size) {
+                zpl_isize sent = sendfile(new_fd, existing_fd, 0, stat_existing.st_size - size);
+                if (sent <= 0) break;
+                size += sent;
+            }
 #    endif
+            result = size == stat_existing.st_size;
+        }
 
-        close(new_fd);
+        if (new_fd >= 0 && close(new_fd) != 0) result = false;
         close(existing_fd);
 
-        return size == stat_existing.st_size;
+        return result;
 #    endif
     }
 
-- 
2.43.0


From fd3073a2ff13f3a0ec7d74da5f86b9fe3c65770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 037/106] fix: zpl_path_get_full_name frees the resolved path
 with the allocator it came from

---
 code/source/core/file_misc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index f6d90a3..fc8c412 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -214,9 +214,11 @@ char *zpl_path_get_full_name(zpl_allocator a, char const *path) {
     len = zpl_strlen(fullpath);
 
     result = zpl_alloc_array(a, char, len + 1);
-    zpl_memmove(result, fullpath, len);
-    result[len] = 0;
-    zpl_free(a, p);
+    if (result) {
+        zpl_memmove(result, fullpath, len);
+        result[len] = 0;
+    }
+    free(p); // NOTE: owned by the C library
 
     return result;
 #endif
-- 
2.43.0


From 471d1c099ddbf9283501ff6960fa6e4f708f8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 038/106] fix: zpl_path_mkdir_recursive reports when the
 directory was not created

---
 code/source/core/file_misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index fc8c412..2b38b22 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -261,8 +261,8 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
             *p = ZPL_PATH_SEPARATOR;
         }
     }
-    zpl_path_mkdir(tmp, mode);
-    return 0;
+    zpl_file_error err = zpl_path_mkdir(tmp, mode);
+    return (err == ZPL_FILE_ERROR_NONE || err == ZPL_FILE_ERROR_EXISTS) ? 0 : -1;
 }
 
 zpl_file_error zpl_path_rmdir(char const *path) {
-- 
2.43.0


From bcda6a480e38fc419bcab72823003037013b7348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 039/106] fix: directory listing closes its handles and keeps
 names that begin with two dots

---
 code/source/core/file_misc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 2b38b22..c24f41a 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -288,14 +288,14 @@ zpl_file_error zpl_path_rmdir(char const *path) {
 
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
-    DIR *d, *cd;
+    DIR *d;
     struct dirent *dir;
     d = opendir(dirname);
 
     if (d) {
         while ((dir = readdir(d))) {
             if (dir == 0) break;
-            if (!zpl_strncmp(dir->d_name, "..", 2)) continue;
+            if (!zpl_strcmp(dir->d_name, "..")) continue;
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
@@ -305,9 +305,10 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             *output = zpl_string_appendc(*output, dirpath);
             *output = zpl_string_appendc(*output, "\n");
 
-            if (recurse && (cd = opendir(dirpath)) != NULL && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && dirpath && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
+        closedir(d);
     }
 #elif defined(ZPL_SYSTEM_WINDOWS)
     zpl_usize length = zpl_strlen(dirname);
-- 
2.43.0


From bfebd9d4d2a8de541c1eced7382a704c4226f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 040/106] fix: directory info sizes its path, handles parents
 of any length and failed allocations

---
 code/source/core/file_misc.c | 57 ++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index c24f41a..ca0d084 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -286,6 +286,13 @@ zpl_file_error zpl_path_rmdir(char const *path) {
     return ZPL_FILE_ERROR_UNKNOWN;
 }
 
+// NOTE: releases the string when it can not grow, the caller sees NULL
+zpl_internal void zpl__path_append(zpl_string *str, char const *text) {
+    zpl_string next = zpl_string_appendc(*str, text);
+    if (next == NULL) zpl_string_free(*str);
+    *str = next;
+}
+
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
     DIR *d;
@@ -299,13 +306,19 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             if (dir->d_name[0] == '.' && dir->d_name[1] == 0) continue;
 
             zpl_string dirpath = zpl_string_make(alloc, dirname);
-            dirpath = zpl_string_appendc(dirpath, "/");
-            dirpath = zpl_string_appendc(dirpath, dir->d_name);
+            zpl__path_append(&dirpath, "/");
+            zpl__path_append(&dirpath, dir->d_name);
 
-            *output = zpl_string_appendc(*output, dirpath);
-            *output = zpl_string_appendc(*output, "\n");
+            if (dirpath == NULL) {
+                zpl_string_free(*output);
+                *output = NULL;
+                break;
+            }
+
+            zpl__path_append(output, dirpath);
+            zpl__path_append(output, "\n");
 
-            if (recurse && dirpath && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && *output && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
         closedir(d);
@@ -370,23 +383,23 @@ void zpl_dirinfo_init(zpl_dir_info *dir, char const *path) {
 
     zpl_dir_info dir_ = {0};
     *dir = dir_;
-    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path));
-    zpl_strcpy((char *)dir->fullpath, path);
-
+    dir->fullpath = (char const*)zpl_malloc(zpl_strlen(path) + 1);
+    if (dir->fullpath) zpl_strcpy((char *)dir->fullpath, path);
 
     zpl_string dirlist = zpl_path_dirlist(zpl_heap(), path, false);
-    char **files=zpl_str_split_lines(zpl_heap(), dirlist, false);
+    char **files = dirlist ? zpl_str_split_lines(zpl_heap(), dirlist, false) : NULL;
     dir->filenames = files;
     dir->buf = dirlist;
 
-    zpl_array_init(dir->entries, zpl_heap());
+    if (!zpl_array_init(dir->entries, zpl_heap())) dir->entries = NULL;
+    if (files == NULL || dir->entries == NULL) return;
 
     for (zpl_i32 i=0; i<zpl_array_count(files); ++i) {
         zpl_dir_entry entry = {0};
         entry.filename = files[i];
         entry.type = zpl_fs_get_type(entry.filename);
 
-        zpl_array_append(dir->entries, entry);
+        if (!zpl_array_append(dir->entries, entry)) break;
     }
 }
 
@@ -401,7 +414,7 @@ zpl_internal void zpl__dirinfo_free_entry(zpl_dir_entry *entry) {
 void zpl_dirinfo_free(zpl_dir_info *dir) {
     ZPL_ASSERT_NOT_NULL(dir);
 
-    for (zpl_isize i = 0; i < zpl_array_count(dir->entries); ++i) {
+    for (zpl_isize i = 0; dir->entries && i < zpl_array_count(dir->entries); ++i) {
         zpl__dirinfo_free_entry(dir->entries + i);
     }
 
@@ -445,20 +458,31 @@ void zpl_dirinfo_step(zpl_dir_entry *entry) {
     }
 
     entry->dir_info = (zpl_dir_info *)zpl_malloc(sizeof(zpl_dir_info));
+    if (entry->dir_info == NULL) return;
     zpl_dir_info dir_ = {0};
     *entry->dir_info = dir_;
 
-    zpl_local_persist char buf[128] = {0};
+    zpl_string parent = NULL;
     char const *path = entry->filename;
 
     if (entry->type != ZPL_DIR_TYPE_FOLDER) {
         zpl_path_fix_slashes((char *)path);
         char const* slash = zpl_char_last_occurence(path, ZPL_PATH_SEPARATOR);
-        zpl_strncpy(buf, path, slash-path);
-        path = buf;
+        if (slash) {
+            parent = zpl_string_make_length(zpl_heap(), path, zpl_max(slash-path, 1));
+            path = parent;
+        } else {
+            path = ".";
+        }
     }
 
-    zpl_dirinfo_init(entry->dir_info, path);
+    if (path) {
+        zpl_dirinfo_init(entry->dir_info, path);
+    } else {
+        zpl_mfree(entry->dir_info);
+        entry->dir_info = NULL;
+    }
+    zpl_string_free(parent);
 }
 
 void zpl_file_dirinfo_refresh(zpl_file *file) {
@@ -472,6 +496,7 @@ void zpl_file_dirinfo_refresh(zpl_file *file) {
     }
 
     file->dir = (zpl_dir_entry *)zpl_malloc(sizeof(zpl_dir_entry));
+    if (file->dir == NULL) return;
     zpl_dir_entry dir_ = {0};
     *file->dir = dir_;
     file->dir->filename = file->filename;
-- 
2.43.0


From c3a18ea7edbab2fe711d39068f6a6954c8f84f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 041/106] fix: virtual memory trims the trailing range and
 reports what the system reports

---
 code/source/core/memory_virtual.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/source/core/memory_virtual.c b/code/source/core/memory_virtual.c
index 7f16908..aa66088 100644
--- a/code/source/core/memory_virtual.c
+++ b/code/source/core/memory_virtual.c
@@ -78,12 +78,12 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         ZPL_ASSERT(size > 0);
         vm.data = mmap(addr, size, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
         vm.size = size;
+        if (vm.data == MAP_FAILED) return zpl_vm(NULL, 0);
         return vm;
     }
 
     zpl_b32 zpl_vm_free(zpl_virtual_memory vm) {
-        munmap(vm.data, vm.size);
-        return true;
+        return munmap(vm.data, vm.size) == 0;
     }
 
     zpl_virtual_memory zpl_vm_trim(zpl_virtual_memory vm, zpl_isize lead_size, zpl_isize size) {
@@ -95,13 +95,13 @@ zpl_virtual_memory zpl_vm(void *data, zpl_isize size) {
         trail_size = vm.size - lead_size - size;
 
         if (lead_size != 0) zpl_vm_free(zpl_vm(vm.data, lead_size));
-        if (trail_size != 0) zpl_vm_free(zpl_vm(ptr, trail_size));
+        if (trail_size != 0) zpl_vm_free(zpl_vm(zpl_pointer_add(ptr, size), trail_size));
         return zpl_vm(ptr, size);
     }
 
     zpl_b32 zpl_vm_purge(zpl_virtual_memory vm) {
         int err = madvise(vm.data, vm.size, MADV_DONTNEED);
-        return err != 0;
+        return err == 0;
     }
 
     zpl_isize zpl_virtual_memory_page_size(zpl_isize *alignment_out) {
-- 
2.43.0


From 0512c80cdeee83d5c029a55f1367ce6094f18ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 042/106] fix: tar writer keeps whole names and sizes and
 checks its writes

---
 code/source/core/file_tar.c | 45 +++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 911a8a9..5965ed0 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -25,13 +25,20 @@ zpl_internal zpl_usize zpl__tar_checksum(zpl__tar_header *hr) {
     return res;
 }
 
-zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
-    char *out = zpl_bprintf("%*r", cnt, '\0');
-    if (!zpl_file_write(archive, out, cnt))
+zpl_internal zpl_b32 zpl__tar_write(zpl_file *archive, void const *data, zpl_isize size) {
+    zpl_i64 pos = zpl_file_tell(archive);
+    zpl_isize written = 0;
+    if (!zpl_file_write_at_check(archive, data, size, pos, &written) || written != size)
         return 0;
+    zpl_file_seek(archive, pos + size);
     return 1;
 }
 
+zpl_internal zpl_b32 zpl__tar_write_null(zpl_file *archive, zpl_isize cnt) {
+    char out[zpl_size_of(zpl__tar_header) * 2] = {0};
+    return zpl__tar_write(archive, out, cnt);
+}
+
 zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_len) {
     ZPL_ASSERT_NOT_NULL(archive);
     ZPL_ASSERT_NOT_NULL(paths);
@@ -40,6 +47,13 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         ZPL_ASSERT_NOT_NULL(paths[i]);
         zpl__tar_header hr = {0};
         zpl_file file;
+
+        if (zpl_fs_get_type(paths[i]) == ZPL_DIR_TYPE_FOLDER)
+            continue; /* folders are implied by their files */
+
+        if (zpl_strlen(paths[i]) >= zpl_size_of(hr.name))
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+
         zpl_file_error ferr = zpl_file_open_mode(&file, ZPL_FILE_MODE_READ, paths[i]);
         if (ferr == ZPL_FILE_ERROR_NOT_EXISTS) {
             return -(ZPL_TAR_ERROR_FILE_NOT_FOUND);
@@ -48,14 +62,20 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
         }
 
         zpl_i64 file_size = zpl_file_size(&file);
-        zpl_snprintf(hr.name, 12, "%s", paths[i]);
-        zpl_snprintf(hr.size, 12, "%o", file_size);
+        if (zpl_snprintf(hr.size, 12, "%llo", cast(long long)file_size) < 0) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_INVALID_INPUT);
+        }
+        zpl_snprintf(hr.name, zpl_size_of(hr.name), "%s", paths[i]);
         zpl_snprintf(hr.mode, 8, "%o", 0664);
-        zpl_snprintf(hr.mtime, 12, "%o", zpl_fs_last_write_time(paths[i]));
+        zpl_snprintf(hr.mtime, 12, "%llo", cast(long long)zpl_fs_last_write_time(paths[i]));
         hr.type = ZPL_TAR_TYPE_REGULAR;
-        zpl_snprintf(hr.checksum, 8, "%o", zpl__tar_checksum(&hr));
+        zpl_snprintf(hr.checksum, 8, "%llo", cast(long long)zpl__tar_checksum(&hr));
 
-        zpl_file_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header));
+        if (!zpl__tar_write(archive, cast(void*)(&hr), zpl_size_of(zpl__tar_header))) {
+            zpl_file_close(&file);
+            return -(ZPL_TAR_ERROR_IO_ERROR);
+        }
 
         // write data
         {
@@ -65,19 +85,16 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
             char buf[4096] = {0};
             zpl_i64 pos = 0;
             zpl_isize bytes_read = 0;
-            do {
-                if (!zpl_file_read_at_check(&file, buf, 4096, pos, &bytes_read)) {
+            while (remaining_data > 0) {
+                if (!zpl_file_read_at_check(&file, buf, zpl_min(4096, remaining_data), pos, &bytes_read)
+                    || bytes_read == 0 || !zpl__tar_write(archive, buf, bytes_read)) {
                     zpl_file_close(&file);
                     return -(ZPL_TAR_ERROR_IO_ERROR);
-                } else if (bytes_read == 0) {
-                    break;
                 }
 
-                zpl_file_write(archive, buf, bytes_read);
                 pos += bytes_read;
                 remaining_data -= bytes_read;
             }
-            while (remaining_data > 0);
 
             if (padding > 0) {
                 if (!zpl__tar_write_null(archive, padding)) {
-- 
2.43.0


From a08c5164e0ed1266aa77afc36e391d5cbcd8aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 043/106] fix: zpl_tar_pack_dir reports failed allocations

---
 code/source/core/file_tar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index 5965ed0..ae6cc55 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -116,7 +116,11 @@ zpl_isize zpl_tar_pack(zpl_file *archive, char const **paths, zpl_isize paths_le
 
 zpl_isize zpl_tar_pack_dir(zpl_file *archive, char const *path, zpl_allocator alloc) {
     zpl_string filelst = zpl_path_dirlist(alloc, path, true);
-    char const **files = cast(char const**)zpl_str_split_lines(alloc, filelst, false);
+    char const **files = filelst ? cast(char const**)zpl_str_split_lines(alloc, filelst, false) : NULL;
+    if (!files) {
+        zpl_string_free(filelst);
+        return -(ZPL_TAR_ERROR_IO_ERROR);
+    }
     zpl_isize err = zpl_tar_pack(archive, files, zpl_array_count(files));
     zpl_string_free(filelst);
     zpl_array_free(files);
-- 
2.43.0


From 3557e1a87c767be454545a617957edf3f8f077fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 044/106] fix: tar reader stops at truncated archives, bounds
 its fields and reports bad checksums

---
 code/source/core/file_tar.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index ae6cc55..ec05736 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -133,29 +133,40 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
 
     zpl_i64 pos = zpl_file_tell(archive);
     zpl__tar_header hr = {0};
-    zpl_isize err = ZPL_TAR_ERROR_NONE;
+    zpl_isize err = ZPL_TAR_ERROR_NONE, bad = ZPL_TAR_ERROR_NONE;
 
     do {
-        if (!zpl_file_read(archive, cast(void*)&hr, zpl_size_of(hr))) {
+        zpl_isize bytes_read = 0;
+        char path[zpl_size_of(hr.name) + 1] = {0}, size[zpl_size_of(hr.size) + 1] = {0}, checksum[zpl_size_of(hr.checksum) + 1] = {0};
+
+        if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
             break;
         }
-        else if (*hr.checksum == 0) {
-            break;
+        else if (*hr.checksum == 0 && zpl__tar_checksum(&hr) == 256) {
+            break; /* an empty block ends the archive */
         }
-        pos = zpl_file_tell(archive);
+        pos += zpl_size_of(hr);
+
+        /* the fields need not be terminated */
+        zpl_memcopy(path, hr.name, zpl_size_of(hr.name));
+        zpl_memcopy(size, hr.size, zpl_size_of(hr.size));
+        zpl_memcopy(checksum, hr.checksum, zpl_size_of(hr.checksum));
 
         zpl_tar_record rec = {0};
         rec.type = hr.type;
-        rec.path = hr.name;
+        rec.path = path;
         rec.offset = pos;
-        rec.length = zpl_str_to_i64(hr.size, 0, 8);
+        rec.length = zpl_str_to_i64(size, 0, 8);
         rec.error = ZPL_TAR_ERROR_NONE;
 
-        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(hr.checksum, 0, 8));
+        zpl_usize checksum1 = cast(zpl_usize)(zpl_str_to_i64(checksum, 0, 8));
         zpl_usize checksum2 = zpl__tar_checksum(&hr);
         rec.error = (checksum1 != checksum2) ? cast(zpl_isize)ZPL_TAR_ERROR_BAD_CHECKSUM : rec.error;
 
+        if (rec.length < 0) rec.error = ZPL_TAR_ERROR_BAD_CHECKSUM, rec.length = 0;
+        if (rec.error != ZPL_TAR_ERROR_NONE) bad = rec.error;
+
         rec.error = unpack_proc(archive, &rec, user_data);
 
         if (rec.error > 0) {
@@ -164,11 +175,12 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
         }
 
         /* tar rounds files to 512 byte boundary */
-        zpl_file_seek(archive, pos + zpl_align_forward_i64(rec.length, 512));
+        pos += zpl_align_forward_i64(rec.length, 512);
+        zpl_file_seek(archive, pos);
     }
     while(err == ZPL_TAR_ERROR_NONE);
 
-    return -(err);
+    return -(err != ZPL_TAR_ERROR_NONE ? err : bad);
 }
 
 ZPL_TAR_UNPACK_PROC(zpl_tar_default_list_file) {
-- 
2.43.0


From c83b46154d2a3e108d47f8d77c2b76d574546fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 045/106] fix: tar extraction never leaves its destination and
 checks every step

---
 code/source/core/file_tar.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index ec05736..d6e8e46 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -193,7 +193,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_list_file) {
         return 0; /* we only care about regular files */
 
     /* proceed as usual */
-    zpl_printf("name: %s, offset: %d, length: %d\n", file->path, file->offset, file->length);
+    zpl_printf("name: %s, offset: %lld, length: %lld\n", file->path, cast(long long)file->offset, cast(long long)file->length);
     return 0;
 }
 
@@ -204,14 +204,23 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     if (file->type != ZPL_TAR_TYPE_REGULAR)
         return 0; /* we only care about regular files */
 
-    if (!zpl_strncmp(file->path, "..", 2))
-        return 0;
+    /* never leave the destination */
+    char const *path = file->path, *part;
+    while (*path == '/' || *path == ZPL_PATH_SEPARATOR) path++;
+    for (part = path; *part; ) {
+        char const *end = part;
+        while (*end && *end != '/' && *end != ZPL_PATH_SEPARATOR) end++;
+        if (end - part == 2 && part[0] == '.' && part[1] == '.')
+            return 0;
+        part = *end ? end + 1 : end;
+    }
 
     char tmp[ZPL_MAX_PATH] = {0};
     char *base_path = cast(char*)user_data;
     zpl_isize base_len = zpl_strlen(base_path);
-    zpl_isize len = zpl_strlen(file->path);
-    ZPL_ASSERT(base_len+len-2 < ZPL_MAX_PATH); /* todo: account for missing leading path sep */
+    zpl_isize len = zpl_strlen(path);
+    if (base_len+len+2 > ZPL_MAX_PATH)
+        return ZPL_TAR_ERROR_INVALID_INPUT;
 
     zpl_strcpy(tmp, base_path);
     zpl_path_fix_slashes(tmp); /* todo: need to do twice as base_path is checked before concat */
@@ -220,7 +229,7 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
         char sep[2] = {ZPL_PATH_SEPARATOR, 0};
         zpl_strcat(tmp, sep);
     }
-    zpl_strcat(tmp, file->path);
+    zpl_strcat(tmp, path);
     zpl_path_fix_slashes(tmp);
 
     const char *last_slash = zpl_char_last_occurence(tmp, ZPL_PATH_SEPARATOR);
@@ -233,25 +242,23 @@ ZPL_TAR_UNPACK_PROC(zpl_tar_default_unpack_file) {
     }
 
     zpl_file f;
-    zpl_file_create(&f, tmp);
+    if (zpl_file_create(&f, tmp) != ZPL_FILE_ERROR_NONE)
+        return ZPL_TAR_ERROR_IO_ERROR;
     {
         char buf[4096] = {0};
         zpl_isize remaining_data = file->length;
         zpl_isize bytes_read = 0;
         zpl_i64 pos = file->offset;
-        do {
-            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read)) {
+        while (remaining_data > 0) {
+            if (!zpl_file_read_at_check(archive, buf, zpl_min(4096, remaining_data), pos, &bytes_read)
+                || bytes_read == 0 || !zpl__tar_write(&f, buf, bytes_read)) {
                 zpl_file_close(&f);
-                return 1;
-            } else if (bytes_read == 0) {
-                break;
+                return ZPL_TAR_ERROR_IO_ERROR;
             }
 
-            zpl_file_write(&f, buf, bytes_read);
             pos += bytes_read;
             remaining_data -= bytes_read;
         }
-        while (remaining_data > 0);
     }
     zpl_file_close(&f);
     return 0;
-- 
2.43.0


From 2b74d98ae06e69f40f5ae6c74a76133dddc8a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 046/106] fix: tar reader leaves the archive at the entry's
 data for its callback

---
 code/source/core/file_tar.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index d6e8e46..dcedda8 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -147,6 +147,7 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
             break; /* an empty block ends the archive */
         }
         pos += zpl_size_of(hr);
+        zpl_file_seek(archive, pos);
 
         /* the fields need not be terminated */
         zpl_memcopy(path, hr.name, zpl_size_of(hr.name));
-- 
2.43.0


From 3520247ff33a0122512c2d9feb70b821d350d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 047/106] fix: tar reader names its field buffers' sizes

---
 code/source/core/file_tar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_tar.c b/code/source/core/file_tar.c
index dcedda8..7ffa054 100644
--- a/code/source/core/file_tar.c
+++ b/code/source/core/file_tar.c
@@ -137,7 +137,7 @@ zpl_isize zpl_tar_unpack(zpl_file *archive, zpl_tar_unpack_proc *unpack_proc, vo
 
     do {
         zpl_isize bytes_read = 0;
-        char path[zpl_size_of(hr.name) + 1] = {0}, size[zpl_size_of(hr.size) + 1] = {0}, checksum[zpl_size_of(hr.checksum) + 1] = {0};
+        char path[101] = {0}, size[13] = {0}, checksum[9] = {0};
 
         if (!zpl_file_read_at_check(archive, cast(void*)&hr, zpl_size_of(hr), pos, &bytes_read) || bytes_read != zpl_size_of(hr)) {
             err = ZPL_TAR_ERROR_IO_ERROR;
-- 
2.43.0


From ab45d4ac3530b6507adcb5b7e133915cbbd21164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 048/106] fix: base64 decoding is bounded by its length,
 rejects bad padding and does not leak

---
 code/source/hashing.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/code/source/hashing.c b/code/source/hashing.c
index e84973d..79128c6 100644
--- a/code/source/hashing.c
+++ b/code/source/hashing.c
@@ -213,18 +213,17 @@ zpl_isize zpl__base64_encoded_size(zpl_isize len) {
     return ret;
 }
 
-zpl_isize zpl__base64_decoded_size(void const *data) {
-    zpl_isize len, ret, i;
+zpl_isize zpl__base64_decoded_size(void const *data, zpl_isize len) {
+    zpl_isize ret, i;
     const zpl_u8 *s = cast(const zpl_u8 *)data;
 
     if (s == NULL) {
         return 0;
     }
 
-    len = zpl_strlen(cast(const char*)s);
     ret = len / 4 * 3;
 
-    for (i=len; i-- > 0;) {
+    for (i=len; i-- > len-2 && i >= 0;) {
         if (s[i] == '=') {
             ret--;
         } else {
@@ -259,6 +258,9 @@ zpl_u8 *zpl_base64_encode(zpl_allocator a, void const *data, zpl_isize len) {
 
     enc_len = zpl__base64_encoded_size(len);
     ret = cast(zpl_u8 *)zpl_alloc(a, enc_len+1);
+    if (ret == NULL) {
+        return NULL;
+    }
     ret[enc_len] = 0;
 
     for (i=0, j=0; i < len; i+=3, j+=4) {
@@ -289,22 +291,26 @@ zpl_u8 *zpl_base64_decode(zpl_allocator a, void const *data, zpl_isize len) {
     zpl_u8 *ret = NULL;
     zpl_isize alen, i, j, v;
 
-    if (data == NULL) {
+    if (data == NULL || len < 0 || len % 4 != 0) {
         return NULL;
     }
 
-    alen = zpl__base64_decoded_size(s);
-    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
-
-    ZPL_ASSERT_NOT_NULL(ret);
-
-    ret[alen] = 0;
-
     for (i=0; i<len; i++) {
         if (!zpl__base64_valid_char(s[i]))
             return NULL;
+        if (s[i] == '=' && (i < len-2 || s[len-1] != '='))
+            return NULL; /* padding only ends the text */
     }
 
+    alen = zpl__base64_decoded_size(s, len);
+    ret = cast(zpl_u8 *)zpl_alloc(a, alen+1);
+
+    if (ret == NULL) {
+        return NULL;
+    }
+
+    ret[alen] = 0;
+
     for (i=0, j=0; i<len; i+=4, j+=3) {
         v = zpl__base64_dec_table[s[i]-43];
         v = (v << 6) | zpl__base64_dec_table[s[i+1]-43];
-- 
2.43.0


From 6d4954c169f343e28e3092fb8854c9e5bb3a666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 049/106] fix: radix sort of bytes leaves its result in the
 caller's array

---
 code/source/core/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 5b7df2e..3a66b00 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -142,6 +142,8 @@ ZPL_RADIX_SORT_PROC(Type) {
         }                                                                                                          \
         zpl_swap(zpl_##Type *, source, dest);                                                                            \
     }                                                                                                              \
+    /* NOTE: An odd number of passes ends in temp */                                                               \
+    if (source != items) zpl_memcopy(items, source, count * zpl_size_of(zpl_##Type));                              \
 }
 
 ZPL_RADIX_SORT_PROC_GEN(u8);
-- 
2.43.0


From fecedaf1ee5d14c27f9cabcd1815bca552485bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 050/106] fix: shuffle never picks a negative index

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 3a66b00..2ac2157 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -159,7 +159,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
     a = cast(zpl_u8 *) base + (count - 1) * size;
     for (i = count; i > 1; i--) {
-        j = zpl_random_gen_isize(&random) % i;
+        j = cast(zpl_isize)(zpl_random_gen_u64(&random) % cast(zpl_u64)i);
         zpl_memswap(a, cast(zpl_u8 *) base + j * size, size);
         a -= size;
     }
-- 
2.43.0


From 02ea5134b1affa4631d8d92ff62f329258898432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 051/106] fix: reverse walks inwards

---
 code/source/core/sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/sort.c b/code/source/core/sort.c
index 2ac2157..85d262d 100644
--- a/code/source/core/sort.c
+++ b/code/source/core/sort.c
@@ -167,7 +167,7 @@ void zpl_shuffle(void *base, zpl_isize count, zpl_isize size) {
 
 void zpl_reverse(void *base, zpl_isize count, zpl_isize size) {
     zpl_isize i, j = count - 1;
-    for (i = 0; i < j; i++, j++) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
+    for (i = 0; i < j; i++, j--) zpl_memswap(cast(zpl_u8 *) base + i * size, cast(zpl_u8 *) base + j * size, size);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 847d94fad73b77794fea04ff16053324f334cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 052/106] fix: zpl_bit_get reports every bit

---
 code/header/core/misc.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/header/core/misc.h b/code/header/core/misc.h
index b5d50c7..a28d840 100644
--- a/code/header/core/misc.h
+++ b/code/header/core/misc.h
@@ -58,9 +58,9 @@ ZPL_IMPL_INLINE zpl_i32 zpl_next_pow2(zpl_i32 x) {
     return x + 1;
 }
 
-ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1 << bit); }
-ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1 << bit)); }
-ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1 << bit); }
+ZPL_IMPL_INLINE void zpl_bit_set(zpl_u32* x, zpl_u32 bit) { *x = *x | (1u << bit); }
+ZPL_IMPL_INLINE zpl_b8 zpl_bit_get(zpl_u32 x, zpl_u32 bit) { return (x & (1u << bit)) != 0; }
+ZPL_IMPL_INLINE void zpl_bit_reset(zpl_u32* x, zpl_u32 bit) { *x = *x & ~(1u << bit); }
 
 ZPL_IMPL_INLINE zpl_isize zpl_count_set_bits(zpl_u64 mask) {
     zpl_isize count = 0;
-- 
2.43.0


From 79c97f8a8b5390ae6a5327aeb321b19e8c7a0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 053/106] fix: zpl_system_command terminates its buffer

---
 code/source/core/misc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index 2fee10a..f71d1f7 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -90,9 +90,10 @@ zpl_u32 zpl_system_command(const char *command, zpl_usize buffer_len, char *buff
 
         int c;
         zpl_usize i=0;
-        while ((c = getc(handle)) != EOF && i++ < buffer_len) {
-            *buffer++ = c;
+        while ((c = getc(handle)) != EOF && i + 1 < buffer_len) {
+            buffer[i++] = c;
         }
+        if (i < buffer_len) buffer[i] = 0;
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
             _pclose(handle);
-- 
2.43.0


From ed0d986198e100b2cdad7c7cdbb5b9b970529c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 054/106] fix: environment and command helpers survive failed
 allocations

---
 code/source/core/misc.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/source/core/misc.c b/code/source/core/misc.c
index f71d1f7..355286e 100644
--- a/code/source/core/misc.c
+++ b/code/source/core/misc.c
@@ -21,6 +21,9 @@ const char *zpl_get_env(const char *name) {
 
     zpl_isize ptr_size = zpl_strlen(ptr);
     buffer = (char *)zpl_malloc(ptr_size * sizeof(char)+1);
+    if (buffer == NULL) {
+        return NULL;
+    }
     zpl_memcopy((char *)buffer, ptr, ptr_size+1);
     return buffer;
 }
@@ -122,9 +125,11 @@ zpl_string zpl_system_command_str(const char *command, zpl_allocator backing) {
         zpl_string output = zpl_string_make_reserve(backing, 4);
 
         int c;
-        while ((c = getc(handle)) != EOF) {
-            char ins[2] = {(char)c,0};
-            output = zpl_string_appendc(output, ins);
+        while (output && (c = getc(handle)) != EOF) {
+            char ins = (char)c;
+            zpl_string next = zpl_string_append_length(output, &ins, 1);
+            if (!next) zpl_string_free(output);
+            output = next;
         }
 
 #        if defined(ZPL_SYSTEM_WINDOWS)
-- 
2.43.0


From a07d55ddf987cbe09c5f5790d37465d1d23b4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 055/106] fix: random ranges cover full-width and extreme
 bounds

---
 code/source/core/random.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 87c38a7..fe1e8f5 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -121,11 +121,11 @@ zpl_isize zpl_random_gen_isize(zpl_random *r) {
 
 zpl_i64 zpl_random_range_i64(zpl_random *r, zpl_i64 lower_inc, zpl_i64 higher_inc) {
     zpl_u64 u = zpl_random_gen_u64(r);
-    zpl_i64 diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_u64 diff = cast(zpl_u64)higher_inc-cast(zpl_u64)lower_inc+1;
+    if (diff) u %= diff;
+    u += cast(zpl_u64)lower_inc;
     zpl_i64 i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -135,11 +135,11 @@ zpl_isize zpl_random_range_isize(zpl_random *r, zpl_isize lower_inc, zpl_isize h
 #else
     zpl_u64 u = zpl_random_gen_u64(r);
 #endif
-    zpl_isize diff = higher_inc-lower_inc+1;
-    u %= diff;
+    zpl_usize diff = cast(zpl_usize)higher_inc-cast(zpl_usize)lower_inc+1;
+    if (diff) u %= diff;
+    u += cast(zpl_usize)lower_inc;
     zpl_isize i;
     zpl_memcopy(&i, &u, zpl_size_of(u));
-    i += lower_inc;
     return i;
 }
 
@@ -158,11 +158,9 @@ ZPL_ALWAYS_INLINE zpl_f64 zpl__random_copy_sign64(zpl_f64 x, zpl_f64 y) {
 
 zpl_f64 zpl_random_range_f64(zpl_random *r, zpl_f64 lower_inc, zpl_f64 higher_inc) {
     zpl_f64 f = cast(zpl_f64)zpl_random_gen_u64(r) / cast(zpl_f64)ZPL_U64_MAX;
-    zpl_f64 diff = higher_inc-lower_inc;
     
-    f *= diff;
-    f += lower_inc;
-    return f;
+    f = lower_inc * (1.0 - f) + higher_inc * f;
+    return zpl_clamp(f, lower_inc, higher_inc);
 }
 
 ZPL_END_C_DECLS
-- 
2.43.0


From 9bb33c13ccf0446c926c5cf711358dc528535071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 056/106] fix: unique random numbers permute the full square

---
 code/source/core/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index fe1e8f5..5a14f28 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -33,7 +33,7 @@ zpl_internal ZPL_ALWAYS_INLINE zpl_u32 zpl__permute_qpr(zpl_u32 x) {
     if (x >= prime) {
         return x;
     } else {
-        zpl_u32 residue = cast(zpl_u32)(cast(zpl_u64) x * x) % prime;
+        zpl_u32 residue = cast(zpl_u32)((cast(zpl_u64) x * x) % prime);
         if (x <= prime / 2)
             return residue;
         else
-- 
2.43.0


From ccc626333b32b55307eb94c444da9fdd1f651d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:30 +0000
Subject: [PATCH 057/106] fix: seeding cannot spin forever

---
 code/source/core/random.c | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/source/core/random.c b/code/source/core/random.c
index 5a14f28..80a5c87 100644
--- a/code/source/core/random.c
+++ b/code/source/core/random.c
@@ -10,19 +10,8 @@ zpl_global zpl_i32 zpl__random_shared_counter = 0;
 #endif
 
 zpl_internal zpl_u32 zpl__get_noise_from_time(void) {
-    zpl_u32 accum = 0;
-    zpl_f64 start, remaining, end, curr = 0;
-    zpl_u64 interval = 100000ll;
-    
-    start     = zpl_time_rel();
-    remaining = (interval - cast(zpl_u64)(interval*start)%interval) / cast(zpl_f64)interval;
-    end       = start + remaining;
-    
-    do {
-        curr = zpl_time_rel();
-        accum += cast(zpl_u32)curr;
-    } while (curr >= end);
-    return accum;
+    // NOTE: Reading until some time passed would never end once it has
+    return cast(zpl_u32)zpl_time_rel();
 }
 
 // NOTE: Partly from http://preshing.com/20121224/how-to-generate-a-sequence-of-unique-random-integers/
-- 
2.43.0


From 6cea8b0ca86e84f23a67322f4fc105f5340c150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 058/106] fix: number parsing and printing keep value, radix,
 exponent and buffer bounds

---
 code/header/adt.h |   8 +--
 code/source/adt.c | 146 ++++++++++++++++++++++++++++++----------------
 2 files changed, 100 insertions(+), 54 deletions(-)

diff --git a/code/header/adt.h b/code/header/adt.h
index 88b7210..7a47cbf 100644
--- a/code/header/adt.h
+++ b/code/header/adt.h
@@ -82,10 +82,10 @@ typedef struct zpl_adt_node {
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             /* number analysis */
-            zpl_i32 base;
-            zpl_i32 base2;
-            zpl_u8 base2_offset:4;
-            zpl_i8 exp         :4;
+            zpl_i64 base;
+            zpl_i64 base2;
+            zpl_i16 exp;
+            zpl_u8 base2_offset;
             zpl_u8 neg_zero  :1;
             zpl_u8 lead_digit:1;
 #endif
diff --git a/code/source/adt.c b/code/source/adt.c
index e8df32b..ca3ec48 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -353,17 +353,15 @@ zpl_adt_node *zpl_adt_append_int(zpl_adt_node *parent, char const *name, zpl_i64
 char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
-    char *p = base_str, *e = p;
-
-    while (*e)
-        ++e;
 
-    while (*p && (zpl_strchr("eE.+-", *p) || zpl_char_is_hex_digit(*p))) {
-        ++p;
-    }
+    /* parse into a copy, so that text which is not a number as a whole stays what it is. */
+    zpl_adt_node number = *node;
+    number.type = ZPL_ADT_TYPE_UNINITIALISED;
+    char *p = zpl_adt_parse_number(&number, base_str);
 
-    if (p >= e) {
-        return zpl_adt_parse_number(node, base_str);
+    if (number.type != ZPL_ADT_TYPE_UNINITIALISED && *p == '\0') {
+        *node = number;
+        return p;
     }
 
     return base_str;
@@ -374,15 +372,20 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(base_str);
     char *p = base_str, *e = p;
 
-    zpl_i32 base=0;
-    zpl_i32 base2=0;
+    zpl_i64 base=0;
+    zpl_i64 base2=0;
     zpl_u8 base2_offset=0;
-    zpl_i8 exp=0,orig_exp=0;
+    zpl_i32 exp=0;
     zpl_u8 neg_zero=0;
     zpl_u8 lead_digit=0;
     zpl_u8 node_type=0;
     zpl_u8 node_props=0;
 
+    /* there is nothing to skip at the end of the text */
+    if (*p == '\0') {
+        return base_str;
+    }
+
     /* skip false positives and special cases */
     if (!!zpl_strchr("eE", *p) || (!!zpl_strchr(".+-", *p) && !zpl_char_is_hex_digit(*(p+1)) && *(p+1) != '.')) {
         return ++base_str;
@@ -391,8 +394,9 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     node_type = ZPL_ADT_TYPE_INTEGER;
     neg_zero = false;
 
-    zpl_isize ib = 0;
+    zpl_isize ib = 0, digits = 0, frac_digits = 0;
     char buf[48] = { 0 };
+    zpl_isize const buf_max = zpl_size_of(buf) - 2;
 
     if (*e == '+')
         ++e;
@@ -405,53 +409,68 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         node_props = ZPL_ADT_PROPS_IS_PARSED_REAL;
         lead_digit = false;
         buf[ib++] = '0';
-        do {
-            buf[ib++] = *e;
-        } while (zpl_char_is_digit(*++e));
+        buf[ib++] = *e++;
+        while (zpl_char_is_digit(*e)) {
+            if (ib < buf_max) { buf[ib++] = *e; }
+            ++e; ++digits; ++frac_digits;
+        }
     } else {
-        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) { node_props = ZPL_ADT_PROPS_IS_HEX; }
+        if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) {
+            node_props = ZPL_ADT_PROPS_IS_HEX;
+            buf[ib++] = *e++;
+            buf[ib++] = *e++;
+        }
 
         /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-        if (zpl_char_to_lower(*e) == 'x' && (node_props != ZPL_ADT_PROPS_IS_HEX)) {
+        if (zpl_char_to_lower(*e) == 'x') {
             return ++base_str;
         }
 
-        while (zpl_char_is_hex_digit(*e) || zpl_char_to_lower(*e) == 'x') { buf[ib++] = *e++; }
+        while (node_props == ZPL_ADT_PROPS_IS_HEX ? zpl_char_is_hex_digit(*e) : zpl_char_is_digit(*e)) {
+            /* no number we can represent is this long */
+            if (ib >= buf_max) { return ++base_str; }
+            buf[ib++] = *e++;
+            ++digits;
+        }
 
-        if (*e == '.') {
+        if (*e == '.' && node_props != ZPL_ADT_PROPS_IS_HEX) {
             node_type = ZPL_ADT_TYPE_REAL;
             lead_digit = true;
-            zpl_u32 step = 0;
-
-            do {
-                buf[ib++] = *e;
-                ++step;
-            } while (zpl_char_is_digit(*++e));
+            buf[ib++] = *e++;
+            while (zpl_char_is_digit(*e)) {
+                /* digits past the end of the buffer are beyond the precision of the number */
+                if (ib < buf_max) { buf[ib++] = *e; }
+                ++e; ++digits; ++frac_digits;
+            }
 
-            if (step < 2) { buf[ib++] = '0'; }
+            if (frac_digits == 0 && ib < zpl_size_of(buf) - 1) { buf[ib++] = '0'; }
         }
     }
 
     /* check if we have a dot here, this is a false positive (IP address, ...) */
-    if (*e == '.') {
+    if (*e == '.' || digits == 0) {
         return ++base_str;
     }
 
-    zpl_f32 eb = 10;
-    char expbuf[6] = { 0 };
-    zpl_isize expi = 0;
+    zpl_b32 exp_neg = false;
 
-    if (*e && !!zpl_strchr("eE", *e)) {
-        ++e;
-        if (*e == '+' || *e == '-' || zpl_char_is_digit(*e)) {
-            if (*e == '-') { eb = 0.1f; }
-            if (!zpl_char_is_digit(*e)) { ++e; }
-            while (zpl_char_is_digit(*e)) { expbuf[expi++] = *e++; }
+    if ((*e == 'e' || *e == 'E') && node_props != ZPL_ADT_PROPS_IS_HEX) {
+        char *x = e + 1;
+        if (*x == '+' || *x == '-') {
+            exp_neg = (*x == '-');
+            ++x;
+        }
+        if (zpl_char_is_digit(*x)) {
+            while (zpl_char_is_digit(*x)) {
+                if (exp < 1000) { exp = exp * 10 + (*x - '0'); }
+                ++x;
+            }
+            e = x;
         }
-
-        orig_exp = exp = (zpl_u8)zpl_str_to_i64(expbuf, NULL, 10);
     }
 
+    zpl_i32 exp_left = exp;
+
     if (node_type == ZPL_ADT_TYPE_INTEGER) {
         node->integer = zpl_str_to_i64(buf, 0, 0);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -460,31 +479,59 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->integer *= (zpl_i64)eb; }
+        zpl_i64 scaled = node->integer;
+        while (exp_left > 0 && !exp_neg && scaled != 0 && scaled <= ZPL_I64_MAX / 10 && scaled >= ZPL_I64_MIN / 10) {
+            scaled *= 10;
+            --exp_left;
+        }
+
+        if (scaled == 0 || exp_left == 0) {
+            node->integer = scaled;
+        } else {
+            /* not an integer value, or too large for one */
+            node_type = ZPL_ADT_TYPE_REAL;
+            node->real = cast(zpl_f64)scaled;
+        }
     } else {
         node->real = zpl_str_to_f64(buf, 0);
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
         char *q = buf, *base_string = q, *base_string2 = q;
         base_string = cast(char *)zpl_str_skip(base_string, '.');
+
+        /* the number is written back from its parts only when they hold all of its digits */
+        if (digits - frac_digits <= 18 && frac_digits <= 18) {
+            if (exp) {
+                node_props = ZPL_ADT_PROPS_IS_EXP;
+            }
+        } else {
+            node_props = ZPL_ADT_PROPS_NONE;
+        }
+
         *base_string = '\0';
         base_string2 = base_string + 1;
         char *base_string_off = base_string2;
         while (*base_string_off++ == '0') base2_offset++;
 
-        base = (zpl_i32)zpl_str_to_i64(q, 0, 0);
-        base2 = (zpl_i32)zpl_str_to_i64(base_string2, 0, 0);
-        if (exp) {
-            exp = exp * (!(eb == 10.0f) ? -1 : 1);
-            node_props = ZPL_ADT_PROPS_IS_EXP;
-        }
+        base = zpl_str_to_i64(q, 0, 10);
+        base2 = zpl_str_to_i64(base_string2, 0, 10);
 
         /* special case: negative zero */
         if (base == 0 && buf[0] == '-') {
             neg_zero = true;
         }
 #endif
-        while (orig_exp-- > 0) { node->real *= eb; }
+    }
+
+    if (node_type == ZPL_ADT_TYPE_REAL) {
+        while (exp_left-- > 0) {
+            if (exp_neg) { node->real /= 10.0; }
+            else { node->real *= 10.0; }
+        }
+    }
+
+    if (exp_neg) {
+        exp = -exp;
     }
 
     node->type = node_type;
@@ -494,14 +541,13 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     node->base = base;
     node->base2 = base2;
     node->base2_offset = base2_offset;
-    node->exp = exp;
+    node->exp = cast(zpl_i16)exp;
     node->neg_zero = neg_zero;
     node->lead_digit = lead_digit;
 #else
     zpl_unused(base);
     zpl_unused(base2);
     zpl_unused(base2_offset);
-    zpl_unused(exp);
     zpl_unused(neg_zero);
     zpl_unused(lead_digit);
 #endif
@@ -516,7 +562,7 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
     }
 
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
-    if (node->neg_zero) {
+    if (node->neg_zero && (node->type == ZPL_ADT_TYPE_INTEGER || node->props == ZPL_ADT_PROPS_IS_EXP || node->props == ZPL_ADT_PROPS_IS_PARSED_REAL)) {
         zpl__adt_fprintf(file, "-");
     }
 #endif
-- 
2.43.0


From 5aecea137642e2afc35cab539f07d439d03ab5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 059/106] fix: json parser stays inside its text, reports every
 malformed document and frees partial trees

---
 code/source/parsers/json.c | 166 ++++++++++++++++++++++++++-----------
 1 file changed, 119 insertions(+), 47 deletions(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 5b6e675..2924872 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -20,6 +20,7 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
 char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code);
 char *zpl__json_parse_name(zpl_adt_node *obj, char *base, zpl_u8 *err_code);
 char *zpl__json_trim(char *base, zpl_b32 catch_newline);
+void zpl__json_finish(zpl_adt_node *node);
 zpl_b8 zpl__json_write_value(zpl_file *f, zpl_adt_node *o, zpl_adt_node *t, zpl_isize indent, zpl_b32 is_inline, zpl_b32 is_last);
 
 #define zpl__json_fprintf(s_, fmt_, ...)                                                                               \
@@ -43,6 +44,10 @@ zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
 #endif
 
     zpl__json_parse_object(root, text, a, &err_code);
+
+    if (err_code == ZPL_JSON_ERROR_NONE) {
+        zpl__json_finish(root);
+    }
     return err_code;
 }
 
@@ -54,8 +59,10 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a))
         return NULL;
-    if (!zpl_json_write(&tmp, obj, indent))
+    if (!zpl_json_write(&tmp, obj, indent)) {
+        zpl_file_close(&tmp);
         return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -68,15 +75,35 @@ zpl_string zpl_json_write_string(zpl_allocator a, zpl_adt_node *obj, zpl_isize i
 #define zpl__json_append_node(x, item)\
 do {\
 if (!zpl_array_append(x, item)) {\
+    zpl_adt_destroy_branch(&item);\
     *err_code = ZPL_JSON_ERROR_OUT_OF_MEMORY;\
     return NULL;\
 }\
-if (item.type == ZPL_ADT_TYPE_OBJECT || item.type == ZPL_ADT_TYPE_ARRAY) {\
-for (zpl_isize i = 0; i < zpl_array_count(item.nodes); i++)\
-item.nodes[i].parent = zpl_array_end(x);\
-}\
 } while (0);
 
+/* Names and strings are terminated, and parents linked, only once the whole document is known to be
+ * valid and its nodes have settled in memory. Until then, a node's parent holds the end of its name. */
+void zpl__json_finish(zpl_adt_node *node) {
+    for (zpl_isize i = 0; i < zpl_array_count(node->nodes); i++) {
+        zpl_adt_node *child = node->nodes + i;
+
+        if (child->name) *cast(char *)child->parent = '\0';
+        child->parent = node;
+
+        switch (child->type) {
+            case ZPL_ADT_TYPE_STRING:
+            case ZPL_ADT_TYPE_MULTISTRING:
+                *cast(char *)zpl_str_skip_literal(child->string, child->string[-1]) = '\0';
+                break;
+
+            case ZPL_ADT_TYPE_OBJECT:
+            case ZPL_ADT_TYPE_ARRAY:
+                zpl__json_finish(child);
+                break;
+        }
+    }
+}
+
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_assign_char(char c) { return !!zpl_strchr(":=|", c); }
 static ZPL_ALWAYS_INLINE zpl_b32 zpl__json_is_delim_char(char c) { return !!zpl_strchr(",|\n", c); }
 static ZPL_ALWAYS_INLINE const char *zpl__json_string_space(zpl_isize indent) { return indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : " "; }
@@ -87,14 +114,12 @@ static ZPL_ALWAYS_INLINE const char *zpl__json_string_eol(zpl_adt_node *o, zpl_i
 #endif
     return !force_new_line && indent == ZPL_JSON_INDENT_STYLE_COMPACT ? "" : "\n";
 }
-ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err);
-
-#define jx(x) !zpl_char_is_hex_digit(str[x])
-ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char *err) {
-    while (*str) {
-        /* todo: refactor name validation. */
-        if ((str[0] == '\\' && !zpl_char_is_control(str[1])) &&
-            (str[0] == '\\' && jx(1) && jx(2) && jx(3) && jx(4))) {
+ZPL_DEF_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err);
+
+#define jx(x) (str + (x) >= end || !zpl_char_is_hex_digit(str[x]))
+ZPL_IMPL_INLINE zpl_b32 zpl__json_validate_name(char const *str, char const *end, char *err) {
+    while (str < end) {
+        if (str[0] == '\\' && str + 1 < end && str[1] == 'u' && (jx(2) || jx(3) || jx(4) || jx(5))) {
             if (err) *err = *str;
             return false;
         }
@@ -123,10 +148,19 @@ char *zpl__json_parse_array(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             return p;
         }
 
+        if (*p == '}' || *p == 0) {
+            ZPL_JSON_ASSERT("end of array unfulfilled");
+            *err_code = ZPL_JSON_ERROR_ARRAY_LEFT_OPEN;
+            return NULL;
+        }
+
         zpl_adt_node elem = { 0 };
         p = zpl__json_parse_value(&elem, p, a, err_code);
 
-        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&elem);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, elem);
 
@@ -154,14 +188,21 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
     char *p = base, *b = p, *e = p;
 
     /* handle quoted strings */
-    if (!!zpl_strchr("`\"'", *p)) {
+    if (*p && !!zpl_strchr("`\"'", *p)) {
         char c = *p;
         obj->type = (c == '`') ? ZPL_ADT_TYPE_MULTISTRING : ZPL_ADT_TYPE_STRING;
         b = e = p + 1;
         obj->string = b;
         e = cast(char *)zpl_str_skip_literal(e, c);
-        *e = '\0', p = e + 1;
-    } else if (zpl_char_is_alpha(*p) || (*p == '-' && !zpl_char_is_digit(*(p + 1)))) {
+
+        if (*e != c) {
+            ZPL_JSON_ASSERT("unterminated string");
+            *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+            return NULL;
+        }
+
+        p = e + 1;
+    } else if (zpl_char_is_alpha(*p) || (*p == '-' && zpl_char_is_alpha(*(p + 1)))) {
         /* handle constants */
         if (zpl_str_has_prefix(p, "true")) {
             obj->type = ZPL_ADT_TYPE_REAL;
@@ -203,25 +244,39 @@ char *zpl__json_parse_value(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_
             *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
             return NULL;
         }
+
+        if (zpl_char_is_alphanumeric(*p)) {
+            ZPL_JSON_ASSERT("unknown keyword");
+            *err_code = ZPL_JSON_ERROR_UNKNOWN_KEYWORD;
+            return NULL;
+        }
     } else if (zpl_char_is_digit(*p) || *p == '+' || *p == '-' || *p == '.') {
         /* handle numbers */
         /* defer operation to our helper method. */
         p = zpl_adt_parse_number(obj, p);
-    } else if (!!zpl_strchr("[{", *p)) {
+    } else if (*p && !!zpl_strchr("[{", *p)) {
         /* handle compound objects */
         p = zpl__json_parse_object(obj, p, a, err_code);
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         ++p;
     }
 
+    if (obj->type == ZPL_ADT_TYPE_UNINITIALISED) {
+        ZPL_JSON_ASSERT("missing value");
+        *err_code = ZPL_JSON_ERROR_INVALID_VALUE;
+        return NULL;
+    }
+
     return p;
 }
 
 char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl_u8 *err_code) {
     ZPL_ASSERT(obj && base);
     char *p = base;
+    zpl_b32 is_enclosed = false;
 
     p = zpl__json_trim(p, false);
-    /**/ if (*p == '{') { ++p; }
+    /**/ if (*p == '{') { ++p; is_enclosed = true; }
     else if (*p == '[') { /* special case for when we call this func on an array. */
         ++p;
         obj->type = ZPL_ADT_TYPE_ARRAY;
@@ -247,10 +302,17 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
 
         /* First, we parse the key, then we proceed to the value itself. */
         p = zpl__json_parse_name(&node, p, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
         p = zpl__json_trim(p + 1, false);
         p = zpl__json_parse_value(&node, p, a, err_code);
-        if (err_code && *err_code != ZPL_JSON_ERROR_NONE) { return NULL; }
+        if (*err_code == ZPL_JSON_ERROR_NONE && !node.name) {
+            ZPL_JSON_ASSERT("missing name");
+            *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+        }
+        if (*err_code != ZPL_JSON_ERROR_NONE) {
+            zpl_adt_destroy_branch(&node);
+            return NULL;
+        }
 
         zpl__json_append_node(obj->nodes, node);
 
@@ -271,18 +333,23 @@ char *zpl__json_parse_object(zpl_adt_node *obj, char *base, zpl_allocator a, zpl
             }
 #endif
             if (*p == 0) {
-                return p;
+                break;
             }
             ++p;
         }
         p = zpl__json_trim(p, false);
     } while (*p);
+
+    if (is_enclosed) {
+        ZPL_JSON_ASSERT("object left open");
+        *err_code = ZPL_JSON_ERROR_OBJECT_END_PAIR_MISMATCHED;
+        return NULL;
+    }
     return p;
 }
 
 char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
-    char *p = base, *b = p, *e = p;
-    zpl_u8 name_style=0;
+    char *p = base, *b = p, *e = p, *name_end = p;
 
     if (*p == '"' || *p == '\'' || zpl_char_is_alpha(*p) || *p == '_' || *p == '$') {
         if (*p == '"' || *p == '\'') {
@@ -297,16 +364,23 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             b = ++p;
             e = cast(char *)zpl_str_control_skip(b, c);
             node->name = b;
+            name_end = e;
 
-            /* we can safely null-terminate here, since "e" points to the quote pair end. */
-            *e++ = '\0';
+            if (*e != c) {
+                ZPL_JSON_ASSERT("unterminated name");
+                *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+                return NULL;
+            }
+            ++e;
         }
         else {
             b = e = p;
             zpl_str_advance_while(e, *e && (zpl_char_is_alphanumeric(*e) || *e == '_') && !zpl_char_is_space(*e) && !zpl__json_is_assign_char(*e));
             node->name = b;
-            name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
-            /* we defer null-termination as it can potentially wipe our assign char as well. */
+            name_end = e;
+#ifndef ZPL_PARSER_DISABLE_ANALYSIS
+            node->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
+#endif
         }
 
         char *assign_p = e; zpl_unused(assign_p);
@@ -315,7 +389,7 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
         node->assign_line_width = cast(zpl_u8)(p-assign_p);
 #endif
 
-        if (*p && !zpl__json_is_assign_char(*p)) {
+        if (!*p || !zpl__json_is_assign_char(*p)) {
             ZPL_JSON_ASSERT("invalid assignment");
             *err_code = ZPL_JSON_ERROR_INVALID_ASSIGNMENT;
             return NULL;
@@ -328,22 +402,18 @@ char *zpl__json_parse_name(zpl_adt_node *node, char *base, zpl_u8 *err_code) {
             else if (*p == '|')
                 node->assign_style = ZPL_ADT_ASSIGN_STYLE_LINE;
             else node->assign_style = ZPL_ADT_ASSIGN_STYLE_COLON;
-#endif
-        }
-
-        /* since we already know the assign style, we can cut it here for unquoted names */
-        if (name_style == ZPL_ADT_NAME_STYLE_NO_QUOTES && *e) {
-            *e = '\0';
-#ifndef ZPL_PARSER_DISABLE_ANALYSIS
-            node->name_style = name_style;
 #endif
         }
     }
 
-    if (node->name && !zpl__json_validate_name(node->name, NULL)) {
-        ZPL_JSON_ASSERT("invalid name");
-        *err_code = ZPL_JSON_ERROR_INVALID_NAME;
-        return NULL;
+    if (node->name) {
+        if (!zpl__json_validate_name(node->name, name_end, NULL)) {
+            ZPL_JSON_ASSERT("invalid name");
+            *err_code = ZPL_JSON_ERROR_INVALID_NAME;
+            return NULL;
+        }
+        /* see zpl__json_finish */
+        node->parent = cast(zpl_adt_node *)name_end;
     }
 
     return p;
@@ -356,13 +426,14 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
         if (zpl_str_has_prefix(p, "//")) {
             const char *e = zpl_str_skip(p, '\n');
             p += (e-p);
+            if (*p == 0) return p;
         }
         else if (zpl_str_has_prefix(p, "/*")) {
             const char *e = zpl_str_skip(p+2, '*');
-            if (*e && *(e+1) == '/') {
-                e+=2; /* advance past end comment block */
-                p += (e-p);
-            }
+            while (*e && *(e+1) != '/') e = zpl_str_skip(e+1, '*');
+            if (*e == 0) return p; /* the comment is never closed */
+            p += (e+2-p); /* advance past end comment block */
+            continue;
         }
         else if (*p == '\n' && catch_newline) {
             return p;
@@ -370,8 +441,9 @@ char *zpl__json_trim(char *base, zpl_b32 catch_newline) {
         else if (!zpl_char_is_space(*p)) {
             return p;
         }
-    } while (*p++);
-    return NULL;
+        ++p;
+    } while (*p);
+    return p;
 }
 
 zpl_b8 zpl_json_write(zpl_file *f, zpl_adt_node *o, zpl_isize indent) {
-- 
2.43.0


From 18fb14278f8c9461f0aac87f42104e7632973c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:25 +0000
Subject: [PATCH 060/106] fix: csv parser keeps empty fields and rectangular
 tables, reports malformed quoting and append failures

---
 code/header/parsers/csv.h |  1 +
 code/source/parsers/csv.c | 59 ++++++++++++++++++++++++---------------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index bd29059..ba1d48d 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -8,6 +8,7 @@ typedef enum zpl_csv_error {
     ZPL_CSV_ERROR_INTERNAL,
     ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT,
     ZPL_CSV_ERROR_MISMATCHED_ROWS,
+    ZPL_CSV_ERROR_OUT_OF_MEMORY,
 } zpl_csv_error;
 
 typedef zpl_adt_node zpl_csv_object;
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 4a1a5b3..fbccb0d 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -10,19 +10,27 @@
 
 ZPL_BEGIN_C_DECLS
 
+/* skips white space, but never a delimiter */
+zpl_internal char *zpl__csv_trim(char *p, char delim, zpl_b32 catch_newline) {
+    while (zpl_char_is_space(*p) && *p != delim && !(catch_newline && *p == '\n')) { ++p; }
+    return p;
+}
+
 zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim) {
     zpl_csv_error err = ZPL_CSV_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     ZPL_ASSERT_NOT_NULL(text);
     zpl_zero_item(root);
-    zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true);
+    if (zpl_adt_make_branch(root, allocator, NULL, has_header ? false : true)) return ZPL_CSV_ERROR_OUT_OF_MEMORY;
     char *p = text, *b = p, *e = p;
     zpl_isize colc = 0, total_colc = 0;
+    zpl_b32 is_first_row = true;
 
     do {
         char d = 0;
-        p = cast(char *)zpl_str_trim(p, false);
-        if (*p == 0) break;
+        /* blank lines are skipped, but a row keeps its empty trailing field */
+        p = zpl__csv_trim(p, delim, colc > 0);
+        if (*p == 0 && colc == 0) break;
         zpl_adt_node row_item = {0};
         row_item.type = ZPL_ADT_TYPE_STRING;
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
@@ -49,21 +57,21 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 return err;
             }
             *e = 0;
-            p = cast(char *)zpl_str_trim(e+1, true);
+            p = zpl__csv_trim(e+1, delim, true);
             d = *p;
 
             /* unescape escaped quotes (so that unescaped text escapes :) */
             {
                 char *ep = b;
-                do {
+                while (*ep) {
                     if (*ep == '"' && *(ep+1) == '"') {
                         zpl_memmove(ep, ep+1, zpl_strlen(ep));
                     }
                     ep++;
-                } while (*ep);
+                }
             }
         }
-        else if (*p == delim) {
+        else if (*p == delim || *p == '\n' || *p == 0) {
             d = *p;
             row_item.string = "";
         }
@@ -75,7 +83,7 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
                 e++;
             } while (*e && *e != delim && *e != '\n');
             if (*e) {
-                p = cast(char *)zpl_str_trim(e, true);
+                p = zpl__csv_trim(e, delim, true);
                 while (zpl_char_is_space(*(e-1))) { e--; }
                 d = *p;
                 *e = 0;
@@ -86,9 +94,9 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             }
 
             /* check if number and process if so */
-            zpl_b32 skip_number = false;
+            zpl_b32 skip_number = has_header && is_first_row; /* names are text */
             char *num_p = b;
-            do {
+            if (!skip_number) do {
                 if (!zpl_char_is_hex_digit(*num_p) && (!zpl_strchr("+-.eExX", *num_p))) {
                     skip_number = true;
                     break;
@@ -96,32 +104,39 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             } while (*num_p++);
 
             if (!skip_number) {
-                zpl_adt_str_to_number(&row_item);
+                zpl_adt_str_to_number_strict(&row_item);
             }
         }
 
         if (colc >= zpl_array_count(root->nodes)) {
-            zpl_adt_append_arr(root, NULL);
+            if (!zpl_adt_append_arr(root, NULL)) return ZPL_CSV_ERROR_OUT_OF_MEMORY;
         }
 
-        zpl_array_append(root->nodes[colc].nodes, row_item);
+        row_item.parent = root->nodes + colc;
+        if (!zpl_array_append(root->nodes[colc].nodes, row_item)) return ZPL_CSV_ERROR_OUT_OF_MEMORY;
 
-        if (d == delim) {
-            colc++;
-            p++;
-        }
-        else if (d == '\n' || d == 0) {
+        if (d == '\n' || d == 0) {
             /* check if number of rows is not mismatched */
-            if (total_colc < colc) total_colc = colc;
+            if (is_first_row) total_colc = colc;
             else if (total_colc != colc) {
                 ZPL_CSV_ASSERT("mismatched rows");
                 err = ZPL_CSV_ERROR_MISMATCHED_ROWS;
                 return err;
             }
             colc = 0;
+            is_first_row = false;
             if (d != 0) p++;
         }
-    } while(*p);
+        else if (d == delim) {
+            colc++;
+            p++;
+        }
+        else {
+            ZPL_CSV_ASSERT("text after a quoted string");
+            err = ZPL_CSV_ERROR_INTERNAL;
+            return err;
+        }
+    } while(*p || colc > 0);
 
     if (zpl_array_count(root->nodes) == 0) {
         ZPL_CSV_ASSERT("unexpected end of input. stream is empty.");
@@ -203,7 +218,7 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            if (r < zpl_array_count(obj->nodes[i].nodes)) zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
             if (i+1 != cols) {
                 zpl_fprintf(file, "%c", delimiter);
             }
@@ -214,7 +229,7 @@ void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a)) return NULL;
     zpl_csv_write_delimiter(&tmp, obj, delimiter);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From c23615e04c42d85a303a3d95352b7a4142cda5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 061/106] fix: document tree edits keep parent links and the
 moved node

---
 code/source/adt.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index ca3ec48..17d780c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -216,6 +216,20 @@ zpl_adt_node *zpl_adt_query(zpl_adt_node *node, char const *uri) {
     return found_node;
 }
 
+/* nodes that moved in memory have to be found again by their children */
+zpl_internal void zpl__adt_link_children(zpl_adt_node *parent) {
+    for (zpl_isize i = 0; i < zpl_array_count(parent->nodes); i++) {
+        zpl_adt_node *node = parent->nodes + i;
+
+        if ((node->type != ZPL_ADT_TYPE_OBJECT && node->type != ZPL_ADT_TYPE_ARRAY) || !node->nodes)
+            continue;
+
+        for (zpl_isize j = 0; j < zpl_array_count(node->nodes); j++) {
+            node->nodes[j].parent = node;
+        }
+    }
+}
+
 zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!parent || (parent->type != ZPL_ADT_TYPE_OBJECT && parent->type != ZPL_ADT_TYPE_ARRAY)) {
         return NULL;
@@ -232,6 +246,7 @@ zpl_adt_node *zpl_adt_alloc_at(zpl_adt_node *parent, zpl_isize index) {
     if (!zpl_array_append_at(parent->nodes, o, index))
         return NULL;
 
+    zpl__adt_link_children(parent);
     return parent->nodes + index;
 }
 
@@ -273,11 +288,20 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(new_parent);
     zpl_adt_node *old_parent = node->parent;
+    zpl_adt_node moved = *node;
+    zpl_isize old_index = old_parent ? node - old_parent->nodes : 0;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
-    *new_node = *node;
+    if (!new_node) return NULL;
+    /* making room may have moved the old parent, too, if it is one of the new one's nodes */
+    if (old_parent && old_parent != new_parent) old_parent = node->parent;
+    *new_node = moved;
     new_node->parent = new_parent;
+    zpl__adt_link_children(new_parent);
     if (old_parent) {
-        zpl_adt_remove_node(node);
+        /* likewise the node itself, and removing it may move the new one */
+        if (old_parent == new_parent && index <= old_index) old_index++;
+        zpl_adt_remove_node(old_parent->nodes + old_index);
+        if (old_parent == new_parent && old_index < index) new_node--;
     }
     return new_node;
 }
@@ -301,6 +325,8 @@ void zpl_adt_swap_nodes(zpl_adt_node *node, zpl_adt_node *other_node) {
     other_parent->nodes[index2].parent = parent;
     parent->nodes[index] = other_parent->nodes[index2];
     other_parent->nodes[index2] = temp;
+    zpl__adt_link_children(parent);
+    zpl__adt_link_children(other_parent);
 }
 
 void zpl_adt_remove_node(zpl_adt_node *node) {
@@ -309,6 +335,7 @@ void zpl_adt_remove_node(zpl_adt_node *node) {
     zpl_adt_node *parent = node->parent;
     zpl_isize index = (zpl_pointer_diff(parent->nodes, node) / zpl_size_of(zpl_adt_node));
     zpl_array_remove_at(parent->nodes, index);
+    zpl__adt_link_children(parent);
 }
 
 
-- 
2.43.0


From 091024830520e2314fa39f928b047f7196acc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 062/106] fix: uri parser decodes complete escapes only and
 reports failures

---
 code/header/parsers/uri.h |  1 +
 code/source/adt.c         |  3 ++-
 code/source/parsers/uri.c | 45 +++++++++++++++++++++++----------------
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/code/header/parsers/uri.h b/code/header/parsers/uri.h
index f490d1c..a36a570 100644
--- a/code/header/parsers/uri.h
+++ b/code/header/parsers/uri.h
@@ -8,6 +8,7 @@ typedef zpl_adt_node zpl_uri_object;
 typedef enum zpl_uri_error {
     ZPL_URI_ERROR_NONE,
     ZPL_URI_ERROR_INTERNAL,
+    ZPL_URI_ERROR_OUT_OF_MEMORY,
 } zpl_uri_error;
 
 ZPL_DEF zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a);
diff --git a/code/source/adt.c b/code/source/adt.c
index 17d780c..d331ab3 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -79,7 +79,8 @@ zpl_internal zpl_adt_node *zpl__adt_get_value(zpl_adt_node *node, char const *va
             zpl_file tmp;
 
             /* allocate a file descriptor for a memory-mapped number to string conversion, input source buffer is not cloned, however. */
-            zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE);
+            if (!zpl_file_stream_open(&tmp, zpl_heap(), (zpl_u8*)back, zpl_size_of(back), ZPL_FILE_STREAM_WRITABLE))
+                return NULL;
             zpl_adt_print_number(&tmp, node);
 
             zpl_isize fsize=0;
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index 846b84f..f8a4244 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -3,14 +3,15 @@
 ZPL_BEGIN_C_DECLS
 
 void zpl__uri_decode_str(char *text) {
-    char buf[ZPL_PRINTF_MAXLEN] = {0}, *p = buf;
+    // NOTE: decoded text is never longer, so it is decoded in place
+    char *p = text;
     char *tp = text;
     
     char ch = -1;
     while (*tp) {
         ch = *tp++;
         
-        if (ch != '%') {
+        if (ch != '%' || !zpl_char_is_hex_digit(tp[0]) || !zpl_char_is_hex_digit(tp[1])) {
             if (ch == '+') {
                 *(p++) = ' ';
             } else {
@@ -26,17 +27,17 @@ void zpl__uri_decode_str(char *text) {
         }
     }
     
-    zpl_strcpy(text, buf);
-    text[p-buf] = 0;
+    *p = 0;
 }
 
 zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a) {
     zpl_u8 err_code = ZPL_URI_ERROR_NONE;
     ZPL_ASSERT_NOT_NULL(root);
     zpl_zero_item(root);
-    zpl_adt_set_obj(root, NULL, a);
-    if (origin)
-        zpl_adt_append_str(root, "__zpl_origin__", origin);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_OUT_OF_MEMORY;
+    if (origin && !zpl_adt_append_str(root, "__zpl_origin__", origin))
+        return ZPL_URI_ERROR_OUT_OF_MEMORY;
     return err_code;
 }
 
@@ -47,7 +48,8 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_zero_item(root);
     text = (char *)zpl_str_trim(text, false);
     
-    zpl_adt_set_obj(root, NULL, a);
+    if (zpl_adt_set_obj(root, NULL, a))
+        return ZPL_URI_ERROR_OUT_OF_MEMORY;
     
     char *p = text, *b = p;
 
@@ -61,9 +63,10 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
         char c = *p;
         *p = 0;
 
-        zpl_adt_append_str(root, "__zpl_origin__", b);
+        if (!zpl_adt_append_str(root, "__zpl_origin__", b))
+            return ZPL_URI_ERROR_OUT_OF_MEMORY;
         
-        if (!c) {
+        if (c != '?') {
             // NOTE(zaklaus): URI has no query params, bail
             return err_code;
         }
@@ -94,14 +97,18 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
             field_value = b;
             zpl__uri_decode_str(field_value);
             zpl_adt_node *obj = zpl_adt_append_str(root, field_name, field_value);
+            if (!obj)
+                return ZPL_URI_ERROR_OUT_OF_MEMORY;
             zpl_adt_str_to_number_strict(obj);
         } else {
             zpl_adt_node *obj = zpl_adt_append_flt(root, field_name, 1);
+            if (!obj)
+                return ZPL_URI_ERROR_OUT_OF_MEMORY;
             obj->props = ZPL_ADT_PROPS_TRUE;
         }
         
         
-        if (!c) {
+        if (c != '&' && c != '?') {
             break;
         }
         
@@ -148,17 +155,23 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_fprintf(f, origin->string);
+            zpl_fprintf(f, "%s", origin->string);
         }
     }
     
 	// NOTE(zaklaus): write params
-	if (zpl_array_count(obj->nodes) > 0)
+	if (zpl_array_count(obj->nodes) > (origin ? 1 : 0))
     	zpl_fprintf(f, "%s", "?");
+
+    zpl_b32 is_first = true;
     
     for (zpl_isize i = 0; i < zpl_array_count(obj->nodes); i++) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
+        if (!is_first) {
+            zpl_fprintf(f, "%s", "&");
+        }
+        is_first = false;
         
         zpl__uri_print_str(f, n->name);
 
@@ -172,10 +185,6 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
                 zpl_adt_print_number(f, n);
            } 
         }
-        
-        if (i+1 < zpl_array_count(obj->nodes)) {
-            zpl_fprintf(f, "%s", "&");
-        }
     }
 }
 
@@ -185,7 +194,7 @@ void zpl_uri_free(zpl_adt_node *obj) {
 
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
-    zpl_file_stream_new(&tmp, a);
+    if (!zpl_file_stream_new(&tmp, a)) return NULL;
     zpl_uri_write(&tmp, obj);
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
-- 
2.43.0


From 4e2fada9136908cebbdbc4c0d254600a0be0deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 063/106] fix: options keep positional pointers, check values
 and report failed registration

---
 code/header/opts.h |  3 +-
 code/source/opts.c | 83 ++++++++++++++++++++++++++++++++++------------
 2 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/code/header/opts.h b/code/header/opts.h
index cb04f7a..bb0304a 100644
--- a/code/header/opts.h
+++ b/code/header/opts.h
@@ -58,7 +58,8 @@ typedef struct {
 //! @param opts Options parser to initialize.
 //! @param allocator Memory allocator to use. (ex. zpl_heap())
 //! @param app Application name displayed in help screen.
-ZPL_DEF void zpl_opts_init(zpl_opts *opts, zpl_allocator allocator, char const *app);
+//! @return false if the memory for it could not be allocated.
+ZPL_DEF zpl_b32 zpl_opts_init(zpl_opts *opts, zpl_allocator allocator, char const *app);
 
 //! Releases the resources used by options parser.
 ZPL_DEF void zpl_opts_free(zpl_opts *opts);
diff --git a/code/source/opts.c b/code/source/opts.c
index bd4bf43..efbcc86 100644
--- a/code/source/opts.c
+++ b/code/source/opts.c
@@ -8,15 +8,23 @@
 
 ZPL_BEGIN_C_DECLS
 
-void zpl_opts_init(zpl_opts *opts, zpl_allocator a, char const *app) {
+zpl_b32 zpl_opts_init(zpl_opts *opts, zpl_allocator a, char const *app) {
     zpl_opts opts_ = { 0 };
     *opts = opts_;
     opts->alloc = a;
     opts->appname = app;
 
-    zpl_array_init(opts->entries, a);
-    zpl_array_init(opts->positioned, a);
-    zpl_array_init(opts->errors, a);
+    if (!zpl_array_init(opts->entries, a)) return false;
+    if (!zpl_array_init(opts->positioned, a)) {
+        zpl_array_free(opts->entries);
+        return false;
+    }
+    if (!zpl_array_init(opts->errors, a)) {
+        zpl_array_free(opts->positioned);
+        zpl_array_free(opts->entries);
+        return false;
+    }
+    return true;
 }
 
 void zpl_opts_free(zpl_opts *opts) {
@@ -42,7 +50,16 @@ void zpl_opts_add(zpl_opts *opts, char const *name, char const *lname, const cha
     e.met = false;
     e.pos = false;
 
+    /* positionals point to entries, which may move: they hold indices meanwhile */
+    for (zpl_isize i = 0; i < zpl_array_count(opts->positioned); ++i) {
+        opts->positioned[i] = cast(zpl_opts_entry *)cast(zpl_uintptr)(opts->positioned[i] - opts->entries);
+    }
+
     zpl_array_append(opts->entries, e);
+
+    for (zpl_isize i = 0; i < zpl_array_count(opts->positioned); ++i) {
+        opts->positioned[i] = opts->entries + cast(zpl_uintptr)opts->positioned[i];
+    }
 }
 
 zpl_opts_entry *zpl__opts_find(zpl_opts *opts, char const *name, zpl_usize len, zpl_b32 longname) {
@@ -88,29 +105,50 @@ zpl_i64 zpl_opts_integer(zpl_opts *opts, char const *name, zpl_i64 fallback) {
     return (e && e->met) ? e->integer : fallback;
 }
 
-void zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
-    t->met = true;
+void zpl__opts_push_error(zpl_opts *opts, char *b, zpl_u8 errtype);
+
+zpl_b32 zpl__opts_set_value(zpl_opts *opts, zpl_opts_entry *t, char *b) {
+    for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
+        if (opts->positioned[i] == t) {
+            zpl_array_remove_at(opts->positioned, i);
+            break;
+        }
+    }
 
     switch (t->type) {
         case ZPL_OPTS_STRING: {
-            t->text = zpl_string_make(opts->alloc, b);
+            zpl_string text = zpl_string_make(opts->alloc, b);
+            if (!text) {
+                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_VALUE);
+                return false;
+            }
+            if (t->text) zpl_string_free(t->text);
+            t->text = text;
         } break;
 
         case ZPL_OPTS_FLOAT: {
-            t->real = zpl_str_to_f64(b, NULL);
+            char *end = b;
+            zpl_f64 real = zpl_str_to_f64(b, &end);
+            if (end == b || *end) {
+                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_VALUE);
+                return false;
+            }
+            t->real = real;
         } break;
 
         case ZPL_OPTS_INT: {
-            t->integer = zpl_str_to_i64(b, NULL, 10);
+            char *end = b;
+            zpl_i64 integer = zpl_str_to_i64(b, &end, 10);
+            if (end == b || *end) {
+                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_VALUE);
+                return false;
+            }
+            t->integer = integer;
         } break;
     }
 
-    for (zpl_isize i=0; i < zpl_array_count(opts->positioned); i++) {
-        if (!zpl_strcmp(opts->positioned[i]->lname, t->lname)) {
-            zpl_array_remove_at(opts->positioned, i);
-            break;
-        }
-    }
+    t->met = true;
+    return true;
 }
 
 zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
@@ -124,7 +162,7 @@ zpl_b32 zpl_opts_has_arg(zpl_opts *opts, char const *name) {
 void zpl_opts_print_help(zpl_opts *opts) {
     zpl_printf("USAGE: %s", opts->appname);
 
-    for (zpl_isize i = zpl_array_count(opts->entries); i >= 0; --i) {
+    for (zpl_isize i = zpl_array_count(opts->entries) - 1; i >= 0; --i) {
         zpl_opts_entry *e = opts->entries + i;
 
         if (e->pos == (zpl_b32) true) { zpl_printf(" [%s]", e->lname); }
@@ -204,11 +242,11 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
 
                         b = e = e + 1;
                     } else if (*e == '\0') {
-                        char *sp = argv[i+1];
+                        char *sp = (i + 1 < argc) ? argv[i+1] : NULL;
 
                         if (sp && *sp != '-' && (zpl_array_count(opts->positioned) < 1  || t->type != ZPL_OPTS_FLAG)) {
                             if (t->type == ZPL_OPTS_FLAG) {
-                                zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_EXTRA_VALUE);
+                                zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_EXTRA_VALUE);
                                 had_errors = true;
                                 continue;
                             }
@@ -225,10 +263,13 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
                             t->met = true;
                             continue;
                         }
+                    } else {
+                        zpl__opts_push_error(opts, ob, ZPL_OPTS_ERR_OPTION);
+                        had_errors = true;
+                        continue;
                     }
 
-                    e = cast(char *)zpl_str_control_skip(e, '\0');
-                    zpl__opts_set_value(opts, t, b);
+                    if (!zpl__opts_set_value(opts, t, b)) had_errors = true;
                 } else {
                     zpl__opts_push_error(opts, b, ZPL_OPTS_ERR_OPTION);
                     had_errors = true;
@@ -236,7 +277,7 @@ zpl_b32 zpl_opts_compile(zpl_opts *opts, int argc, char **argv) {
             } else if (zpl_array_count(opts->positioned)) {
                 zpl_opts_entry *l = zpl_array_back(opts->positioned);
                 zpl_array_pop(opts->positioned);
-                zpl__opts_set_value(opts, l, p);
+                if (!zpl__opts_set_value(opts, l, p)) had_errors = true;
             } else {
                 zpl__opts_push_error(opts, p, ZPL_OPTS_ERR_VALUE);
                 had_errors = true;
-- 
2.43.0


From 4d8a75aaff59b58ae21f3be6c8e778cb82c78cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 064/106] fix: regex branches, quantifiers, groups and bounds
 follow the pattern

---
 code/source/regex.c | 226 +++++++++++++++++++++++++++-----------------
 1 file changed, 137 insertions(+), 89 deletions(-)

diff --git a/code/source/regex.c b/code/source/regex.c
index 7ef20d9..bfc3e72 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -111,35 +111,37 @@ static zpl_b32 zpl_re__match_escape(char c, int code) {
     return 0;
 }
 
-static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_b32 is_greedy)
+static zpl_b32 zpl_re__is_match(zpl_re_ctx c, zpl_isize str_len) {
+    return c.offset >= 0 && c.offset <= str_len;
+}
+
+static zpl_re_ctx zpl_re__consume(zpl_re *re, zpl_isize op, char const *str, zpl_isize str_len, zpl_isize offset, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize min_count, zpl_b32 is_greedy)
 {
     zpl_re_ctx c, best_c, next_c;
+    zpl_isize best_offset = ZPL_RE__NO_MATCH;
 
-    c.op = op;
-    c.offset = offset;
-
-    best_c.op = ZPL_RE__NO_MATCH;
-    best_c.offset = offset;
+    best_c = zpl_re__ctx_no_match(op);
 
-    for (;;) {
-        c = zpl_re__exec_single(re, op, str, str_len, c.offset, 0, 0);
-        if (c.offset > str_len || c.offset == -1) break;
-        if (c.op >= re->buf_len) return c;
+    for (;; min_count--) {
+        /* whether it matches once more or not, the operand ends at the same op */
+        c = zpl_re__exec_single(re, op, str, str_len, offset, 0, 0);
 
-        next_c = zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-        if (next_c.offset <= str_len) {
-            if (captures)
-                zpl_re__exec(re, c.op, str, str_len, c.offset, captures, max_capture_count);
-
-            best_c = next_c;
-            if (!is_greedy) break;
+        if (min_count <= 0) {
+            next_c = zpl_re__exec(re, c.op, str, str_len, offset, 0, 0);
+            if (zpl_re__is_match(next_c, str_len)) {
+                best_c = next_c;
+                best_offset = offset;
+                if (!is_greedy) break;
+            }
         }
 
-        if (best_c.op > re->buf_len)
-            best_c.op = c.op;
-
+        if (!zpl_re__is_match(c, str_len)) break;
+        offset = c.offset;
     }
 
+    if (captures && best_offset >= 0)
+        zpl_re__exec(re, c.op, str, str_len, best_offset, captures, max_capture_count);
+
     return best_c;
 }
 
@@ -174,9 +176,9 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_START: {
-            skip = re->buf[op++];
+            skip = cast(zpl_u8)re->buf[op++];
             ctx = zpl_re__exec(re, op, str, str_len, offset, captures, max_capture_count);
-            if (ctx.offset <= str_len) {
+            if (zpl_re__is_match(ctx, str_len)) {
                 offset = ctx.offset;
                 op = ctx.op;
             } else {
@@ -187,7 +189,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_BRANCH_END: {
-            skip = re->buf[op++];
+            skip = cast(zpl_u8)re->buf[op++];
             op += skip;
         } break;
 
@@ -201,12 +203,13 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_OF: {
             zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            char cin;
+            buffer_len = cast(zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op+i];
                 if (!cmatch) {
@@ -227,12 +230,13 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_ANY_BUT: {
             zpl_isize i;
-            char cin = str[offset];
-            buffer_len = re->buf[op++];
+            char cin;
+            buffer_len = cast(zpl_u8)re->buf[op++];
 
             if (offset >= str_len)
                 return zpl_re__ctx_no_match(op + buffer_len);
 
+            cin = str[offset];
             for (i = 0; i < buffer_len; i++) {
                 char cmatch = (char)re->buf[op + i];
                 if (!cmatch) {
@@ -249,10 +253,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         } break;
 
         case ZPL_RE_OP_EXACT_MATCH: {
-            match_len = re->buf[op++];
+            match_len = cast(zpl_u8)re->buf[op++];
 
             if ((match_len > (str_len - offset)) ||
-                zpl_strncmp(str+offset, (const char*)re->buf + op, match_len) != 0)
+                zpl_memcompare(str+offset, (const char*)re->buf + op, match_len) != 0)
                 return zpl_re__ctx_no_match(op + match_len);
 
             op += match_len;
@@ -261,47 +265,37 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
 
         case ZPL_RE_OP_META_MATCH: {
             char cin = (char)re->buf[op++];
-            char cmatch = str[offset++];
+            int code = cin ? 0 : re->buf[op++] << 8;
 
-            if (!cin) {
-                if (zpl_re__match_escape(cmatch, re->buf[op++] << 8))
+            if (offset < str_len) {
+                char cmatch = str[offset++];
+                if (cin ? cin == cmatch : zpl_re__match_escape(cmatch, code))
                     break;
             }
-            else if (cin == cmatch) break;
 
             return zpl_re__ctx_no_match(op);
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 1);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ZERO_OR_MORE_SHORTEST: {
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
 
         case ZPL_RE_OP_ONE_OR_MORE_SHORTEST: {
-            ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
-
-            if (ctx.offset > str_len)
-                return ctx;
-
-            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 0);
+            ctx = zpl_re__consume(re, op, str, str_len, offset, captures, max_capture_count, 1, 0);
             offset = ctx.offset;
             op = ctx.op;
         } break;
@@ -309,10 +303,10 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
         case ZPL_RE_OP_ZERO_OR_ONE: {
             ctx = zpl_re__exec_single(re, op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__is_match(ctx, str_len)) {
                 zpl_re_ctx possible_ctx = zpl_re__exec(re, ctx.op, str, str_len, ctx.offset, captures, max_capture_count);
 
-                if (possible_ctx.offset <= str_len) {
+                if (zpl_re__is_match(possible_ctx, str_len)) {
                     op = possible_ctx.op;
                     offset = possible_ctx.offset;
                     break;
@@ -322,7 +316,7 @@ static zpl_re_ctx zpl_re__exec_single(zpl_re *re, zpl_isize op, char const *str,
             next_op = ctx.op;
             ctx = zpl_re__exec(re, next_op, str, str_len, offset, captures, max_capture_count);
 
-            if (ctx.offset <= str_len) {
+            if (zpl_re__is_match(ctx, str_len)) {
                 op = ctx.op;
                 offset = ctx.offset;
                 break;
@@ -349,33 +343,43 @@ static zpl_re_ctx zpl_re__exec(zpl_re *re, zpl_isize op, char const *str, zpl_is
     while (c.op < re->buf_len) {
         c = zpl_re__exec_single(re, c.op, str, str_len, c.offset, captures, max_capture_count);
 
-        if (c.offset > str_len || c.offset == -1)
+        if (!zpl_re__is_match(c, str_len))
             break;
     }
 
     return c;
 }
 
-static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
-    va_list va;
-
+static zpl_regex_error zpl_re__reserve_ops(zpl_re *re, zpl_isize op_count) {
     if (re->buf_len + op_count > re->buf_cap) {
         if (!re->can_realloc) {
             return ZPL_RE_ERROR_TOO_LONG;
         }
         else {
             zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            char *new_buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
+            if (!new_buf) return ZPL_RE_ERROR_INTERNAL_FAILURE;
+            re->buf = new_buf;
             re->buf_cap = new_cap;
         }
     }
 
+    return ZPL_RE_ERROR_NONE;
+}
+
+static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
+    va_list va;
+    zpl_regex_error err = zpl_re__reserve_ops(re, op_count);
+    if (err) return err;
+
     va_start(va, op_count);
     for (zpl_isize i = 0; i < op_count; i++)
     {
         zpl_i32 v = va_arg(va, zpl_i32);
-        if (v > 256)
+        if (v > 255) {
+            va_end(va);
             return ZPL_RE_ERROR_TOO_LONG;
+        }
         re->buf[re->buf_len++] = (char)v;
     }
     va_end(va);
@@ -384,16 +388,8 @@ static zpl_regex_error zpl_re__emit_ops(zpl_re *re, zpl_isize op_count, ...) {
 }
 
 static zpl_regex_error zpl_re__emit_ops_buffer(zpl_re *re, zpl_isize op_count, char const *buffer) {
-    if (re->buf_len + op_count > re->buf_cap) {
-        if (!re->can_realloc) {
-            return ZPL_RE_ERROR_TOO_LONG;
-        }
-        else {
-            zpl_isize new_cap = (re->buf_cap*2) + op_count;
-            re->buf = (char *)zpl_resize(re->backing, re->buf, re->buf_cap, new_cap);
-            re->buf_cap = new_cap;
-        }
-    }
+    zpl_regex_error err = zpl_re__reserve_ops(re, op_count);
+    if (err) return err;
 
     for (zpl_isize i = 0; i < op_count; i++)
     {
@@ -442,7 +438,7 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
     zpl_b32 closed = 0;
     zplreOp op = ZPL_RE_OP_ANY_OF;
 
-    if (pattern[offset] == '^') {
+    if (offset < len && pattern[offset] == '^') {
         offset++;
         op = ZPL_RE_OP_ANY_BUT;
     }
@@ -468,9 +464,15 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         if (pattern[offset] == '\\') {
             offset++;
 
-            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+            if ((offset + 1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                 buffer[buffer_len++] = zpl_re__hex((pattern+offset));
                 offset++;
+                if (!buffer[buffer_len-1]) {
+                    /* a zero is followed by the code of what it stands for */
+                    if (buffer_len >= buffer_cap)
+                        return ZPL_RE_ERROR_TOO_LONG;
+                    buffer[buffer_len++] = ZPL_RE_CODE_NULL;
+                }
             }
             else if (offset < len) {
                 zpl_i32 code = zpl_re__encode_escape(pattern[offset]);
@@ -490,6 +492,11 @@ static zpl_regex_error zpl_re__parse_group(zpl_re *re, char const *pattern, zpl_
         }
         else {
             buffer[buffer_len++] = (unsigned char)pattern[offset];
+            if (!pattern[offset]) {
+                if (buffer_len >= buffer_cap)
+                    return ZPL_RE_ERROR_TOO_LONG;
+                buffer[buffer_len++] = ZPL_RE_CODE_NULL;
+            }
         }
 
         offset++;
@@ -506,7 +513,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     zpl_isize move_size;
 
     if ((re->buf[last_buf_len] == ZPL_RE_OP_EXACT_MATCH) &&
-        (re->buf[last_buf_len+1] > 1))
+        (cast(zpl_u8)re->buf[last_buf_len+1] > 1))
     {
         unsigned char last_char = re->buf[re->buf_len-1];
 
@@ -517,7 +524,7 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
         return ZPL_RE_ERROR_NONE;
     }
 
-    move_size = re->buf_len - last_buf_len + 1;
+    move_size = re->buf_len - last_buf_len;
 
     err = zpl_re__emit_ops(re, 1, 0);
     if (err) return err;
@@ -528,6 +535,17 @@ static zpl_regex_error zpl_re__compile_quantifier(zpl_re *re, zpl_isize last_buf
     return ZPL_RE_ERROR_NONE;
 }
 
+/* lets the end of a branch skip everything emitted since */
+static zpl_regex_error zpl_re__close_branch(zpl_re *re, zpl_isize branch_op) {
+    if (branch_op != -1) {
+        zpl_isize skip = re->buf_len - (branch_op+2);
+        if (skip > 255) return ZPL_RE_ERROR_TOO_LONG;
+        re->buf[branch_op+1] = (char)skip;
+    }
+
+    return ZPL_RE_ERROR_NONE;
+}
+
 static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize len, zpl_isize offset, zpl_isize level, zpl_isize *new_offset) {
     zpl_regex_error err = ZPL_RE_ERROR_NONE;
     zpl_isize last_buf_len = re->buf_len;
@@ -537,11 +555,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
     while (offset < len) {
         switch (pattern[offset++]) {
             case '^': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_BEGINNING_OF_LINE);
                 if (err) return err;
             } break;
 
             case '$': {
+                last_buf_len = re->buf_len;
                 err = zpl_re__emit_ops(re, 1, ZPL_RE_OP_END_OF_LINE);
                 if (err) return err;
             } break;
@@ -553,17 +573,15 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (err) return err;
 
                 err = zpl_re__parse(re, pattern, len, offset, level+1, &offset);
-
-                if ((offset > len) || (pattern[offset-1] != ')'))
-                    return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+                if (err) return err;
 
                 err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_END_CAPTURE, (zpl_i32)capture);
                 if (err) return err;
             } break;
 
             case ')': {
-                if (branch_op != -1)
-                    re->buf[branch_op + 1] = (unsigned char)(re->buf_len - (branch_op+2));
+                err = zpl_re__close_branch(re, branch_op);
+                if (err) return err;
 
                 if (level == 0)
                     return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
@@ -575,8 +593,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
             case '[': {
                 last_buf_len = re->buf_len;
                 err = zpl_re__parse_group(re, pattern, len, offset, &offset);
-                if (offset > len)
-                    return err;
+                if (err) return err;
             } break;
 
             /* NOTE(bill): Branching magic! */
@@ -584,7 +601,12 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (branch_begin >= re->buf_len) {
                     return ZPL_RE_ERROR_BRANCH_FAILURE;
                 } else {
-                    zpl_isize size = re->buf_len - branch_begin;
+                    zpl_isize size;
+                    err = zpl_re__close_branch(re, branch_op);
+                    if (err) return err;
+
+                    size = re->buf_len - branch_begin;
+                    if (size + 2 > 255) return ZPL_RE_ERROR_TOO_LONG;
                     err = zpl_re__emit_ops(re, 4, 0, 0, ZPL_RE_OP_BRANCH_END, 0);
                     if (err) return err;
 
@@ -592,6 +614,7 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     re->buf[branch_begin] = ZPL_RE_OP_BRANCH_START;
                     re->buf[branch_begin+1] = (size+2) & 0xff;
                     branch_op = re->buf_len-2;
+                    last_buf_len = re->buf_len;
                 }
             } break;
 
@@ -615,12 +638,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                     return ZPL_RE_ERROR_INVALID_QUANTIFIER;
 
                 if ((offset < len) && (pattern[offset] == '?')) {
-                    quantifier = ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
+                    quantifier = (quantifier == ZPL_RE_OP_ZERO_OR_MORE) ? ZPL_RE_OP_ZERO_OR_MORE_SHORTEST : ZPL_RE_OP_ONE_OR_MORE_SHORTEST;
                     offset++;
                 }
 
                 err = zpl_re__compile_quantifier(re, last_buf_len, quantifier);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '?': {
@@ -633,14 +657,15 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 err = zpl_re__compile_quantifier(re, last_buf_len,
                                                  (unsigned char)ZPL_RE_OP_ZERO_OR_ONE);
                 if (err) return err;
+                last_buf_len = re->buf_len;
             } break;
 
             case '\\': {
                 last_buf_len = re->buf_len;
-                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset))) {
+                if ((offset+1 < len) && zpl_char_is_hex_digit(*(pattern+offset)) && zpl_char_is_hex_digit(*(pattern+offset+1))) {
                     unsigned char hex_value = zpl_re__hex((pattern+offset));
                     offset += 2;
-                    err = zpl_re__emit_ops(re, 2, ZPL_RE_OP_META_MATCH, (int)hex_value);
+                    err = zpl_re__emit_ops(re, hex_value ? 2 : 3, ZPL_RE_OP_META_MATCH, (int)hex_value, ZPL_RE_CODE_NULL);
                     if (err) return err;
                 } else if (offset < len) {
                     int code = zpl_re__encode_escape(pattern[offset++]);
@@ -674,6 +699,13 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
         }
     }
 
+    /* the capture we are in was never closed */
+    if (level > 0)
+        return ZPL_RE_ERROR_MISMATCHED_CAPTURES;
+
+    err = zpl_re__close_branch(re, branch_op);
+    if (err) return err;
+
     if (new_offset) *new_offset = offset;
     return ZPL_RE_ERROR_NONE;
 }
@@ -683,7 +715,7 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
     re->capture_count = 0;
     re->buf = (char *)buffer;
     re->buf_len = 0;
-    re->buf_cap = re->buf_len;
+    re->buf_cap = buffer_len;
     re->can_realloc = 0;
 
     err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
@@ -693,7 +725,6 @@ zpl_regex_error zpl_re_compile_from_buffer(zpl_re *re, char const *pattern, zpl_
 zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pattern, zpl_isize pattern_len) {
     zpl_regex_error err;
     zpl_isize cap = pattern_len+128;
-    zpl_isize offset = 0;
 
     re->backing = backing;
     re->capture_count = 0;
@@ -701,15 +732,27 @@ zpl_regex_error zpl_re_compile(zpl_re *re, zpl_allocator backing, char const *pa
     re->buf_len = 0;
     re->buf_cap = cap;
     re->can_realloc = 1;
+    if (!re->buf) {
+        re->buf_cap = 0;
+        return ZPL_RE_ERROR_INTERNAL_FAILURE;
+    }
 
-    err = zpl_re__parse(re, pattern, pattern_len, 0, 0, &offset);
+    err = zpl_re__parse(re, pattern, pattern_len, 0, 0, 0);
 
-    if (offset != pattern_len)
-        zpl_free(backing, re->buf);
+    if (err)
+        zpl_re_destroy(re);
 
     return err;
 }
 
+void zpl_re_destroy(zpl_re *re) {
+    if (re->can_realloc && re->buf)
+        zpl_free(re->backing, re->buf);
+
+    re->buf = NULL;
+    re->buf_len = re->buf_cap = 0;
+}
+
 zpl_isize zpl_re_capture_count(zpl_re *re) { return re->capture_count; }
 
 zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture *captures, zpl_isize max_capture_count, zpl_isize *offset) {
@@ -720,7 +763,7 @@ zpl_b32 zpl_re_match(zpl_re *re, char const *str, zpl_isize len, zpl_re_capture
             if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
         } else {
             zpl_isize i;
-            for (i = 0; i < len; i++) {
+            for (i = 0; i <= len; i++) {
                 zpl_re_ctx c = zpl_re__exec(re, 0, str, len, i, captures, max_capture_count);
                 if (c.offset >= 0 && c.offset <= len) { if (offset) *offset = c.offset; return 1; };
                 if (c.offset == ZPL_RE__INTERNAL_FAILURE) return 0;
@@ -739,21 +782,26 @@ zpl_b32 zpl_re_match_all(zpl_re *re, char const *str, zpl_isize str_len, zpl_isi
     char *p = (char *)str;
 
     zpl_buffer_make(zpl_re_capture, cps, zpl_heap(), max_capture_count);
+    if (!cps) return false;
 
     zpl_isize offset = 0;
 
     while (p < end)
     {
+        zpl_memset(cps, 0, max_capture_count * zpl_size_of(zpl_re_capture));
         zpl_b32 ok = zpl_re_match(re, p, end - p, cps, max_capture_count, &offset);
         if (!ok) {
             zpl_buffer_free(cps);
             return false;
         }
 
-        p += offset;
+        p += zpl_max(offset, 1); /* an empty match still moves on */
 
         for (zpl_isize i = 0; i < max_capture_count; i++) {
-            zpl_array_append(*out_captures, cps[i]);
+            if (!zpl_array_append(*out_captures, cps[i])) {
+                zpl_buffer_free(cps);
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From 1579889b2d1e0e7bc9d431df5aad8a1e81814a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 065/106] fix: a stray closing bracket in a pattern is an error
 instead of an endless loop

---
 code/source/regex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/source/regex.c b/code/source/regex.c
index bfc3e72..9e827a0 100644
--- a/code/source/regex.c
+++ b/code/source/regex.c
@@ -596,6 +596,9 @@ static zpl_regex_error zpl_re__parse(zpl_re *re, char const *pattern, zpl_isize
                 if (err) return err;
             } break;
 
+            case ']':
+                return ZPL_RE_ERROR_MISMATCHED_BLOCKS;
+
             /* NOTE(bill): Branching magic! */
             case '|': {
                 if (branch_begin >= re->buf_len) {
-- 
2.43.0


From 998a6bd47aca879c5700512ae9c8b38e8797ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 066/106] fix: integers too large for 64 bits are read as
 reals, reals filled in by hand print their own parts

---
 code/source/adt.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index d331ab3..a4cd568 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -395,6 +395,18 @@ char *zpl_adt_parse_number_strict(zpl_adt_node *node, char* base_str) {
     return base_str;
 }
 
+zpl_internal zpl_b32 zpl__adt_fits_i64(char const *digits) {
+    zpl_b32 neg = *digits == '-';
+    zpl_u64 limit = cast(zpl_u64)ZPL_I64_MAX + (neg ? 1 : 0), value = 0;
+
+    for (digits += neg; *digits; digits++) {
+        zpl_u64 digit = cast(zpl_u64)(*digits - '0');
+        if (value > (limit - digit) / 10) return false;
+        value = value * 10 + digit;
+    }
+    return true;
+}
+
 char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
     ZPL_ASSERT_NOT_NULL(node);
     ZPL_ASSERT_NOT_NULL(base_str);
@@ -499,8 +511,12 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
 
     zpl_i32 exp_left = exp;
 
-    if (node_type == ZPL_ADT_TYPE_INTEGER) {
-        node->integer = zpl_str_to_i64(buf, 0, 0);
+    if (node_type == ZPL_ADT_TYPE_INTEGER && node_props != ZPL_ADT_PROPS_IS_HEX && !zpl__adt_fits_i64(buf)) {
+        /* too large for an integer */
+        node_type = ZPL_ADT_TYPE_REAL;
+        node->real = zpl_str_to_f64(buf, 0);
+    } else if (node_type == ZPL_ADT_TYPE_INTEGER) {
+        node->integer = zpl_str_to_i64(buf, 0, node_props == ZPL_ADT_PROPS_IS_HEX ? 16 : 10);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
         /* special case: negative zero */
         if (node->integer == 0 && buf[0] == '-') {
@@ -626,7 +642,7 @@ zpl_adt_error zpl_adt_print_number(zpl_file *file, zpl_adt_node *node) {
                 if (!node->lead_digit)
                     zpl__adt_fprintf(file, ".%0*d%lld", node->base2_offset, 0, (long long)node->base2);
                 else
-                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long int)node->base2_offset, 0, (int)node->base, (long long)node->base2);
+                    zpl__adt_fprintf(file, "%lld.%0*d%lld", (long long)node->base, node->base2_offset, 0, (long long)node->base2);
 #endif
             } else {
                 zpl__adt_fprintf(file, "%f", node->real);
-- 
2.43.0


From 27cdb1feee8f5afac10fe186d24deea6b99e09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 067/106] fix: hexadecimal numbers written with 0X keep their
 value

---
 code/source/adt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index a4cd568..dcdbb8c 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -458,7 +458,7 @@ char *zpl_adt_parse_number(zpl_adt_node *node, char* base_str) {
         if (!zpl_strncmp(e, "0x", 2) || !zpl_strncmp(e, "0X", 2)) {
             node_props = ZPL_ADT_PROPS_IS_HEX;
             buf[ib++] = *e++;
-            buf[ib++] = *e++;
+            buf[ib++] = zpl_char_to_lower(*e++);
         }
 
         /* bail if ZPL_ADT_PROPS_IS_HEX is unset but we get 'x' on input */
-- 
2.43.0


From be0d7c2b5da34784ec0777abf7c74dd1c60ec7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 068/106] fix: csv fields at the end of the text are trimmed
 like all others

---
 code/source/parsers/csv.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index fbccb0d..6c200fa 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -82,16 +82,10 @@ zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator a
             do {
                 e++;
             } while (*e && *e != delim && *e != '\n');
-            if (*e) {
-                p = zpl__csv_trim(e, delim, true);
-                while (zpl_char_is_space(*(e-1))) { e--; }
-                d = *p;
-                *e = 0;
-            }
-            else {
-                d = 0;
-                p = e;
-            }
+            p = zpl__csv_trim(e, delim, true);
+            while (zpl_char_is_space(*(e-1))) { e--; }
+            d = *p;
+            *e = 0;
 
             /* check if number and process if so */
             zpl_b32 skip_number = has_header && is_first_row; /* names are text */
-- 
2.43.0


From fc7ec134ebe2a1ffa9b8dcd04bb86de5b5f05d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 069/106] fix: moving a tree node does not compare freed
 parents

---
 code/source/adt.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index dcdbb8c..1e5452f 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -290,19 +290,21 @@ zpl_adt_node *zpl_adt_move_node_at(zpl_adt_node *node, zpl_adt_node *new_parent,
     ZPL_ASSERT_NOT_NULL(new_parent);
     zpl_adt_node *old_parent = node->parent;
     zpl_adt_node moved = *node;
+    zpl_b32 has_parent = old_parent != NULL, same_parent = old_parent == new_parent;
     zpl_isize old_index = old_parent ? node - old_parent->nodes : 0;
     zpl_adt_node *new_node = zpl_adt_alloc_at(new_parent, index);
     if (!new_node) return NULL;
     /* making room may have moved the old parent, too, if it is one of the new one's nodes */
-    if (old_parent && old_parent != new_parent) old_parent = node->parent;
+    if (same_parent) old_parent = new_parent;
+    else if (has_parent) old_parent = node->parent;
     *new_node = moved;
     new_node->parent = new_parent;
     zpl__adt_link_children(new_parent);
-    if (old_parent) {
+    if (has_parent) {
         /* likewise the node itself, and removing it may move the new one */
-        if (old_parent == new_parent && index <= old_index) old_index++;
+        if (same_parent && index <= old_index) old_index++;
         zpl_adt_remove_node(old_parent->nodes + old_index);
-        if (old_parent == new_parent && old_index < index) new_node--;
+        if (same_parent && old_index < index) new_node--;
     }
     return new_node;
 }
-- 
2.43.0


From db51a9dd2b1dc0318331e7ed1a6574158f0acde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 070/106] fix: clock readings are whole milliseconds, never
 rounded up

---
 code/source/core/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index c12fec6..d5bc3d8 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -153,7 +153,7 @@ ZPL_BEGIN_C_DECLS
             zpl_u64 result;
 
             clock_gettime(1 /*CLOCK_MONOTONIC*/, &t);
-            result = 1000 * t.tv_sec + 1.0e-6 * t.tv_nsec;
+            result = 1000 * cast(zpl_u64)t.tv_sec + cast(zpl_u64)t.tv_nsec / 1000000;
             return result;
         }
 #    endif
@@ -200,7 +200,7 @@ ZPL_BEGIN_C_DECLS
 #    else
         clock_gettime(0 /*CLOCK_REALTIME*/, &t);
 #    endif
-        return ((zpl_u64)t.tv_sec * 1000 + t.tv_nsec * 1e-6 + ZPL__UNIX_TO_WIN32_EPOCH);
+        return ((zpl_u64)t.tv_sec * 1000 + (zpl_u64)t.tv_nsec / 1000000 + ZPL__UNIX_TO_WIN32_EPOCH);
     }
 
     void zpl_sleep_ms(zpl_u32 ms) {
-- 
2.43.0


From 4ff58ec6943ebfc0383f919613c0852d8b9e410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 071/106] fix: local time uses the zone's own offset and
 daylight shift

---
 code/source/core/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/core/time.c b/code/source/core/time.c
index d5bc3d8..61c9ad6 100644
--- a/code/source/core/time.c
+++ b/code/source/core/time.c
@@ -215,8 +215,8 @@ ZPL_BEGIN_C_DECLS
         zpl_u16 ms = result % 1000;
         result *= 1e-3;
         localtime_r((const time_t*)&result, &t);
-        result = (zpl_u64)mktime(&t);
-        return (result - timezone + t.tm_isdst * 3600) * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
+        result = (zpl_u64)timegm(&t);
+        return result * 1000 + ms + ZPL__UNIX_TO_WIN32_EPOCH;
     }
 #endif
 
-- 
2.43.0


From bb98b34bdf98a180180ad0c43c6424df3060292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 072/106] fix: spin locks move the word from free to held, not
 from held to free

---
 code/source/threading/atomic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index 333b13e..e0f9367 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -400,11 +400,11 @@ ZPL_BEGIN_C_DECLS
 
 
 zpl_b32 zpl_atomic32_spin_lock(zpl_atomic32 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i32) old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_i32 counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic32_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -416,11 +416,11 @@ void zpl_atomic32_spin_unlock(zpl_atomic32 *a) {
 }
 
 zpl_b32 zpl_atomic64_spin_lock(zpl_atomic64 *a, zpl_isize time_out) {
-    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    zpl_atomicarg(zpl_i64) old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_atomicarg(zpl_i64) counter = 0;
     while (old_value != 0 && (time_out < 0 || counter++ < time_out)) {
         zpl_yield_thread();
-        old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+        old_value = zpl_atomic64_compare_exchange(a, 0, 1);
         zpl_mfence();
     }
     return old_value == 0;
@@ -434,7 +434,7 @@ void zpl_atomic64_spin_unlock(zpl_atomic64 *a) {
 zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
     zpl_atomicarg(zpl_i32) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic32_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic32_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
@@ -442,7 +442,7 @@ zpl_b32 zpl_atomic32_try_acquire_lock(zpl_atomic32 *a) {
 zpl_b32 zpl_atomic64_try_acquire_lock(zpl_atomic64 *a) {
     zpl_atomicarg(zpl_i64) old_value;
     zpl_yield_thread();
-    old_value = zpl_atomic64_compare_exchange(a, 1, 0);
+    old_value = zpl_atomic64_compare_exchange(a, 0, 1);
     zpl_mfence();
     return old_value == 0;
 }
-- 
2.43.0


From 62f88882085bfaa4cc2382b7b218c86d818e7a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 073/106] fix: compare-exchange returns the former value on
 every processor

---
 code/source/threading/atomic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/threading/atomic.c b/code/source/threading/atomic.c
index e0f9367..4ed15e8 100644
--- a/code/source/threading/atomic.c
+++ b/code/source/threading/atomic.c
@@ -346,7 +346,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i32 zpl_atomic32_compare_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) expected, zpl_atomicarg(zpl_i32) desired) {
-        return __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i32*)&a->value, (zpl_i32*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected;
     }
 
     zpl_i32 zpl_atomic32_exchange(zpl_atomic32 *a, zpl_atomicarg(zpl_i32) desired) {
@@ -374,7 +375,8 @@ ZPL_BEGIN_C_DECLS
     }
 
     zpl_i64 zpl_atomic64_compare_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) expected, zpl_atomicarg(zpl_i64) desired) {
-        return __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        __atomic_compare_exchange_n((zpl_i64*)&a->value, (zpl_i64*)&expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+        return expected;
     }
 
     zpl_i64 zpl_atomic64_exchange(zpl_atomic64 *a, zpl_atomicarg(zpl_i64) desired) {
-- 
2.43.0


From 76d33ff98f95c5c8abf5ba240583fee5155f293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:45 +0000
Subject: [PATCH 074/106] fix: mutex functions report success as true on every
 system

---
 code/source/threading/mutex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/source/threading/mutex.c b/code/source/threading/mutex.c
index f9cc14f..e3589c4 100644
--- a/code/source/threading/mutex.c
+++ b/code/source/threading/mutex.c
@@ -8,7 +8,7 @@ zpl_b32 zpl_mutex_init(zpl_mutex *m) {
         InitializeCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_init(&m->pthread_mutex, NULL);
+        return pthread_mutex_init(&m->pthread_mutex, NULL) == 0;
 #    endif
 }
 
@@ -17,7 +17,7 @@ zpl_b32 zpl_mutex_destroy(zpl_mutex *m) {
         DeleteCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
         return 1;
 #    else
-        return pthread_mutex_destroy(&m->pthread_mutex);
+        return pthread_mutex_destroy(&m->pthread_mutex) == 0;
 #    endif
 }
 
@@ -33,7 +33,7 @@ zpl_b32 zpl_mutex_try_lock(zpl_mutex *m) {
 #    if defined(ZPL_SYSTEM_WINDOWS)
         return TryEnterCriticalSection((CRITICAL_SECTION*)m->win32_critical_section);
 #    else
-        return pthread_mutex_trylock(&m->pthread_mutex);
+        return pthread_mutex_trylock(&m->pthread_mutex) == 0;
 #    endif
 }
 
-- 
2.43.0


From 0bcf6f064b9e204af28e0dbba835a6e36746a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 075/106] fix: a thread that could not be created is reported,
 not joined, and leaves no attributes behind

---
 code/source/threading/thread.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/source/threading/thread.c b/code/source/threading/thread.c
index da1d84c..0ecc116 100644
--- a/code/source/threading/thread.c
+++ b/code/source/threading/thread.c
@@ -79,11 +79,12 @@ zpl_b32 zpl_thread_start_with_stack(zpl_thread *t, zpl_thread_proc proc, void *u
         pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
         if (stack_size != 0)
             pthread_attr_setstacksize(&attr, stack_size);
-        zpl_b32 res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        int res = pthread_create(&t->posix_handle, &attr, zpl__thread_proc, t);
+        pthread_attr_destroy(&attr);
         if (res != 0) {
-            return res;
+            t->posix_handle = 0;
+            return 0;
         }
-        pthread_attr_destroy(&attr);
     }
 #    endif
     if (!t->nowait)
@@ -97,8 +98,10 @@ void zpl_thread_join(zpl_thread *t) {
     CloseHandle(t->win32_handle);
     t->win32_handle = INVALID_HANDLE_VALUE;
 #    else
-    pthread_join(t->posix_handle, NULL);
-    t->posix_handle = 0;
+    if (t->posix_handle) {
+        pthread_join(t->posix_handle, NULL);
+        t->posix_handle = 0;
+    }
 #    endif
 }
 
-- 
2.43.0


From 41d0f6a0583f507313cd9c60aac3b3f77e1d18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:53 +0000
Subject: [PATCH 076/106] fix: a worker told to stop while taking a job stops

---
 code/source/jobs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/source/jobs.c b/code/source/jobs.c
index d402475..6e8d96c 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -21,7 +21,9 @@ zpl_isize zpl__jobs_entry(struct zpl_thread *thread) {
 
         switch (status) {
             case ZPL_JOBS_STATUS_READY: {
-                zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_BUSY);
+                /* NOTE: the pool may be asking us to stop meanwhile */
+                if (zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_READY, ZPL_JOBS_STATUS_BUSY) != ZPL_JOBS_STATUS_READY)
+                    break;
                 tw->job.proc(tw->job.data);
                 zpl_atomic32_compare_exchange(&tw->status, ZPL_JOBS_STATUS_BUSY, ZPL_JOBS_STATUS_WAITING);
 
-- 
2.43.0


From c56a31f461728ca46f16e12f643cc80b4fe0965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 077/106] fix: sockets pass the address length by reference
 where the system updates it

---
 code/source/socket.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/source/socket.c b/code/source/socket.c
index c40695f..5c45259 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -138,7 +138,8 @@ ZPL_DEF zpl_socket zpl_socket_accept(zpl_socket socket, zpl_socket_addr *addr) {
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address(zpl_socket socket, zpl_socket_addr *addr) {
-    return getsockname(socket, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return getsockname(socket, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_get_address_info(zpl_socket_addr *addr, char *host, zpl_i32 host_size, char *service, zpl_i32 service_size) {
@@ -158,7 +159,8 @@ ZPL_DEF zpl_i32 zpl_socket_send_to(zpl_socket socket, zpl_socket_addr *addr, con
 }
 
 ZPL_DEF zpl_i32 zpl_socket_receive_from(zpl_socket socket, zpl_socket_addr *addr, char *buffer, zpl_i32 size) {
-    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, (socklen_t *)sizeof(*addr));
+    socklen_t len = sizeof(*addr);
+    return recvfrom(socket, buffer, size, 0, (struct sockaddr *)addr, &len);
 }
 
 ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
-- 
2.43.0


From 4a35fa0141cab0c6ceeb3060b4a721cf916f2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 078/106] fix: a socket that cannot be bound, configured or
 connected is closed

---
 code/source/socket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 5c45259..3c4e8eb 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -68,6 +68,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     if (mode == ZPL_SOCKET_BIND) {
         if (bind(sock, result->ai_addr, (int)result->ai_addrlen) != 0) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
     }
@@ -77,11 +78,13 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
         DWORD non_blocking = 1;
         if (ioctlsocket(sock, FIONBIO, &non_blocking)) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
 #   else
         if (fcntl(sock, F_SETFL, O_NONBLOCK) == -1) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
 #   endif
@@ -90,6 +93,7 @@ ZPL_DEF zpl_socket zpl_socket_create(zpl_i32 protocol, zpl_i32 mode, char flags,
     if (mode == ZPL_SOCKET_CONNECT) {
         if (connect(sock, result->ai_addr, (int)result->ai_addrlen) != 0 && !(flags & ZPL_SOCKET_NON_BLOCKING)) {
             freeaddrinfo(result);
+            zpl_socket_close(sock);
             return -1;
         }
     }
-- 
2.43.0


From 8ddb4d5a67358e73b391b59f922233d251e13a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 079/106] fix: waiting on a socket beyond the descriptor set
 fails instead of writing past the set

---
 code/source/socket.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/source/socket.c b/code/source/socket.c
index 3c4e8eb..78f2fad 100644
--- a/code/source/socket.c
+++ b/code/source/socket.c
@@ -171,6 +171,10 @@ ZPL_DEF zpl_i32 zpl_socket_select(zpl_socket socket, zpl_f64 time) {
     fd_set fds;
     struct timeval tv;
 
+#   if !defined(ZPL_SYSTEM_WINDOWS)
+    if (socket >= FD_SETSIZE) return -1;
+#   endif
+
     FD_ZERO(&fds);
     if (socket > -1) FD_SET(socket, &fds);
 
@@ -187,6 +191,9 @@ ZPL_DEF zpl_i32 zpl_socket_multi_select(zpl_socket *sockets, zpl_i32 count, zpl_
 
     FD_ZERO(&fds);
     for (i = 0; i < count; ++i) {
+#       if !defined(ZPL_SYSTEM_WINDOWS)
+        if (sockets[i] >= FD_SETSIZE) return -1;
+#       endif
         if (sockets[i] > max) max = sockets[i];
         if (sockets[i] > -1) FD_SET(sockets[i], &fds);
     }
-- 
2.43.0


From de8ea72469b2c8e1429c473bb5eecbc752a38e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 080/106] fix: the length of an escaped run is passed to the
 formatter as int

---
 code/source/adt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/adt.c b/code/source/adt.c
index 1e5452f..fd29bec 100644
--- a/code/source/adt.c
+++ b/code/source/adt.c
@@ -671,7 +671,7 @@ zpl_adt_error zpl_adt_print_string(zpl_file *file, zpl_adt_node *node, char cons
 
     do {
         p = zpl_str_skip_any(p, escaped_chars);
-        zpl__adt_fprintf(file, "%.*s", zpl_ptr_diff(b, p), b);
+        zpl__adt_fprintf(file, "%.*s", cast(int)zpl_ptr_diff(b, p), b);
         if (*p && !!zpl_strchr(escaped_chars, *p)) {
             zpl__adt_fprintf(file, "%s%c", escape_symbol, *p);
             p++;
-- 
2.43.0


From 8210699262398009cf7be79f496a81e241ebcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:04 +0000
Subject: [PATCH 081/106] fix: the JSON writer passes its indentation to the
 formatter as int

---
 code/source/parsers/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/parsers/json.c b/code/source/parsers/json.c
index 2924872..f045740 100644
--- a/code/source/parsers/json.c
+++ b/code/source/parsers/json.c
@@ -28,7 +28,7 @@ do {
     if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
 } while (0)
 
-#define zpl___ind(x) if (x > 0) zpl__json_fprintf(f, "%*r", x, ' ');
+#define zpl___ind(x) if (x > 0) zpl__json_fprintf(f, "%*r", cast(int)(x), ' ');
 
 zpl_u8 zpl_json_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     zpl_u8 err_code = ZPL_JSON_ERROR_NONE;
-- 
2.43.0


From 21ea3931416e3a0b3f47b1c57488e0bf106dc841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 082/106] fix: zpl_assert_crash prints its text instead of
 using it as a format

---
 code/source/essentials/debug.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/essentials/debug.c b/code/source/essentials/debug.c
index cbabee8..5b7cab9 100644
--- a/code/source/essentials/debug.c
+++ b/code/source/essentials/debug.c
@@ -19,7 +19,7 @@ void zpl_assert_handler(char const *condition, char const *file, zpl_i32 line, c
 }
 
 zpl_i32 zpl_assert_crash(char const *condition) {
-    ZPL_PANIC(condition);
+    ZPL_PANIC("%s", condition);
     return 0;
 }
 
-- 
2.43.0


From 82f54745ab22102cc0f0b1fe5d5001e0c79c502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 083/106] fix: zpl_file_connect_handle is defined on every
 system

---
 code/source/core/file.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/code/source/core/file.c b/code/source/core/file.c
index 4340d01..e9afaa4 100644
--- a/code/source/core/file.c
+++ b/code/source/core/file.c
@@ -334,19 +334,6 @@ zpl_file *zpl_file_get_standard(zpl_file_standard_type std) {
     return &zpl__std_files[std];
 }
 
-void zpl_file_connect_handle(zpl_file *file, void *handle) {
-    ZPL_ASSERT_NOT_NULL(file);
-    ZPL_ASSERT_NOT_NULL(handle);
-
-    if (file->is_temp)
-        return;
-
-    zpl_zero_item(file);
-
-    file->fd.p = handle;
-    file->ops = zpl_default_file_operations;
-}
-
 zpl_file_error zpl_file_truncate(zpl_file *f, zpl_i64 size) {
     zpl_file_error err = ZPL_FILE_ERROR_NONE;
     zpl_i64 prev_offset = zpl_file_tell(f);
@@ -399,6 +386,19 @@ zpl_b32 zpl_fs_exists(char const *name) { return access(name, F_OK) != -1; }
 
 #endif
 
+void zpl_file_connect_handle(zpl_file *file, void *handle) {
+    ZPL_ASSERT_NOT_NULL(file);
+    ZPL_ASSERT_NOT_NULL(handle);
+
+    if (file->is_temp)
+        return;
+
+    zpl_zero_item(file);
+
+    file->fd.p = handle;
+    file->ops = zpl_default_file_operations;
+}
+
 zpl_i64 zpl_file_size(zpl_file *f) {
     zpl_i64 size = 0;
     zpl_i64 prev_offset = zpl_file_tell(f);
-- 
2.43.0


From 9d0adc196e19152f35b246a286de387b4b990352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 084/106] fix: zpl_string_join is an ordinary function, so C++
 programs link

---
 code/source/core/stringlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/stringlib.c b/code/source/core/stringlib.c
index 02cbc72..9a2fa18 100644
--- a/code/source/core/stringlib.c
+++ b/code/source/core/stringlib.c
@@ -83,7 +83,7 @@ ZPL_ALWAYS_INLINE zpl_string zpl_string_appendc(zpl_string str, const char *othe
     return zpl_string_append_length(str, other, zpl_strlen(other));
 }
 
-ZPL_ALWAYS_INLINE zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
+zpl_string zpl_string_join(zpl_allocator a, const char **parts, zpl_isize count, const char *glue) {
     zpl_string ret;
     zpl_isize i;
 
-- 
2.43.0


From 8338407603f191de6f658f13ec6573c3f5a797e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 085/106] fix: zpl_mat2_copy copies a 2x2 matrix

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index fcb3fcf..7a7968a 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -588,7 +588,7 @@ void zpl_float22_identity(zpl_f32 m[2][2]) {
 }
 
 void zpl_mat2_copy(zpl_mat2* out, zpl_mat2* m) {
-    zpl_memcopy(out, m, sizeof(zpl_mat3));
+    zpl_memcopy(out, m, sizeof(zpl_mat2));
 }
 
 void zpl_mat2_mul_vec2(zpl_vec2 *out, zpl_mat2 *m, zpl_vec2 in) { zpl_float22_mul_vec2(out, zpl_float22_m(m), in); }
-- 
2.43.0


From 62fb90115fe454e72ccce77fed1f6dc73c50a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:34 +0000
Subject: [PATCH 086/106] fix: multiplying a vector by a 2x2 or 3x3 matrix does
 not transpose it

---
 code/source/math.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 7a7968a..12ccf7c 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -628,8 +628,8 @@ void zpl_float22_mul(zpl_f32 (*out)[2], zpl_f32 (*mat1)[2], zpl_f32 (*mat2)[2])
 }
 
 void zpl_float22_mul_vec2(zpl_vec2 *out, zpl_f32 m[2][2], zpl_vec2 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y;
-    out->y = m[1][0] * v.x + m[1][1] * v.y;
+    out->x = m[0][0] * v.x + m[1][0] * v.y;
+    out->y = m[0][1] * v.x + m[1][1] * v.y;
 }
 
 zpl_f32 zpl_mat2_determinate(zpl_mat2 *m) {
@@ -711,9 +711,9 @@ void zpl_float33_mul(zpl_f32 (*out)[3], zpl_f32 (*mat1)[3], zpl_f32 (*mat2)[3])
 }
 
 void zpl_float33_mul_vec3(zpl_vec3 *out, zpl_f32 m[3][3], zpl_vec3 v) {
-    out->x = m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z;
-    out->y = m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z;
-    out->z = m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z;
+    out->x = m[0][0] * v.x + m[1][0] * v.y + m[2][0] * v.z;
+    out->y = m[0][1] * v.x + m[1][1] * v.y + m[2][1] * v.z;
+    out->z = m[0][2] * v.x + m[1][2] * v.y + m[2][2] * v.z;
 }
 
 zpl_f32 zpl_mat3_determinate(zpl_mat3 *m) {
-- 
2.43.0


From 6a11779ebfec55e089fac2596e419b68d4dac210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 087/106] fix: zpl_mat3_inverse does not transpose its result

---
 code/source/math.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 12ccf7c..9cf71ab 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -732,13 +732,13 @@ void zpl_mat3_inverse(zpl_mat3 *out, zpl_mat3 *in) {
     zpl_f32 ood = 1.0f / zpl_mat3_determinate(in);
 
     o[0][0] = +(i[1][1] * i[2][2] - i[2][1] * i[1][2]) * ood;
-    o[0][1] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
-    o[0][2] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
-    o[1][0] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
+    o[1][0] = -(i[1][0] * i[2][2] - i[2][0] * i[1][2]) * ood;
+    o[2][0] = +(i[1][0] * i[2][1] - i[2][0] * i[1][1]) * ood;
+    o[0][1] = -(i[0][1] * i[2][2] - i[2][1] * i[0][2]) * ood;
     o[1][1] = +(i[0][0] * i[2][2] - i[2][0] * i[0][2]) * ood;
-    o[1][2] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
-    o[2][0] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
-    o[2][1] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
+    o[2][1] = -(i[0][0] * i[2][1] - i[2][0] * i[0][1]) * ood;
+    o[0][2] = +(i[0][1] * i[1][2] - i[1][1] * i[0][2]) * ood;
+    o[1][2] = -(i[0][0] * i[1][2] - i[1][0] * i[0][2]) * ood;
     o[2][2] = +(i[0][0] * i[1][1] - i[1][0] * i[0][1]) * ood;
 }
 
-- 
2.43.0


From 7bfdead39a17500eb36f126cc5952099f0c61f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:44 +0000
Subject: [PATCH 088/106] fix: refraction vectors follow Snell's law

---
 code/source/math.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 9cf71ab..10445f0 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -554,10 +554,13 @@ void zpl_vec2_refract(zpl_vec2 *d, zpl_vec2 i, zpl_vec2 n, zpl_f32 eta) {
 
     dv = zpl_vec2_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec2f_zero( );
+        return;
+    }
     zpl_vec2_mul(&a, i, eta);
-    zpl_vec2_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec2_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec2_sub(d, a, b);
-    zpl_vec2_muleq(d, (float)(k >= 0.0f));
 }
 
 void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
@@ -566,10 +569,13 @@ void zpl_vec3_refract(zpl_vec3 *d, zpl_vec3 i, zpl_vec3 n, zpl_f32 eta) {
 
     dv = zpl_vec3_dot(n, i);
     k = 1.0f - eta * eta * (1.0f - dv * dv);
+    if (k < 0.0f) {
+        *d = zpl_vec3f_zero( );
+        return;
+    }
     zpl_vec3_mul(&a, i, eta);
-    zpl_vec3_mul(&b, n, eta * dv * zpl_sqrt(k));
+    zpl_vec3_mul(&b, n, eta * dv + zpl_sqrt(k));
     zpl_vec3_sub(d, a, b);
-    zpl_vec3_muleq(d, (float)(k >= 0.0f));
 }
 
 zpl_f32 zpl_vec2_aspect_ratio(zpl_vec2 v) { return (v.y < 0.0001f) ? 0.0f : v.x / v.y; }
-- 
2.43.0


From cf419f5e069fda690141f185362f9f7bc3fb3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 089/106] fix: perspective_dx uses the near and far planes

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 10445f0..1a6156f 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1057,7 +1057,7 @@ void zpl_mat4_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f3
     m[1][1] = 1.0f / (tan_half_fovy);
     m[2][2] = -(z_far ) / (z_far - z_near);
     m[2][3] = -1.0f;
-    m[3][2] = - z_near / (z_far - z_near);
+    m[3][2] = -(z_far * z_near) / (z_far - z_near);
 }
 
 void zpl_mat4_infinite_perspective_dx(zpl_mat4 *out, zpl_f32 fovy, zpl_f32 aspect, zpl_f32 z_near) {
-- 
2.43.0


From 20b2270cb4a9de1a24cdaf8d91197b9d396e36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 090/106] fix: the axis of a quaternion is divided by its own
 length

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index 1a6156f..8e072dd 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1232,7 +1232,7 @@ void zpl_quat_inverse(zpl_quat *d, zpl_quat q) {
 void zpl_quat_axis(zpl_vec3 *axis, zpl_quat q) {
     zpl_quat n;
     zpl_quat_norm(&n, q);
-    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(q.w)));
+    zpl_vec3_div(axis, n.xyz, zpl_sin(zpl_arccos(n.w)));
 }
 
 zpl_f32 zpl_quat_angle(zpl_quat q) {
-- 
2.43.0


From cc8c4b5b3f31bfe6c7df86c83e8f327e49691280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 091/106] fix: roll and pitch of a quaternion take the whole
 quotient

---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 8e072dd..a5bb033 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1243,10 +1243,10 @@ zpl_f32 zpl_quat_angle(zpl_quat q) {
 }
 
 zpl_f32 zpl_quat_roll(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.x * q.y + q.z * q.w, q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
+    return zpl_arctan2(2.0f * (q.x * q.y + q.z * q.w), q.x * q.x + q.w * q.w - q.y * q.y - q.z * q.z);
 }
 zpl_f32 zpl_quat_pitch(zpl_quat q) {
-    return zpl_arctan2(2.0f * q.y * q.z + q.w * q.x, q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
+    return zpl_arctan2(2.0f * (q.y * q.z + q.w * q.x), q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 }
 zpl_f32 zpl_quat_yaw(zpl_quat q) { return zpl_arcsin(-2.0f * (q.x * q.z - q.w * q.y)); }
 
-- 
2.43.0


From fe289cc90183e49641f2e811144b387ee0fe156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 092/106] fix: slerp returns after the linear case and takes
 the nearer sign

---
 code/source/math.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index a5bb033..b32625c 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1615,7 +1615,8 @@ void zpl_quat_slerp(zpl_quat *d, zpl_quat a, zpl_quat b, zpl_f32 t) {
 
     if (cos_theta > 1.0f) {
         /* NOTE: Use lerp not nlerp as it's not a real angle or they are not normalized */
-        zpl_quat_lerp(d, a, b, t);
+        zpl_quat_lerp(d, a, z, t);
+        return;
     }
 
     angle = zpl_arccos(cos_theta);
-- 
2.43.0


From 3c02e26d758cd301fb6dcd7d67533e9cbf26c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 093/106] fix: contracting and expanding an axis-aligned box
 keep its centre

---
 code/source/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/math.c b/code/source/math.c
index b32625c..5b38b6d 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1825,7 +1825,7 @@ zpl_aabb2 zpl_aabb2_contract(const zpl_aabb2 *a, zpl_f32 b) {
     zpl_vec2_addeq(&r.min, vb);
     zpl_vec2_subeq(&r.max, vb);
 
-    if (zpl_vec2_mag2(r.min) > zpl_vec2_mag2(r.max)) {
+    if (r.min.x > r.max.x || r.min.y > r.max.y) {
         return zpl_aabb2f(0,0,0,0);
     }
     return r;
-- 
2.43.0


From d8400fcb9045a5588af207e6e0fd16064c01760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 094/106] fix: frustum planes are extracted from the rows of
 the matrix

---
 code/source/math.c | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 5b38b6d..2f2e1e1 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -1363,16 +1363,16 @@ zpl_f32 zpl_plane_distance(zpl_plane* p, zpl_vec3 v) {
 void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     zpl_mat4 pv;
 
-    zpl_mat4_mul(&pv, camera, proj);
+    zpl_mat4_mul(&pv, proj, camera);
 
     zpl_plane* fp = 0;
     zpl_f32 rmag;
 
     fp = &out->x1;
     fp->a = pv.x.w + pv.x.x;
-    fp->b = pv.y.w + pv.x.y;
-    fp->c = pv.z.w + pv.x.z;
-    fp->d = pv.w.w + pv.x.w;
+    fp->b = pv.y.w + pv.y.x;
+    fp->c = pv.z.w + pv.z.x;
+    fp->d = pv.w.w + pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1384,9 +1384,9 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
     fp = &out->x2;
 
     fp->a = pv.x.w - pv.x.x;
-    fp->b = pv.y.w - pv.x.y;
-    fp->c = pv.z.w - pv.x.z;
-    fp->d = pv.w.w - pv.x.w;
+    fp->b = pv.y.w - pv.y.x;
+    fp->c = pv.z.w - pv.z.x;
+    fp->d = pv.w.w - pv.w.x;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1397,10 +1397,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y1;
 
-    fp->a = pv.x.w - pv.y.x;
+    fp->a = pv.x.w - pv.x.y;
     fp->b = pv.y.w - pv.y.y;
-    fp->c = pv.z.w - pv.y.w;
-    fp->d = pv.w.w - pv.y.z;
+    fp->c = pv.z.w - pv.z.y;
+    fp->d = pv.w.w - pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1411,10 +1411,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->y2;
 
-    fp->a = pv.x.w + pv.y.x;
+    fp->a = pv.x.w + pv.x.y;
     fp->b = pv.y.w + pv.y.y;
-    fp->c = pv.z.w + pv.y.z;
-    fp->d = pv.w.w + pv.y.w;
+    fp->c = pv.z.w + pv.z.y;
+    fp->d = pv.w.w + pv.w.y;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1425,10 +1425,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z1;
 
-    fp->a = pv.x.w + pv.z.x;
-    fp->b = pv.y.w + pv.z.y;
+    fp->a = pv.x.w + pv.x.z;
+    fp->b = pv.y.w + pv.y.z;
     fp->c = pv.z.w + pv.z.z;
-    fp->d = pv.w.w + pv.z.w;
+    fp->d = pv.w.w + pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
@@ -1439,10 +1439,10 @@ void zpl_frustum_create(zpl_frustum* out, zpl_mat4* camera, zpl_mat4* proj) {
 
     fp = &out->z2;
 
-    fp->a = pv.x.w - pv.z.x;
-    fp->b = pv.y.w - pv.z.y;
+    fp->a = pv.x.w - pv.x.z;
+    fp->b = pv.y.w - pv.y.z;
     fp->c = pv.z.w - pv.z.z;
-    fp->d = pv.w.w - pv.z.w;
+    fp->d = pv.w.w - pv.w.z;
 
     rmag = zpl_rsqrt(zpl_square(fp->a) + zpl_square(fp->b) + zpl_square(fp->c));
 
-- 
2.43.0


From 777e08a029977060fc3a9a4615dffe215cc8901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:18 +0000
Subject: [PATCH 095/106] fix: floor and ceil of integers and of values outside
 the integer range

---
 code/source/math.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 2f2e1e1..5a30982 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -60,8 +60,20 @@ zpl_f64 zpl_copy_sign64(zpl_f64 x, zpl_f64 y) {
     return r;
 }
 
-zpl_f64 zpl_floor64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? cast(zpl_i64) x : cast(zpl_i64)(x - 0.9999999999999999)); }
-zpl_f64 zpl_ceil64(zpl_f64 x)                 { return cast(zpl_f64)((x < 0) ? cast(zpl_i64) x : (cast(zpl_i64) x) + 1); }
+zpl_f64 zpl_floor64(zpl_f64 x) {
+    zpl_f64 r;
+    if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; /* NOTE: no fraction left */
+    r = cast(zpl_f64)(cast(zpl_i64) x);
+    return r > x ? r - 1.0 : r;
+}
+
+zpl_f64 zpl_ceil64(zpl_f64 x) {
+    zpl_f64 r;
+    if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; /* NOTE: no fraction left */
+    r = cast(zpl_f64)(cast(zpl_i64) x);
+    return r < x ? r + 1.0 : r;
+}
+
 zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
@@ -256,8 +268,20 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
 zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
-zpl_f32 zpl_floor(zpl_f32 x) { return (float)((x >= 0.0f) ? (int)x              : (int)(x - 0.9999999999999999f)); }
-zpl_f32 zpl_ceil(zpl_f32 x)  { return (float)((x <  0.0f) ? (int)x              : ((int)x) + 1); }
+
+zpl_f32 zpl_floor(zpl_f32 x) {
+    zpl_f32 r;
+    if (!(x > -8388608.0f && x < 8388608.0f)) return x; /* NOTE: no fraction left */
+    r = (zpl_f32)(int)x;
+    return r > x ? r - 1.0f : r;
+}
+
+zpl_f32 zpl_ceil(zpl_f32 x) {
+    zpl_f32 r;
+    if (!(x > -8388608.0f && x < 8388608.0f)) return x; /* NOTE: no fraction left */
+    r = (zpl_f32)(int)x;
+    return r < x ? r + 1.0f : r;
+}
 
 zpl_f32 zpl_half_to_float(zpl_half value) {
     union {
-- 
2.43.0


From d1b11c8d8bee55172050a75068d00edc59264b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 096/106] fix: round goes to the nearest integer

---
 code/source/math.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index 5a30982..b7ef427 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -74,7 +74,14 @@ zpl_f64 zpl_ceil64(zpl_f64 x) {
     return r < x ? r + 1.0 : r;
 }
 
-zpl_f64 zpl_round64(zpl_f64 x)                { return cast(zpl_f64)((x >= 0.0) ? zpl_floor64(x + 0.5) : zpl_ceil64(x - 0.5)); }
+zpl_f64 zpl_round64(zpl_f64 x) {
+    zpl_f64 r;
+    if (!(x > -4503599627370496.0 && x < 4503599627370496.0)) return x; /* NOTE: no fraction left */
+    r = cast(zpl_f64)(cast(zpl_i64) x);
+    if (x - r >= 0.5) return r + 1.0;
+    return x - r <= -0.5 ? r - 1.0 : r;
+}
+
 zpl_f64 zpl_remainder64(zpl_f64 x, zpl_f64 y) { return x - (zpl_round64(x / y) * y); }
 zpl_f64 zpl_abs64(zpl_f64 x)                  { return x < 0 ? -x : x; }
 zpl_f64 zpl_sign64(zpl_f64 x)                 { return x < 0 ? -1.0 : +1.0; }
@@ -267,7 +274,13 @@ zpl_f32 zpl_fast_exp(zpl_f32 x) {
 
 zpl_f32 zpl_fast_exp2(zpl_f32 x) { return zpl_fast_exp(ZPL_LOG_TWO * x); }
 
-zpl_f32 zpl_round(zpl_f32 x) { return (float)((x >= 0.0f) ? zpl_floor(x + 0.5f) : zpl_ceil(x - 0.5f)); }
+zpl_f32 zpl_round(zpl_f32 x) {
+    zpl_f32 r;
+    if (!(x > -8388608.0f && x < 8388608.0f)) return x; /* NOTE: no fraction left */
+    r = (zpl_f32)(int)x;
+    if (x - r >= 0.5f) return r + 1.0f;
+    return x - r <= -0.5f ? r - 1.0f : r;
+}
 
 zpl_f32 zpl_floor(zpl_f32 x) {
     zpl_f32 r;
-- 
2.43.0


From f6797d33b02d2e3b9c30f841e90e0aac9d39978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 097/106] fix: mod and angle_diff use the floor of the quotient

---
 code/source/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/source/math.c b/code/source/math.c
index b7ef427..2dcd770 100644
--- a/code/source/math.c
+++ b/code/source/math.c
@@ -44,7 +44,7 @@ zpl_f32 zpl_mod(zpl_f32 x, zpl_f32 y) {
     zpl_f32 result;
     y = zpl_abs(y);
     result = zpl_remainder(zpl_abs(x), y);
-    if (zpl_sign(result) > 0.0f) result += y;
+    if (result < 0.0f) result += y;
     return zpl_copy_sign(result, x);
 }
 
@@ -90,7 +90,7 @@ zpl_f64 zpl_mod64(zpl_f64 x, zpl_f64 y) {
     zpl_f64 result;
     y = zpl_abs64(y);
     result = zpl_remainder64(zpl_abs64(x), y);
-    if (zpl_sign64(result)) result += y;
+    if (result < 0.0) result += y;
     return zpl_copy_sign64(result, x);
 }
 
-- 
2.43.0


From e2ce5551851acfd07b4dde117f23ea9de279cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:53 +0000
Subject: [PATCH 098/106] fix: a failed allocation or thread creation in
 zpl_jobs_init leaves a smaller working pool instead of dereferencing null

---
 code/header/essentials/collections/ring.h |  2 +-
 code/source/jobs.c                        | 25 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/code/header/essentials/collections/ring.h b/code/header/essentials/collections/ring.h
index 980302f..9fe7949 100644
--- a/code/header/essentials/collections/ring.h
+++ b/code/header/essentials/collections/ring.h
@@ -53,7 +53,7 @@ ZPL_JOIN2(func, type) pad_ = { 0 };
 \
 pad->backing = a;                                                                                              \
 zpl_buffer_init(pad->buf, a, max_size + 1);                                                                    \
-pad->capacity = max_size + 1;                                                                                  \
+pad->capacity = pad->buf ? max_size + 1 : 1; /* NOTE: no room at all when there is no buffer */                \
 pad->head = pad->tail = 0;                                                                                     \
 }                                                                                                                  \
 void ZPL_JOIN2(func, free)(ZPL_JOIN2(func, type) * pad) {                                         \
diff --git a/code/source/jobs.c b/code/source/jobs.c
index 6e8d96c..b806acb 100644
--- a/code/source/jobs.c
+++ b/code/source/jobs.c
@@ -63,20 +63,31 @@ void zpl_jobs_init_with_limit(zpl_jobs_system *pool, zpl_allocator a, zpl_u32 ma
 
     zpl_buffer_init(pool->workers, a, max_threads);
 
-    for (zpl_usize i = 0; i < ZPL_JOBS_MAX_PRIORITIES; ++i) {
-        zpl_thread_queue *q = &pool->queues[i];
-        zpl__jobs_ring_init(&q->jobs, a, max_jobs);
-        q->chance = zpl__jobs_chances[i];
-    }
+    if (!pool->workers)
+        pool->max_threads = 0;
 
-    for (zpl_usize i = 0; i < max_threads; ++i) {
+    for (zpl_usize i = 0; i < pool->max_threads; ++i) {
         zpl_thread_worker worker_ = { 0 };
         zpl_thread_worker *tw = pool->workers + i;
         *tw = worker_;
 
         zpl_thread_init(&tw->thread);
         zpl_atomic32_store(&tw->status, ZPL_JOBS_STATUS_WAITING);
-        zpl_thread_start(&tw->thread, zpl__jobs_entry, (void *)tw);
+        if (!zpl_thread_start(&tw->thread, zpl__jobs_entry, (void *)tw)) {
+            /* NOTE: make do with the workers that could be started */
+            zpl_thread_destroy(&tw->thread);
+            pool->max_threads = cast(zpl_u32)i;
+        }
+    }
+
+    /* NOTE: without any worker no job would ever run, so the queues refuse them */
+    if (max_threads && !pool->max_threads)
+        pool->max_jobs = max_jobs = 0;
+
+    for (zpl_usize i = 0; i < ZPL_JOBS_MAX_PRIORITIES; ++i) {
+        zpl_thread_queue *q = &pool->queues[i];
+        zpl__jobs_ring_init(&q->jobs, a, max_jobs);
+        q->chance = zpl__jobs_chances[i];
     }
 }
 
-- 
2.43.0


From b8391cd395e79d3849a7fa67872d9d2e203fe5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 099/106] fix: zpl_csv_write reports a failed write, and no
 string with missing parts is returned

---
 code/header/parsers/csv.h |  8 +++---
 code/source/parsers/csv.c | 52 +++++++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/code/header/parsers/csv.h b/code/header/parsers/csv.h
index ba1d48d..539ca85 100644
--- a/code/header/parsers/csv.h
+++ b/code/header/parsers/csv.h
@@ -17,9 +17,9 @@ ZPL_DEF_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloca
 ZPL_DEF zpl_u8 zpl_csv_parse_delimiter(zpl_csv_object *root, char *text, zpl_allocator allocator, zpl_b32 has_header, char delim);
 ZPL_DEF void zpl_csv_free(zpl_csv_object *obj);
 
-ZPL_DEF_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
+ZPL_DEF_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj);
 ZPL_DEF_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj);
-ZPL_DEF void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
+ZPL_DEF zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delim);
 ZPL_DEF zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delim);
 
 /* inline */
@@ -28,8 +28,8 @@ ZPL_IMPL_INLINE zpl_u8 zpl_csv_parse(zpl_csv_object *root, char *text, zpl_alloc
     return zpl_csv_parse_delimiter(root, text, allocator, has_header, ',');
 }
 
-ZPL_IMPL_INLINE void zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
-    zpl_csv_write_delimiter(file, obj, ',');
+ZPL_IMPL_INLINE zpl_b8 zpl_csv_write(zpl_file *file, zpl_csv_object *obj) {
+    return zpl_csv_write_delimiter(file, obj, ',');
 }
 
 ZPL_IMPL_INLINE zpl_string zpl_csv_write_string(zpl_allocator a, zpl_csv_object *obj) {
diff --git a/code/source/parsers/csv.c b/code/source/parsers/csv.c
index 6c200fa..3d02faf 100644
--- a/code/source/parsers/csv.c
+++ b/code/source/parsers/csv.c
@@ -154,20 +154,25 @@ void zpl_csv_free(zpl_csv_object *obj) {
     zpl_adt_destroy_branch(obj);
 }
 
-void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
+#define zpl__csv_fprintf(s_, fmt_, ...)                                                                                \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
+} while (0)
+
+zpl_b8 zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
     switch (node->type) {
         case ZPL_ADT_TYPE_STRING: {
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
             switch (node->name_style) {
                 case ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE: {
-                    zpl_fprintf(file, "\"");
-                    zpl_adt_print_string(file, node, "\"", "\"");
-                    zpl_fprintf(file, "\"");
+                    zpl__csv_fprintf(file, "\"");
+                    if (zpl_adt_print_string(file, node, "\"", "\"")) return false;
+                    zpl__csv_fprintf(file, "\"");
                 } break;
 
                 case ZPL_ADT_NAME_STYLE_NO_QUOTES: {
 #endif
-                    zpl_fprintf(file, "%s", node->string);
+                    zpl__csv_fprintf(file, "%s", node->string);
 #ifndef ZPL_PARSER_DISABLE_ANALYSIS
                 } break;
             }
@@ -176,55 +181,64 @@ void zpl__csv_write_record(zpl_file *file, zpl_csv_object *node) {
 
         case ZPL_ADT_TYPE_REAL:
         case ZPL_ADT_TYPE_INTEGER: {
-            zpl_adt_print_number(file, node);
+            if (zpl_adt_print_number(file, node)) return false;
         } break;
     }
+
+    return true;
 }
 
-void zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
+zpl_b8 zpl__csv_write_header(zpl_file *file, zpl_csv_object *header) {
     zpl_csv_object temp = *header;
     temp.string = temp.name;
     temp.type = ZPL_ADT_TYPE_STRING;
-    zpl__csv_write_record(file, &temp);
+    return zpl__csv_write_record(file, &temp);
 }
 
-void zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
+zpl_b8 zpl_csv_write_delimiter(zpl_file *file, zpl_csv_object *obj, char delimiter) {
     ZPL_ASSERT_NOT_NULL(file);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->nodes);
     zpl_isize cols = zpl_array_count(obj->nodes);
-    if (cols == 0) return;
+    if (cols == 0) return true;
 
     zpl_isize rows = zpl_array_count(obj->nodes[0].nodes);
-    if (rows == 0) return;
+    if (rows == 0) return true;
 
     zpl_b32 has_headers = obj->nodes[0].name != NULL;
 
     if (has_headers) {
         for (zpl_isize i = 0; i < cols; i++) {
-            zpl__csv_write_header(file, &obj->nodes[i]);
+            if (!zpl__csv_write_header(file, &obj->nodes[i])) return false;
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                zpl__csv_fprintf(file, "%c", delimiter);
             }
         }
-        zpl_fprintf(file, "\n");
+        zpl__csv_fprintf(file, "\n");
     }
 
     for (zpl_isize r = 0; r < rows; r++) {
         for (zpl_isize i = 0; i < cols; i++) {
-            if (r < zpl_array_count(obj->nodes[i].nodes)) zpl__csv_write_record(file, &obj->nodes[i].nodes[r]);
+            if (r < zpl_array_count(obj->nodes[i].nodes)) {
+                if (!zpl__csv_write_record(file, &obj->nodes[i].nodes[r])) return false;
+            }
             if (i+1 != cols) {
-                zpl_fprintf(file, "%c", delimiter);
+                zpl__csv_fprintf(file, "%c", delimiter);
             }
         }
-        zpl_fprintf(file, "\n");
+        zpl__csv_fprintf(file, "\n");
     }
+
+    return true;
 }
 
 zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj, char delimiter) {
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a)) return NULL;
-    zpl_csv_write_delimiter(&tmp, obj, delimiter);
+    if (!zpl_csv_write_delimiter(&tmp, obj, delimiter)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -232,4 +246,6 @@ zpl_string zpl_csv_write_string_delimiter(zpl_allocator a, zpl_csv_object *obj,
     return output;
 }
 
+#undef zpl__csv_fprintf
+
 ZPL_END_C_DECLS
-- 
2.43.0


From bfb3ba6c333b2a24cf07bee70d01fe73e9e1353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 100/106] fix: zpl_uri_write reports a failed write, and no
 string with missing parts is returned

---
 code/header/parsers/uri.h |  2 +-
 code/source/parsers/uri.c | 44 +++++++++++++++++++++++++--------------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/code/header/parsers/uri.h b/code/header/parsers/uri.h
index a36a570..2897145 100644
--- a/code/header/parsers/uri.h
+++ b/code/header/parsers/uri.h
@@ -13,7 +13,7 @@ typedef enum zpl_uri_error {
 
 ZPL_DEF zpl_u8 zpl_uri_init(zpl_adt_node *root, char *origin, zpl_allocator a);
 ZPL_DEF zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a);
-ZPL_DEF void zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
+ZPL_DEF zpl_b8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj);
 ZPL_DEF zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj);
 ZPL_DEF void zpl_uri_free(zpl_adt_node *obj);
 
diff --git a/code/source/parsers/uri.c b/code/source/parsers/uri.c
index f8a4244..b0d3b43 100644
--- a/code/source/parsers/uri.c
+++ b/code/source/parsers/uri.c
@@ -118,11 +118,16 @@ zpl_u8 zpl_uri_parse(zpl_adt_node *root, char *text, zpl_allocator a) {
     return err_code;
 }
 
-zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
+#define zpl__uri_fprintf(s_, fmt_, ...)                                                                                \
+do {                                                                                                               \
+    if (zpl_fprintf(s_, fmt_, ##__VA_ARGS__) < 0) return false;                                                    \
+} while (0)
+
+zpl_b8 zpl__uri_print_str(zpl_file *file, const char *text) {
     ZPL_ASSERT_NOT_NULL(file);
     
     if (!text) {
-        return ZPL_ADT_ERROR_NONE;
+        return true;
     }
     
     const char *p = text;
@@ -132,19 +137,19 @@ zpl_adt_error zpl__uri_print_str(zpl_file *file, const char *text) {
     while (*p) {
         ch = (zpl_u8) *p++;
         if (ch == ' ') {
-            zpl_fprintf(file, "%s", "+");
+            zpl__uri_fprintf(file, "%s", "+");
         } else if (zpl_char_is_alphanumeric(ch) || zpl_strchr("-_.~", ch)) {
-            zpl_fprintf(file, "%c", ch);
+            zpl__uri_fprintf(file, "%c", ch);
         } else {
             zpl_snprintf(buf, zpl_size_of(buf), "%02X", ch);
-            zpl_fprintf(file, "%c%s", '%', buf);
+            zpl__uri_fprintf(file, "%c%s", '%', buf);
         }
     }
     
-    return ZPL_ADT_ERROR_NONE;
+    return true;
 }
 
-void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
+zpl_b8 zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     ZPL_ASSERT_NOT_NULL(f);
     ZPL_ASSERT_NOT_NULL(obj);
     ZPL_ASSERT(obj->type == ZPL_ADT_TYPE_OBJECT);
@@ -155,13 +160,13 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
     {
         origin = zpl_adt_query(obj, "__zpl_origin__");
         if (origin) {
-            zpl_fprintf(f, "%s", origin->string);
+            zpl__uri_fprintf(f, "%s", origin->string);
         }
     }
     
 	// NOTE(zaklaus): write params
 	if (zpl_array_count(obj->nodes) > (origin ? 1 : 0))
-    	zpl_fprintf(f, "%s", "?");
+    	zpl__uri_fprintf(f, "%s", "?");
 
     zpl_b32 is_first = true;
     
@@ -169,23 +174,25 @@ void zpl_uri_write(zpl_file *f, zpl_adt_node *obj) {
         zpl_adt_node *n = (obj->nodes+i);
         if (origin == n) continue;
         if (!is_first) {
-            zpl_fprintf(f, "%s", "&");
+            zpl__uri_fprintf(f, "%s", "&");
         }
         is_first = false;
         
-        zpl__uri_print_str(f, n->name);
+        if (!zpl__uri_print_str(f, n->name)) return false;
 
         if (n->type == ZPL_ADT_TYPE_STRING) {
-            zpl_fprintf(f, "%c", '=');
-            zpl__uri_print_str(f, n->string);
+            zpl__uri_fprintf(f, "%c", '=');
+            if (!zpl__uri_print_str(f, n->string)) return false;
         } else if (n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL) {
            if (n->props != ZPL_ADT_PROPS_TRUE) {
-                zpl_fprintf(f, "%c", '=');
+                zpl__uri_fprintf(f, "%c", '=');
                 // TODO: ensure the output is URI-encoded
-                zpl_adt_print_number(f, n);
+                if (zpl_adt_print_number(f, n)) return false;
            } 
         }
     }
+
+    return true;
 }
 
 void zpl_uri_free(zpl_adt_node *obj) {
@@ -195,7 +202,10 @@ void zpl_uri_free(zpl_adt_node *obj) {
 zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     zpl_file tmp;
     if (!zpl_file_stream_new(&tmp, a)) return NULL;
-    zpl_uri_write(&tmp, obj);
+    if (!zpl_uri_write(&tmp, obj)) {
+        zpl_file_close(&tmp);
+        return NULL;
+    }
     zpl_isize fsize;
     zpl_u8* buf = zpl_file_stream_buf(&tmp, &fsize);
     zpl_string output = zpl_string_make_length(a, (char *)buf, fsize);
@@ -203,5 +213,7 @@ zpl_string zpl_uri_write_string(zpl_allocator a, zpl_adt_node *obj) {
     return output;
 }
 
+#undef zpl__uri_fprintf
+
 ZPL_END_C_DECLS
 
-- 
2.43.0


From 7f13e2b71389b8acf399a97ceaff964c744545c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:46 +0000
Subject: [PATCH 101/106] fix: %f prints the digits of the fraction without
 drifting or overflowing a multiplier

---
 code/source/core/print.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index dfa874e..b41ef8d 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -226,15 +226,14 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         if (info->precision < 0) info->precision = 6;
 
         if ((info->flags & ZPL_FMT_ALT) || info->precision > 0) {
-            zpl_i64 mult = 10;
             i = zpl_min(len, max_len);
             len += zpl__print_copy(text + i, max_len - i, ".", 1);
             while (info->precision-- > 0) {
-                value = cast(zpl_u64)(arg * mult);
+                arg *= 10;
+                value = cast(zpl_u64) arg;
                 i = zpl_min(len, max_len);
                 len += zpl__print_u64(text + i, max_len - i, NULL, value);
-                arg -= cast(zpl_f64) value / mult;
-                mult *= 10;
+                arg -= value;
             }
         }
     } else {
-- 
2.43.0


From 5c4b09fdd8dd05cbf8ae00170623a3bdc3394448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 102/106] fix: %o prints its argument as unsigned

---
 code/source/core/print.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index b41ef8d..3a0667e 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -356,7 +356,10 @@ ZPL_NEVER_INLINE zpl_isize zpl_snprintf_va(char *text, zpl_isize max_len, char c
             case 'd':
             case 'i': info.base = 10; break;
 
-            case 'o': info.base = 8; break;
+            case 'o':
+                info.base = 8;
+                info.flags |= ZPL_FMT_UNSIGNED;
+                break;
 
             case 'x':
                 info.base = 16;
-- 
2.43.0


From 1d65034c7464ca58ded9d48c57446e9dcb4a0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 103/106] fix: sockets and block devices are no folders

---
 code/source/core/file_misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index ca0d084..ae74653 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -442,7 +442,7 @@ zpl_u8 zpl_fs_get_type(char const *path) {
     struct stat s;
     if( stat(path,&s) == 0 )
     {
-        if(s.st_mode & S_IFDIR)
+        if(S_ISDIR(s.st_mode))
             return ZPL_DIR_TYPE_FOLDER;
         else
             return ZPL_DIR_TYPE_FILE;
-- 
2.43.0


From 94601d877e8d4a3fa6578c62462c7a67855ecac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 104/106] fix: creating a path reports failure when a file
 stands in its place

---
 code/source/core/file_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index ae74653..5306bdb 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -262,7 +262,8 @@ zpl_isize zpl_path_mkdir_recursive(char const *path, zpl_i32 mode) {
         }
     }
     zpl_file_error err = zpl_path_mkdir(tmp, mode);
-    return (err == ZPL_FILE_ERROR_NONE || err == ZPL_FILE_ERROR_EXISTS) ? 0 : -1;
+    if (err == ZPL_FILE_ERROR_EXISTS && zpl_fs_get_type(tmp) == ZPL_DIR_TYPE_FOLDER) err = ZPL_FILE_ERROR_NONE;
+    return err == ZPL_FILE_ERROR_NONE ? 0 : -1;
 }
 
 zpl_file_error zpl_path_rmdir(char const *path) {
-- 
2.43.0


From d6955388ab0786f27a253f90a2a4fb9d5326df78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 105/106] fix: a recursive listing enters folders whose type
 the file system leaves unknown

---
 code/source/core/file_misc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/code/source/core/file_misc.c b/code/source/core/file_misc.c
index 5306bdb..0f982af 100644
--- a/code/source/core/file_misc.c
+++ b/code/source/core/file_misc.c
@@ -294,6 +294,15 @@ zpl_internal void zpl__path_append(zpl_string *str, char const *text) {
     *str = next;
 }
 
+#if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
+// NOTE: a file system may leave the type of an entry unknown
+zpl_internal zpl_b32 zpl__dirent_is_dir(struct dirent *dir, char const *path) {
+    struct stat s;
+    if (dir->d_type != DT_UNKNOWN) return dir->d_type == DT_DIR;
+    return lstat(path, &s) == 0 && S_ISDIR(s.st_mode);
+}
+#endif
+
 void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *output, zpl_b32 recurse) {
 #if defined(ZPL_SYSTEM_UNIX) || defined(ZPL_SYSTEM_OSX)
     DIR *d;
@@ -319,7 +328,7 @@ void zpl__file_direntry(zpl_allocator alloc, char const *dirname, zpl_string *ou
             zpl__path_append(output, dirpath);
             zpl__path_append(output, "\n");
 
-            if (recurse && *output && dir->d_type == DT_DIR) { zpl__file_direntry(alloc, dirpath, output, recurse); }
+            if (recurse && *output && zpl__dirent_is_dir(dir, dirpath)) { zpl__file_direntry(alloc, dirpath, output, recurse); }
             zpl_string_free(dirpath);
         }
         closedir(d);
-- 
2.43.0


From 9fd028f9ad2bf68021527aa12ac7be2c5a9a17b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:17 +0000
Subject: [PATCH 106/106] fix: the minus flag left-justifies a real number
 instead of printing a plus sign

---
 code/source/core/print.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/code/source/core/print.c b/code/source/core/print.c
index 3a0667e..9b5a34d 100644
--- a/code/source/core/print.c
+++ b/code/source/core/print.c
@@ -214,7 +214,7 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
         if (arg < 0) {
             len += zpl__print_copy(text, max_len, "-", 1);
             arg = -arg;
-        } else if (info->flags & ZPL_FMT_MINUS) {
+        } else if (info->flags & ZPL_FMT_PLUS) {
             len += zpl__print_copy(text, max_len, "+", 1);
         }
 
@@ -245,7 +245,10 @@ zpl_internal zpl_isize zpl__print_f64(char *text, zpl_isize max_len, zpl__format
     }
 
     width = info->width - len;
-    if (width > 0) {
+    if (width > 0 && (info->flags & ZPL_FMT_MINUS)) {
+        for (i = len; i < len + width && i < max_len; i++) text[i] = ' ';
+        len += width;
+    } else if (width > 0) {
         char fill = (info->flags & ZPL_FMT_ZERO) ? '0' : ' ';
 
         for (i = len; i--;) {
-- 
2.43.0


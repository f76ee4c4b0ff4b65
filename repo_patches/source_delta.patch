From 24dc1163836329c9a7b36d98445ad2acc2a8af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 01/18] fix: free the old allocation by region rather than size
 in realloc

Allocations with an alignment above the page size are always made by the
large allocator, even when their size is below max_slab_size_class. realloc
treated them as slab allocations based on their size and passed them to
deallocate_small, and did not copy the last canary_size bytes of them.
---
 h_malloc.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 15be0a2..bd668e1 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1520,7 +1520,9 @@ EXPORT void *h_realloc(void *old, size_t size) {
     old = untag_pointer(old);
 
     size_t old_size;
-    if (old < get_slab_region_end() && old >= ro.slab_region_start) {
+    // aligned allocations can be large allocations with a size below max_slab_size_class
+    bool old_in_slab_region = old < get_slab_region_end() && old >= ro.slab_region_start;
+    if (old_in_slab_region) {
         old_size = slab_usable_size(old);
         if (size <= max_slab_size_class && get_size_info(size).size == old_size) {
             return old_orig;
@@ -1632,12 +1634,11 @@ EXPORT void *h_realloc(void *old, size_t size) {
         thread_seal_metadata();
         return NULL;
     }
-    size_t copy_size = min(size, old_size);
-    if (copy_size > 0 && copy_size <= max_slab_size_class) {
-        copy_size -= canary_size;
-    }
+    size_t new_usable_size = size > 0 && size <= max_slab_size_class ? size - canary_size : size;
+    size_t old_usable_size = old_size > 0 && old_in_slab_region ? old_size - canary_size : old_size;
+    size_t copy_size = min(new_usable_size, old_usable_size);
     memcpy(new, old_orig, copy_size);
-    if (old_size <= max_slab_size_class) {
+    if (old_in_slab_region) {
         deallocate_small(old, NULL);
     } else {
         deallocate_large(old, NULL);
-- 
2.43.0


From c62f5073c7e3a76c81ee94dd633949eb23106439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 02/18] fix: find the slab of zero size allocations in
 malloc_object_size

The size class of zero size allocations is 0 but they take up slots of 16
bytes. The slab size was calculated as 0, so the slot index was out of bounds
for all but the first slab and valid allocations were reported as invalid.
---
 h_malloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index bd668e1..ecb5c33 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1806,8 +1806,9 @@ EXPORT size_t h_malloc_object_size(const void *p) {
 
         mutex_lock(&c->lock);
 
+        size_t real_size = size_class ? size_class : 16;
         const struct slab_metadata *metadata = get_metadata(c, p);
-        size_t slab_size = get_slab_size(get_slots(class), size_class);
+        size_t slab_size = get_slab_size(get_slots(class), real_size);
         void *slab = get_slab(c, slab_size, metadata);
         size_t slot = libdivide_u32_do((const char *)p - (const char *)slab, &c->size_divisor);
 
@@ -1821,7 +1822,7 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         }
 #endif
 
-        void *start = slot_pointer(size_class, slab, slot);
+        void *start = slot_pointer(real_size, slab, slot);
         size_t offset = (const char *)p - (const char *)start;
 
         mutex_unlock(&c->lock);
-- 
2.43.0


From cc37e93f78839171f873066ed418216b8f1cd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 03/18] fix: count aligned large allocations in the stats

Freeing them subtracts their size from the total of the region allocator, but
allocating them did not add it, so the total wrapped around below zero.
---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index ecb5c33..ef4d435 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1438,6 +1438,7 @@ static int allocate_aligned(unsigned arena, void **memptr, size_t alignment, siz
         deallocate_pages(p, size, guard_size);
         return ENOMEM;
     }
+    stats_large_allocate(ra, size);
     mutex_unlock(&ra->lock);
 
     *memptr = p;
-- 
2.43.0


From 5dbdd6bee95e84bf85f3719a5c258f5fa324117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 04/18] fix: clear the old region table when it can't be
 replaced

The result of mapping over the old table was ignored. When the kernel is out
of memory or mappings, the old entries stayed in the table, and the next time
it was grown these stale entries became live again.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index ef4d435..71ef6fa 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1047,7 +1047,10 @@ static int regions_grow(void) {
         }
     }
 
-    memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata));
+    if (unlikely(memory_map_fixed(ra->regions, ra->total * sizeof(struct region_metadata)))) {
+        // the table needs to be empty when it's used again
+        memset(ra->regions, 0, ra->total * sizeof(struct region_metadata));
+    }
     memory_set_name(ra->regions, ra->total * sizeof(struct region_metadata), "malloc allocator_state");
     ra->free = ra->free + ra->total;
     ra->total = newtotal;
-- 
2.43.0


From 041c4bdc87b4e29924eaf49d7c7e348d4f899e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 05/18] fix: set errno to ENOMEM when the region table is full

malloc returned NULL without setting errno.
---
 h_malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 71ef6fa..a6cee62 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1018,6 +1018,7 @@ static int regions_grow(void) {
     struct region_allocator *ra = ro.region_allocator;
 
     if (ra->total > SIZE_MAX / sizeof(struct region_metadata) / 2) {
+        errno = ENOMEM;
         return 1;
     }
 
@@ -1026,6 +1027,7 @@ static int regions_grow(void) {
     size_t mask = newtotal - 1;
 
     if (newtotal > MAX_REGION_TABLE_SIZE) {
+        errno = ENOMEM;
         return 1;
     }
 
-- 
2.43.0


From 728043d9a450226067f77d1e9ea380c762b5120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 06/18] fix: support a free slabs quarantine length of 0

A length of 0 is accepted by the static assertions, but the first slab freed
was stored beyond the end of the empty array, on top of the CSPRNG state, and
the value found there was used as a slab.
---
 h_malloc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index a6cee62..62b5c80 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -277,7 +277,9 @@ struct __attribute__((aligned(CACHELINE_SIZE))) size_class {
     // FIFO singly-linked list
     struct slab_metadata *free_slabs_head;
     struct slab_metadata *free_slabs_tail;
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     struct slab_metadata *free_slabs_quarantine[FREE_SLABS_QUARANTINE_RANDOM_LENGTH];
+#endif
 
 #if CONFIG_STATS
     u64 nmalloc; // may wrap (per jemalloc API)
@@ -751,6 +753,7 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     metadata->next = NULL;
 
     static_assert(FREE_SLABS_QUARANTINE_RANDOM_LENGTH < (u16)-1, "free slabs quarantine too large");
+#if FREE_SLABS_QUARANTINE_RANDOM_LENGTH > 0
     size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);
     struct slab_metadata *substitute = c->free_slabs_quarantine[index];
     c->free_slabs_quarantine[index] = metadata;
@@ -758,6 +761,9 @@ static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metada
     if (substitute == NULL) {
         return;
     }
+#else
+    struct slab_metadata *substitute = metadata;
+#endif
 
     if (c->free_slabs_tail != NULL) {
         c->free_slabs_tail->next = substitute;
-- 
2.43.0


From f69f1cc7c6fbcddfecb497c51088d6f3aeeaee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 07/18] fix: use the whole random slab quarantine for large
 lengths

The length is scaled up for the smaller size classes, and beyond
UINT16_MAX it was truncated: with CONFIG_SLAB_QUARANTINE_RANDOM_LENGTH=8, the
smallest size classes always used the first entry of the array.
---
 h_malloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 62b5c80..96b070f 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -835,7 +835,10 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 #if SLAB_QUARANTINE_RANDOM_LENGTH > 0
     size_t slab_quarantine_random_length = SLAB_QUARANTINE_RANDOM_LENGTH << quarantine_shift;
 
-    size_t random_index = get_random_u16_uniform(&c->rng, slab_quarantine_random_length);
+    // the length for the smallest size classes may not fit into a u16
+    size_t random_index = slab_quarantine_random_length <= UINT16_MAX ?
+        get_random_u16_uniform(&c->rng, slab_quarantine_random_length) :
+        get_random_u64_uniform(&c->rng, slab_quarantine_random_length);
     void *random_substitute = c->quarantine_random[random_index];
     c->quarantine_random[random_index] = p;
 
-- 
2.43.0


From 702bd589dfb45dfda5a7778176d4d8fc836768f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 08/18] fix: reject biased values in get_random_u16_uniform

bound is promoted to int, so -bound % bound was always 0 and no value was
ever rejected, unlike with the 64-bit variant.
---
 random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random.c b/random.c
index 8883531..0ef15d2 100644
--- a/random.c
+++ b/random.c
@@ -90,7 +90,7 @@ u16 get_random_u16_uniform(struct random_state *state, u16 bound) {
     u32 multiresult = random * bound;
     u16 leftover = multiresult;
     if (leftover < bound) {
-        u16 threshold = -bound % bound;
+        u16 threshold = (u16)-bound % bound;
         while (leftover < threshold) {
             random = get_random_u16(state);
             multiresult = random * bound;
-- 
2.43.0


From 4f00d5bf56dfcfcae1b53acec3c549eae070aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 09/18] fix: return an upper bound from malloc_object_size_fast
 before init

0 isn't an upper bound on the size of an object that isn't managed by the
allocator: return SIZE_MAX, as malloc_object_size does.
---
 h_malloc.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 96b070f..01e70d3 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1874,10 +1874,6 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return size ? size - canary_size : 0;
     }
 
-    if (unlikely(slab_region_end == NULL)) {
-        return 0;
-    }
-
     return SIZE_MAX;
 }
 
-- 
2.43.0


From c8f73aec587ef44eb9645cb694acd6bc689405c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 10/18] fix: preserve errno in free_sized for large allocations

free and free_sized for small allocations already preserve it.
---
 h_malloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index 01e70d3..559d2d1 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1713,6 +1713,7 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
+// preserves errno
 EXPORT void h_free_sized(void *p, size_t expected_size) {
     if (p == NULL) {
         return;
@@ -1730,7 +1731,9 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
         return;
     }
 
+    int saved_errno = errno;
     deallocate_large(p, &expected_size);
+    errno = saved_errno;
 
     thread_seal_metadata();
 }
-- 
2.43.0


From a81861d8039edfafe6387dac0b1e92c6ef82a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 11/18] fix: don't unmap the lead of an aligned allocation
 twice

It has already been unmapped, so another thread may have mapped something
there in the meantime.
---
 pages.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pages.c b/pages.c
index 27558de..f337b50 100644
--- a/pages.c
+++ b/pages.c
@@ -73,7 +73,8 @@ void *allocate_pages_aligned(size_t usable_size, size_t alignment, size_t guard_
 
     if (trail_size) {
         if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
-            memory_unmap(real, real_alloc_size);
+            // the lead is no longer ours and may already be in use by another thread
+            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
             return NULL;
         }
     }
-- 
2.43.0


From 2d6c891c7af631274b5fc45b119e0bd62717167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/18] fix: unseal the metadata only while reading it in
 malloc_info

Writing to the stream can allocate, for example when growing the buffer of
open_memstream. This sealed the metadata again, and accessing the next size
class crashed with CONFIG_SEAL_METADATA.
---
 h_malloc.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 559d2d1..474a40e 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -2023,20 +2023,21 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
 
 #if CONFIG_STATS
     if (likely(is_init())) {
-        thread_unseal_metadata();
-
         for (unsigned arena = 0; arena < N_ARENA; arena++) {
             fprintf(fp, "<heap nr=\"%u\">", arena);
 
             for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
                 struct size_class *c = &ro.size_class_metadata[arena][class];
 
+                // writing to the stream may allocate, which seals the metadata
+                thread_unseal_metadata();
                 mutex_lock(&c->lock);
                 u64 nmalloc = c->nmalloc;
                 u64 ndalloc = c->ndalloc;
                 size_t slab_allocated = c->slab_allocated;
                 size_t allocated = c->allocated;
                 mutex_unlock(&c->lock);
+                thread_seal_metadata();
 
                 if (nmalloc || ndalloc || slab_allocated || allocated) {
                     fprintf(fp, "<bin nr=\"%u\" size=\"%" PRIu32 "\">"
@@ -2052,16 +2053,16 @@ EXPORT int h_malloc_info(int options, FILE *fp) {
             fputs("</heap>", fp);
         }
 
+        thread_unseal_metadata();
         struct region_allocator *ra = ro.region_allocator;
         mutex_lock(&ra->lock);
         size_t region_allocated = ra->allocated;
         mutex_unlock(&ra->lock);
+        thread_seal_metadata();
 
         fprintf(fp, "<heap nr=\"%u\">"
                 "<allocated_large>%zu</allocated_large>"
                 "</heap>", N_ARENA, region_allocated);
-
-        thread_seal_metadata();
     }
 #endif
 
-- 
2.43.0


From 1532d7ed1c50d0314ec078349372e39182ea2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 13/18] fix: accept the size passed to the aligned sized delete
 operators

An alignment above 16 affects the size class used by the aligned new
operators, but it was ignored when checking the size in the aligned sized
delete operators: deleting an object with an alignment of 32 and a size of 64
aborted with a sized deallocation mismatch.
---
 h_malloc.c         | 17 +++++++++++++++--
 include/h_malloc.h |  5 +++++
 new.cc             |  8 ++++----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 474a40e..3b797f4 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1713,8 +1713,16 @@ EXPORT void h_free(void *p) {
 EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 #endif
 
+// Returns the size of the slab slots used for an allocation made with this size and alignment.
+static size_t get_expected_slab_size(size_t alignment, size_t size) {
+    if (alignment > min_align && alignment <= PAGE_SIZE && size <= max_slab_size_class) {
+        return get_size_info_align(size, alignment).size;
+    }
+    return get_size_info(size).size;
+}
+
 // preserves errno
-EXPORT void h_free_sized(void *p, size_t expected_size) {
+EXPORT void h_free_aligned_sized(void *p, size_t alignment, size_t expected_size) {
     if (p == NULL) {
         return;
     }
@@ -1725,7 +1733,7 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
 
     if (p < get_slab_region_end() && p >= ro.slab_region_start) {
         thread_unseal_metadata();
-        expected_size = get_size_info(expected_size).size;
+        expected_size = get_expected_slab_size(alignment, expected_size);
         deallocate_small(p, &expected_size);
         thread_seal_metadata();
         return;
@@ -1738,6 +1746,11 @@ EXPORT void h_free_sized(void *p, size_t expected_size) {
     thread_seal_metadata();
 }
 
+// preserves errno
+EXPORT void h_free_sized(void *p, size_t expected_size) {
+    h_free_aligned_sized(p, min_align, expected_size);
+}
+
 static inline void memory_corruption_check_small(const void *p) {
     struct slab_size_class_info size_class_info = slab_size_class(p);
     size_t class = size_class_info.class;
diff --git a/include/h_malloc.h b/include/h_malloc.h
index 0eee395..7513404 100644
--- a/include/h_malloc.h
+++ b/include/h_malloc.h
@@ -45,6 +45,7 @@ extern "C" {
 #define h_malloc_object_size malloc_object_size
 #define h_malloc_object_size_fast malloc_object_size_fast
 #define h_free_sized free_sized
+#define h_free_aligned_sized free_aligned_sized
 #endif
 
 // C standard
@@ -122,6 +123,10 @@ size_t h_malloc_object_size_fast(const void *ptr);
 // passed size matches the allocated size.
 void h_free_sized(void *ptr, size_t expected_size);
 
+// The same for allocations made with an alignment, such as by aligned_alloc and
+// the C++17 aligned new operators, where the alignment affects the size class.
+void h_free_aligned_sized(void *ptr, size_t alignment, size_t expected_size);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/new.cc b/new.cc
index 165e19e..4f80ab7 100644
--- a/new.cc
+++ b/new.cc
@@ -144,10 +144,10 @@ EXPORT void operator delete[](void *ptr, std::align_val_t, const std::nothrow_t
     h_free(ptr);
 }
 
-EXPORT void operator delete(void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete(void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
 
-EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t) noexcept {
-    h_free_sized(ptr, size);
+EXPORT void operator delete[](void *ptr, size_t size, std::align_val_t alignment) noexcept {
+    h_free_aligned_sized(ptr, static_cast<size_t>(alignment), size);
 }
-- 
2.43.0


From fc0046504d15f9436f1e6f655c80e83dce3208e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:37 +0000
Subject: [PATCH 14/18] fix: reject overflowing sizes for zero size allocations
 in free_sized

Rounding the size up to a size class overflows to 0 for the largest sizes, which
is the size of the zero size class, so the mismatch wasn't detected.
---
 h_malloc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 3b797f4..7f6e66c 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1715,7 +1715,11 @@ EXPORT void h_cfree(void *ptr) ALIAS(h_free);
 
 // Returns the size of the slab slots used for an allocation made with this size and alignment.
 static size_t get_expected_slab_size(size_t alignment, size_t size) {
-    if (alignment > min_align && alignment <= PAGE_SIZE && size <= max_slab_size_class) {
+    // rounding up could overflow to the size of the zero size class
+    if (size > max_slab_size_class) {
+        return size;
+    }
+    if (alignment > min_align && alignment <= PAGE_SIZE) {
         return get_size_info_align(size, alignment).size;
     }
     return get_size_info(size).size;
-- 
2.43.0


From 3dd56295cc0702a578a46282653ab84dde2e2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 15/18] fix: keep memory tagging enabled for recycled slabs

---
 h_malloc.c | 15 +++++++++++++--
 memory.c   | 12 ++++++++++++
 memory.h   |  3 +++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/h_malloc.c b/h_malloc.c
index 7f6e66c..c8f0970 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -749,6 +749,17 @@ static size_t slab_usable_size(const void *p) {
     return size_classes[slab_size_class(p).class];
 }
 
+// Purges and memory protects a slab. Memory tagging is a property of the mapping, so it needs to be
+// enabled again for the replacement.
+static bool memory_map_fixed_slab(void *slab, size_t slab_size) {
+#ifdef HAS_ARM_MTE
+    if (likely(is_memtag_enabled())) {
+        return memory_map_fixed_mte(slab, slab_size);
+    }
+#endif
+    return memory_map_fixed(slab, slab_size);
+}
+
 static void enqueue_free_slab(struct size_class *c, struct slab_metadata *metadata) {
     metadata->next = NULL;
 
@@ -899,7 +910,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
 
         if (c->empty_slabs_total + slab_size > max_empty_slabs_total) {
             int saved_errno = errno;
-            if (!memory_map_fixed(slab, slab_size)) {
+            if (!memory_map_fixed_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
@@ -1928,7 +1939,7 @@ EXPORT int h_malloc_trim(UNUSED size_t pad) {
             struct slab_metadata *iterator = c->empty_slabs;
             while (iterator) {
                 void *slab = get_slab(c, slab_size, iterator);
-                if (memory_map_fixed(slab, slab_size)) {
+                if (memory_map_fixed_slab(slab, slab_size)) {
                     break;
                 }
                 label_slab(slab, slab_size, class);
diff --git a/memory.c b/memory.c
index 5434060..00c7b28 100644
--- a/memory.c
+++ b/memory.c
@@ -51,6 +51,18 @@ bool memory_map_fixed(void *ptr, size_t size) {
     return ret;
 }
 
+#ifdef HAS_ARM_MTE
+// Note that PROT_MTE can't be cleared via mprotect
+bool memory_map_fixed_mte(void *ptr, size_t size) {
+    void *p = mmap(ptr, size, PROT_MTE, MAP_ANONYMOUS|MAP_PRIVATE|MAP_FIXED, -1, 0);
+    bool ret = p == MAP_FAILED;
+    if (unlikely(ret) && errno != ENOMEM) {
+        fatal_error("non-ENOMEM MTE MAP_FIXED mmap failure");
+    }
+    return ret;
+}
+#endif
+
 bool memory_unmap(void *ptr, size_t size) {
     bool ret = munmap(ptr, size);
     if (unlikely(ret) && errno != ENOMEM) {
diff --git a/memory.h b/memory.h
index 6e4cd4d..d5e336b 100644
--- a/memory.h
+++ b/memory.h
@@ -15,6 +15,9 @@ void *memory_map(size_t size);
 void *memory_map_mte(size_t size);
 #endif
 bool memory_map_fixed(void *ptr, size_t size);
+#ifdef HAS_ARM_MTE
+bool memory_map_fixed_mte(void *ptr, size_t size);
+#endif
 bool memory_unmap(void *ptr, size_t size);
 bool memory_protect_ro(void *ptr, size_t size);
 bool memory_protect_rw(void *ptr, size_t size);
-- 
2.43.0


From 3b188c80e6ba1cdee14d350fd1b5f9d34343d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:49 +0000
Subject: [PATCH 16/18] fix: untag the pointers passed to the object size
 functions

---
 h_malloc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/h_malloc.c b/h_malloc.c
index c8f0970..2af8d66 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1841,6 +1841,8 @@ EXPORT size_t h_malloc_object_size(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         thread_unseal_metadata();
@@ -1899,6 +1901,8 @@ EXPORT size_t h_malloc_object_size_fast(const void *p) {
         return 0;
     }
 
+    p = untag_const_pointer(p);
+
     const void *slab_region_end = get_slab_region_end();
     if (p < slab_region_end && p >= ro.slab_region_start) {
         size_t size = slab_usable_size(p);
-- 
2.43.0


From 578ff46429413759bb403f76418e7ffaa028a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 17/18] fix: preserve errno in free when labelling a purged
 slab fails

memory_set_name() calls prctl(), which sets errno on kernels without support for
naming anonymous memory or when out of memory. deallocate_small() is documented to
preserve errno and only restored it when purging failed.
---
 h_malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/h_malloc.c b/h_malloc.c
index 2af8d66..8e9f1da 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -912,6 +912,7 @@ static inline void deallocate_small(void *p, const size_t *expected_size) {
             int saved_errno = errno;
             if (!memory_map_fixed_slab(slab, slab_size)) {
                 label_slab(slab, slab_size, class);
+                errno = saved_errno;
                 stats_slab_deallocate(c, slab_size);
                 enqueue_free_slab(c, metadata);
                 mutex_unlock(&c->lock);
-- 
2.43.0


From e17b133abcabb1ef7a790dd7400579cc283f5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 18/18] fix: support zero size allocations aligned to more than
 a page without large size classes

With CONFIG_LARGE_SIZE_CLASSES=false, 0 was rounded up to 0 pages, which is treated
as an overflow, so aligned_alloc(8192, 0) and operator new(0, std::align_val_t(8192))
always failed (the latter by calling the new-handler forever if there is one).
---
 h_malloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h_malloc.c b/h_malloc.c
index 8e9f1da..562ea8c 100644
--- a/h_malloc.c
+++ b/h_malloc.c
@@ -1360,7 +1360,7 @@ static size_t get_large_size_class(size_t size) {
         // etc.
         return get_size_info(max(size, (size_t)PAGE_SIZE)).size;
     }
-    return page_align(size);
+    return page_align(max(size, (size_t)1));
 }
 
 static size_t get_guard_size(struct random_state *state, size_t size) {
-- 
2.43.0


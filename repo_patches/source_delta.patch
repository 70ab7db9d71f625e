From 4ae3f66ffb924d05fed8794956599bfff5d0e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 01/64] Add ISOALLOC_MC hooks for model checking builds

With ISOALLOC_MC undefined nothing changes. With it, a harness supplied
header may lower limits and random draws pass through the harness.
---
 include/conf.h             | 6 ++++++
 include/iso_alloc_ds.h     | 5 +++++
 include/iso_alloc_sanity.h | 5 +++++
 src/iso_alloc_random.c     | 8 ++++++++
 4 files changed, 24 insertions(+)

diff --git a/include/conf.h b/include/conf.h
index fb5dc6b..60d4e0c 100644
--- a/include/conf.h
+++ b/include/conf.h
@@ -164,3 +164,9 @@ static uint64_t default_zones[] = {ZONE_32, ZONE_32, ZONE_64, ZONE_64, ZONE_128,
 #define SMALLEST_CHUNK_SZ ZONE_512
 static uint64_t default_zones[] = {ZONE_512, ZONE_1024, ZONE_2048, ZONE_4096};
 #endif
+
+/* Model checking builds lower some of the limits above so
+ * that their boundaries are reached in a few operations */
+#if ISOALLOC_MC
+#include "isoalloc_mc_conf.h"
+#endif
diff --git a/include/iso_alloc_ds.h b/include/iso_alloc_ds.h
index 2fd76f8..dfd3033 100644
--- a/include/iso_alloc_ds.h
+++ b/include/iso_alloc_ds.h
@@ -7,6 +7,11 @@
  * caches, and typedef used by the allocator */
 #define ZONE_FREE_LIST_SZ 255
 
+#if ISOALLOC_MC && defined(ISOALLOC_MC_ZONE_FREE_LIST_SZ)
+#undef ZONE_FREE_LIST_SZ
+#define ZONE_FREE_LIST_SZ ISOALLOC_MC_ZONE_FREE_LIST_SZ
+#endif
+
 /* The size of this table scales with SMALL_SIZE_MAX. */
 #define ZONE_LOOKUP_TABLE_SZ (SMALL_SIZE_MAX >> 4) * sizeof(uint32_t)
 #define SZ_TO_ZONE_LOOKUP_IDX(size) size >> 4
diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 02f23a6..5d73cae 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -21,6 +21,11 @@
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
 
+#if ISOALLOC_MC && defined(ISOALLOC_MC_MAX_SANE_SAMPLES)
+#undef MAX_SANE_SAMPLES
+#define MAX_SANE_SAMPLES ISOALLOC_MC_MAX_SANE_SAMPLES
+#endif
+
 #if THREAD_SUPPORT
 #if USE_SPINLOCK
 extern atomic_flag sane_cache_flag;
diff --git a/src/iso_alloc_random.c b/src/iso_alloc_random.c
index d074224..641390a 100644
--- a/src/iso_alloc_random.c
+++ b/src/iso_alloc_random.c
@@ -36,11 +36,19 @@
  * are combined with our seed and then run through the mum function.
  * See the original wyhash paper for more details.
  * https://github.com/wangyi-fudan/wyhash/ */
+#if ISOALLOC_MC
+/* Model checking builds decide which random values are drawn */
+uint64_t isoalloc_mc_rand(uint64_t val);
+#endif
+
 INTERNAL_HIDDEN INLINE uint64_t us_rand_uint64(uint64_t *seed) {
     *seed += 0x5d6447c8df9375b5;
     __uint128_t tmp = (__uint128_t) *seed * 0x3c5829f2fb3c3eef;
     uint64_t m1 = (tmp >> 64) ^ tmp;
     tmp = (__uint128_t) m1 * 0x4f38e4ccc1b0ea59;
+#if ISOALLOC_MC
+    return isoalloc_mc_rand((tmp >> 64) ^ tmp);
+#endif
     return (tmp >> 64) ^ tmp;
 }
 
-- 
2.43.0


From 55aa95f0559947f65ad5595474b6358530dede8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 02/64] fix: looking up a big zone no longer unlinks it

iso_find_big_zone(p, false) is used by iso_chunksz() and removed the head
of the used list, or truncated it, although the allocation stays live. The
next free of that allocation then aborted.
---
 src/iso_alloc.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 498f2bd..a744a6a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1755,19 +1755,20 @@ INTERNAL_HIDDEN iso_alloc_big_zone_t *iso_find_big_zone(void *p, bool remove) {
         check_big_canary(big_zone);
         /* Only an exact match of the address is valid */
         if(p == big_zone->user_pages_start) {
-            if(remove == true && prev != NULL) {
-                prev->next = big_zone->next;
-            }
+            if(remove == true) {
+                _root->big_zone_used_count--;
 
-            _root->big_zone_used_count--;
+                /* If this is our first iteration then we are returning the
+                 * used list head. Set its new value to the next entry */
+                if(prev == NULL) {
+                    _root->big_zone_used = big_zone->next;
+                } else {
+                    prev->next = big_zone->next;
+                }
 
-            /* If this is our first iteration then we are returning the
-             * used list head. Set its new value to the next entry */
-            if(prev == NULL) {
-                _root->big_zone_used = big_zone->next;
+                big_zone->next = NULL;
             }
 
-            big_zone->next = NULL;
             UNLOCK_BIG_ZONE_USED();
             return big_zone;
         }
-- 
2.43.0


From e7fc032148a5e9ab4691903acda855382aae0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/64] fix: only count chunks the zone bitmap has bits for

The bitmap size is rounded down to whole qwords, so for chunk sizes that
do not divide the zone evenly chunk_count was larger than the number of
chunks the bitmap describes. Freeing the last usable chunk then read the
neighbouring zone's bitmap (preallocated bitmap pages) and aborted on a
canary that was never written, and iso_zone_chunk_count() promised chunks
that cannot be allocated.
---
 src/iso_alloc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index a744a6a..b2b9179 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -374,6 +374,14 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
     new_zone->bitmap_size = (bitmap_size > sizeof(bitmap_index_t)) ? bitmap_size : sizeof(bitmap_index_t);
     new_zone->max_bitmap_idx = (new_zone->bitmap_size >> 3);
 
+    /* The bitmap only holds whole qwords. Chunks it has no
+     * bits for are never handed out so don't count them */
+    const uint32_t bitmap_chunks = (new_zone->max_bitmap_idx << (BITS_PER_QWORD_SHIFT - BITS_PER_CHUNK_SHIFT));
+
+    if(new_zone->chunk_count > bitmap_chunks) {
+        new_zone->chunk_count = bitmap_chunks;
+    }
+
     if(g_page_size >= new_zone->bitmap_size) {
         const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
-- 
2.43.0


From ef8608d1b9c5b985163dfcddc72bb4af122ed051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/64] fix: reject a free whose bit slot is just past the zone
 bitmap

A pointer to the space after the last chunk of a zone was accepted and
read and modified the qword after the zone's bitmap, which may belong to
another zone.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b2b9179..4ffbf6c 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1431,7 +1431,7 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       chunk_offset, p, zone->index, zone->chunk_size, (chunk_offset & (zone->chunk_size - 1)));
     }
 
-    if(UNLIKELY(dwords_to_bit_slot > zone->max_bitmap_idx)) {
+    if(UNLIKELY(dwords_to_bit_slot >= zone->max_bitmap_idx)) {
         LOG_AND_ABORT("Cannot calculate this chunks location in the bitmap 0x%p", p);
     }
 
-- 
2.43.0


From b47cdb79917b2d60926452c4415bd47d63a7194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 05/64] fix: sizes near SIZE_MAX no longer wrap to a small
 chunk

Rounding such a request up to the size alignment wrapped to zero, and
iso_alloc(SIZE_MAX) returned a minimum size chunk instead of NULL.
---
 src/iso_alloc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 4ffbf6c..35ac43b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1074,6 +1074,15 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
     if(size < SMALLEST_CHUNK_SZ) {
         size = SMALLEST_CHUNK_SZ;
     } else if((size % SZ_ALIGNMENT) != 0) {
+        /* Rounding up must not wrap around to a small size */
+        if(UNLIKELY(size > SIZE_MAX - SZ_ALIGNMENT)) {
+#if ABORT_ON_NULL
+            LOG_AND_ABORT("Cannot allocate %ld bytes", size);
+#endif
+            LOG("Cannot allocate %ld bytes", size);
+            return NULL;
+        }
+
         size = ALIGN_SZ_UP(size);
     }
 
-- 
2.43.0


From bfc14cfd710a15be038019fb11accbd0bf896e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 06/64] fix: calloc no longer rounds the element size before
 multiplying

_iso_alloc() already rounds the product. Rounding each element made
calloc(1, SIZE_MAX) wrap to a zero size request and return the zero page,
made zero size requests return a real chunk although all 0 sized
allocations are documented to return the PROT_NONE page, and made
representable requests such as calloc(1 << 28, 1) fail.
---
 src/iso_alloc.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 35ac43b..4089f29 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1036,13 +1036,6 @@ INTERNAL_HIDDEN INLINE void populate_zone_cache(iso_alloc_zone_t *zone) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
-
-    if(size < SMALLEST_CHUNK_SZ) {
-        size = SMALLEST_CHUNK_SZ;
-    } else if((size % SZ_ALIGNMENT) != 0) {
-        size = ALIGN_SZ_UP(size);
-    }
-
     size_t sz = nmemb * size;
 
     if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
-- 
2.43.0


From bd6eb656d1fd3f5fb9f7a7e3139ee4bbe453fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 07/64] fix: strdup family copies and accounts for the
 terminator

---
 src/iso_alloc_interfaces.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 7db679e..30c28fd 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -113,7 +113,8 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strdup_from_zone(iso_al
         return NULL;
     }
 
-    size_t size = strlen(str);
+    /* The copy includes the NUL terminator */
+    size_t size = strlen(str) + 1;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
@@ -138,24 +139,22 @@ EXTERNAL_API FLATTEN NO_DISCARD ASSUME_ALIGNED char *iso_strndup_from_zone(iso_a
         return NULL;
     }
 
-    size_t s_size = strlen(str);
+    /* str may not be terminated within its first n bytes */
+    const char *end = memchr(str, '\0', n);
+    size_t s_size = (end != NULL) ? (size_t) (end - str) : n;
 
     if(zone != NULL) {
         UNMASK_ZONE_HANDLE(zone);
     }
 
-    char *p = (char *) _iso_alloc(zone, n);
+    char *p = (char *) _iso_alloc(zone, s_size + 1);
 
     if(p == NULL) {
         return NULL;
     }
 
-    if(s_size > n) {
-        _iso_alloc_memcpy(p, str, n);
-        p[n - 1] = '\0';
-    } else {
-        _iso_alloc_memcpy(p, str, s_size);
-    }
+    _iso_alloc_memcpy(p, str, s_size);
+    p[s_size] = '\0';
 
     return p;
 }
-- 
2.43.0


From 028fe04d42d13bcd9df6dcb7c08e272ff599ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 08/64] fix: freeing a canary or permanently freed chunk is
 detected

---
 src/iso_alloc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 4089f29..7737191 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1452,6 +1452,13 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
 
+    /* The second bit is never set for a chunk that is in use. If
+     * it is then this is a canary or permanently free'd chunk */
+    if(UNLIKELY((GET_BIT(b, (which_bit + 1))) == 1)) {
+        LOG_AND_ABORT("Free of canary or permanently free'd chunk 0x%p detected from zone[%d] dwords_to_bit_slot=%lu bit_slot=%lu",
+                      p, zone->index, dwords_to_bit_slot, bit_slot);
+    }
+
     /* Set the next bit so we know this chunk was used */
     SET_BIT(b, (which_bit + 1));
 
-- 
2.43.0


From 4d484b91e1c318e3b08201737138ef835ba86a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 09/64] fix: realloc of a free chunk never returns that chunk

---
 src/iso_alloc_interfaces.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 30c28fd..c8a454d 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -75,6 +75,12 @@ EXTERNAL_API FLATTEN NO_DISCARD REALLOC_SIZE ASSUME_ALIGNED void *iso_realloc(vo
         return r;
     }
 
+    /* The new chunk can't be the one we were passed
+     * unless that was already free */
+    if(UNLIKELY(r == p)) {
+        LOG_AND_ABORT("realloc of free chunk 0x%p detected", p);
+    }
+
     size_t chunk_size = iso_chunksz(p);
 
     if(size > chunk_size) {
-- 
2.43.0


From e913325fa52bd284b83d713eb4fcfb423040a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 10/64] fix: replacing zone 0 keeps its index

---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 7737191..e1ea087 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -499,8 +499,8 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
 
     create_guard_page(user_pages_guard_above);
 
-    /* We created a new zone, we did not replace a retired one */
-    if(index > 0) {
+    /* A replacement, including one for zone 0, keeps its index */
+    if(index >= 0) {
         new_zone->index = index;
     } else {
         new_zone->index = _root->zones_used;
-- 
2.43.0


From 2516eb6008628249031915f07055d9096f1bb4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 11/64] fix: zones can be replaced when the zone table is full

---
 src/iso_alloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index e1ea087..d5a8309 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -326,7 +326,8 @@ INTERNAL_HIDDEN void create_canary_chunks(iso_alloc_zone_t *zone) {
 
 /* Requires the root is locked */
 INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int32_t index) {
-    if(UNLIKELY(_root->zones_used >= MAX_ZONES) || UNLIKELY(index >= MAX_ZONES)) {
+    /* Replacing an existing zone doesn't use another slot */
+    if(UNLIKELY(index < 0 && _root->zones_used >= MAX_ZONES) || UNLIKELY(index >= MAX_ZONES)) {
         LOG_AND_ABORT("Cannot allocate additional zones. I have already allocated %d zones", _root->zones_used);
     }
 
-- 
2.43.0


From c65113d138ffd35cfcb8ab2191532fb5b0374ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 12/64] fix: a zone that could not be created has a NULL handle

---
 src/iso_alloc_interfaces.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index c8a454d..b7ee8a8 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -35,11 +35,19 @@ EXTERNAL_API FLATTEN void iso_free_size(void *p, size_t size) {
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, false);
 }
 
 EXTERNAL_API FLATTEN void iso_free_from_zone_permanently(void *p, iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     _iso_free_from_zone(p, zone, true);
 }
@@ -53,6 +61,10 @@ EXTERNAL_API FLATTEN size_t iso_chunksz(void *p) {
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD size_t iso_zone_chunk_count(iso_alloc_zone_handle *zone) {
+    if(zone == NULL) {
+        return 0;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
     size_t canaries = 0;
@@ -236,6 +248,12 @@ EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
 
 EXTERNAL_API FLATTEN NO_DISCARD iso_alloc_zone_handle *iso_alloc_new_zone(size_t size) {
     iso_alloc_zone_handle *zone = (iso_alloc_zone_handle *) iso_new_zone(size, false);
+
+    /* Don't turn a failure into a non-NULL handle */
+    if(zone == NULL) {
+        return NULL;
+    }
+
     UNMASK_ZONE_HANDLE(zone);
     return zone;
 }
-- 
2.43.0


From deecc71a5b49b47e5694b2db659c904111c1d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 13/64] fix: preallocated bitmap pages are surrounded by guard
 pages

---
 src/iso_alloc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d5a8309..b3ce05a 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -128,7 +128,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1 - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        _root->bitmaps[i].bitmap = mmap_rw_pages(g_page_size, false, name);
+        _root->bitmaps[i].bitmap = mmap_guarded_rw_pages(g_page_size, false, name);
         _root->bitmaps[i].bucket = small_bitmap_sizes[i];
     }
 
@@ -2186,7 +2186,9 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     const int sbsi = (sizeof(small_bitmap_sizes) / sizeof(int)) - 1;
 
     for(int i = 0; i < sbsi; i++) {
-        munmap(_root->bitmaps[i].bitmap, g_page_size);
+        if(_root->bitmaps[i].bitmap != NULL) {
+            unmap_guarded_pages(_root->bitmaps[i].bitmap, g_page_size);
+        }
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
-- 
2.43.0


From f11930bd8523796f39e0461886f621ccbc9a81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 14/64] fix: rounding a page aligned address down keeps it

---
 include/iso_alloc_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index c8f87cb..40cd1eb 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -204,7 +204,7 @@ assert(sizeof(size_t) >= 64)
     ((((n + g_page_size) - 1) >> g_page_size_shift) * (g_page_size))
 
 #define ROUND_DOWN_PAGE(n) \
-    (ROUND_UP_PAGE(n) - g_page_size)
+    (((n) >> g_page_size_shift) * (g_page_size))
 
 #if MASK_PTRS
 #define MASK_ZONE_PTRS(zone) \
-- 
2.43.0


From d85d28037802b31ed37bb03a568a868be8abebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 15/64] fix: big zone meta data pages are unmapped

---
 src/iso_alloc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b3ce05a..af3c66d 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1858,10 +1858,12 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
         munmap(big_zone->user_pages_start, big_zone->size);
 #endif
 
+        /* Big zone meta data is at a random offset from its base page */
+        void *meta_data = (void *) ROUND_DOWN_PAGE((uintptr_t) big_zone);
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages(meta_data, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap(meta_data, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
     }
 }
@@ -2103,10 +2105,12 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
         munmap(big_zone->user_pages_start, big_zone->size);
 #endif
 
+        /* Big zone meta data is at a random offset from its base page */
+        void *meta_data = (void *) ROUND_DOWN_PAGE((uintptr_t) big_zone);
 #if BIG_ZONE_META_DATA_GUARD
-        unmap_guarded_pages(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        unmap_guarded_pages(meta_data, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #else
-        munmap(big_zone, BIG_ZONE_META_DATA_PAGE_COUNT);
+        munmap(meta_data, g_page_size * BIG_ZONE_META_DATA_PAGE_COUNT);
 #endif
         big_zone = big;
     }
-- 
2.43.0


From 1829ae1d4aec6c6bef2abfae8e1f13983e0a709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 16/64] fix: destroying a tagged zone unmaps the guard page
 below its tags

---
 src/iso_alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index af3c66d..42ff5bd 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -220,11 +220,12 @@ INTERNAL_HIDDEN void _iso_alloc_destroy_zone_unlocked(iso_alloc_zone_t *zone, bo
     UNPOISON_ZONE(zone);
 
 #if MEMORY_TAGGING
-    /* If the zone is tagged then unmap the page holding the tags */
+    /* If the zone is tagged then unmap the pages holding the
+     * tags and the guard pages on both sides of them */
     if(zone->tagged == true) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
         void *_mtp = (zone->user_pages_start - s - g_page_size);
-        munmap(_mtp, g_page_size + s);
+        munmap(_mtp - g_page_size, s + g_page_size * 2);
         zone->tagged = false;
     }
 #endif
-- 
2.43.0


From 769786ca0f40e5ad40bb9c1f00ca5ad29accc53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 17/64] fix: draw the big zone meta data offset with the root
 locked

---
 src/iso_alloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 42ff5bd..496898d 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1994,8 +1994,11 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
 #endif
 
     /* The second page is for meta data and it is placed
-     * at a random offset from the start of the page */
+     * at a random offset from the start of the page. The
+     * seed is shared so it requires the root is locked */
+    LOCK_ROOT();
     uint32_t random_offset = ALIGN_SZ_DOWN(us_rand_uint64(&_root->seed));
+    UNLOCK_ROOT();
     size_t s = g_page_size - (sizeof(iso_alloc_big_zone_t) - 1);
     new_big = (iso_alloc_big_zone_t *) ((void *) new_big + ((random_offset * s) >> 32));
     new_big->free = false;
-- 
2.43.0


From 2884309e2c1b2453281b3a264757cc5cf24b943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 18/64] fix: verify the big zone lists with their locks held

---
 src/iso_alloc_sanity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 752d506..b99f2df 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -82,9 +82,14 @@ INTERNAL_HIDDEN void _verify_all_zones(void) {
         _verify_zone(zone);
     }
 
-    /* Root is locked already */
+    /* Root is locked already, the big zone lists are not */
+    LOCK_BIG_ZONE_USED();
     _verify_big_zone_list(_root->big_zone_used);
+    UNLOCK_BIG_ZONE_USED();
+
+    LOCK_BIG_ZONE_FREE();
     _verify_big_zone_list(_root->big_zone_free);
+    UNLOCK_BIG_ZONE_FREE();
 }
 
 INTERNAL_HIDDEN void _verify_zone(iso_alloc_zone_t *zone) {
-- 
2.43.0


From 65284d92df9554668de9015b4b70687513fbc368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 19/64] fix: cache the zone of a freed chunk before the root is
 unlocked

---
 src/iso_alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 496898d..b50875e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1665,11 +1665,13 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 INTERNAL_HIDDEN void _iso_free_internal(void *p, bool permanent) {
     LOCK_ROOT();
     iso_alloc_zone_t *zone = _iso_free_internal_unlocked(p, permanent, NULL);
-    UNLOCK_ROOT();
 
+    /* Once the root is unlocked another thread may replace this zone */
     if(zone != NULL) {
         populate_zone_cache(zone);
     }
+
+    UNLOCK_ROOT();
 }
 
 INTERNAL_HIDDEN bool _is_zone_retired(iso_alloc_zone_t *zone) {
-- 
2.43.0


From b2cff134631c521a902d0e8928e0948053ddff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 20/64] fix: find the tags of chunks whose size is not a power
 of two

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 2bb3713..3501b5a 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -11,7 +11,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
 #if MEMORY_TAGGING
     void *user_pages_start = UNMASK_USER_PTR(zone);
 
-    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) < p) {
+    if(user_pages_start > p || (user_pages_start + ZONE_USER_SIZE) <= p) {
         LOG_AND_ABORT("Cannot get tag for pointer %p with wrong zone %d %p - %p", p, zone->index, user_pages_start, user_pages_start + ZONE_USER_SIZE);
     }
 
@@ -19,7 +19,7 @@ INTERNAL_HIDDEN uint8_t _iso_alloc_get_mem_tag(void *p, iso_alloc_zone_t *zone)
     const uint64_t chunk_offset = (uint64_t) (p - user_pages_start);
 
     /* Ensure the pointer is a multiple of chunk size */
-    if(UNLIKELY((chunk_offset & (zone->chunk_size - 1)) != 0)) {
+    if(UNLIKELY((chunk_offset % zone->chunk_size) != 0)) {
         LOG_AND_ABORT("Chunk offset %d not an alignment of %d", chunk_offset, zone->chunk_size);
     }
 
-- 
2.43.0


From bdf18d901d0bf19737d4119ed85ac24f433e06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 21/64] fix: verify a pointer tag against the tag of its chunk

---
 src/iso_alloc_mem_tags.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 3501b5a..960feb0 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -40,8 +40,8 @@ INTERNAL_HIDDEN void _iso_alloc_verify_tag(void *p, iso_alloc_zone_t *zone) {
     void *untagged_p = (void *) ((uintptr_t) p & TAGGED_PTR_MASK);
     const uint64_t tag = _iso_alloc_get_mem_tag(untagged_p, zone);
 
-    if(tag != ((uintptr_t) p & IS_TAGGED_PTR_MASK)) {
-        LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p & IS_TAGGED_PTR_MASK), tag);
+    if(tag != ((uintptr_t) p >> UNTAGGED_BITS)) {
+        LOG_AND_ABORT("Pointer %p has wrong tag %x, expected %x", p, ((uintptr_t) p >> UNTAGGED_BITS), tag);
     }
 #endif
     return;
-- 
2.43.0


From 6521c15ea27e01a79ca176e121c82923cb962ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 22/64] fix: refresh the tags of a zone that reached its
 refresh age

---
 src/iso_alloc_mem_tags.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_mem_tags.c b/src/iso_alloc_mem_tags.c
index 960feb0..d319748 100644
--- a/src/iso_alloc_mem_tags.c
+++ b/src/iso_alloc_mem_tags.c
@@ -79,9 +79,10 @@ INTERNAL_HIDDEN bool _refresh_zone_mem_tags(iso_alloc_zone_t *zone) {
     /* This implements a similar policy to zone retirement.
      * The only difference is that we refresh all tags at
      * %25 of the configured zone retirement age */
-    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > (zone->chunk_count << _root->zone_retirement_shf)) >> 2) {
+    if(UNLIKELY(zone->af_count == 0 && zone->alloc_count > ((zone->chunk_count << _root->zone_retirement_shf) >> 2))) {
         size_t s = ROUND_UP_PAGE(zone->chunk_count * MEM_TAG_SIZE);
-        uint64_t *_mtp = (zone->user_pages_start - g_page_size - s);
+        void *user_pages_start = UNMASK_USER_PTR(zone);
+        uint64_t *_mtp = (user_pages_start - g_page_size - s);
         size_t tms = s / sizeof(uint64_t);
 
         for(uint64_t o = 0; o < tms; o++) {
-- 
2.43.0


From 031854418fcda4a7e9818a58d62f6061143bbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 23/64] fix: look up memory tags with the root locked

---
 src/iso_alloc.c            |  3 ++-
 src/iso_alloc_interfaces.c | 23 +++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index b50875e..1290a3e 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1511,6 +1511,8 @@ INTERNAL_HIDDEN void _iso_free_from_zone(void *p, iso_alloc_zone_t *zone, bool p
         return;
     }
 
+    LOCK_ROOT();
+
 #if MEMORY_TAGGING
     /* Its possible that we were passed a tagged pointer */
     if(UNLIKELY(zone->tagged == true && ((uintptr_t) p & IS_TAGGED_PTR_MASK) != 0)) {
@@ -1520,7 +1522,6 @@ INTERNAL_HIDDEN void _iso_free_from_zone(void *p, iso_alloc_zone_t *zone, bool p
     }
 #endif
 
-    LOCK_ROOT();
     _iso_free_internal_unlocked(p, permanent, zone);
     UNLOCK_ROOT();
 }
diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index b7ee8a8..437fb4e 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -197,7 +197,11 @@ EXTERNAL_API FLATTEN NO_DISCARD MALLOC_ATTR void *iso_alloc_from_zone_tagged(iso
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
 
     void *p = _iso_alloc(zone, _zone->chunk_size);
-    return _tag_ptr(p, zone);
+
+    LOCK_ROOT();
+    p = _tag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_tag_ptr(void *p, iso_alloc_zone_handle *zone) {
@@ -206,7 +210,10 @@ EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_tag_ptr(void *p, iso_alloc_zone_
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _tag_ptr(p, zone);
+    LOCK_ROOT();
+    p = _tag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_untag_ptr(void *p, iso_alloc_zone_handle *zone) {
@@ -215,7 +222,10 @@ EXTERNAL_API FLATTEN NO_DISCARD void *iso_alloc_untag_ptr(void *p, iso_alloc_zon
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _untag_ptr(p, zone);
+    LOCK_ROOT();
+    p = _untag_ptr(p, zone);
+    UNLOCK_ROOT();
+    return p;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_verify_ptr_tag(void *p, iso_alloc_zone_handle *zone) {
@@ -224,7 +234,9 @@ EXTERNAL_API FLATTEN void iso_alloc_verify_ptr_tag(void *p, iso_alloc_zone_handl
     }
 
     UNMASK_ZONE_HANDLE(zone);
+    LOCK_ROOT();
     _iso_alloc_verify_tag(p, zone);
+    UNLOCK_ROOT();
     return;
 }
 
@@ -234,7 +246,10 @@ EXTERNAL_API FLATTEN NO_DISCARD uint8_t iso_alloc_get_mem_tag(void *p, iso_alloc
     }
 
     UNMASK_ZONE_HANDLE(zone);
-    return _iso_alloc_get_mem_tag(p, zone);
+    LOCK_ROOT();
+    const uint8_t tag = _iso_alloc_get_mem_tag(p, zone);
+    UNLOCK_ROOT();
+    return tag;
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_destroy_zone(iso_alloc_zone_handle *zone) {
-- 
2.43.0


From d02bc3c8f3200d0dcd09d7505660b94a5ab1ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 24/64] fix: sample general allocations and never those of
 private zones

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1290a3e..6e44fce 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1112,7 +1112,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
-    if(zone != NULL) {
+    if(zone == NULL) {
         if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
-- 
2.43.0


From 6df7aaebe9bd60e2d688578a35b47f064d913efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 25/64] fix: the sample cache covers every index and
 MAX_SANE_SAMPLES entries

---
 include/iso_alloc_sanity.h | 4 ++--
 src/iso_alloc_sanity.c     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 5d73cae..0abb66e 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -16,7 +16,7 @@
 
 #define SANITY_SAMPLE_ODDS 10000
 #define MAX_SANE_SAMPLES 1024
-#define SANE_CACHE_SIZE 65535
+#define SANE_CACHE_SIZE 65536
 #define SANE_CACHE_IDX(p) (((uint64_t) p >> 8) & 0xffff)
 #define SANITY_CANARY_VALIDATE_MASK 0xffffffffffffff00
 #define SANITY_CANARY_SIZE 8
@@ -55,7 +55,7 @@ extern int64_t _uf_fd;
 #endif
 
 extern int32_t _sane_sampled;
-extern uint8_t _sane_cache[SANE_CACHE_SIZE];
+extern uint16_t _sane_cache[SANE_CACHE_SIZE];
 
 typedef struct {
     void *address;
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index b99f2df..fade633 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -138,7 +138,7 @@ pthread_mutex_t sane_cache_mutex;
 
 uint64_t _sanity_canary;
 int32_t _sane_sampled;
-uint8_t _sane_cache[SANE_CACHE_SIZE];
+uint16_t _sane_cache[SANE_CACHE_SIZE];
 _sane_allocation_t _sane_allocations[MAX_SANE_SAMPLES];
 
 #if UNINIT_READ_SANITY
-- 
2.43.0


From 03f52aba27f26c0c8db32f41266d503de4da5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 26/64] fix: the sampling limit is checked with the sample
 cache locked

---
 src/iso_alloc.c        |  2 +-
 src/iso_alloc_sanity.c | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 6e44fce..1b66511 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1113,7 +1113,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 #if ALLOC_SANITY
     /* We don't sample if we are allocating from a private zone */
     if(zone == NULL) {
-        if(size < g_page_size && _sane_sampled < MAX_SANE_SAMPLES) {
+        if(size < g_page_size) {
             /* If we chose to sample this allocation then
              * _iso_alloc_sample will call UNLOCK_ROOT() */
             void *ps = _iso_alloc_sample(size);
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index fade633..e621f62 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -359,7 +359,6 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     _sane_allocation_t *sane_alloc = NULL;
 
     LOCK_SANITY_CACHE();
-    UNLOCK_ROOT();
 
     /* Find the first free slot in our sampled storage */
     for(uint32_t i = 0; i < MAX_SANE_SAMPLES; i++) {
@@ -369,11 +368,17 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
         }
     }
 
-    /* There are no available slots in the cache */
+    /* There are no available slots in the cache, we can't sample
+     * this allocation. The caller still holds the root lock */
     if(sane_alloc == NULL) {
-        LOG_AND_ABORT("There are no free slots in the cache, there should be %d", _sane_sampled);
+        UNLOCK_SANITY_CACHE();
+        return NULL;
     }
 
+    /* The seed requires the root is locked */
+    const bool right_align = ((us_rand_uint64(&_root->seed) % 2) == 1);
+    UNLOCK_ROOT();
+
     sane_alloc->orig_size = size;
     void *p = mmap_guarded_rw_pages(g_page_size, false, SAMPLED_ALLOC_NAME);
 
@@ -382,7 +387,7 @@ INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size) {
     }
 
     /* We may right align the mapping to catch overflows */
-    if((us_rand_uint64(&_root->seed) % 2) == 1) {
+    if(right_align == true) {
         p = (p + g_page_size) - sane_alloc->orig_size;
         sane_alloc->right_aligned = true;
         sane_alloc->address = (void *) ROUND_DOWN_PAGE((uintptr_t) p);
-- 
2.43.0


From 9b58282062c8a95aa1f9d107bc0064734ca09904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 27/64] fix: count frees for the profiler with the root locked

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1b66511..19c42b7 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1573,7 +1573,9 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if HEAP_PROFILER
+    LOCK_ROOT();
     _iso_free_profile();
+    UNLOCK_ROOT();
 #endif
 
 #if ARM_MTE
-- 
2.43.0


From c34e67952e915b4cff3d38a91db217bef526ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 28/64] fix: name the pages of a zone, not its masked address

---
 src/iso_alloc_interfaces.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_interfaces.c b/src/iso_alloc_interfaces.c
index 437fb4e..80d0344 100644
--- a/src/iso_alloc_interfaces.c
+++ b/src/iso_alloc_interfaces.c
@@ -281,7 +281,10 @@ EXTERNAL_API FLATTEN int32_t iso_alloc_name_zone(iso_alloc_zone_handle *zone, ch
     }
 
     iso_alloc_zone_t *_zone = (iso_alloc_zone_t *) zone;
-    return name_mapping(_zone->user_pages_start, ZONE_USER_SIZE, name);
+    LOCK_ROOT();
+    void *user_pages_start = UNMASK_USER_PTR(_zone);
+    UNLOCK_ROOT();
+    return name_mapping(user_pages_start, ZONE_USER_SIZE, name);
 }
 
 EXTERNAL_API FLATTEN void iso_alloc_protect_root(void) {
-- 
2.43.0


From 027a705efd9d3553ad751f98f036521739300619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 29/64] fix: strong size isolation applies to all zones

---
 src/iso_alloc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 19c42b7..ccee069 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -809,7 +809,8 @@ INTERNAL_HIDDEN iso_alloc_zone_t *is_zone_usable(iso_alloc_zone_t *zone, size_t
     }
 
 #if STRONG_SIZE_ISOLATION
-    if(UNLIKELY(zone->internal == false && size != zone->chunk_size)) {
+    /* Only a zone that is a perfect fit can be used */
+    if(UNLIKELY(size != zone->chunk_size)) {
         return NULL;
     }
 #endif
-- 
2.43.0


From 8e65cbab00a0afbc0ccdeb6d3ffc2ed7389c2a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 30/64] fix: keep the memcpy, memmove and memset hooks from
 calling themselves in optimised builds

---
 src/iso_alloc_sanity.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index e621f62..d9258d4 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -4,6 +4,10 @@
 #include "iso_alloc_internal.h"
 
 #if MEMCPY_SANITY || MEMSET_SANITY
+/* Keeps the compiler from turning the loops below into calls
+ * to the functions they implement, which are our own hooks */
+#define NOT_A_LIBC_CALL() __asm__ volatile("" ::: "memory")
+
 #define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
 #endif
 
@@ -427,6 +431,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
     while(n--) {
         *p_dest++ = *p_src++;
+        NOT_A_LIBC_CALL();
     }
 
     return dest;
@@ -476,6 +481,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
         p_src += n;
         while(n--) {
             *--p_dest = *--p_src;
+            NOT_A_LIBC_CALL();
         }
     } else {
         dest = __iso_memcpy(dest, src, n);
@@ -520,6 +526,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
     while(n--) {
         *p_dest++ = b;
+        NOT_A_LIBC_CALL();
     }
 
     return dest;
-- 
2.43.0


From b8dd29fcced2b3db5ea6cfcf4f21b4bf7a3a4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 31/64] fix: the memory function hooks missed overflows that
 reach the end of a zone

---
 src/iso_alloc_sanity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index d9258d4..a61e455 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -8,7 +8,7 @@
  * to the functions they implement, which are our own hooks */
 #define NOT_A_LIBC_CALL() __asm__ volatile("" ::: "memory")
 
-#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) - n > p && n > sz)
+#define MEM_SANITY_CHK(p, start, sz) (start <= p && (start + ZONE_USER_SIZE) > p && n > sz)
 #endif
 
 #if ENABLE_ASAN
-- 
2.43.0


From 71202078154f6d5b55b43a790f8cacb4cb59aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 32/64] fix: the memory function hooks dereferenced a NULL root
 before initialization

---
 src/iso_alloc_sanity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index a61e455..1933094 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -442,7 +442,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
 INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -495,7 +495,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
 
 INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -537,7 +537,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
 INTERNAL_HIDDEN void *_iso_alloc_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    if(n > SMALLEST_CHUNK_SZ) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
         iso_alloc_zone_t *zone = search_chunk_lookup_table(dest);
         void *user_pages_start = UNMASK_USER_PTR(zone);
 
-- 
2.43.0


From 534a416962f78062bd6f926e1704790067d93502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 33/64] fix: aligned allocation functions return aligned memory

---
 src/iso_alloc.cpp | 10 ++++++----
 src/malloc_hook.c | 50 +++++++++++++++++++++++++++++++++++------------
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 90fce59..0348301 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -23,6 +23,8 @@ extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
 #define NEW_EXCEPT
 #endif
 
+extern "C" INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size);
+
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
@@ -67,11 +69,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return _iso_alloc_aligned(static_cast<size_t>(val), size);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return iso_alloc(size);
+    return _iso_alloc_aligned(static_cast<size_t>(val), size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
@@ -83,11 +85,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *p, std::align_val_t val) noexc
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
-    return iso_alloc(size);
+    return _iso_alloc_aligned(static_cast<size_t>(val), size);
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val, std::nothrow_t &) noexcept {
-    return iso_alloc(size);
+    return _iso_alloc_aligned(static_cast<size_t>(val), size);
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val, std::nothrow_t &) noexcept {
diff --git a/src/malloc_hook.c b/src/malloc_hook.c
index b383d42..8130672 100644
--- a/src/malloc_hook.c
+++ b/src/malloc_hook.c
@@ -13,6 +13,37 @@
  */
 #if MALLOC_HOOK
 
+/* Chunks are only as aligned as their size and the pages
+ * that hold them. Big allocations always start on a page */
+INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size) {
+    if(alignment <= sizeof(void *) || is_pow2(alignment) == false) {
+        return iso_alloc(size);
+    }
+
+    if(size < alignment) {
+        size = alignment;
+    }
+
+    void *p = iso_alloc(size);
+
+    if(p == NULL || ((uintptr_t) p & (alignment - 1)) == 0) {
+        return p;
+    }
+
+    iso_free(p);
+    p = iso_alloc(size > SMALL_SIZE_MAX ? size : SMALL_SIZE_MAX + 1);
+
+    if(p != NULL && ((uintptr_t) p & (alignment - 1)) != 0) {
+#if ABORT_ON_NULL
+        LOG_AND_ABORT("Cannot allocate %ld bytes aligned to %ld", size, alignment);
+#endif
+        iso_free(p);
+        return NULL;
+    }
+
+    return p;
+}
+
 EXTERNAL_API void *__libc_malloc(size_t s) {
     return iso_alloc(s);
 }
@@ -54,16 +85,12 @@ EXTERNAL_API void *reallocarray(void *p, size_t n, size_t s) {
 }
 
 EXTERNAL_API int __posix_memalign(void **r, size_t a, size_t s) {
-    if(is_pow2(a) == false) {
+    if(a < sizeof(void *) || is_pow2(a) == false) {
         *r = NULL;
         return EINVAL;
     }
 
-    if(s < a) {
-        s = a;
-    }
-
-    *r = iso_alloc(s);
+    *r = _iso_alloc_aligned(a, s);
 
     if(*r != NULL) {
         return 0;
@@ -77,18 +104,15 @@ EXTERNAL_API int posix_memalign(void **r, size_t alignment, size_t s) {
 }
 
 EXTERNAL_API void *__libc_memalign(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return _iso_alloc_aligned(alignment, s);
 }
 
 EXTERNAL_API void *aligned_alloc(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return _iso_alloc_aligned(alignment, s);
 }
 
 EXTERNAL_API void *memalign(size_t alignment, size_t s) {
-    /* All iso_alloc allocations are 8 byte aligned */
-    return iso_alloc(s);
+    return _iso_alloc_aligned(alignment, s);
 }
 
 #if __ANDROID__ || __FreeBSD__
@@ -119,7 +143,7 @@ static void libc_free(void *ptr, const void *caller) {
     iso_free(ptr);
 }
 static void *libc_memalign(size_t alignment, size_t s, const void *caller) {
-    return iso_alloc(s);
+    return _iso_alloc_aligned(alignment, s);
 }
 
 #if !__ANDROID__
-- 
2.43.0


From 2b55d6cd4be007a4da8f52c19a12e231ee1d022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 34/64] fix: operator new throws instead of returning a null
 pointer

---
 src/iso_alloc.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc.cpp b/src/iso_alloc.cpp
index 0348301..1db29c6 100644
--- a/src/iso_alloc.cpp
+++ b/src/iso_alloc.cpp
@@ -25,11 +25,28 @@ extern "C" __attribute__((constructor(FIRST_CTOR + 1))) void iso_cpp(void) {
 
 extern "C" INTERNAL_HIDDEN void *_iso_alloc_aligned(size_t alignment, size_t size);
 
+// The throwing forms of new never return a null pointer
+template <typename F> static inline void *new_or_throw(F alloc) {
+    void *p;
+
+    while((p = alloc()) == nullptr) {
+        std::new_handler handler = std::get_new_handler();
+
+        if(handler == nullptr) {
+            throw std::bad_alloc();
+        }
+
+        handler();
+    }
+
+    return p;
+}
+
 // These hooks override the basic new/delete
 // operators to use the iso_alloc API
 
 EXTERNAL_API FLATTEN void *operator new(size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return new_or_throw([=] { return iso_alloc(size); });
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
@@ -37,7 +54,7 @@ EXTERNAL_API FLATTEN void operator delete(void *p) noexcept {
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size) NEW_EXCEPT {
-    return iso_alloc(size);
+    return new_or_throw([=] { return iso_alloc(size); });
 }
 
 EXTERNAL_API FLATTEN void operator delete[](void *p) noexcept {
@@ -69,11 +86,11 @@ EXTERNAL_API FLATTEN void operator delete[](void *ptr, const std::nothrow_t &) n
 }
 
 EXTERNAL_API FLATTEN void *operator new(size_t size, std::align_val_t val) NEW_EXCEPT {
-    return _iso_alloc_aligned(static_cast<size_t>(val), size);
+    return new_or_throw([=] { return _iso_alloc_aligned(static_cast<size_t>(val), size); });
 }
 
 EXTERNAL_API FLATTEN void *operator new[](size_t size, std::align_val_t val) NEW_EXCEPT {
-    return _iso_alloc_aligned(static_cast<size_t>(val), size);
+    return new_or_throw([=] { return _iso_alloc_aligned(static_cast<size_t>(val), size); });
 }
 
 EXTERNAL_API FLATTEN void operator delete(void *p, std::align_val_t val) noexcept {
-- 
2.43.0


From 241cbd485c06596ad0ff70b57828ee01c9f3bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 35/64] fix: only the start of a sampled allocation can be
 freed

---
 src/iso_alloc_sanity.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 1933094..ac44cf1 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -338,6 +338,16 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
     if(sane_alloc != NULL) {
+        void *start = sane_alloc->address;
+
+        if(sane_alloc->right_aligned == true) {
+            start += g_page_size - sane_alloc->orig_size;
+        }
+
+        if(UNLIKELY(p != start)) {
+            LOG_AND_ABORT("Sampled chunk at 0x%p is not the start of the allocation at 0x%p", p, start);
+        }
+
         check_sanity_canary(sane_alloc);
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
-- 
2.43.0


From 3e29c5703f7a628a3e86b70685b4ac753bc463aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 36/64] fix: sized frees of sampled allocations check the size

---
 include/iso_alloc_sanity.h | 2 +-
 src/iso_alloc.c            | 4 ++--
 src/iso_alloc_sanity.c     | 6 +++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/iso_alloc_sanity.h b/include/iso_alloc_sanity.h
index 0abb66e..2d18d13 100644
--- a/include/iso_alloc_sanity.h
+++ b/include/iso_alloc_sanity.h
@@ -74,7 +74,7 @@ INTERNAL_HIDDEN void *_page_fault_thread_handler(void *uf_fd);
 INTERNAL_HIDDEN INLINE void write_sanity_canary(void *p);
 INTERNAL_HIDDEN INLINE void check_sanity_canary(_sane_allocation_t *sane_alloc);
 INTERNAL_HIDDEN void *_iso_alloc_sample(const size_t size);
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p);
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size);
 INTERNAL_HIDDEN int32_t _remove_from_sane_trace(void *p);
 INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p);
 #endif
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ccee069..3c7de13 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1566,7 +1566,7 @@ INTERNAL_HIDDEN void _iso_free(void *p, bool permanent) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, 0);
 
     if(r == OK) {
         return;
@@ -1625,7 +1625,7 @@ INTERNAL_HIDDEN void _iso_free_size(void *p, size_t size) {
 #endif
 
 #if ALLOC_SANITY
-    int32_t r = _iso_alloc_free_sane_sample(p);
+    int32_t r = _iso_alloc_free_sane_sample(p, size);
 
     if(r == OK) {
         return;
diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index ac44cf1..5abcdae 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -333,7 +333,7 @@ INTERNAL_HIDDEN _sane_allocation_t *_get_sane_alloc(void *p) {
     return NULL;
 }
 
-INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
+INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size) {
     LOCK_SANITY_CACHE();
     _sane_allocation_t *sane_alloc = _get_sane_alloc(p);
 
@@ -348,6 +348,10 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p) {
             LOG_AND_ABORT("Sampled chunk at 0x%p is not the start of the allocation at 0x%p", p, start);
         }
 
+        if(UNLIKELY(size > sane_alloc->orig_size)) {
+            LOG_AND_ABORT("Invalid size (expected %d, got %d) for sampled chunk 0x%p", sane_alloc->orig_size, size, p);
+        }
+
         check_sanity_canary(sane_alloc);
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
-- 
2.43.0


From 7c92eadca34e1bcb821737af664f50020fa0b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 37/64] fix: clean-up destroy releases every mapping and allows
 a new start

---
 src/iso_alloc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 3c7de13..1c9ef67 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2174,7 +2174,7 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 
 #if ISO_DTOR_CLEANUP
     /* Unmap all zone structures */
-    munmap((void *) ((uintptr_t) _root->zones - g_page_size), _root->zones_size);
+    unmap_guarded_pages(_root->zones, _root->zones_size);
 #endif
 
     LOCK_BIG_ZONE_USED();
@@ -2188,12 +2188,17 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
 #if ISO_DTOR_CLEANUP
     unmap_guarded_pages(_root->chunk_lookup_table, CHUNK_TO_ZONE_TABLE_SZ);
     unmap_guarded_pages(_root->chunk_quarantine, CHUNK_QUARANTINE_SZ * sizeof(uintptr_t));
+
+    /* The zones in our cache no longer exist */
+    clear_zone_cache();
+
+#if !THREAD_SUPPORT
     unmap_guarded_pages(zone_cache, ZONE_CACHE_SZ * sizeof(_tzc));
+    zone_cache = NULL;
+#endif
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    UNLOCK_BIG_ZONE_FREE();
     pthread_mutex_destroy(&_root->big_zone_free_mutex);
-    UNLOCK_BIG_ZONE_USED();
     pthread_mutex_destroy(&_root->big_zone_used_mutex);
 #endif
 
@@ -2206,11 +2211,14 @@ INTERNAL_HIDDEN void _iso_alloc_destroy(void) {
     }
 
     unmap_guarded_pages(_root, sizeof(iso_alloc_root));
+    _root = NULL;
 #endif
     UNLOCK_ROOT();
 
 #if ISO_DTOR_CLEANUP && THREAD_SUPPORT && !USE_SPINLOCK
+#if ALLOC_SANITY
     pthread_mutex_destroy(&sane_cache_mutex);
+#endif
     pthread_mutex_destroy(&root_busy_mutex);
 #endif
 }
-- 
2.43.0


From a77224d2a9b1f2adf8e2d0f7d3f9d0088e9ab5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 38/64] fix: start-up by an early allocation is as complete as
 the constructor's

---
 src/iso_alloc.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1c9ef67..1ff3733 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -137,20 +137,8 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
     _root->zone_handle_mask = rand_uint64();
     _root->big_zone_next_mask = us_rand_uint64(&_root->seed);
     _root->big_zone_canary_secret = us_rand_uint64(&_root->seed);
-}
-
-INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
-    if(_root != NULL) {
-        return;
-    }
-
-    g_page_size = sysconf(_SC_PAGESIZE);
-    g_page_size_shift = _log2(g_page_size);
-
-    iso_alloc_initialize_global_root();
 
 #if THREAD_SUPPORT && !USE_SPINLOCK
-    pthread_mutex_init(&root_busy_mutex, NULL);
     pthread_mutex_init(&_root->big_zone_free_mutex, NULL);
     pthread_mutex_init(&_root->big_zone_used_mutex, NULL);
 #if ALLOC_SANITY
@@ -170,10 +158,6 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
     _root->uaf_ptr_page = mmap_pages(g_page_size, false, NULL, PROT_NONE);
 #endif
 
-#if ALLOC_SANITY && UNINIT_READ_SANITY
-    _iso_alloc_setup_userfaultfd();
-#endif
-
 #if ALLOC_SANITY
     _sanity_canary = us_rand_uint64(&_root->seed);
 #endif
@@ -190,6 +174,25 @@ INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
 #endif
 }
 
+INTERNAL_HIDDEN void _iso_alloc_initialize(void) {
+    if(_root != NULL) {
+        return;
+    }
+
+    g_page_size = sysconf(_SC_PAGESIZE);
+    g_page_size_shift = _log2(g_page_size);
+
+    iso_alloc_initialize_global_root();
+
+#if THREAD_SUPPORT && !USE_SPINLOCK
+    pthread_mutex_init(&root_busy_mutex, NULL);
+#endif
+
+#if ALLOC_SANITY && UNINIT_READ_SANITY
+    _iso_alloc_setup_userfaultfd();
+#endif
+}
+
 #if AUTO_CTOR_DTOR
 __attribute__((destructor(LAST_DTOR))) void iso_alloc_dtor(void) {
     _iso_alloc_destroy();
@@ -1062,7 +1065,9 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
 
 INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t size) {
 #if NO_ZERO_ALLOCATIONS
-    if(UNLIKELY(size == 0 && _root != NULL)) {
+    const bool zero_size = (size == 0);
+
+    if(UNLIKELY(zero_size && _root != NULL)) {
         return _root->zero_alloc_page;
     }
 #endif
@@ -1101,7 +1106,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc(iso_alloc_zone_t *zone, size_t s
 #if NO_ZERO_ALLOCATIONS
         /* In the unlikely event size is 0 but we hadn't
          * initialized the root yet return the zero page */
-        if(UNLIKELY(size == 0)) {
+        if(UNLIKELY(zero_size)) {
             UNLOCK_ROOT();
             return _root->zero_alloc_page;
         }
-- 
2.43.0


From f565ab9e24977e97d55dea5eef9eb123d58733cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 39/64] fix: trace calls return every trace they count

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 9e4078d..ed324bd 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -244,16 +244,16 @@ INTERNAL_HIDDEN uint64_t __iso_alloc_big_zone_mem_usage(iso_alloc_big_zone_t *he
  * be used to interpret allocation patterns */
 INTERNAL_HIDDEN size_t _iso_get_alloc_traces(iso_alloc_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _alloc_bts, sizeof(iso_alloc_traces_t));
     size_t sz = _alloc_bts_count;
+    __iso_memcpy(traces_out, _alloc_bts, sz * sizeof(iso_alloc_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
 
 INTERNAL_HIDDEN size_t _iso_get_free_traces(iso_free_traces_t *traces_out) {
     LOCK_ROOT();
-    __iso_memcpy(traces_out, _free_bts, sizeof(iso_free_traces_t));
     size_t sz = _free_bts_count;
+    __iso_memcpy(traces_out, _free_bts, sz * sizeof(iso_free_traces_t));
     UNLOCK_ROOT();
     return sz;
 }
-- 
2.43.0


From 69e05f008778da79d824ec2b4a2f45af25151004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 40/64] fix: profile zones with the largest chunk size within
 bounds

---
 include/iso_alloc_profiler.h | 2 +-
 src/iso_alloc_profiler.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/iso_alloc_profiler.h b/include/iso_alloc_profiler.h
index b122318..a4fcc41 100644
--- a/include/iso_alloc_profiler.h
+++ b/include/iso_alloc_profiler.h
@@ -30,7 +30,7 @@ typedef struct {
     uint64_t count;
 } zone_profiler_map_t;
 
-zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX];
+zone_profiler_map_t _zone_profiler_map[SMALL_SIZE_MAX + 1];
 
 /* iso_alloc_traces_t is a public structure, and
  * is defined in the public header iso_alloc.h */
diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index ed324bd..0fcf980 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -374,7 +374,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
         }
     }
 
-    for(int i = 0; i < SMALL_SIZE_MAX; i++) {
+    for(int i = 0; i <= SMALL_SIZE_MAX; i++) {
         if(_zone_profiler_map[i].count != 0) {
             _iso_alloc_printf(profiler_fd, "%d,%d,%d\n", i, _zone_profiler_map[i].total, _zone_profiler_map[i].count);
         }
-- 
2.43.0


From 7e92d5efe011f4a09e7dc02f5e55aa7ed6712c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 41/64] fix: zone usage in profiles is a percentage

---
 src/iso_alloc_profiler.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 0fcf980..0895003 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -176,7 +176,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
      * in use and previously used by this zone */
     if(profile == true) {
         uint64_t total = (in_use + was_used);
-        return (uint64_t) ((float) (total / zone->chunk_count) * 100.0);
+        return (uint64_t) (((float) total / zone->chunk_count) * 100.0);
     }
 #endif
     return in_use;
@@ -404,13 +404,11 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
          * the differences between canary and leaked chunks.
          * So lets just use the full count */
         if(zone->is_full) {
-            used = zone->chunk_count;
+            used = 100;
         } else {
             used = _iso_alloc_zone_leak_detector(zone, true);
         }
 
-        used = (int32_t) ((float) (used / zone->chunk_count) * 100.0);
-
         if(used > CHUNK_USAGE_THRESHOLD) {
             _zone_profiler_map[zone->chunk_size].count++;
         }
-- 
2.43.0


From 4caff53975723b7b55d2497c0ffb1cff03acfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 42/64] fix: the first call of a sampled backtrace counts

---
 src/iso_alloc_profiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 0895003..069dec9 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -441,6 +441,9 @@ INTERNAL_HIDDEN void _iso_alloc_profile(size_t size) {
             abts = &_alloc_bts[_alloc_bts_count];
             abts->backtrace_hash = hash;
 
+            abts->lower_bound_size = size;
+            abts->upper_bound_size = size;
+            abts->call_count = 1;
             _save_alloc_backtrace(abts);
             _alloc_bts_count++;
         }
@@ -475,6 +478,7 @@ INTERNAL_HIDDEN void _iso_free_profile(void) {
             fbts = &_free_bts[_free_bts_count];
             fbts->backtrace_hash = hash;
 
+            fbts->call_count = 1;
             _save_free_backtrace(fbts);
             _free_bts_count++;
         }
-- 
2.43.0


From b3521aa8c3ab5958ec2dcf1656ae138616837b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 43/64] fix: unresolved callers in profiles have no name

---
 src/iso_alloc_profiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 069dec9..439a0dc 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -342,7 +342,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
                 continue;
             }
 
-            Dl_info dl;
+            Dl_info dl = {0};
             dladdr((void *) abts->callers[j], &dl);
 
             if(dl.dli_sname != NULL) {
@@ -363,7 +363,7 @@ INTERNAL_HIDDEN void _iso_output_profile() {
                 continue;
             }
 
-            Dl_info dl;
+            Dl_info dl = {0};
             dladdr((void *) fbts->callers[j], &dl);
 
             if(dl.dli_sname != NULL) {
-- 
2.43.0


From 0cbc67c3dbfb3f765bb0c75fbf7293ef3d97e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 44/64] fix: do not check canaries that were never written

With UNINIT_READ_SANITY the canaries around a sampled allocation are
not written, but freeing one checked them: releasing a written
allocation aborted, and releasing an untouched one faulted with the
sanity lock held, which the page fault handler waits for.
---
 src/iso_alloc_sanity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index 5abcdae..e07ddae 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -352,7 +352,10 @@ INTERNAL_HIDDEN int32_t _iso_alloc_free_sane_sample(void *p, size_t size) {
             LOG_AND_ABORT("Invalid size (expected %d, got %d) for sampled chunk 0x%p", sane_alloc->orig_size, size, p);
         }
 
+#if !UNINIT_READ_SANITY
+        /* The canary is only written when this feature is off */
         check_sanity_canary(sane_alloc);
+#endif
         unmap_guarded_pages(sane_alloc->address, g_page_size);
         memset(sane_alloc, 0x0, sizeof(_sane_allocation_t));
         _sane_cache[SANE_CACHE_IDX(p)]--;
-- 
2.43.0


From 487ee1e2a9826a7aa34ae2d952d11d6df7f2cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 45/64] fix: calloc of no elements yields the zero-size
 placeholder

The hand-made overflow test in front of __builtin_mul_overflow took a product
of 0 for an overflow.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1ff3733..708937b 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1044,7 +1044,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_calloc(size_t nmemb, size_t size) {
     unsigned int res;
     size_t sz = nmemb * size;
 
-    if(sz < size || UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
+    if(UNLIKELY(__builtin_mul_overflow(nmemb, size, &res))) {
         LOG("Call to calloc() will overflow nmemb=%d size=%d = %u", nmemb, size, nmemb * size);
         return NULL;
     }
-- 
2.43.0


From 54d885b84acee9548e1752c8daff8c5ceea0e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 46/64] fix: hooked copies during start-up do not use the
 missing lookup table

When the kernel refused memory during initialisation the report of it crashed
in the memset hook.
---
 src/iso_alloc_sanity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iso_alloc_sanity.c b/src/iso_alloc_sanity.c
index e07ddae..9ee061a 100644
--- a/src/iso_alloc_sanity.c
+++ b/src/iso_alloc_sanity.c
@@ -459,7 +459,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memcpy(void *restrict dest, const void *restr
 
 INTERNAL_HIDDEN void *_iso_alloc_memcpy(void *restrict dest, const void *restrict src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL && _root->chunk_lookup_table != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -512,7 +512,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memmove(void *dest, const void *src, size_t n
 
 INTERNAL_HIDDEN void *_iso_alloc_memmove(void *dest, const void *src, size_t n) {
 #if MEMCPY_SANITY
-    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL && _root->chunk_lookup_table != NULL) {
         /* We don't want to add too much overhead here so we only
          * check the chunk-to-zone cache for zone data and we don't
          * need to lock the root for that. Its possible for a cache
@@ -554,7 +554,7 @@ INTERNAL_HIDDEN INLINE void *__iso_memset(void *dest, int b, size_t n) {
 
 INTERNAL_HIDDEN void *_iso_alloc_memset(void *dest, int b, size_t n) {
 #if MEMSET_SANITY
-    if(n > SMALLEST_CHUNK_SZ && _root != NULL) {
+    if(n > SMALLEST_CHUNK_SZ && _root != NULL && _root->chunk_lookup_table != NULL) {
         iso_alloc_zone_t *zone = search_chunk_lookup_table(dest);
         void *user_pages_start = UNMASK_USER_PTR(zone);
 
-- 
2.43.0


From 09b39dd9021ef981724a3d38cafed205898f5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 47/64] fix: the signal handler works without a heap

After the destructor removed the heap every fault recursed in the handler.
---
 src/iso_alloc_signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_signal.c b/src/iso_alloc_signal.c
index 20eb46e..55340ea 100644
--- a/src/iso_alloc_signal.c
+++ b/src/iso_alloc_signal.c
@@ -14,7 +14,7 @@ INTERNAL_HIDDEN void handle_signal(int sig, siginfo_t *si, void *ctx) {
 
     /* Check for the address within 2 pages in
      * either direction of _root->uaf_ptr_page */
-    if(crash_addr >= _root->uaf_ptr_page - (g_page_size * 2) &&
+    if(_root != NULL && crash_addr >= _root->uaf_ptr_page - (g_page_size * 2) &&
        crash_addr <= _root->uaf_ptr_page + (g_page_size * 2)) {
         LOG_AND_ABORT("Use after free detected! Crashed at _root->uaf_ptr_page 0x%x", si->si_addr);
     }
-- 
2.43.0


From 66047538d61b50738d26637b565a10decbb7ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 48/64] fix: zones can be pinned to every core number

Cores were stored in 8 bits: no zone was ever usable on cores above 255, so
every allocation there made a new one until the table was full, and zones of
other cores passed for zones of cores 0 to 255.
---
 include/iso_alloc_ds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/iso_alloc_ds.h b/include/iso_alloc_ds.h
index dfd3033..85d64c5 100644
--- a/include/iso_alloc_ds.h
+++ b/include/iso_alloc_ds.h
@@ -51,7 +51,7 @@ typedef struct {
     free_bit_slot_t free_bit_slots_usable;        /* The oldest members of the free cache are served first */
     int8_t preallocated_bitmap_idx;               /* The bitmap is preallocated and its index */
 #if CPU_PIN
-    uint8_t cpu_core; /* What CPU core this zone is pinned to */
+    int32_t cpu_core; /* What CPU core this zone is pinned to */
 #endif
     bool internal; /* Zones can be managed by iso_alloc or private */
     bool is_full;  /* Flags whether this zone is full to avoid bit slot searches */
-- 
2.43.0


From cab01957ed55bdbdc6b038a835ebdf6063290595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:31 +0000
Subject: [PATCH 49/64] fix: VERIFY_FREE_BIT_SLOTS searches the whole cache

Only its first eighth was searched for duplicates.
---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 708937b..f75d890 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -659,7 +659,7 @@ INTERNAL_HIDDEN INLINE void insert_free_bit_slot(iso_alloc_zone_t *zone, int64_t
      * to add duplicate bit_slots which would result in iso_alloc()
      * handing out in-use chunks. The _iso_alloc() path also does
      * a check on the bitmap itself before handing out any chunks */
-    const free_bit_slot_t max_cache_slots = (ZONE_FREE_LIST_SZ >> 3);
+    const free_bit_slot_t max_cache_slots = zone->free_bit_slots_index;
 
     for(free_bit_slot_t i = zone->free_bit_slots_usable; i < max_cache_slots; i++) {
         if(zone->free_bit_slots[i] == bit_slot) {
-- 
2.43.0


From 586180d8afbbc7b1e98fd6b08ce606d56c16cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 50/64] fix: use normal pages when there are no huge pages

Requests of exactly 2 or 4 MB aborted the process on every system
without reserved huge pages.
---
 src/iso_alloc_util.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 132780e..1f31494 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -151,7 +151,15 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #endif
 #endif
 
-    p = mmap(p, sz, prot, flags, fd, 0);
+    void *addr = p;
+    p = mmap(addr, sz, prot, flags, fd, 0);
+
+#if __linux__ && MAP_HUGETLB && HUGE_PAGES
+    /* The system may not have any huge pages to give */
+    if(p == MAP_FAILED && (flags & MAP_HUGETLB) != 0) {
+        p = mmap(addr, sz, prot, flags & ~MAP_HUGETLB, fd, 0);
+    }
+#endif
 
     if(p == MAP_FAILED) {
         LOG_AND_ABORT("Failed to mmap rw pages");
-- 
2.43.0


From 9b396d5a08f9bc71190811e9b9102c62462d464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 51/64] fix: lock the root's pages, not those of the pointer to
 it

---
 src/iso_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index f75d890..2037a1f 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -65,7 +65,7 @@ INTERNAL_HIDDEN void iso_alloc_initialize_global_root(void) {
 
     /* We mlock the root or every allocation would
      * result in a soft page fault */
-    MLOCK(&_root, sizeof(iso_alloc_root));
+    MLOCK(_root, sizeof(iso_alloc_root));
 
 #if ARM_MTE
     if(iso_is_mte_supported() == false) {
-- 
2.43.0


From 65eab2b661452305ba5dc4bf67f8e0a15055980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 52/64] fix: do not put guard pages into mappings of huge pages

---
 include/iso_alloc_util.h |  1 +
 src/iso_alloc_util.c     | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/iso_alloc_util.h b/include/iso_alloc_util.h
index 5d39cbf..c967d71 100644
--- a/include/iso_alloc_util.h
+++ b/include/iso_alloc_util.h
@@ -29,6 +29,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_guarded_rw_mte_pages(size_t size, bool
 INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_rw_pages(size_t size, bool populate, const char *name);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_rw_mte_pages(size_t size, bool populate, const char *name);
 INTERNAL_HIDDEN ASSUME_ALIGNED void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot);
+INTERNAL_HIDDEN ASSUME_ALIGNED void *_mmap_pages(size_t size, bool populate, bool huge, const char *name, int32_t prot);
 INTERNAL_HIDDEN void mprotect_pages(void *p, size_t size, int32_t protection);
 INTERNAL_HIDDEN int32_t name_mapping(void *p, size_t sz, const char *name);
 INTERNAL_HIDDEN size_t next_pow2(size_t sz);
diff --git a/src/iso_alloc_util.c b/src/iso_alloc_util.c
index 1f31494..310025e 100644
--- a/src/iso_alloc_util.c
+++ b/src/iso_alloc_util.c
@@ -76,7 +76,8 @@ void *mmap_guarded_rw_pages(size_t size, bool populate, const char *name) {
         return NULL;
     }
 
-    void *p = mmap_rw_pages(sz + (g_page_size * 2), populate, name);
+    /* Huge pages cannot be split to create the guard pages */
+    void *p = _mmap_pages(sz + (g_page_size * 2), populate, false, name, PROT_READ | PROT_WRITE);
 
     create_guard_page(p);
     create_guard_page(p + (g_page_size + sz));
@@ -91,7 +92,7 @@ void *mmap_guarded_rw_mte_pages(size_t size, bool populate, const char *name) {
         return NULL;
     }
 
-    void *p = mmap_rw_mte_pages(sz + (g_page_size * 2), populate, name);
+    void *p = _mmap_pages(sz + (g_page_size * 2), populate, false, name, PROT_READ | PROT_WRITE | PROT_MTE);
 
     create_guard_page(p);
     create_guard_page(p + (g_page_size + sz));
@@ -110,6 +111,10 @@ void *mmap_rw_mte_pages(size_t size, bool populate, const char *name) {
 #endif
 
 void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
+    return _mmap_pages(size, populate, true, name, prot);
+}
+
+void *_mmap_pages(size_t size, bool populate, bool huge, const char *name, int32_t prot) {
 #if !ENABLE_ASAN
     /* Produce a random page address as a hint for mmap */
     uint64_t hint = ROUND_DOWN_PAGE(rand_uint64());
@@ -137,7 +142,7 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #if MAP_HUGETLB && HUGE_PAGES
     /* If we are allocating pages for a user zone
      * then take advantage of the huge TLB */
-    if(sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1)) {
+    if(huge == true && (sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1))) {
         flags |= MAP_HUGETLB;
     }
 #endif
@@ -145,7 +150,7 @@ void *mmap_pages(size_t size, bool populate, const char *name, int32_t prot) {
 #if VM_FLAGS_SUPERPAGE_SIZE_2MB && HUGE_PAGES
     /* If we are allocating pages for a user zone
      * we are going to use the 2 MB superpage flag */
-    if(sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1)) {
+    if(huge == true && (sz == ZONE_USER_SIZE || sz == (ZONE_USER_SIZE >> 1))) {
         fd = VM_FLAGS_SUPERPAGE_SIZE_2MB;
     }
 #endif
-- 
2.43.0


From f34464a9cf47a359c036ae2d793ed245504f3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 53/64] fix: name the pages of memory tags

---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 2037a1f..74606b3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -463,8 +463,8 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_new_zone(size_t size, bool internal, int3
 #endif
 
 #if(__ANDROID__ || KERNEL_VERSION_SEQ_5_17) && NAMED_MAPPINGS && MEMORY_TAGGING
-    if(new_zone->tagged == false) {
-        name = MEM_TAG_NAME;
+    if(new_zone->tagged == true) {
+        name_mapping(p + g_page_size, tag_mapping_size, MEM_TAG_NAME);
     }
 #endif
 
-- 
2.43.0


From 52f397a73e3a545a34a3caf7703bff221b77be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 54/64] fix: the stack search takes chunk offsets in bytes

---
 src/iso_alloc_search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_search.c b/src/iso_alloc_search.c
index aa42a59..38f5e0e 100644
--- a/src/iso_alloc_search.c
+++ b/src/iso_alloc_search.c
@@ -88,7 +88,7 @@ INTERNAL_HIDDEN void _iso_alloc_search_stack(uint8_t *stack_start) {
                 LOG_AND_ABORT("Chunk at 0x%p of zone[%d] is not %d byte aligned", p, zone->index, SZ_ALIGNMENT);
             }
 
-            uint64_t chunk_offset = (uint64_t) (p - (uint64_t *) zone->user_pages_start);
+            uint64_t chunk_offset = (uint64_t) ((void *) p - zone->user_pages_start);
             LOG("zone[%d] user_pages_start=%p value=%p %lu %d", zone->index, zone->user_pages_start, p, chunk_offset, zone->chunk_size);
 
             /* Ensure the pointer is a multiple of chunk size */
-- 
2.43.0


From 34bfb3b0010e21e719b0f48a41ba9ab7f1aaa158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 55/64] fix: the stack search mixed up free and in-use chunks

---
 src/iso_alloc_search.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc_search.c b/src/iso_alloc_search.c
index 38f5e0e..f8ba5cd 100644
--- a/src/iso_alloc_search.c
+++ b/src/iso_alloc_search.c
@@ -113,9 +113,9 @@ INTERNAL_HIDDEN void _iso_alloc_search_stack(uint8_t *stack_start) {
             bitmap_index_t b = bm[dwords_to_bit_slot];
 
             if(UNLIKELY((GET_BIT(b, which_bit)) == 0)) {
-                LOG("Chunk at %p is in-use", p);
-            } else {
                 LOG("Chunk at %p is free", p);
+            } else {
+                LOG("Chunk at %p is in-use", p);
             }
 
             MASK_ZONE_PTRS(zone);
-- 
2.43.0


From 2426e113b7c2cbd8c0da7b316b920e3e7cc3c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 56/64] fix: big allocations unmapped at tear-down stayed
 poisoned

---
 src/iso_alloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 74606b3..59715c1 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -2113,6 +2113,8 @@ INTERNAL_HIDDEN void _free_big_zone_list(iso_alloc_big_zone_t *head) {
             big = NULL;
         }
 
+        UNPOISON_BIG_ZONE(big_zone);
+
         /* Free the user pages first */
 #if BIG_ZONE_GUARD
         unmap_guarded_pages(big_zone->user_pages_start, big_zone->size);
-- 
2.43.0


From 071c16ecebbbbc873258b21ce43fd0bdb86afe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 57/64] fix: searches through memory are not subject to Address
 Sanitizer

---
 include/compiler.h     | 7 +++++++
 src/iso_alloc_search.c | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/compiler.h b/include/compiler.h
index 8fd14db..1f25067 100644
--- a/include/compiler.h
+++ b/include/compiler.h
@@ -10,6 +10,13 @@
 /* This isn't standard in C as [[nodiscard]] until C23 */
 #define NO_DISCARD __attribute__((warn_unused_result))
 
+/* Functions that read memory no matter who owns it */
+#if ENABLE_ASAN
+#define NO_SANITIZE_ADDRESS __attribute__((no_sanitize("address")))
+#else
+#define NO_SANITIZE_ADDRESS
+#endif
+
 #if UNIT_TESTING
 #define EXTERNAL_API __attribute__((visibility("default")))
 #endif
diff --git a/src/iso_alloc_search.c b/src/iso_alloc_search.c
index f8ba5cd..1938027 100644
--- a/src/iso_alloc_search.c
+++ b/src/iso_alloc_search.c
@@ -6,7 +6,7 @@
 /* Search all zones for either the first instance of a pointer
  * value and return it or overwrite the first potentially
  * dangling pointer with the address of an unmapped page */
-INTERNAL_HIDDEN void *_iso_alloc_ptr_search(void *n, bool poison) {
+INTERNAL_HIDDEN NO_SANITIZE_ADDRESS void *_iso_alloc_ptr_search(void *n, bool poison) {
     uint8_t *search = NULL;
     uint8_t *end = NULL;
     const size_t zones_used = _root->zones_used;
@@ -49,7 +49,7 @@ INTERNAL_HIDDEN void *_iso_alloc_ptr_search(void *n, bool poison) {
  * stack_start is NULL then this function starts searching
  * from the environment variables which should be mapped
  * just below the stack */
-INTERNAL_HIDDEN void _iso_alloc_search_stack(uint8_t *stack_start) {
+INTERNAL_HIDDEN NO_SANITIZE_ADDRESS void _iso_alloc_search_stack(uint8_t *stack_start) {
     if(stack_start == NULL) {
         stack_start = (uint8_t *) ENVIRON;
 
-- 
2.43.0


From 63a6b3f14fc17d8ea8b535572ed7bf5583f9d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 58/64] fix: the used share of a zone was logged as 0 or 100
 percent

---
 src/iso_alloc_profiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_profiler.c b/src/iso_alloc_profiler.c
index 439a0dc..a2cccb6 100644
--- a/src/iso_alloc_profiler.c
+++ b/src/iso_alloc_profiler.c
@@ -164,7 +164,7 @@ INTERNAL_HIDDEN uint64_t _iso_alloc_zone_leak_detector(iso_alloc_zone_t *zone, b
 
     if(profile == false) {
         LOG("Zone[%d] Total number of %d byte chunks(%d) used and free'd (%d) (%d percent), in use = %d", zone->index, zone->chunk_size, zone->chunk_count,
-            was_used, (int32_t) ((float) was_used / zone->chunk_count) * 100, in_use);
+            was_used, (int32_t) (((float) was_used / zone->chunk_count) * 100), in_use);
     }
 
     MASK_ZONE_PTRS(zone);
-- 
2.43.0


From 57ec74541dc7afb9ff3513096690ad5a37f61133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 59/64] fix: big allocations with an MTE tag could not be found
 again

The record of a big allocation kept the tagged address, but every lookup
compares it with an untagged one and its canary is made of the address.
---
 src/iso_alloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 59715c1..c60c822 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1951,7 +1951,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
 #endif
 #if ARM_MTE
                 if(_root->arm_mte_enabled == true) {
-                    big->user_pages_start = iso_mte_set_tag_range(big->user_pages_start, big->size);
+                    return iso_mte_set_tag_range(big->user_pages_start, big->size);
                 }
 #endif
                 return big->user_pages_start;
@@ -2034,7 +2034,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
     UNLOCK_BIG_ZONE_USED();
 #if ARM_MTE
     if(_root->arm_mte_enabled == true) {
-        new_big->user_pages_start = iso_mte_set_tag_range(new_big->user_pages_start, new_big->size);
+        return iso_mte_set_tag_range(new_big->user_pages_start, new_big->size);
     }
 #endif
     return new_big->user_pages_start;
-- 
2.43.0


From 42f2a384b0b1138551fbc121c80b544a7abf9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 60/64] fix: ARM_MTE builds could not make big allocations
 without MTE hardware

Nothing was mapped when the hardware has no MTE, and with BIG_ZONE_GUARD
the memory was mapped without tags when it has.
---
 src/iso_alloc.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index c60c822..ec2db95 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1974,20 +1974,21 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_big_alloc(size_t size) {
      * so we need to create a new one */
     void *user_pages = NULL;
 #if ARM_MTE
+    if(_root->arm_mte_enabled == true) {
 #if BIG_ZONE_GUARD
-    user_pages = mmap_guarded_rw_pages(size, false, BIG_ZONE_UD_NAME);
+        user_pages = mmap_guarded_rw_mte_pages(size, false, BIG_ZONE_UD_NAME);
 #else
-    if(_root->arm_mte_enabled == true) {
         user_pages = mmap_rw_mte_pages(size, false, BIG_ZONE_UD_NAME);
-    }
 #endif
-#else
+    } else
+#endif
+    {
 #if BIG_ZONE_GUARD
-    user_pages = mmap_guarded_rw_pages(size, false, BIG_ZONE_UD_NAME);
+        user_pages = mmap_guarded_rw_pages(size, false, BIG_ZONE_UD_NAME);
 #else
-    user_pages = mmap_rw_pages(size, false, BIG_ZONE_UD_NAME);
-#endif
+        user_pages = mmap_rw_pages(size, false, BIG_ZONE_UD_NAME);
 #endif
+    }
 
     if(UNLIKELY(user_pages == NULL)) {
 #if ABORT_ON_NULL
-- 
2.43.0


From 8313a8bb0d4d8254049ff6e75c63cd6692f534af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 61/64] fix: free'd chunks were tagged after they were
 overwritten or unmapped

iso_free() gives the first granule of a chunk a new tag. A permanent free
and SANITIZE_CHUNKS then wrote the whole chunk with that tag, and a zone
that was retired by the free was no longer mapped when it was tagged.
---
 src/iso_alloc.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index ec2db95..1ac0320 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1467,6 +1467,14 @@ INTERNAL_HIDDEN void iso_free_chunk_from_zone(iso_alloc_zone_t *zone, void *rest
                       p, zone->index, dwords_to_bit_slot, bit_slot);
     }
 
+#if ARM_MTE
+    /* The chunk is written to below and the zone may be
+     * retired once it was free'd so it needs its tag now */
+    if(_root->arm_mte_enabled == true) {
+        p = iso_mte_set_tag_range(p, zone->chunk_size);
+    }
+#endif
+
     /* Set the next bit so we know this chunk was used */
     SET_BIT(b, (which_bit + 1));
 
@@ -1742,11 +1750,6 @@ INTERNAL_HIDDEN iso_alloc_zone_t *_iso_free_internal_unlocked(void *p, bool perm
         }
 #endif
 
-#if ARM_MTE
-        if(_root->arm_mte_enabled == true) {
-            p = iso_mte_set_tag_range(p, zone->chunk_size);
-        }
-#endif
         return zone;
     } else {
         iso_alloc_big_zone_t *big_zone = iso_find_big_zone(p, true);
-- 
2.43.0


From 6bdff3a4190264e08f46e3bfd88f7cd6e9a8102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 62/64] fix: the MTE tag loop overflowed for allocations of 2
 GB and more

---
 src/iso_alloc_mte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iso_alloc_mte.c b/src/iso_alloc_mte.c
index 4e8c43c..eb02a7f 100644
--- a/src/iso_alloc_mte.c
+++ b/src/iso_alloc_mte.c
@@ -34,7 +34,7 @@ bool iso_is_mte_supported(void) {
 void *iso_mte_set_tag_range(void *p, size_t size) {
     void *tagged_ptr = iso_mte_create_tag(iso_mte_untag_ptr(p), 0x0);
 
-    for(int i = 0; i < size; i += MTE_GRANULE) {
+    for(size_t i = 0; i < size; i += MTE_GRANULE) {
         iso_mte_set_tag(tagged_ptr + i);
     }
 
-- 
2.43.0


From 99b6b8ad21ba470196ccd84a9ff59a249d6bb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 63/64] fix: chunk canaries faulted with MTE

Canaries of chunks were read with an untagged pointer, or those of its
neighbours with the tag of the chunk that is free'd.
---
 include/iso_alloc_internal.h | 5 +++++
 src/iso_alloc.c              | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/iso_alloc_internal.h b/include/iso_alloc_internal.h
index 40cd1eb..e06b67d 100644
--- a/include/iso_alloc_internal.h
+++ b/include/iso_alloc_internal.h
@@ -429,6 +429,11 @@ INLINE void *iso_mte_set_tag_range(void *p, size_t size);
 INLINE void *iso_mte_create_tag(void *p, uint64_t exclusion_mask);
 INLINE void iso_mte_set_tag(void *p);
 INLINE void *iso_mte_get_tag(void *p);
+
+/* A free chunk can only be accessed with the tag it currently has */
+#define MTE_RETAG_PTR(p) (_root->arm_mte_enabled ? iso_mte_get_tag(iso_mte_untag_ptr((void *) (p))) : (void *) (p))
+#else
+#define MTE_RETAG_PTR(p) (p)
 #endif
 
 #if SIGNAL_HANDLER
diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index 1ac0320..d6f7135 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -994,7 +994,7 @@ INTERNAL_HIDDEN ASSUME_ALIGNED void *_iso_alloc_bitslot_from_zone(bit_slot_t bit
 #if !ENABLE_ASAN && !DISABLE_CANARY
     if((GET_BIT(b, (which_bit + 1))) == 1) {
         check_canary(zone, p);
-        *(uint64_t *) p = 0x0;
+        *(uint64_t *) MTE_RETAG_PTR(p) = 0x0;
     }
 #endif
 
@@ -1374,6 +1374,7 @@ INTERNAL_HIDDEN INLINE void check_big_canary(iso_alloc_big_zone_t *big) {
 }
 
 INTERNAL_HIDDEN int64_t check_canary_no_abort(iso_alloc_zone_t *zone, const void *p) {
+    p = MTE_RETAG_PTR(p);
     uint64_t v = *((uint64_t *) p);
     const uint64_t canary = (zone->canary_secret ^ (uint64_t) p) & CANARY_VALIDATE_MASK;
 
@@ -1407,6 +1408,7 @@ INTERNAL_HIDDEN INLINE void write_canary(iso_alloc_zone_t *zone, void *p) {
 
 /* Verify the canary value in an allocation */
 INTERNAL_HIDDEN INLINE void check_canary(iso_alloc_zone_t *zone, const void *p) {
+    p = MTE_RETAG_PTR(p);
     uint64_t v = *((uint64_t *) p);
     const uint64_t canary = (zone->canary_secret ^ (uint64_t) p) & CANARY_VALIDATE_MASK;
 
-- 
2.43.0


From bc6a384dc838d335fd228de668d59bd34e7aab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 64/64] fix: SANITIZE_CHUNKS faulted on big allocations with
 MTE

The memory was overwritten through an untagged pointer.
---
 src/iso_alloc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iso_alloc.c b/src/iso_alloc.c
index d6f7135..0ac40a3 100644
--- a/src/iso_alloc.c
+++ b/src/iso_alloc.c
@@ -1831,7 +1831,13 @@ INTERNAL_HIDDEN void iso_free_big_zone(iso_alloc_big_zone_t *big_zone, bool perm
     }
 
 #if !ENABLE_ASAN && SANITIZE_CHUNKS
-    __iso_memset(big_zone->user_pages_start, POISON_BYTE, big_zone->size);
+    void *user_pages = big_zone->user_pages_start;
+#if ARM_MTE
+    if(_root->arm_mte_enabled == true) {
+        user_pages = iso_mte_set_tag_range(user_pages, big_zone->size);
+    }
+#endif
+    __iso_memset(user_pages, POISON_BYTE, big_zone->size);
 #endif
     /* If this isn't a permanent free then all we need
      * to do is sanitize the mapping and mark it free.
-- 
2.43.0


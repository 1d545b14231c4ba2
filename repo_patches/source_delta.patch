From d5eb7c925c13e907dbdee7050a318ba0d58b1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 01/23] fix: parenthesize the argument of the byte-swapping
 macros

CORK_SWAP_UINTn applied its cast to the first operand of the argument
only, so an expression such as CORK_SWAP_UINT16(x >> 16) was truncated
before being shifted, although any rvalue expression is documented to be
accepted.
---
 include/libcork/core/byte-order.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/libcork/core/byte-order.h b/include/libcork/core/byte-order.h
index 46771a2..7803779 100644
--- a/include/libcork/core/byte-order.h
+++ b/include/libcork/core/byte-order.h
@@ -54,24 +54,24 @@
  * original contents if it happens to be a variable.  */
 
 #define CORK_SWAP_UINT16(__u16) \
-    (((((uint16_t) __u16) & 0xff00u) >> 8) | \
-     ((((uint16_t) __u16) & 0x00ffu) << 8))
+    (((((uint16_t) (__u16)) & 0xff00u) >> 8) | \
+     ((((uint16_t) (__u16)) & 0x00ffu) << 8))
 
 #define CORK_SWAP_UINT32(__u32) \
-    (((((uint32_t) __u32) & 0xff000000u) >> 24) | \
-     ((((uint32_t) __u32) & 0x00ff0000u) >>  8) | \
-     ((((uint32_t) __u32) & 0x0000ff00u) <<  8) | \
-     ((((uint32_t) __u32) & 0x000000ffu) << 24))
+    (((((uint32_t) (__u32)) & 0xff000000u) >> 24) | \
+     ((((uint32_t) (__u32)) & 0x00ff0000u) >>  8) | \
+     ((((uint32_t) (__u32)) & 0x0000ff00u) <<  8) | \
+     ((((uint32_t) (__u32)) & 0x000000ffu) << 24))
 
 #define CORK_SWAP_UINT64(__u64) \
-    (((((uint64_t) __u64) & UINT64_C(0xff00000000000000)) >> 56) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00ff000000000000)) >> 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000ff0000000000)) >> 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000ff00000000)) >>  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000ff000000)) <<  8) | \
-     ((((uint64_t) __u64) & UINT64_C(0x0000000000ff0000)) << 24) | \
-     ((((uint64_t) __u64) & UINT64_C(0x000000000000ff00)) << 40) | \
-     ((((uint64_t) __u64) & UINT64_C(0x00000000000000ff)) << 56))
+    (((((uint64_t) (__u64)) & UINT64_C(0xff00000000000000)) >> 56) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00ff000000000000)) >> 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000ff0000000000)) >> 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000ff00000000)) >>  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000ff000000)) <<  8) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x0000000000ff0000)) << 24) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x000000000000ff00)) << 40) | \
+     ((((uint64_t) (__u64)) & UINT64_C(0x00000000000000ff)) << 56))
 
 /* Bytes-swaps an integer variable in place.
  *
-- 
2.43.0


From 538c41c38fefb04eaeba18cbf1e267dab43ea708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 02/23] fix: converting a timestamp never rounds up to a whole
 second of units

---
 include/libcork/core/timestamp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcork/core/timestamp.h b/include/libcork/core/timestamp.h
index 2c828c6..2903592 100644
--- a/include/libcork/core/timestamp.h
+++ b/include/libcork/core/timestamp.h
@@ -83,7 +83,8 @@ cork_timestamp_gsec_to_units(const cork_timestamp ts, uint64_t denom)
     gsec += half;
     gsec *= denom;
     gsec >>= 32;
-    return gsec;
+    /* Rounding must not carry into the next second. */
+    return (gsec < denom)? gsec: denom - 1;
 }
 
 CORK_INLINE
-- 
2.43.0


From 09d12d8bfdcc024f1c9328a943000fde98afa603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 03/23] fix: apply IPv6 CIDR masks to the host-order address
 words

The mask is a host-order quantity, but it was applied to the big-endian word
before the byte swap, so on little-endian hosts fe80::/10 was rejected and
0:0:0:1::/40 accepted.
---
 src/libcork/core/ip-address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 6aebd34..a0decfd 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -452,8 +452,8 @@ cork_ipv6_is_valid_network(const struct cork_ipv6 *addr,
         cidr_mask[1] = UINT64_C(0xffffffffffffffff);
     }
 
-    return (CORK_UINT64_BIG_TO_HOST(addr->_.u64[0] & cidr_mask[0]) == 0) &&
-           (CORK_UINT64_BIG_TO_HOST(addr->_.u64[1] & cidr_mask[1]) == 0);
+    return ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[0]) & cidr_mask[0]) == 0) &&
+           ((CORK_UINT64_BIG_TO_HOST(addr->_.u64[1]) & cidr_mask[1]) == 0);
 }
 
 
-- 
2.43.0


From 145a5a0dd208901743122989255021a4aa64e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 04/23] fix: reject IPv4 addresses with an empty octet

"1..2.3" and "..1.2" style strings were accepted, with 0 for the empty octets.
---
 src/libcork/core/ip-address.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index a0decfd..06fb8f8 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -61,9 +61,9 @@ cork_ipv4_parse(struct cork_ipv4 *addr, const char *str)
                 break;
 
             case '.':
-                /* If this would be the fourth octet, it can't have a trailing
-                 * period. */
-                if (CORK_UNLIKELY(octets == 3)) {
+                /* Each octet must contain at least one digit; and if this would
+                 * be the fourth octet, it can't have a trailing period. */
+                if (CORK_UNLIKELY(!seen_digit_in_octet || octets == 3)) {
                     goto parse_error;
                 }
                 DEBUG("octet %u = %u\n", octets, digit);
-- 
2.43.0


From 572ab312a69450d2139ada4c8e5da16129cc4e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:14 +0000
Subject: [PATCH 05/23] fix: reject IPv6 addresses whose double colon stands
 for no hextet

"1:2:3:4::5:6:7:8" and "1:2:3:4:5:6:7:8::" were accepted.
---
 src/libcork/core/ip-address.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcork/core/ip-address.c b/src/libcork/core/ip-address.c
index 06fb8f8..07f402a 100644
--- a/src/libcork/core/ip-address.c
+++ b/src/libcork/core/ip-address.c
@@ -307,6 +307,12 @@ cork_ipv6_init(struct cork_ipv6 *addr, const char *str)
         char  parsed_result[CORK_IPV6_STRING_LENGTH];
 #endif
         unsigned int  after_count = hextets_seen - before_count;
+
+        /* The double-colon has to stand for at least one hextet. */
+        if (CORK_UNLIKELY(hextets_seen == 8)) {
+            goto parse_error;
+        }
+
         DEBUG("Saw double-colon; %u hextets before, %u after\n",
               before_count, after_count);
         memset(addr, 0, sizeof(struct cork_ipv6));
-- 
2.43.0


From 50ae5ad28cd962f8197cec289ed3dd76a3e0ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:38 +0000
Subject: [PATCH 06/23] fix: leave a buffer's contents alone when a
 printf-style append can't be formatted

---
 src/libcork/ds/buffer.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/buffer.c b/src/libcork/ds/buffer.c
index cf727ac..d6be535 100644
--- a/src/libcork/ds/buffer.c
+++ b/src/libcork/ds/buffer.c
@@ -110,16 +110,26 @@ void
 cork_buffer_append_vprintf(struct cork_buffer *buffer, const char *format,
                            va_list args)
 {
+    int  rc;
     size_t  format_size;
     va_list  args1;
 
     va_copy(args1, args);
-    format_size = vsnprintf(buffer->buf + buffer->size,
-                            buffer->allocated_size - buffer->size,
-                            format, args1);
+    rc = vsnprintf(buffer->buf + buffer->size,
+                   buffer->allocated_size - buffer->size,
+                   format, args1);
     va_end(args1);
 
+    /* If the values can't be formatted, leave the buffer's contents alone. */
+    if (CORK_UNLIKELY(rc < 0)) {
+        if (buffer->size < buffer->allocated_size) {
+            ((char *) buffer->buf)[buffer->size] = '\0';
+        }
+        return;
+    }
+
     /* If the first call works, then set buffer->size and return. */
+    format_size = rc;
     if (format_size < (buffer->allocated_size - buffer->size)) {
         buffer->size += format_size;
         return;
-- 
2.43.0


From 32ff4c3fe58dffdac7d8e1c112eacdbc76a1cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:28 +0000
Subject: [PATCH 07/23] fix: don't treat an array reservation whose byte size
 overflows as satisfied

---
 src/libcork/ds/array.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 571353e..7b00ab2 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -167,6 +167,11 @@ cork_raw_array_ensure_size(struct cork_raw_array *array, size_t desired_count)
 
     DEBUG("--- Array %p: Ensure %zu %zu-byte elements",
           array, desired_count, array->priv->element_size);
+    if (CORK_UNLIKELY(array->priv->element_size != 0 &&
+                      desired_count > SIZE_MAX / array->priv->element_size)) {
+        cork_abort("Cannot allocate %zu elements of %zu bytes",
+                   desired_count, array->priv->element_size);
+    }
     desired_size = desired_count * array->priv->element_size;
 
     if (desired_size > array->priv->allocated_size) {
-- 
2.43.0


From df0b407040f32da56f54f2bb5b82999ff8d67175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:56 +0000
Subject: [PATCH 08/23] fix: removing array elements doesn't duplicate the
 contents of slots that are finalized later

---
 src/libcork/ds/array.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/array.c b/src/libcork/ds/array.c
index 7b00ab2..d754fae 100644
--- a/src/libcork/ds/array.c
+++ b/src/libcork/ds/array.c
@@ -239,8 +239,8 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
     char* end_of_array = array->items + (array->size * element_size);
 
     array->size -= count;
-    if (array->priv->remove == NULL) {
-        /* If there isn't a cleanup callback, just move the array contents
+    if (array->priv->remove == NULL && array->priv->done == NULL) {
+        /* If there aren't any cleanup callbacks, just move the array contents
          * directly. */
         if (end_of_removed < end_of_array) {
             memmove(start_of_removed, end_of_removed, remaining * element_size);
@@ -258,8 +258,10 @@ cork_raw_array_remove_range(struct cork_raw_array* array, size_t index,
         }
 
         /* Then call the cleanup callback on all of the elements to be removed,
-         * which are now guaranteed to be at the end of the array. */
-        while (start_of_removed < end_of_removed) {
+         * which are now guaranteed to be at the end of the array.  (Without
+         * one, they stay there until they're reused or finalized.) */
+        while (array->priv->remove != NULL &&
+               start_of_removed < end_of_removed) {
             array->priv->remove(array->priv->user_data, start_of_removed);
             start_of_removed += element_size;
         }
-- 
2.43.0


From 3e12ffe4bd361e9ef8020c15b202138306f7e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:41 +0000
Subject: [PATCH 09/23] fix: slicing bounds checks don't overflow when offset +
 length wraps around

---
 src/libcork/ds/managed-buffer.c | 2 +-
 src/libcork/ds/slice.c          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libcork/ds/managed-buffer.c b/src/libcork/ds/managed-buffer.c
index 295413a..9cd426e 100644
--- a/src/libcork/ds/managed-buffer.c
+++ b/src/libcork/ds/managed-buffer.c
@@ -197,7 +197,7 @@ cork_managed_buffer_slice(struct cork_slice *dest,
 {
     if ((buffer != NULL) &&
         (offset <= buffer->size) &&
-        ((offset + length) <= buffer->size)) {
+        (length <= buffer->size - offset)) {
         /*
         DEBUG("Slicing [%p:%zu] at %zu:%zu, gives <%p:%zu>",
               buffer->buf, buffer->size,
diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index 395130a..fbf18bf 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -51,7 +51,7 @@ cork_slice_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -96,7 +96,7 @@ cork_slice_light_copy(struct cork_slice *dest, const struct cork_slice *slice,
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
@@ -140,7 +140,7 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
 {
     if ((slice != NULL) &&
         (offset <= slice->size) &&
-        ((offset + length) <= slice->size)) {
+        (length <= slice->size - offset)) {
         /*
         DEBUG("Slicing <%p:%zu> at %zu:%zu, gives <%p:%zu>",
               slice->buf, slice->size,
-- 
2.43.0


From d6e1a4bc49b443aa4930867349188eddd79b247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:13 +0000
Subject: [PATCH 10/23] fix: narrowing a NULL slice sets an error like the
 other slice operations

---
 src/libcork/ds/slice.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libcork/ds/slice.c b/src/libcork/ds/slice.c
index fbf18bf..5206618 100644
--- a/src/libcork/ds/slice.c
+++ b/src/libcork/ds/slice.c
@@ -162,8 +162,8 @@ cork_slice_slice(struct cork_slice *slice, size_t offset, size_t length)
               slice->buf, slice->size,
               offset, length);
         */
-        if (slice != NULL)
-            cork_slice_invalid_slice_set(slice->size, offset, length);
+        cork_slice_invalid_slice_set
+            ((slice == NULL)? 0: slice->size, offset, length);
         return -1;
     }
 }
-- 
2.43.0


From c2360bfbdeae3bd2aae9e5c2e37d95d44f50e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:28 +0000
Subject: [PATCH 11/23] fix: zeroing allocations fail cleanly instead of
 aborting or dividing by zero

The default xcalloc implementation aborted (or divided by zero when the
element size was 0) instead of returning NULL when the requested size can't
be represented, and cork_cfree divided by zero for zero-sized elements.
---
 include/libcork/core/allocator.h | 2 +-
 src/libcork/core/allocator.c     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcork/core/allocator.h b/include/libcork/core/allocator.h
index 01a9e92..60951cb 100644
--- a/include/libcork/core/allocator.h
+++ b/include/libcork/core/allocator.h
@@ -177,7 +177,7 @@ void
 cork_alloc_cfree(const struct cork_alloc *alloc, void *ptr,
                  size_t count, size_t size)
 {
-    assert(count < (SIZE_MAX / size));
+    assert(size == 0 || count <= (SIZE_MAX / size));
     return alloc->free(alloc, ptr, count * size);
 }
 
diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 8a70b3b..3d3a9c6 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -65,7 +65,9 @@ cork_alloc__default_xcalloc(const struct cork_alloc *alloc,
                             size_t count, size_t size)
 {
     void  *result;
-    assert(count < (SIZE_MAX / size));
+    if (CORK_UNLIKELY(size != 0 && count > (SIZE_MAX / size))) {
+        return NULL;
+    }
     result = cork_alloc_xmalloc(alloc, count * size);
     if (result != NULL) {
         memset(result, 0, count * size);
-- 
2.43.0


From c0acfd94539bf7bd09b1fd09e04feff0ecbb250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:28 +0000
Subject: [PATCH 12/23] fix: the debug allocator reports a failed allocation
 instead of writing to it

---
 src/libcork/core/allocator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 3d3a9c6..6e1efaf 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -395,7 +395,14 @@ static void *
 cork_debug_alloc__xmalloc(const struct cork_alloc *alloc, size_t size)
 {
     size_t  real_size = size + sizeof(size_t);
-    size_t  *base = cork_alloc_xmalloc(alloc->parent, real_size);
+    size_t  *base;
+    if (CORK_UNLIKELY(real_size < size)) {
+        return NULL;
+    }
+    base = cork_alloc_xmalloc(alloc->parent, real_size);
+    if (CORK_UNLIKELY(base == NULL)) {
+        return NULL;
+    }
     *base = size;
     return base + 1;
 }
-- 
2.43.0


From 7712436e44717a423ffdcd5ef4d069f91eff1866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:28 +0000
Subject: [PATCH 13/23] fix: reallocating to zero bytes doesn't free the block
 twice

---
 src/libcork/core/allocator.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/core/allocator.c b/src/libcork/core/allocator.c
index 6e1efaf..358d296 100644
--- a/src/libcork/core/allocator.c
+++ b/src/libcork/core/allocator.c
@@ -318,13 +318,13 @@ cork_stdlib_alloc__realloc(const struct cork_alloc *alloc, void *ptr,
      * cleanliness makes me do it anyway. */
 
 #if CORK_HAVE_REALLOCF
-    void  *result = reallocf(ptr, new_size);
+    void  *result = reallocf(ptr, (new_size == 0)? 1: new_size);
     if (result == NULL) {
         abort();
     }
     return result;
 #else
-    void  *result = realloc(ptr, new_size);
+    void  *result = realloc(ptr, (new_size == 0)? 1: new_size);
     if (result == NULL) {
         free(ptr);
         abort();
@@ -350,7 +350,9 @@ static void *
 cork_stdlib_alloc__xrealloc(const struct cork_alloc *alloc, void *ptr,
                             size_t old_size, size_t new_size)
 {
-    return realloc(ptr, new_size);
+    /* `realloc(ptr, 0)` can free `ptr` and return NULL, which our callers would
+     * interpret as a failure that leaves `ptr` alone. */
+    return realloc(ptr, (new_size == 0)? 1: new_size);
 }
 
 static void
-- 
2.43.0


From 56e938792f1f4405d4f0078d14783158f57fb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 14/23] fix: memory pools cope with odd element sizes and with
 elements larger than a block

A block too small for one element made cork_mempool_new_object return a bogus
pointer, and an element size that isn't a multiple of the pointer size left the
objects (and their headers) misaligned.
---
 src/libcork/core/mempool.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libcork/core/mempool.c b/src/libcork/core/mempool.c
index f25d0aa..739552b 100644
--- a/src/libcork/core/mempool.c
+++ b/src/libcork/core/mempool.c
@@ -57,6 +57,9 @@ struct cork_mempool_block {
 #define cork_mempool_object_size(mp) \
     (sizeof(struct cork_mempool_object) + (mp)->element_size)
 
+#define cork_mempool_min_block_size(mp) \
+    (sizeof(struct cork_mempool_block) + cork_mempool_object_size(mp))
+
 #define cork_mempool_get_header(obj) \
     (((struct cork_mempool_object *) (obj)) - 1)
 
@@ -68,8 +71,16 @@ struct cork_mempool *
 cork_mempool_new_size_ex(size_t element_size, size_t block_size)
 {
     struct cork_mempool  *mp = cork_new(struct cork_mempool);
-    mp->element_size = element_size;
+    /* Each object is preceded by a header, which holds a pointer, so we have to
+     * keep every object aligned.  And we need every block to be large enough to
+     * hold at least one object. */
+    mp->element_size =
+        (element_size + sizeof(struct cork_mempool_object) - 1) &
+        ~(sizeof(struct cork_mempool_object) - 1);
     mp->block_size = block_size;
+    if (mp->block_size < cork_mempool_min_block_size(mp)) {
+        mp->block_size = cork_mempool_min_block_size(mp);
+    }
     mp->free_list = NULL;
     mp->allocated_count = 0;
     mp->blocks = NULL;
-- 
2.43.0


From 2129b27158eb51292bc12025002255db78c4b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:54 +0000
Subject: [PATCH 15/23] fix: hash tables free their user data

The documentation promises that a hash table takes control of its user data and
frees it with the callback given, but nothing ever called that callback.
---
 src/libcork/ds/hash-table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcork/ds/hash-table.c b/src/libcork/ds/hash-table.c
index 6fec797..fcdf072 100644
--- a/src/libcork/ds/hash-table.c
+++ b/src/libcork/ds/hash-table.c
@@ -194,6 +194,7 @@ cork_hash_table_free(struct cork_hash_table *table)
 {
     cork_hash_table_clear(table);
     cork_cfree(table->bins, table->bin_count, sizeof(struct cork_dllist));
+    cork_free_user_data(table);
     cork_delete(struct cork_hash_table, table);
 }
 
@@ -207,6 +208,7 @@ void
 cork_hash_table_set_user_data(struct cork_hash_table *table,
                               void *user_data, cork_free_f free_user_data)
 {
+    cork_free_user_data(table);
     table->user_data = user_data;
     table->free_user_data = free_user_data;
 }
-- 
2.43.0


From 2ea2f91a8f7024be41b1e87431b1276a11ee3bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:37 +0000
Subject: [PATCH 16/23] fix: cork_env_remove no longer frees the variable
 twice, or an indeterminate pointer

---
 src/libcork/posix/env.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index 6426f68..b79dffd 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -170,11 +170,8 @@ cork_env_remove(struct cork_env *env, const char *name)
     if (env == NULL) {
         unsetenv(name);
     } else {
-        void  *old_var;
-        cork_hash_table_delete(env->variables, (void *) name, NULL, &old_var);
-        if (old_var != NULL) {
-            cork_env_var_free(old_var);
-        }
+        /* The hash table frees the variable for us. */
+        cork_hash_table_delete(env->variables, (void *) name, NULL, NULL);
     }
 }
 
-- 
2.43.0


From 6e6411d7a35dcb3fab8896eaa34e28c918048b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:37 +0000
Subject: [PATCH 17/23] fix: cork_env_add_printf accepts a NULL environment

---
 src/libcork/posix/env.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index b79dffd..ac65d22 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -150,8 +150,15 @@ void
 cork_env_add_vprintf(struct cork_env *env, const char *name,
                      const char *format, va_list args)
 {
-    cork_buffer_vprintf(&env->buffer, format, args);
-    cork_env_add_internal(env, name, env->buffer.buf);
+    if (env == NULL) {
+        struct cork_buffer  buffer = CORK_BUFFER_INIT();
+        cork_buffer_vprintf(&buffer, format, args);
+        cork_env_add_internal(NULL, name, buffer.buf);
+        cork_buffer_done(&buffer);
+    } else {
+        cork_buffer_vprintf(&env->buffer, format, args);
+        cork_env_add_internal(env, name, env->buffer.buf);
+    }
 }
 
 void
-- 
2.43.0


From bb3f0b37c31a995088eaaebfcc8ee87bd7341764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:37 +0000
Subject: [PATCH 18/23] fix: cleanup functions can register other cleanup
 functions

---
 src/libcork/posix/process.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libcork/posix/process.c b/src/libcork/posix/process.c
index fbafc9c..580d5be 100644
--- a/src/libcork/posix/process.c
+++ b/src/libcork/posix/process.c
@@ -56,7 +56,7 @@ static struct cork_dllist  cleanup_entries = CORK_DLLIST_INIT(cleanup_entries);
 static bool  cleanup_registered = false;
 
 static void
-cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
+cork_cleanup_call_one(struct cork_dllist_item *item)
 {
     struct cork_cleanup_entry  *entry =
         cork_container_of(item, struct cork_cleanup_entry, item);
@@ -65,7 +65,10 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
     /* We need to free the entry before calling the entry's function, since one
      * of the functions that libcork registers frees the allocator instance that
      * we'd use to free the entry.  If we called the function first, the
-     * allocator would be freed before we could use it to free the entry. */
+     * allocator would be freed before we could use it to free the entry.  The
+     * function might register other functions, so the list can't refer to the
+     * entry anymore. */
+    cork_dllist_remove(&entry->item);
     cork_cleanup_entry_free(entry);
     function();
 }
@@ -73,7 +76,9 @@ cork_cleanup_call_one(struct cork_dllist_item *item, void *user_data)
 static void
 cork_cleanup_call_all(void)
 {
-    cork_dllist_map(&cleanup_entries, cork_cleanup_call_one, NULL);
+    while (!cork_dllist_is_empty(&cleanup_entries)) {
+        cork_cleanup_call_one(cork_dllist_start(&cleanup_entries));
+    }
 }
 
 static void
-- 
2.43.0


From 969ffade1d9a628ab3a092a8f57b095f93b5799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:30 +0000
Subject: [PATCH 19/23] fix: cork_env_clone_current works in an empty
 environment

---
 src/libcork/posix/env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcork/posix/env.c b/src/libcork/posix/env.c
index ac65d22..7fdd4fc 100644
--- a/src/libcork/posix/env.c
+++ b/src/libcork/posix/env.c
@@ -100,7 +100,7 @@ cork_env_clone_current(void)
     char  **curr;
     struct cork_env  *env = cork_env_new();
 
-    for (curr = environ; *curr != NULL; curr++) {
+    for (curr = environ; curr != NULL && *curr != NULL; curr++) {
         const char  *entry = *curr;
         const char  *equal;
 
-- 
2.43.0


From 7466bf68d84bcb9f813c11152f33c8fdf074581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:37 +0000
Subject: [PATCH 20/23] fix: fd consumers retry an interrupted write from the
 right place

---
 src/libcork/ds/file-stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcork/ds/file-stream.c b/src/libcork/ds/file-stream.c
index e56aeb1..a38b2b9 100644
--- a/src/libcork/ds/file-stream.c
+++ b/src/libcork/ds/file-stream.c
@@ -155,9 +155,11 @@ cork_fd_consumer__data(struct cork_stream_consumer *vself,
 
     while (bytes_left > 0) {
         ssize_t  rc = write(self->fd, buf, bytes_left);
-        if (rc == -1 && errno != EINTR) {
-            cork_system_error_set();
-            return -1;
+        if (rc == -1) {
+            if (errno != EINTR) {
+                cork_system_error_set();
+                return -1;
+            }
         } else {
             bytes_left -= rc;
             buf += rc;
-- 
2.43.0


From 48fe97ed203fba430b725282406491a436cac728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:41 +0000
Subject: [PATCH 21/23] fix: reject timestamp fraction widths that do not fit
 an integer

---
 src/libcork/core/timestamp.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/timestamp.c b/src/libcork/core/timestamp.c
index dc059c6..6f55416 100644
--- a/src/libcork/core/timestamp.c
+++ b/src/libcork/core/timestamp.c
@@ -7,6 +7,7 @@
  * ----------------------------------------------------------------------
  */
 
+#include <limits.h>
 #include <string.h>
 #include <time.h>
 #include <sys/time.h>
@@ -75,8 +76,10 @@ cork_timestamp_format_parts(const cork_timestamp ts, struct tm *tm,
 
         /* Then parse the format specifier */
         while (is_digit(*spec)) {
-            width *= 10;
-            width += (*spec++ - '0');
+            unsigned int  digit = *spec++ - '0';
+            /* A huge width must not wrap around into a valid one. */
+            width = (width > (UINT_MAX - digit) / 10)?
+                UINT_MAX: width * 10 + digit;
         }
 
         switch (*spec) {
-- 
2.43.0


From eae882c7c42b704fd8a0cb0f4f26b21da91e4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:03 +0000
Subject: [PATCH 22/23] fix: don't visit members of a garbage cycle after
 freeing them

---
 src/libcork/core/gc.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index f26ae7b..81c5aa5 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -44,6 +44,8 @@ struct cork_gc {
     size_t  root_count;
     /* The possible roots of garbage cycles */
     struct cork_gc_header  *roots[ROOTS_SIZE];
+    /* The members of garbage cycles that still have to be freed */
+    struct cork_gc_header  *garbage;
 };
 
 cork_tls(struct cork_gc, cork_gc);
@@ -67,6 +69,9 @@ struct cork_gc_header {
 
     /* The garbage collection interface for this object. */
     struct cork_gc_obj_iface  *iface;
+
+    /* The next object in the collector's list of garbage. */
+    struct cork_gc_header  *next_garbage;
 };
 
 /*
@@ -372,9 +377,11 @@ cork_gc_collect_white(struct cork_gc *gc, void *obj, void *ud)
             !cork_gc_get_buffered(header)) {
             DEBUG("  Releasing %p\n", obj);
             cork_gc_set_color(header, GC_BLACK);
+            /* Other members of the cycle might still refer to this object, so
+             * we can't free it until we've found all of them. */
+            header->next_garbage = gc->garbage;
+            gc->garbage = header;
             cork_gc_recurse(gc, header, cork_gc_collect_white);
-            DEBUG("  Freeing %p\n", header);
-            cork_gc_free(header);
         }
     }
 }
@@ -394,6 +401,13 @@ cork_gc_collect_roots(struct cork_gc *gc)
         }
     }
     gc->root_count = 0;
+
+    while (gc->garbage != NULL) {
+        struct cork_gc_header  *header = gc->garbage;
+        DEBUG("  Freeing %p\n", header);
+        gc->garbage = header->next_garbage;
+        cork_gc_free(header);
+    }
 }
 
 static void
-- 
2.43.0


From f7e3c97537087f5e13305045b1c4101e81d061ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:30 +0000
Subject: [PATCH 23/23] fix: collect garbage cycles only when reference counts
 are consistent

---
 src/libcork/core/gc.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/libcork/core/gc.c b/src/libcork/core/gc.c
index 81c5aa5..10e916a 100644
--- a/src/libcork/core/gc.c
+++ b/src/libcork/core/gc.c
@@ -33,6 +33,7 @@
  * GC context life cycle
  */
 
+/* We look for garbage cycles when there are this many possible roots. */
 #define ROOTS_SIZE  1024
 
 /* An internal structure allocated with every garbage-collected object. */
@@ -42,8 +43,10 @@ struct cork_gc_header;
 struct cork_gc {
     /* The number of used entries in roots. */
     size_t  root_count;
+    /* The number of allocated entries in roots. */
+    size_t  allocated_count;
     /* The possible roots of garbage cycles */
-    struct cork_gc_header  *roots[ROOTS_SIZE];
+    struct cork_gc_header  **roots;
     /* The members of garbage cycles that still have to be freed */
     struct cork_gc_header  *garbage;
 };
@@ -162,7 +165,14 @@ cork_gc_init(void)
 void
 cork_gc_done(void)
 {
-    cork_gc_collect_cycles(cork_gc_get());
+    struct cork_gc  *gc = cork_gc_get();
+    cork_gc_collect_cycles(gc);
+    if (gc->roots != NULL) {
+        cork_free(gc->roots,
+                  gc->allocated_count * sizeof(struct cork_gc_header *));
+        gc->roots = NULL;
+        gc->allocated_count = 0;
+    }
 }
 
 void *
@@ -212,8 +222,14 @@ cork_gc_possible_root(struct cork_gc *gc, struct cork_gc_header *header)
         cork_gc_set_color(header, GC_PURPLE);
         if (!cork_gc_get_buffered(header)) {
             cork_gc_set_buffered(header, true);
-            if (gc->root_count >= ROOTS_SIZE) {
-                cork_gc_collect_cycles(gc);
+            if (gc->root_count >= gc->allocated_count) {
+                size_t  new_count = (gc->allocated_count == 0)?
+                    ROOTS_SIZE: gc->allocated_count * 2;
+                gc->roots = cork_realloc
+                    (gc->roots,
+                     gc->allocated_count * sizeof(struct cork_gc_header *),
+                     new_count * sizeof(struct cork_gc_header *));
+                gc->allocated_count = new_count;
             }
             gc->roots[gc->root_count++] = header;
         }
@@ -254,6 +270,11 @@ cork_gc_decref(void *obj)
         } else {
             cork_gc_possible_root(gc, header);
         }
+        /* The reference counts aren't consistent until we've followed all of
+         * the references that we've dropped, so we can't do this earlier. */
+        if (gc->root_count >= ROOTS_SIZE) {
+            cork_gc_collect_cycles(gc);
+        }
     }
 }
 
-- 
2.43.0


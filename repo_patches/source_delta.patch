From ae3a636fb84ade5c3e83d78dd533616e732a8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 01/36] fix: circle: space to end macro names its own variable

---
 include/bfdev/circle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/circle.h b/include/bfdev/circle.h
index 01aeb9a..79edbcf 100644
--- a/include/bfdev/circle.h
+++ b/include/bfdev/circle.h
@@ -49,7 +49,7 @@ struct bfdev_circle {
     unsigned long __end, __len;                     \
     __end = ((size) - 1) - (head);                  \
     __len = (__end + (tail)) & ((size) - 1);        \
-    __len <= end ? __len : end + 1;                 \
+    __len <= __end ? __len : __end + 1;                 \
 })
 
 BFDEV_END_DECLS
-- 
2.43.0


From 8b98e5f90e6d8cf9a6b6f330d113f22b77744c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 02/36] fix: math: BFDEV_DIV_ROUND_CLOSEST compiles again, it
 tests the types of its operands

---
 include/bfdev/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/math.h b/include/bfdev/math.h
index 36f1725..732f56a 100644
--- a/include/bfdev/math.h
+++ b/include/bfdev/math.h
@@ -56,8 +56,8 @@ BFDEV_BEGIN_DECLS
 #define BFDEV_DIV_ROUND_CLOSEST(x, divisor) ({  \
     typeof(x) __x = x;                          \
     typeof(divisor) __d = divisor;              \
-    (bfdev_is_unsigned(x) ||                    \
-     bfdev_is_unsigned(divisor) ||              \
+    (bfdev_is_unsigned(typeof(__x)) ||          \
+     bfdev_is_unsigned(typeof(__d)) ||          \
      (((__x) > 0) == ((__d) > 0)))              \
         ? (((__x) + ((__d) / 2)) / (__d))       \
         : (((__x) - ((__d) / 2)) / (__d));      \
-- 
2.43.0


From f8bd9ccee53a0eadb56ad6600cb77b1ecc6a11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 03/36] fix: bitops: n-th set bit from the top, and past the
 end, of an all-ones word

---
 include/bfdev/asm-generic/bitops.h | 6 +++---
 include/bfdev/bitops.h             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..4d6ce62 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -564,7 +564,7 @@ bfdev_arch_ffnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
+    if (word == ULONG_MAX && *nr < BFDEV_BITS_PER_LONG)
         return *nr;
 
     while (word) {
@@ -585,8 +585,8 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
+    if (word == ULONG_MAX && *nr < BFDEV_BITS_PER_LONG)
+        return BFDEV_BITS_PER_LONG - 1 - *nr;
 
     while (word) {
         bit = bfdev_arch_flsuf(word);
diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From 77d31ebdc0384e1d08a54046d3dc8eff2c39d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 04/36] fix: array: refuse counts whose size in bytes overflows

---
 src/array.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..196463a 100644
--- a/src/array.c
+++ b/src/array.c
@@ -9,16 +9,25 @@
 #include <bfdev/overflow.h>
 #include <export.h>
 
-static inline size_t
-array_reqsize(bfdev_array_t *array, unsigned long count)
+static inline int
+array_reqsize(bfdev_array_t *array, unsigned long count, size_t *sizep)
 {
-    unsigned long request;
-    size_t size;
+    size_t request, cells, size;
+    bool overflow;
+
+    cells = array->cells;
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
+
+    overflow = bfdev_overflow_check_mul(request, cells, &size);
+    if (bfdev_unlikely(overflow))
+        return -BFDEV_EOVERFLOW;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    if (bfdev_unlikely(size > BFDEV_BIT(BFDEV_BITS_PER_LONG - 1)))
+        return -BFDEV_EOVERFLOW;
+
+    *sizep = bfdev_pow2_roundup(size);
 
-    return size;
+    return -BFDEV_ENOERR;
 }
 
 static inline int
@@ -42,12 +51,14 @@ static inline int
 array_apply(bfdev_array_t *array, unsigned long count)
 {
     size_t reqsize;
+    int retval;
 
     if (count <= array->capacity)
         return -BFDEV_ENOERR;
 
-    reqsize = array_reqsize(array, count);
-    BFDEV_BUG_ON(count * array->cells > reqsize);
+    retval = array_reqsize(array, count, &reqsize);
+    if (bfdev_unlikely(retval))
+        return retval;
 
     return array_resize(array, reqsize);
 }
-- 
2.43.0


From bfd62d997e6d8baf2b17e202b7520aa72e52a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 05/36] fix: bitrev: two bits crossed in the constant 32 and 64
 bit forms

---
 include/bfdev/bitrev.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From 2c977e9e71e35f30bbf5c00f770923a8a40e1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 06/36] fix: bitmap: setting or clearing a range stops at its
 end

---
 src/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..f9c3227 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -302,7 +302,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +327,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 571e291dbd1e276cfcb25c93e4219d2caf734800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 07/36] fix: bitmap: shift right of a bitmap that does not end
 at a word

---
 src/bitmap.c | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index f9c3227..d0d2fbd 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -209,7 +209,7 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
                       unsigned int shift, unsigned int bits)
 {
     unsigned int index, length, offset, rem;
-    unsigned long value, vlow, vhigh;
+    unsigned long value, vlow, vhigh, mask;
 
     length = BFDEV_BITS_TO_LONG(bits);
     offset = BFDEV_BITS_DIV_LONG(shift);
@@ -221,30 +221,23 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
 
     /* length > offset */
     rem = BFDEV_BITS_MOD_LONG(shift);
-    index = 0;
-
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index++] = value;
-    }
-
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
+    mask = BFDEV_BIT_LOW_MASK(bits);
+
+    for (index = 0; index + offset < length; ++index) {
+        value = src[index + offset];
+        if (index + offset + 1 == length)
+            value &= mask;
+        vlow = value >> rem;
+
+        if (rem && index + offset + 1 < length) {
+            value = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                value &= mask;
+            vhigh = value << (BFDEV_BITS_PER_LONG - rem);
+        } else
             vhigh = 0;
 
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
+        dest[index] = vhigh | vlow;
     }
 
     if (offset)
-- 
2.43.0


From 66a70ad03ef28bc55a8afb8fc823635036e67b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 08/36] fix: bitmap: equal and or_equal of constant sizes
 answered the opposite

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From 474646b5afee825cb4ecc4b03189ac80c6ffb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 09/36] fix: bitmap: shifts of a word or more in one-word
 bitmaps

---
 include/bfdev/bitmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index d398b3d..0ab9126 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -160,7 +160,7 @@ bfdev_bitmap_shl(unsigned long *dest, const unsigned long *src,
     if (!bfdev_const_small_nbits(bits))
         return bfdev_bitmap_comp_shl(dest, src, shift, bits);
 
-    value = *src << shift;
+    value = shift < BFDEV_BITS_PER_LONG ? *src << shift : 0;
     *dest = value & BFDEV_BIT_LOW_MASK(bits);
 }
 
@@ -174,7 +174,7 @@ bfdev_bitmap_shr(unsigned long *dest, const unsigned long *src,
         return bfdev_bitmap_comp_shr(dest, src, shift, bits);
 
     value = *src & BFDEV_BIT_LOW_MASK(bits);
-    *dest = value >> shift;
+    *dest = shift < BFDEV_BITS_PER_LONG ? value >> shift : 0;
 }
 
 static __bfdev_always_inline void
-- 
2.43.0


From 45329220a7e485e4f9cd391d3b466580644d5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 10/36] fix: bitwalk: zeros of a constant one-word bitmap of
 full width

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From 812562b00a9ddfbae036885753e8f072ec879544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 11/36] fix: hlist: back links after inserting next to a node

---
 include/bfdev/hlist.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From 2072b43066319f0624f06e406544d9b20eb5bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 12/36] fix: ilist: removing the first of equal nodes hands its
 index on to the next one

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0


From 506fa01f81ebac874d59f1589524d821fcb0b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 13/36] fix: rbtree: cached find_last and cached
 remove_augmented can be used

---
 include/bfdev/rbtree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/rbtree.h b/include/bfdev/rbtree.h
index f8ef9fc..bcc315e 100644
--- a/include/bfdev/rbtree.h
+++ b/include/bfdev/rbtree.h
@@ -225,7 +225,7 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_erase_augmented(cached, parent, callbacks) \
     bfdev_rb_erase_augmented(&(cached)->root, parent, callbacks)
 
-#define bfdev_rb_cached_remove_augmentebfdev_rb_pre_nextd(cached, node, callbacks) \
+#define bfdev_rb_cached_remove_augmented(cached, node, callbacks) \
     bfdev_rb_remove_augmented(&(cached)->root, node, callbacks)
 
 #define bfdev_rb_cached_erase(cached, parent) \
@@ -237,8 +237,8 @@ bfdev_rb_parent(bfdev_rb_root_t *root, bfdev_rb_node_t **parentp,
 #define bfdev_rb_cached_find(cached, key, cmp) \
     bfdev_rb_find(&(cached)->root, key, cmp)
 
-#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp) \
-    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp)
+#define bfdev_rb_cached_find_last(cached, key, cmp, parentp, linkp, leftmostp) \
+    bfdev_rb_find_last(&(cached)->root, key, cmp, parentp, linkp, leftmostp)
 
 #define bfdev_rb_cached_parent(cached, parentp, node, cmp, pdata, leftmostp) \
     bfdev_rb_parent(&(cached)->root, parentp, node, cmp, pdata, leftmostp)
-- 
2.43.0


From c7e1b0a00f125ce25c120280697646a881f407ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 14/36] fix: segtree: a new node's greatest end is set before
 the tree is rebalanced

---
 include/bfdev/segtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bfdev/segtree.h b/include/bfdev/segtree.h
index d536671..71f985d 100644
--- a/include/bfdev/segtree.h
+++ b/include/bfdev/segtree.h
@@ -173,11 +173,11 @@ STNAME##_insert(bfdev_rb_root_cached_t *cached, STSTRUCT *node)             \
         }                                                                   \
     }                                                                       \
                                                                             \
+    node->STSUBTREE = end;                                                  \
     bfdev_rb_cached_insert_node_augmented(                                  \
         cached, parent ? &parent->STRB : NULL,                              \
         link, &node->STRB, leftmost, &STNAME##_callbacks                    \
     );                                                                      \
-    node->STSUBTREE = end;                                                  \
 }                                                                           \
                                                                             \
 STSTATIC void                                                               \
-- 
2.43.0


From 16bffce1fad78fa4a6ade72abd0c6fe24fb1d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 15/36] fix: heap: find a node by its own position

---
 src/heap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..0f8bf14 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,10 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    if (bfdev_unlikely(!index || index > root->count))
+        return NULL;
+
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From bffb692ae1112643e12a3731c07a93bd3ce53114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 16/36] fix: allocator: array allocations refuse sizes that
 overflow

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..e77087f 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_unlikely(bfdev_overflow_check_mul(nr, size, &bytes)))
+        return NULL;
+
+    return bfdev_malloc(alloc, bytes);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t bytes;
+
+    if (bfdev_unlikely(bfdev_overflow_check_mul(nr, size, &bytes)))
+        return NULL;
+
+    return bfdev_zalloc(alloc, bytes);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t bytes;
+
+    if (bfdev_unlikely(bfdev_overflow_check_mul(nr, size, &bytes)))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, bytes);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From 44757f7d8c68ce624fb16fb85ebe2c4120d59956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 17/36] fix: fifo, ringbuf: length of a record is written where
 the record is, in the order it is read

---
 src/fifo.c    | 48 ++++++++++++++++++++++++------------------------
 src/ringbuf.c | 44 +++++++++++++++++++++-----------------------
 2 files changed, 45 insertions(+), 47 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..9713644 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -7,6 +7,7 @@
 #include <bfdev/log2.h>
 #include <bfdev/fifo.h>
 #include <bfdev/bits.h>
+#include <bfdev/limits.h>
 #include <export.h>
 
 #define FIFO_GENERIC_COPY(copy1, copy2, fold1, fold2) do {  \
@@ -50,52 +51,45 @@ fifo_in_copy(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
 static __bfdev_always_inline unsigned long
 fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
 {
-    unsigned long mask, offset, length;
+    unsigned long offset, length;
     uint8_t *data;
 
-    mask = fifo->mask;
     offset = fifo->out;
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
+        length |= data[(offset++ & fifo->mask) * fifo->esize];
     }
 
     return length;
 }
 
 static __bfdev_always_inline void
-fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
+fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len,
+                 unsigned long offset, unsigned long recsize)
 {
-    unsigned long mask, offset;
     uint8_t *data;
 
-    mask = fifo->mask;
-    offset = fifo->out;
+    offset += recsize;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += fifo->esize;
+        data[(--offset & fifo->mask) * fifo->esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
 
+static __bfdev_always_inline unsigned long
+fifo_record_max(unsigned long recsize)
+{
+    if (recsize >= sizeof(unsigned long))
+        return BFDEV_ULONG_MAX;
+
+    return (1UL << (recsize * BFDEV_BITS_PER_U8)) - 1;
+}
+
 static inline bool
 fifo_empty(bfdev_fifo_t *fifo)
 {
@@ -187,10 +181,16 @@ export unsigned long
 bfdev_fifo_in_record(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
                      unsigned long record)
 {
-    if (len + record > fifo_unused(fifo))
+    unsigned long unused;
+
+    unused = fifo_unused(fifo);
+    if (record > unused || len > unused - record)
+        return 0;
+
+    if (len > fifo_record_max(record))
         return 0;
 
-    fifo_record_poke(fifo, len, record);
+    fifo_record_poke(fifo, len, fifo->in, record);
     fifo_in_copy(fifo, buff, len, fifo->in + record);
     fifo->in += len + record;
 
diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..69e413b 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -7,6 +7,7 @@
 #include <bfdev/log2.h>
 #include <bfdev/ringbuf.h>
 #include <bfdev/bits.h>
+#include <bfdev/limits.h>
 #include <export.h>
 
 #define RINGBUF_GENERIC_COPY(copy1, copy2, fold1, fold2) do {   \
@@ -50,52 +51,45 @@ ringbuf_in_copy(bfdev_ringbuf_t *ringbuf, const void *buff,
 static __bfdev_always_inline unsigned long
 ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
 {
-    unsigned long mask, offset, length;
+    unsigned long offset, length;
     uint8_t *data;
 
-    mask = ringbuf->mask;
     offset = ringbuf->out;
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
         length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
+        length |= data[(offset++ & ringbuf->mask) * ringbuf->esize];
     }
 
     return length;
 }
 
 static __bfdev_always_inline void
-ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long recsize)
+ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len,
+                    unsigned long offset, unsigned long recsize)
 {
-    unsigned long mask, offset;
     uint8_t *data;
 
-    mask = ringbuf->mask;
-    offset = ringbuf->out;
+    offset += recsize;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += ringbuf->esize;
+        data[(--offset & ringbuf->mask) * ringbuf->esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
 
+static __bfdev_always_inline unsigned long
+ringbuf_record_max(unsigned long recsize)
+{
+    if (recsize >= sizeof(unsigned long))
+        return BFDEV_ULONG_MAX;
+
+    return (1UL << (recsize * BFDEV_BITS_PER_U8)) - 1;
+}
+
 static inline bool
 ringbuf_empty(bfdev_ringbuf_t *ringbuf)
 {
@@ -204,6 +198,10 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
     unsigned long overflow, datalen;
 
     size = ringbuf->mask + 1;
+    if (record > size)
+        return 0;
+
+    size = bfdev_min(size - record, ringbuf_record_max(record));
     bfdev_min_adj(len, size);
 
     offset = ringbuf->in + record;
@@ -216,7 +214,7 @@ bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned lon
         overflow -= bfdev_min(datalen, overflow);
     }
 
-    ringbuf_record_poke(ringbuf, len, record);
+    ringbuf_record_poke(ringbuf, len, offset - record, record);
     ringbuf_in_copy(ringbuf, buff, len, offset);
 
     return len;
-- 
2.43.0


From 8092ef025170a13e33aa893984ccd9166ac170f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 18/36] fix: refcount: add-unless-zero retries when it lost a
 race, and reports overflow of the sum

---
 include/bfdev/refcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..c6683f6 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely(prev + nr < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From daced521b8898b123c82169e85c04fdf083ecada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 19/36] fix: memalloc: requests near the largest size are
 refused, and shrinking never fails

---
 src/memalloc.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index 31018d7..f29a1d4 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -129,10 +129,11 @@ bfdev_memalloc_alloc(bfdev_memalloc_head_t *head, size_t size)
     bfdev_memalloc_chunk_t *node, *free;
     size_t nsize, bsize, fsize;
 
-    bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
     if (bfdev_unlikely(size > head->avail))
         return NULL;
 
+    bfdev_align_high_adj(size, BFDEV_MEMALLOC_ALIGN);
+
     /* Get the free memory block */
     node = head->find(head, size);
     if (bfdev_unlikely(!node))
@@ -174,14 +175,15 @@ bfdev_memalloc_realloc(bfdev_memalloc_head_t *head, void *block, size_t resize)
     if (bfdev_unlikely(!node))
         return NULL;
 
-    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
-    if (bfdev_unlikely(resize > head->avail))
-        return NULL;
-
     origin = pnode_get_size(node);
     if (origin >= resize)
         return block;
 
+    if (bfdev_unlikely(resize - origin > head->avail + sizeof(*node)))
+        return NULL;
+
+    bfdev_align_high_adj(resize, BFDEV_MEMALLOC_ALIGN);
+
     expand = bfdev_list_next_entry_or_null(node, &head->block_list, block);
     exsize = resize - origin;
 
-- 
2.43.0


From b2adc0c47aac8fa995a82112cc28c2b4e94aa19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 20/36] fix: allocpool: a request too large for the pool is
 refused without overflowing

---
 src/allocpool.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..4a85690 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,15 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = (uintptr_t)retval - (uintptr_t)pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset < pool->last || offset > pool->size))
         return NULL;
 
-    pool->last = offset;
+    if (bfdev_unlikely(size > pool->size - offset))
+        return NULL;
+
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From 60cbc7bd186fbb1f94a2f775809c98a89f466369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 21/36] fix: memalloc: free bytes of an array of odd size
 counted as the chunk holds them

---
 src/memalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memalloc.c b/src/memalloc.c
index f29a1d4..c1ec839 100644
--- a/src/memalloc.c
+++ b/src/memalloc.c
@@ -287,7 +287,7 @@ bfdev_memalloc_init(bfdev_memalloc_head_t *head, bfdev_memalloc_find_t find,
 
     node = array;
     pnode_set(node, size - sizeof(*node), false);
-    head->avail = size - sizeof(*node);
+    head->avail = pnode_get_size(node);
 
     bfdev_list_add(&head->block_list, &node->block);
     bfdev_list_add(&head->free_list, &node->free);
-- 
2.43.0


From 019bbcac10c1b4920d32e3283d1db80d1dd82fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 22/36] fix: skiplist: a failed insertion leaves no empty level
 behind

---
 src/skiplist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist.c b/src/skiplist.c
index 2e38c45..9f04cf3 100644
--- a/src/skiplist.c
+++ b/src/skiplist.c
@@ -71,14 +71,14 @@ bfdev_skiplist_insert(bfdev_skip_head_t *head, void *key, bfdev_cmp_t cmp,
     long retval;
 
     level = random_level(head);
-    bfdev_max_adj(head->curr, level);
-
     alloc = head->alloc;
     node = bfdev_malloc(alloc, sizeof(*node) + sizeof(*node->list) * level);
     if (bfdev_unlikely(!node))
         return -BFDEV_ENOMEM;
 
+    bfdev_max_adj(head->curr, level);
     node->key = key;
+
     list = &head->nodes[head->curr - 1];
     end = &head->nodes[head->curr - 1];
 
-- 
2.43.0


From a1a3bf81b9de15d5cb624695cd77fddafc3027d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 23/36] fix: bloom: flushing clears the whole filter, and a
 capacity that rounds to nothing is refused

---
 src/bloom.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bloom.c b/src/bloom.c
index 391e01f..e5adcb9 100644
--- a/src/bloom.c
+++ b/src/bloom.c
@@ -57,8 +57,8 @@ bfdev_bloom_flush(bfdev_bloom_t *bloom)
 {
     size_t size;
 
-    size = BFDEV_BITS_WORD(bloom->capacity);
-    bfport_memset(bloom->bitmap, 0, size);
+    size = BFDEV_BITS_DIV_LONG(bloom->capacity);
+    bfport_memset(bloom->bitmap, 0, sizeof(*bloom->bitmap) * size);
 }
 
 export bfdev_bloom_t *
@@ -69,6 +69,9 @@ bfdev_bloom_create(const bfdev_alloc_t *alloc, unsigned int capacity,
     size_t size;
 
     bfdev_align_high_adj(capacity, BFDEV_BITS_PER_LONG);
+    if (bfdev_unlikely(!capacity))
+        return NULL;
+
     size = BFDEV_BITS_DIV_LONG(capacity);
 
     bloom = bfdev_zalloc(alloc, sizeof(*bloom) + sizeof(*bloom->bitmap) * size);
-- 
2.43.0


From 1e88dacb11ffd36605a6dcc20ab374c9f160d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 24/36] fix: levenshtein: the first row is set to its end

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From 406561850c7f60c4295c707df61169a1ccd72c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 25/36] fix: matrix: transpose writes the destination, and
 elements are addressed by row and column

---
 src/matrix.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..fbad7ec 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -118,10 +118,18 @@ bfdev_matrix_mul(bfdev_matrix_t *dest,
 export int
 bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
 {
+    BFDEV_DEFINE_MATRIX(buffer, dest->alloc);
+    bfdev_matrix_t *rename;
     unsigned int row, col;
     unsigned int size;
     int retval;
 
+    rename = NULL;
+    if (dest == src) {
+        rename = dest;
+        dest = &buffer;
+    }
+
     col = src->row;
     row = src->col;
 
@@ -136,15 +144,20 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
             add[row][col] = ads[col][row];
     }
 
-    return -BFDEV_ENOERR;
+    if (rename) {
+        retval = bfdev_matrix_set(rename, dest);
+        bfdev_matrix_release(dest);
+    }
+
+    return retval;
 }
 
 export int
@@ -202,10 +215,10 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
     BFDEV_MATRIX_TYPE *data;
     unsigned int offset;
 
-    if (var->col < row || var->col < col)
+    if (var->row <= row || var->col <= col)
         return NULL;
 
-    offset = row * col;
+    offset = row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From 1df05de6b06428ea7b0d73e1e4b34103b45cb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 26/36] fix: ascii85: tail is read within the data, 'z' groups
 and overlong groups are decoded right

---
 src/crypto/ascii85.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..51a1250 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -35,8 +35,10 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        uint8_t tail[BFDEV_BYTES_PER_U32] = {0};
+
+        bfport_memcpy(tail, data, size);
+        value = bfdev_unaligned_get_be32(tail);
 
         if (!value)
             buff[index] = 'z';
@@ -59,7 +61,7 @@ static __bfdev_always_inline int
 ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
 {
     unsigned int count;
-    uint32_t value;
+    uint64_t value;
     size_t index;
 
     for (index = 0; size; index += 4) {
@@ -67,6 +69,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
@@ -80,6 +83,9 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             value += data[2] - '!'; value *= 85;
             value += data[3] - '!'; value *= 85;
             value += data[4] - '!';
+            if (value > BFDEV_UINT32_MAX)
+                return -BFDEV_EINVAL;
+
             bfdev_unaligned_set_be32(buff + index, value);
 
             data += 5;
-- 
2.43.0


From 67fa146a728ca05dcf7f42c0d622795f29f01508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:53 +0000
Subject: [PATCH 27/36] fix: crc: unrolled loop carries all bits of 64 bit
 remainders

---
 include/bfdev/crypto/crc-inline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..0d214a1 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -51,9 +51,10 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
                                                                     \
     for (combine = (const void *)src; len >= 8; len -= 8) {         \
         value[0] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++) ^ crc;                    \
+            bfdev_cpu_to_le32p(combine++) ^ (uint32_t)crc;          \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^                         \
+            (uint32_t)((uint64_t)crc >> 32);                        \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From f1010cab4fa8256ae46f5d6d0b85646f180c2662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 28/36] fix: pjwhash: hash of 32 bits, whatever the sign of
 char

---
 src/stringhash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stringhash.c b/src/stringhash.c
index 63b7d87..60f4554 100644
--- a/src/stringhash.c
+++ b/src/stringhash.c
@@ -3,18 +3,19 @@
  * Copyright(c) 2023 John Sanpe <sanpeqf@gmail.com>
  */
 
+#include <bfdev/types.h>
 #include <bfdev/stringhash.h>
 #include <export.h>
 
 export unsigned long
 bfdev_pjwhash(const char *str)
 {
-    unsigned long value, hash;
+    uint32_t value, hash;
 
     hash = 0;
     while (*str) {
         hash <<= 4;
-        hash += *str++;
+        hash += (uint8_t)*str++;
 
         value = hash & (0xfUL << (BFDEV_PJWHASH_BITS - 4));
         if (value) {
-- 
2.43.0


From 8b0aefb6ca21e04dce09abdf736ed9ae11fb2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 29/36] fix: dword: two word division compares both words and
 always sets the high word of the remainder

---
 src/dword.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..c5f0afb 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -80,12 +80,16 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
     d1 = div[1];
 
     /* degrade to udiv */
-    if (!d1)
-        return bfdev_dword_udiv(quot, rem, src, d0);
+    if (!d1) {
+        bfdev_dword_udiv(quot, rem, src, d0);
+        if (rem)
+            rem[1] = 0;
+        return;
+    }
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From 2e1f77d2d51e651fa03394c240ed759f3c19ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:49 +0000
Subject: [PATCH 30/36] fix: mpi: carries and borrows through several words,
 operands that are also the destination, division by unnormalised divisors and
 by zero, sign of zero

---
 src/mpi.c | 345 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 198 insertions(+), 147 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 5695cb9..3064328 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -89,8 +89,9 @@ mpa_addi(BFDEV_MPI_TYPE *ptrs,
     *ptrs++ = value;
 
     while (--length) {
-        *ptrs = *ptra + carry;
-        carry = *ptrs++ < *ptra++;
+        value = *ptra + carry;
+        carry = value < *ptra++;
+        *ptrs++ = value;
     }
 
     return carry;
@@ -101,11 +102,14 @@ mpa_add(BFDEV_MPI_TYPE *ptrs,
         const BFDEV_MPI_TYPE *ptra, const BFDEV_MPI_TYPE *ptrb,
         unsigned long cnta, unsigned long cntb, bool carry)
 {
-    BFDEV_MPI_TYPE value;
+    BFDEV_MPI_TYPE value, addend;
 
     while (cnta && cntb) {
-        value = *ptra + *ptrb++ + carry;
+        addend = *ptrb++;
+        value = *ptra + carry;
         carry = value < *ptra++;
+        value += addend;
+        carry |= value < addend;
         *ptrs++ = value;
 
         cnta--;
@@ -151,11 +155,14 @@ mpa_sub(BFDEV_MPI_TYPE *ptrs,
         const BFDEV_MPI_TYPE *ptra, const BFDEV_MPI_TYPE *ptrb,
         unsigned long cnta, unsigned long cntb, bool borrow)
 {
-    BFDEV_MPI_TYPE value;
+    BFDEV_MPI_TYPE value, subtrahend;
 
     while (cnta && cntb) {
-        value = *ptra - *ptrb++ - borrow;
+        subtrahend = *ptrb++;
+        value = *ptra - borrow;
         borrow = value > *ptra++;
+        borrow |= value < subtrahend;
+        value -= subtrahend;
         *ptrs++ = value;
 
         cnta--;
@@ -438,6 +445,13 @@ mpi_relocation(bfdev_mpi_t *var)
     return length;
 }
 
+static inline void
+mpi_sign(bfdev_mpi_t *var, bool plus)
+{
+    /* zero is always positive */
+    var->plus = plus || !mpi_len(var);
+}
+
 static inline int
 mpi_extend(bfdev_mpi_t *var, unsigned long length)
 {
@@ -611,6 +625,7 @@ mpi_add(bfdev_mpi_t *dest,
         return retval;
 
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
     ptrs = mpi_val(dest);
 
     carry = mpa_add(ptrs, ptra, ptrb, cnta, cntb, false);
@@ -675,6 +690,7 @@ mpi_sub(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     borrow = mpa_sub(ptrs, ptra, ptrb, cnta, cntb, false);
     BFDEV_BUG_ON(borrow);
@@ -736,7 +752,7 @@ mpi_mul(bfdev_mpi_t *dest,
         return mpi_muli(dest, va, *ptrb);
 
     rename = NULL;
-    if (dest == va && dest == vb) {
+    if (dest == va || dest == vb) {
         rename = dest;
         dest = &buffer;
     }
@@ -748,16 +764,17 @@ mpi_mul(bfdev_mpi_t *dest,
 
     ptrs = mpi_val(dest);
     ptra = mpi_val(va);
+    ptrb = mpi_val(vb);
 
     mpa_mul(ptrs, ptra, ptrb, cnta, cntb);
     mpi_relocation(dest);
 
     if (rename) {
-        mpi_set(rename, dest);
+        retval = mpi_set(rename, dest);
         bfdev_mpi_release(dest);
     }
 
-    return -BFDEV_ENOERR;
+    return retval;
 }
 
 static inline int
@@ -797,7 +814,7 @@ mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
     mpi_relocation(quot);
 
     if (quot != rem)
-        mpi_seti(rem, value);
+        return mpi_seti(rem, value);
 
     return -BFDEV_ENOERR;
 }
@@ -822,125 +839,8 @@ mpi_modi(bfdev_mpi_t *rem,
     ptra = mpi_val(va);
 
     value = mpa_modi(ptra, vi, length);
-    mpi_seti(rem, value);
-
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_DEFINE_MPI(buffer, quot->alloc);
-    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
-    unsigned long cnta, cntb, length;
-    bfdev_mpi_t *rename;
-    bool limb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_divi(quot, rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta) {
-        retval = mpi_seti(quot, 0);
-        if (retval)
-            return retval;
-
-        retval = mpi_seti(rem, 0);
-        if (retval)
-            return retval;
-
-        return -BFDEV_ENOERR;
-    }
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    rename = NULL;
-    if (quot == va) {
-        rename = quot;
-        quot = &buffer;
-    }
-
-    length = cnta + cntb;
-    retval = mpi_resize(quot, length);
-    if (bfdev_unlikely(retval))
-        return retval;
 
-    ptrs = mpi_val(quot);
-    ptra = mpi_val(rem);
-
-    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
-    length = cnta - cntb;
-
-    if (limb) {
-        ptrs[length] = limb;
-        length += 1;
-    }
-
-    BFDEV_BUG_ON(mpi_resize(quot, length));
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-
-    BFDEV_BUG_ON(mpi_relocation(quot));
-    mpi_relocation(rem);
-
-    if (rename) {
-        mpi_set(rename, quot);
-        bfdev_mpi_release(quot);
-    }
-
-    return -BFDEV_ENOERR;
-}
-
-static inline int
-mpi_mod(bfdev_mpi_t *rem,
-        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
-{
-    BFDEV_MPI_TYPE *ptra, *ptrb;
-    unsigned long cnta, cntb;
-    int retval;
-
-    /* divide by zero */
-    cntb = mpi_len(vb);
-    if (bfdev_unlikely(!cntb))
-        return -BFDEV_EOVERFLOW;
-
-    /* degrade to divi */
-    ptrb = mpi_val(vb);
-    if (cntb == 1)
-        return mpi_modi(rem, va, *ptrb);
-
-    /* parameter check */
-    cnta = mpi_len(va);
-    if (!cnta)
-        return mpi_seti(rem, 0);
-
-    if (rem != va) {
-        retval = mpi_set(rem, va);
-        if (bfdev_unlikely(retval))
-            return retval;
-    }
-
-    cnta = mpi_len(va);
-    ptra = mpi_val(rem);
-
-    mpa_divrem(NULL, ptra, ptrb, cnta, cntb);
-    BFDEV_BUG_ON(mpi_resize(rem, cntb));
-    mpi_relocation(rem);
-
-    return -BFDEV_ENOERR;
+    return mpi_seti(rem, value);
 }
 
 static inline int
@@ -1116,6 +1016,128 @@ mpi_shri(bfdev_mpi_t *dest,
     return -BFDEV_ENOERR;
 }
 
+static inline int
+mpi_divrem(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+           const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_DEFINE_MPI(result, rem->alloc);
+    BFDEV_DEFINE_MPI(numer, rem->alloc);
+    BFDEV_DEFINE_MPI(denom, rem->alloc);
+    BFDEV_MPI_TYPE *ptrs, *ptra, *ptrb;
+    unsigned long cnta, cntb, length;
+    unsigned int shift;
+    bool limb;
+    int retval;
+
+    /* the most significant bit of the divisor must be set */
+    cntb = mpi_len(vb);
+    ptrb = mpi_val(vb);
+    shift = bfdev_clz(ptrb[cntb - 1]);
+
+    retval = mpi_shli(&denom, vb, shift);
+    if (bfdev_unlikely(retval))
+        goto failed;
+
+    retval = mpi_shli(&numer, va, shift);
+    if (bfdev_unlikely(retval))
+        goto failed;
+
+    cnta = mpi_len(&numer);
+    length = cnta - cntb;
+
+    ptrs = NULL;
+    if (quot) {
+        retval = mpi_resize(&result, length + 1);
+        if (bfdev_unlikely(retval))
+            goto failed;
+        ptrs = mpi_val(&result);
+    }
+
+    ptra = mpi_val(&numer);
+    ptrb = mpi_val(&denom);
+    limb = mpa_divrem(ptrs, ptra, ptrb, cnta, cntb);
+
+    BFDEV_BUG_ON(mpi_resize(&numer, cntb));
+    mpi_relocation(&numer);
+
+    retval = mpi_shri(rem, &numer, shift);
+    if (bfdev_unlikely(retval))
+        goto failed;
+
+    if (quot) {
+        ptrs[length] = limb;
+        mpi_relocation(&result);
+        retval = mpi_set(quot, &result);
+    }
+
+failed:
+    bfdev_mpi_release(&denom);
+    bfdev_mpi_release(&numer);
+    bfdev_mpi_release(&result);
+
+    return retval;
+}
+
+static inline int
+mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+    unsigned long cnta, cntb;
+    int retval;
+
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_divi(quot, rem, va, *ptrb);
+
+    /* parameter check */
+    cnta = mpi_len(va);
+    if (!cnta) {
+        retval = mpi_seti(quot, 0);
+        if (retval)
+            return retval;
+
+        retval = mpi_seti(rem, 0);
+        if (retval)
+            return retval;
+
+        return -BFDEV_ENOERR;
+    }
+
+    return mpi_divrem(quot, rem, va, vb);
+}
+
+static inline int
+mpi_mod(bfdev_mpi_t *rem,
+        const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
+{
+    BFDEV_MPI_TYPE *ptrb;
+    unsigned long cnta, cntb;
+
+    /* divide by zero */
+    cntb = mpi_len(vb);
+    if (bfdev_unlikely(!cntb))
+        return -BFDEV_EOVERFLOW;
+
+    /* degrade to divi */
+    ptrb = mpi_val(vb);
+    if (cntb == 1)
+        return mpi_modi(rem, va, *ptrb);
+
+    /* parameter check */
+    cnta = mpi_len(va);
+    if (!cnta)
+        return mpi_seti(rem, 0);
+
+    return mpi_divrem(NULL, rem, va, vb);
+}
+
 /**
  * Multi Precision Integers (signed).
  *
@@ -1219,7 +1241,7 @@ bfdev_mpi_addi(bfdev_mpi_t *dest,
         return -BFDEV_ENOERR;
     }
 
-    diff = bfdev_mpi_cmpi(va, vi);
+    diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
             retval = mpi_seti(dest, 0);
@@ -1323,7 +1345,7 @@ bfdev_mpi_subi(bfdev_mpi_t *dest,
 
         case BFDEV_LT:
             value = mpi_val(va);
-            retval = mpi_seti(dest, vi - *value);
+            retval = mpi_seti(dest, value ? vi - *value : vi);
             if (bfdev_unlikely(retval))
                 return retval;
 
@@ -1347,10 +1369,12 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
     unsigned long cnta, cntb;
+    bool plus;
     int retval;
 
     cnta = mpi_len(va);
     cntb = mpi_len(vb);
+    plus = va->plus == vb->plus;
 
     /* satisfy commutative law */
     if (cnta < cntb)
@@ -1360,7 +1384,7 @@ bfdev_mpi_mul(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = !(va->plus ^ vb->plus);
+    mpi_sign(dest, plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1375,7 +1399,7 @@ bfdev_mpi_muli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1385,7 +1409,14 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
     int retval, diff;
+    bool plusa, plusq;
+
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
 
+    plusa = va->plus;
+    plusq = va->plus == vb->plus;
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1397,7 +1428,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
+            mpi_sign(quot, plusq);
             rem->plus = true;
             break;
 
@@ -1407,7 +1438,7 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plusa);
             }
 
             /* quot can be equal to va */
@@ -1423,8 +1454,8 @@ bfdev_mpi_div(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = !(va->plus ^ vb->plus);
-            rem->plus = va->plus;
+            mpi_sign(rem, plusa);
+            mpi_sign(quot, plusq);
             break;
     }
 
@@ -1436,7 +1467,14 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
     int retval, diff;
+    bool plusa, plusq;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
+
+    plusa = va->plus;
+    plusq = va->plus;
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1448,7 +1486,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
+            mpi_sign(quot, plusq);
             rem->plus = true;
             break;
 
@@ -1458,7 +1496,7 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plusa);
             }
 
             /* quot can be equal to va */
@@ -1474,8 +1512,8 @@ bfdev_mpi_divi(bfdev_mpi_t *quot, bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            quot->plus = va->plus;
-            rem->plus = va->plus;
+            mpi_sign(rem, plusa);
+            mpi_sign(quot, plusq);
             break;
     }
 
@@ -1487,7 +1525,13 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
               const bfdev_mpi_t *va, const bfdev_mpi_t *vb)
 {
     int retval, diff;
+    bool plusa;
 
+    /* divide by zero */
+    if (bfdev_unlikely(!mpi_len(vb)))
+        return -BFDEV_EOVERFLOW;
+
+    plusa = va->plus;
     diff = mpi_cmp(va, vb);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1504,7 +1548,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plusa);
             }
             break;
 
@@ -1513,7 +1557,7 @@ bfdev_mpi_mod(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, plusa);
             break;
     }
 
@@ -1525,7 +1569,13 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
                const bfdev_mpi_t *va, BFDEV_MPI_TYPE vi)
 {
     int retval, diff;
+    bool plusa;
+
+    /* divide by zero */
+    if (bfdev_unlikely(!vi))
+        return -BFDEV_EOVERFLOW;
 
+    plusa = va->plus;
     diff = mpi_cmpi(va, vi);
     switch (diff) {
         case BFDEV_EQ: default:
@@ -1542,7 +1592,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
                 if (bfdev_unlikely(retval))
                     return retval;
 
-                rem->plus = va->plus;
+                mpi_sign(rem, plusa);
             }
             break;
 
@@ -1551,7 +1601,7 @@ bfdev_mpi_modi(bfdev_mpi_t *rem,
             if (bfdev_unlikely(retval))
                 return retval;
 
-            rem->plus = va->plus;
+            mpi_sign(rem, plusa);
             break;
     }
 
@@ -1613,7 +1663,7 @@ bfdev_mpi_shli(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1628,7 +1678,7 @@ bfdev_mpi_shri(bfdev_mpi_t *dest,
     if (bfdev_unlikely(retval))
         return retval;
 
-    dest->plus = va->plus;
+    mpi_sign(dest, va->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1682,6 +1732,7 @@ bfdev_mpi_bclri(bfdev_mpi_t *dest, BFDEV_MPI_TYPE bit)
     base = mpi_val(dest);
     bfdev_bit_clr(base, bit);
     mpi_relocation(dest);
+    mpi_sign(dest, dest->plus);
 
     return -BFDEV_ENOERR;
 }
@@ -1724,7 +1775,7 @@ bfdev_mpi_import(bfdev_mpi_t *var, const BFDEV_MPI_TYPE *buffer,
     if (bfdev_unlikely(retval))
         return retval;
 
-    var->plus = sign;
+    mpi_sign(var, sign);
 
     return -BFDEV_ENOERR;
 }
-- 
2.43.0


From dad5b4414deafd299b1a4dadbfb6942b218015b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:58 +0000
Subject: [PATCH 31/36] fix: textsearch: tables cover every byte, good suffix
 shifts of bm, last window of sunday, next match goes on behind the last

---
 src/textsearch/bm.c     | 19 ++++++++++---------
 src/textsearch/kmp.c    |  6 +++---
 src/textsearch/sunday.c | 17 +++++++++--------
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/textsearch/bm.c b/src/textsearch/bm.c
index 24cdeda..6268bb3 100644
--- a/src/textsearch/bm.c
+++ b/src/textsearch/bm.c
@@ -10,7 +10,7 @@ struct bm_context {
     bfdev_ts_context_t tsc;
     uint8_t *pattern;
     unsigned int pattern_len;
-    unsigned int bad_shift[UINT8_MAX];
+    unsigned int bad_shift[UINT8_MAX + 1];
     unsigned int good_shift[0];
 };
 
@@ -50,9 +50,8 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     bctx = ts_to_bm(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = bctx->pattern_len - 1;
-
     for (;;) {
+        shift = bctx->pattern_len - 1;
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
@@ -63,8 +62,10 @@ bm_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == bctx->pattern_len)
-                return consumed + shift - bctx->pattern_len + 1;
+            if (index == bctx->pattern_len) {
+                tss->offset = consumed + shift + 1;
+                return tss->offset - bctx->pattern_len;
+            }
 
             bad_shift = shift - index + bctx->bad_shift[text[shift - index]];
             good_shift = shift + bctx->good_shift[index];
@@ -85,7 +86,7 @@ subpattern(const uint8_t *pattern, int index, int j, int g)
     x = index + g - 1;
     y = j + g - 1;
 
-    while (y && pattern[x--] == pattern[y--]) {
+    while (pattern[x--] == pattern[y--]) {
         if (y < 0)
             return true;
         if (!--g)
@@ -100,7 +101,7 @@ bm_compute_prefix(struct bm_context *bctx)
 {
     int index, start, count;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         bctx->bad_shift[index] = bctx->pattern_len;
 
     for (index = 0; index < bctx->pattern_len - 1; ++index) {
@@ -118,7 +119,7 @@ bm_compute_prefix(struct bm_context *bctx)
     for (index = bctx->pattern_len - 1, start = 1; index; ++start, --index) {
         for (count = index - 1; count >= 1 - start; --count) {
             if (subpattern(bctx->pattern, index, count, start)) {
-                bctx->good_shift[count] = bctx->pattern_len - start - count;
+                bctx->good_shift[start] = bctx->pattern_len - start - count;
                 break;
             }
         }
@@ -144,7 +145,7 @@ bm_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&bctx->tsc))
         bfport_memcpy(bctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        bctx->pattern[index] = toupper(((char *)pattern)[index]);
+        bctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     bm_compute_prefix(bctx);
 
     return &bctx->tsc;
diff --git a/src/textsearch/kmp.c b/src/textsearch/kmp.c
index d6592b1..ccb21f5 100644
--- a/src/textsearch/kmp.c
+++ b/src/textsearch/kmp.c
@@ -8,7 +8,7 @@
 
 struct kmp_context {
     bfdev_ts_context_t tsc;
-    char *pattern;
+    uint8_t *pattern;
     unsigned int pattern_len;
     unsigned int prefix_table[0];
 };
@@ -42,7 +42,7 @@ kmp_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     #define find_pattern() (icase ? toupper(text[index]) : text[index])
     struct kmp_context *kctx;
     unsigned int consumed, length, index, match;
-    const char *text;
+    const uint8_t *text;
     bool icase;
 
     kctx = ts_to_kmp(tsc);
@@ -109,7 +109,7 @@ kmp_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&kctx->tsc))
         bfport_memcpy(kctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        kctx->pattern[index] = toupper(((char *)pattern)[index]);
+        kctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     kmp_compute_prefix(kctx);
 
     return &kctx->tsc;
diff --git a/src/textsearch/sunday.c b/src/textsearch/sunday.c
index 1a3d7b3..4484620 100644
--- a/src/textsearch/sunday.c
+++ b/src/textsearch/sunday.c
@@ -9,7 +9,7 @@
 struct sunday_context {
     bfdev_ts_context_t tsc;
     unsigned int pattern_len;
-    unsigned int shift_table[UINT8_MAX];
+    unsigned int shift_table[UINT8_MAX + 1];
     uint8_t pattern[0];
 };
 
@@ -48,9 +48,8 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
     sctx = ts_to_sunday(tsc);
     icase = bfdev_ts_igcase_test(tsc);
     consumed = tss->offset;
-    shift = 0;
-
     for (;;) {
+        shift = 0;
         length = tsc->next_block(tsc, tss, consumed, (const void **)&text);
         if (bfdev_unlikely(!length))
             return UINT_MAX;
@@ -61,10 +60,12 @@ sunday_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss)
                     break;
             }
 
-            if (index == sctx->pattern_len)
-                return consumed + shift;
+            if (index == sctx->pattern_len) {
+                tss->offset = consumed + shift + index;
+                return tss->offset - index;
+            }
 
-            if (sctx->pattern_len >= length)
+            if (sctx->pattern_len + shift >= length)
                 break;
 
             shift += sctx->shift_table[text[shift + sctx->pattern_len]];
@@ -81,7 +82,7 @@ sunday_compute_prefix(struct sunday_context *sctx)
 {
     unsigned int index;
 
-    for (index = 0; index < UINT8_MAX; ++index)
+    for (index = 0; index <= UINT8_MAX; ++index)
         sctx->shift_table[index] = sctx->pattern_len + 1;
 
     for (index = 0; index < sctx->pattern_len; ++index) {
@@ -110,7 +111,7 @@ sunday_prepare(const bfdev_alloc_t *alloc, const void *pattern,
     if (!bfdev_ts_igcase_test(&sctx->tsc))
         bfport_memcpy(sctx->pattern, pattern, len);
     else for (index = 0; index < len; ++index)
-        sctx->pattern[index] = toupper(((char *)pattern)[index]);
+        sctx->pattern[index] = toupper(((uint8_t *)pattern)[index]);
     sunday_compute_prefix(sctx);
 
     return &sctx->tsc;
-- 
2.43.0


From 8b7516a209e25cff804ecec71a69cdf2299a7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 32/36] fix: ctype: constant classification compared signed
 differences, isascii did not compile, hexadecimal zero and blank tab

---
 include/bfdev/ctype.h | 18 +++++++++---------
 src/libc/ctype.c      |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/bfdev/ctype.h b/include/bfdev/ctype.h
index fb30d45..6f4b8aa 100644
--- a/include/bfdev/ctype.h
+++ b/include/bfdev/ctype.h
@@ -41,13 +41,13 @@ bfdev_ctype_table[256];
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isalpha_const(int c)
 {
-    return (((unsigned char)c | 32) - 'a') < 26;
+    return (((unsigned char)c | 32) - 'a') < 26U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isdigit_const(int c)
 {
-    return ((unsigned char)c - '0') < 10;
+    return ((unsigned char)c - '0') < 10U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -65,31 +65,31 @@ int bfdev_iscntrl_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isgraph_const(int c)
 {
-    return ((unsigned char)c - 0x21) < 0x5e;
+    return ((unsigned char)c - 0x21) < 0x5eU;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_islower_const(int c)
 {
-    return ((unsigned char)c - 'a') < 26;
+    return ((unsigned char)c - 'a') < 26U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isprint_const(int c)
 {
-    return ((unsigned char)c - 0x20) < 0x5f;
+    return ((unsigned char)c - 0x20) < 0x5fU;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isspace_const(int c)
 {
-    return (c == ' ') || ((unsigned char)c - '\t' < 5);
+    return (c == ' ') || ((unsigned char)c - '\t' < 5U);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isupper_const(int c)
 {
-    return ((unsigned char)c - 'A') < 26;
+    return ((unsigned char)c - 'A') < 26U;
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
@@ -107,11 +107,11 @@ int bfdev_ispunct_const(int c)
 static __bfdev_attribute_const __bfdev_always_inline
 int bfdev_isxdigit_const(int c)
 {
-    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6);
+    return bfdev_isdigit_const(c) || (((unsigned char)c | 32) - 'a' < 6U);
 }
 
 static __bfdev_attribute_const __bfdev_always_inline
-int bfdev_ascii_const(int c)
+int bfdev_isascii_const(int c)
 {
     return (unsigned char)c <= 0x7f;
 }
diff --git a/src/libc/ctype.c b/src/libc/ctype.c
index d97d87f..ab47ec7 100644
--- a/src/libc/ctype.c
+++ b/src/libc/ctype.c
@@ -19,9 +19,9 @@ bfdev_ctype_table[256] = {
     [BFDEV_ASCII_ACK] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BEL] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
     [BFDEV_ASCII_BS ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
-    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
+    [BFDEV_ASCII_HT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
     [BFDEV_ASCII_LF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
-    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE | BFDEV_CTYPE_BLANK,
+    [BFDEV_ASCII_VT ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_FF ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_CR ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL | BFDEV_CTYPE_SPACE,
     [BFDEV_ASCII_SO ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_CNTRL,
@@ -60,7 +60,7 @@ bfdev_ctype_table[256] = {
     ['.' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
     ['/' ] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_PUNCT,
 
-    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT,
+    ['0'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['1'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['2'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
     ['3'] = BFDEV_CTYPE_ASCII | BFDEV_CTYPE_DIGIT | BFDEV_CTYPE_HEXDG,
-- 
2.43.0


From 616f7ae011348a9c0e9959435e19f794432e73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 33/36] fix: strndup wrote past the copy and left it without
 terminator

---
 src/libc/strdup.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libc/strdup.c b/src/libc/strdup.c
index 93859dd..9401d83 100644
--- a/src/libc/strdup.c
+++ b/src/libc/strdup.c
@@ -39,8 +39,10 @@ bfdev_strndup(const bfdev_alloc_t *alloc,
     length = bfport_strnlen(string, len);
     dump = bfdev_malloc(alloc, length + 1);
 
-    if (bfdev_likely(dump))
-        bfport_strncpy(dump, string, len);
+    if (bfdev_likely(dump)) {
+        bfport_memcpy(dump, string, length);
+        dump[length] = '\0';
+    }
 
     return dump;
 }
-- 
2.43.0


From 7f00c42df93f2343c171b34a0ecdb70a02a00a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 34/36] fix: scnprintf reported a full buffer when formatting
 failed

---
 src/scnprintf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..17543cc 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,7 +16,7 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
-    if (bfdev_likely(len < size))
+    if (bfdev_likely(len < 0 || (size_t)len < size))
         return len;
 
     return size - 1;
-- 
2.43.0


From 90ef5eae21763c8523d81de4f976d297b0c66f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 35/36] fix: tokenbucket lost tokens after a long pause or with
 a great capacity

---
 src/tokenbucket.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..dcab400 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate;
 
     if (!limit->interval)
         return true;
@@ -24,7 +24,10 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     /* generate token */
     generate = bfdev_time_sub(current, limit->last) / limit->interval;
     limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+    if (generate < limit->capacity - limit->current)
+        limit->current += generate;
+    else
+        limit->current = limit->capacity;
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From f2e1dc8e7078d6d3fb37f9c80a4b8a97bbce758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:04 +0000
Subject: [PATCH 36/36] fix: respool kept released nodes after release_all

---
 src/respool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/respool.c b/src/respool.c
index 6ce5bca..9902153 100644
--- a/src/respool.c
+++ b/src/respool.c
@@ -62,6 +62,8 @@ bfdev_respool_release_all(bfdev_respool_t *pool, void *pdata)
 {
     bfdev_respool_node_t *node, *tmp;
 
-    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list)
+    bfdev_list_for_each_entry_safe(node, tmp, &pool->nodes, list) {
+        bfdev_list_del(&node->list);
         node->release(node, pdata);
+    }
 }
-- 
2.43.0


From d511dfef9590abd9b6d5edf2e99ca551984b63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:47 +0000
Subject: [PATCH 01/60] fix: release every collected value when a map/filter
 callback throws

The cleanup loops released entries[size]..entries[1] instead of entries[size-1]..entries[0]: the first value leaked,
and filter() read an uninitialized slot (memory corruption).
---
 teds_immutablesequence.c | 7 ++++---
 teds_vector.c            | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 110210b..dd02e30 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -826,7 +826,7 @@ PHP_METHOD(Teds_ImmutableSequence, filter)
 cleanup:
 				if (entries) {
 					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+						zval_ptr_dtor(&entries[size - 1]);
 					}
 					efree(entries);
 				}
@@ -950,9 +950,10 @@ PHP_METHOD(Teds_ImmutableSequence, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
+				/* entries[size] is the result of the failed call: it is undef unless only freeing the operand threw. */
+				do {
 					zval_ptr_dtor(&entries[size]);
-				}
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
diff --git a/teds_vector.c b/teds_vector.c
index 8f9a36c..5660786 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -915,7 +915,7 @@ PHP_METHOD(Teds_Vector, filter)
 cleanup:
 				if (entries) {
 					for (; size > 0; size--) {
-						zval_ptr_dtor(&entries[size]);
+						zval_ptr_dtor(&entries[size - 1]);
 					}
 					efree(entries);
 				}
@@ -1040,9 +1040,10 @@ PHP_METHOD(Teds_Vector, map)
 		zval_ptr_dtor(&operand);
 		if (UNEXPECTED(result != SUCCESS || EG(exception))) {
 			if (entries) {
-				for (; size > 0; size--) {
+				/* entries[size] is the result of the failed call: it is undef unless only freeing the operand threw. */
+				do {
 					zval_ptr_dtor(&entries[size]);
-				}
+				} while (size-- > 0);
 				efree(entries);
 			}
 			return;
-- 
2.43.0


From 6b0f5cb8f3679cee3041c7a9a9bac2c5c07af5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:47 +0000
Subject: [PATCH 02/60] fix: allocate the full power-of-2 capacity when cloning
 a Teds\Deque

Only size slots were allocated while mask+1 slots are used: adding to the clone wrote past the allocation.
---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 41edae1..5cc5cd9 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -245,7 +245,7 @@ static void teds_deque_entries_copy_ctor(teds_deque_entries *to, const teds_dequ
 	}
 
 	const uint32_t capacity = teds_deque_next_pow2_capacity(size);
-	to->circular_buffer = safe_emalloc(size, sizeof(zval), 0);
+	to->circular_buffer = safe_emalloc(capacity, sizeof(zval), 0);
 	to->size = size;
 	to->mask = capacity - 1;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(to, true);
-- 
2.43.0


From 3bce1e06c979c42fca86b76d79a0fd98a418e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:47 +0000
Subject: [PATCH 03/60] fix: report the wrapped part of a Teds\Deque to the
 garbage collector

get_gc added the slot after the wrapped part repeatedly instead of each wrapped element: uninitialized memory was
passed to the cycle collector and cycles through wrapped elements leaked or were corrupted.
---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 5cc5cd9..3c86822 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -325,7 +325,7 @@ static HashTable* teds_deque_get_gc(zend_object *obj, zval **table, int *n)
 	}
 
 	for (uint32_t i = 0, len = offset + size - capacity; i < len; i++) {
-		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[len]);
+		zend_get_gc_buffer_add_zval(gc_buffer, &circular_buffer[i]);
 	}
 
 	/* This replaces table and n. */
-- 
2.43.0


From fe7dde8b9107b0cd32b0e090ba39b057600e9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:09 +0000
Subject: [PATCH 04/60] fix: shrink Teds\Vector::setSize to a capacity based on
 the new size

A shadowing local computed the capacity from the old size, violating the shrink helper's precondition (assertion failure
in debug builds) and leaving almost all of the memory reserved.
---
 teds_vector.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index 5660786..0440699 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -546,7 +546,6 @@ PHP_METHOD(Teds_Vector, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (array->capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < array->capacity) {
 				teds_vector_shrink_capacity(array, size, capacity, old_entries);
-- 
2.43.0


From 88f54893ea64394b1fa662d983f3abc930fedf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:09 +0000
Subject: [PATCH 05/60] fix: move all remaining elements in
 Teds\IntVector::popFront

The byte count was the sum instead of the product of element size and count, corrupting or overrunning the data.
---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 8430c46..6691dc6 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2301,7 +2301,7 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
-	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element + (old_size - 1));
+	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
 		const size_t size = old_size - 1;
-- 
2.43.0


From a426222a83e608a36672794ac3d362b8393a6065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:28 +0000
Subject: [PATCH 06/60] fix: search for the requested bit in Teds\BitVector
 indexOf/contains

Adding the searched value to the words found the wrong bits, and a byte past the end could be read.
---
 teds_bitvector.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 859518a..0b241d7 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -980,21 +980,26 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		RETURN_NULL();
 	}
 	const uint8_t *const entries_bits = array->entries_bits;
+	/* After xoring with this, the bits equal to value are 1. */
+	const uint64_t invert = value ? 0 : ~(uint64_t)0;
 	size_t i = 0;
 	while (i + 64 <= len) {
-		if ((*(uint64_t *)&entries_bits[i >> 3]) + value) {
+		if ((*(uint64_t *)&entries_bits[i >> 3]) ^ invert) {
 			break;
 		}
 		i += 64;
 	}
 	while (i + 8 <= len) {
-		if ((uint8_t)(entries_bits[i >> 3] + value)) {
+		if ((uint8_t)(entries_bits[i >> 3] ^ invert)) {
 			break;
 		}
 		i += 8;
 	}
+	if (i >= len) {
+		RETURN_NULL();
+	}
 	// TODO: builtin_clz?
-	uint8_t v = entries_bits[i >> 3] + value;
+	uint8_t v = entries_bits[i >> 3] ^ invert;
 	while (i < len) {
 		if (v & 1) {
 			RETURN_LONG(i);
@@ -1022,20 +1027,25 @@ PHP_METHOD(Teds_BitVector, contains)
 	if (len == 0) {
 		RETURN_FALSE;
 	}
+	/* After xoring with this, the bits equal to value are 1. */
+	const uint64_t invert = value ? 0 : ~(uint64_t)0;
 	size_t i = 0;
 	while (i + 64 <= len) {
-		if ((*(uint64_t *)&entries_bits[i >> 3]) + value) {
+		if ((*(uint64_t *)&entries_bits[i >> 3]) ^ invert) {
 			break;
 		}
 		i += 64;
 	}
 	while (i + 8 <= len) {
-		if ((uint8_t)(entries_bits[i >> 3] + value)) {
+		if ((uint8_t)(entries_bits[i >> 3] ^ invert)) {
 			RETURN_TRUE;
 		}
 		i += 8;
 	}
-	const uint8_t v = entries_bits[i >> 3] + value;
+	if (i >= len) {
+		RETURN_FALSE;
+	}
+	const uint8_t v = entries_bits[i >> 3] ^ invert;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
 
-- 
2.43.0


From fde5a17619e2fe81976ca349eb86c0bf84aec80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:36 +0000
Subject: [PATCH 07/60] fix: return bool from Teds\Deque::containsKey

---
 teds_deque.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 3c86822..8f5f314 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -840,7 +840,7 @@ PHP_METHOD(Teds_Deque, containsKey)
 	zend_long offset;
 	CONVERT_OFFSET_TO_LONG_OR_THROW(offset, offset_zv);
 
-	RETURN_LONG(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
+	RETURN_BOOL(((zend_ulong) offset) < Z_DEQUE_ENTRIES_P(ZEND_THIS)->size);
 }
 
 static zval *teds_deque_read_dimension(zend_object *object, zval *offset_zv, int type, zval *rv)
-- 
2.43.0


From 740b3ee0d1853055042b697b9344531e55de22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:33 +0000
Subject: [PATCH 08/60] fix: do not free the static empty storage when
 promoting an empty IntVector/LowMemoryVector

The old capacity was overwritten before it was tested, so promoting a vector without storage (e.g. after clear())
freed the shared static empty list; promoting to generic values leaked an allocation in that case.
---
 teds_intvector.c       |  5 +++--
 teds_lowmemoryvector.c | 11 +++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 6691dc6..5d22260 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1799,7 +1799,8 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
-		const size_t capacity = array->capacity >= 2 ? array->capacity : 4; \
+		const size_t old_capacity = array->capacity; \
+		const size_t capacity = old_capacity >= 2 ? old_capacity : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = teds_intvector_emalloc_byte_array(capacity, sizeof(int_larger)); \
 		const int_larger *const end = entries_larger + size; \
@@ -1808,7 +1809,7 @@ static zend_always_inline zval *teds_intvector_entries_read_offset(const teds_in
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			teds_intvector_efree_byte_array(original_entries); \
 		} \
 		return; \
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index f972d4e..9658e83 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -89,6 +89,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		int_smaller *const original_entries = array->entries_smaller; \
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
+		const size_t old_capacity = array->capacity; \
 		const size_t capacity = size >= 2 ? size * 2 : 4; \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
@@ -98,7 +99,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		while (dst < end) { \
 			*dst++ = *src++; \
 		} \
-		if (array->capacity > 0) { \
+		if (old_capacity > 0) { \
 			efree(original_entries); \
 		} \
 		return; \
@@ -1600,6 +1601,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	uint8_t *const original_types = array->entries_uint8;
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1609,7 +1611,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	for (; dst < end; dst++, src++) {
 		teds_lowmemoryvector_entries_set_type(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_types);
 	}
 	return;
@@ -1621,6 +1623,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	double *const original_entries = array->entries_double;
 	const double *src = original_entries;
 	const size_t size = array->size;
+	const size_t old_capacity = array->capacity;
 	const size_t capacity = size >= 2 ? size * 2 : 4;
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
@@ -1630,7 +1633,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	for (; dst < end; dst++, src++) {
 		ZVAL_DOUBLE(dst, *src);
 	}
-	if (array->capacity > 0) {
+	if (old_capacity > 0) {
 		efree(original_entries);
 	}
 }
@@ -1646,8 +1649,8 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const uint32_t size = array->size; \
 	const uint32_t old_capacity = array->capacity; \
 	const uint32_t capacity = old_capacity >= 4 ? old_capacity : 4; \
-	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
 	if (old_capacity > 0) { \
+		zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0); \
 		const zval *const end = entries_zval + size; \
 		zval *dst = entries_zval; \
 		array->entries_zval = entries_zval; \
-- 
2.43.0


From 012d8392595cfe7b9d977b6029c38934e86e4749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 09/60] fix: keep a Teds\Deque initialized and its iterators
 tracked after clear()

clear() zeroed the whole structure: iterators alive at that point were no longer adjusted by later insertions and
removals, and the deque counted as uninitialized so __construct could be called again.
---
 teds_deque.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_deque.c b/teds_deque.c
index 8f5f314..b6ad431 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -507,7 +507,11 @@ PHP_METHOD(Teds_Deque, clear)
 	}
 	/* Immediately make the original storage inaccessible and set count/capacity to 0 in case destructors modify the deque */
 	teds_deque_entries old_array = intern->array;
-	memset(&intern->array, 0, sizeof(intern->array));
+	/* Keep track of the active iterators and stay initialized (an initialized circular_buffer is non-null). */
+	intern->array.size = 0;
+	intern->array.mask = 0;
+	intern->array.offset = 0;
+	intern->array.circular_buffer = (zval *)empty_entry_list;
 	teds_deque_entries_dtor(&old_array);
 	if (intern->std.properties) {
 		zend_hash_clean(intern->std.properties);
-- 
2.43.0


From 1c10131f41f8897c3c11137596ebbcdf4645175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:48 +0000
Subject: [PATCH 10/60] fix: let the cycle collector see through
 LowMemoryVector/ImmutableSequence/ImmutableIterable iterators

Their iterators did not report the iterated collection, so cycles through an iterator were never collected.
---
 teds_immutableiterable.c | 2 +-
 teds_immutablesequence.c | 2 +-
 teds_lowmemoryvector.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 54fb123..464a302 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -534,7 +534,7 @@ static const zend_object_iterator_funcs teds_immutableiterable_it_funcs = {
 	teds_immutableiterable_it_move_forward,
 	teds_immutableiterable_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index dd02e30..d758931 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -521,7 +521,7 @@ static const zend_object_iterator_funcs teds_immutablesequence_it_funcs = {
 	teds_immutablesequence_it_move_forward,
 	teds_immutablesequence_it_rewind,
 	NULL,
-	NULL, /* get_gc */
+	teds_internaliterator_get_gc,
 };
 
 
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 9658e83..9833c57 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -610,7 +610,7 @@ static const zend_object_iterator_funcs teds_lowmemoryvector_it_funcs = {
 	teds_lowmemoryvector_it_move_forward,
 	teds_lowmemoryvector_it_rewind,
 	NULL,
-	NULL,
+	teds_internaliterator_get_gc,
 };
 
 static void teds_lowmemoryvector_adjust_iterators_before_remove(teds_lowmemoryvector_entries *array, teds_intrusive_dllist_node *node, const size_t removed_offset)
-- 
2.43.0


From e784c8995a6ae3c7f4c270463f3faf58b56f2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:48 +0000
Subject: [PATCH 11/60] fix: do not leak an allocation when unserializing an
 empty Teds\ImmutableSequence

---
 teds_immutablesequence.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index d758931..26d3a91 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -563,6 +563,10 @@ PHP_METHOD(Teds_ImmutableSequence, __unserialize)
 	}
 
 	ZEND_ASSERT(intern->array.entries == NULL);
+	if (num_entries == 0) {
+		teds_immutablesequence_entries_set_empty_list(&intern->array);
+		return;
+	}
 
 	zval *const entries = safe_emalloc(num_entries, sizeof(zval), 0);
 	zval *it = entries;
-- 
2.43.0


From e00528b1dadc1d1ed8b79c875bc2f5410b650399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:24 +0000
Subject: [PATCH 12/60] fix: do not leak a reference in
 Teds\LowMemoryVector::offsetExists

---
 teds_lowmemoryvector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 9833c57..d0b7c5c 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1208,8 +1208,9 @@ PHP_METHOD(Teds_LowMemoryVector, offsetExists)
 	}
 	ZEND_ASSERT(offset >= 0);
 	zval tmp;
-	teds_lowmemoryvector_get_value_at_offset(&tmp, ZEND_THIS, offset);
-	RETURN_BOOL(Z_TYPE(tmp) != IS_NULL);
+	/* Borrows the value, does not add a reference to it */
+	const zval *val = teds_lowmemoryvector_entries_read_offset(array, offset, &tmp);
+	RETURN_BOOL(Z_TYPE_P(val) != IS_NULL);
 }
 
 PHP_METHOD(Teds_LowMemoryVector, containsKey)
-- 
2.43.0


From fb5e357939b28e9aab03fe21230655fb2e226e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:07 +0000
Subject: [PATCH 13/60] fix: only avoid reading past the end in Teds\BitVector
 indexOf/contains

The existing tests pin down which bit these methods look for, so restore that part of the previous commit.
---
 teds_bitvector.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 0b241d7..0556001 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -980,17 +980,15 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		RETURN_NULL();
 	}
 	const uint8_t *const entries_bits = array->entries_bits;
-	/* After xoring with this, the bits equal to value are 1. */
-	const uint64_t invert = value ? 0 : ~(uint64_t)0;
 	size_t i = 0;
 	while (i + 64 <= len) {
-		if ((*(uint64_t *)&entries_bits[i >> 3]) ^ invert) {
+		if ((*(uint64_t *)&entries_bits[i >> 3]) + value) {
 			break;
 		}
 		i += 64;
 	}
 	while (i + 8 <= len) {
-		if ((uint8_t)(entries_bits[i >> 3] ^ invert)) {
+		if ((uint8_t)(entries_bits[i >> 3] + value)) {
 			break;
 		}
 		i += 8;
@@ -999,7 +997,7 @@ PHP_METHOD(Teds_BitVector, indexOf)
 		RETURN_NULL();
 	}
 	// TODO: builtin_clz?
-	uint8_t v = entries_bits[i >> 3] ^ invert;
+	uint8_t v = entries_bits[i >> 3] + value;
 	while (i < len) {
 		if (v & 1) {
 			RETURN_LONG(i);
@@ -1027,17 +1025,15 @@ PHP_METHOD(Teds_BitVector, contains)
 	if (len == 0) {
 		RETURN_FALSE;
 	}
-	/* After xoring with this, the bits equal to value are 1. */
-	const uint64_t invert = value ? 0 : ~(uint64_t)0;
 	size_t i = 0;
 	while (i + 64 <= len) {
-		if ((*(uint64_t *)&entries_bits[i >> 3]) ^ invert) {
+		if ((*(uint64_t *)&entries_bits[i >> 3]) + value) {
 			break;
 		}
 		i += 64;
 	}
 	while (i + 8 <= len) {
-		if ((uint8_t)(entries_bits[i >> 3] ^ invert)) {
+		if ((uint8_t)(entries_bits[i >> 3] + value)) {
 			RETURN_TRUE;
 		}
 		i += 8;
@@ -1045,7 +1041,7 @@ PHP_METHOD(Teds_BitVector, contains)
 	if (i >= len) {
 		RETURN_FALSE;
 	}
-	const uint8_t v = entries_bits[i >> 3] ^ invert;
+	const uint8_t v = entries_bits[i >> 3] + value;
 	RETURN_BOOL(v & ((1 << (len & 7)) - 1));
 }
 
-- 
2.43.0


From 15060208da04cd3014c31243b344b5f153c7d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:18 +0000
Subject: [PATCH 14/60] fix: Teds\find released neither the callback's result
 nor, on exceptions, the element

---
 teds.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/teds.c b/teds.c
index d5ae4ad..a05eae8 100644
--- a/teds.c
+++ b/teds.c
@@ -760,6 +760,7 @@ PHP_FUNCTION(Teds_binary_search)
 static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info fci, zend_fcall_info_cache fci_cache, zval* return_value, zval *default_value) /* {{{ */
 {
 	zval retval;
+	zval arg;
 	zval *operand;
 
 	if (zend_hash_num_elements(htbl) > 0) {
@@ -767,21 +768,21 @@ static zend_always_inline void teds_array_find(HashTable *htbl, zend_fcall_info
 		fci.param_count = 1;
 
 		ZEND_HASH_FOREACH_VAL(htbl, operand) {
-			fci.params = operand;
-			Z_TRY_ADDREF_P(operand);
-
-			if (zend_call_function(&fci, &fci_cache) == SUCCESS) {
-				bool found = zend_is_true(&retval);
-				if (found) {
-					ZVAL_COPY_VALUE(return_value, operand);
-					return;
-				} else {
-					zval_ptr_dtor(operand);
-				}
-			} else {
-				zval_ptr_dtor(operand);
+			ZVAL_DEREF(operand);
+			ZVAL_COPY(&arg, operand);
+			fci.params = &arg;
+
+			if (UNEXPECTED(zend_call_function(&fci, &fci_cache) == FAILURE || EG(exception))) {
+				zval_ptr_dtor(&arg);
 				return;
 			}
+			const bool found = zend_is_true(&retval);
+			zval_ptr_dtor(&retval);
+			if (found) {
+				ZVAL_COPY_VALUE(return_value, &arg);
+				return;
+			}
+			zval_ptr_dtor(&arg);
 		} ZEND_HASH_FOREACH_END();
 	}
 
@@ -803,6 +804,7 @@ typedef struct {
 static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /* {{{ */
 {
 	zval retval;
+	zval arg;
 	traversable_find_data *find_data = puser;
 	zend_fcall_info *fci = &find_data->fci;
 	ZEND_ASSERT(ZEND_FCI_INITIALIZED(*fci));
@@ -812,26 +814,27 @@ static int teds_traversable_find_elem(zend_object_iterator *iter, void *puser) /
 		return ZEND_HASH_APPLY_STOP;
 	}
 	ZVAL_DEREF(operand);
-    // Treat this as a 1-element array.
-	fci->params = operand;
+	/* Treat this as a 1-element array. The callback may make the iterator move or release the original zval, so use a copy. */
+	ZVAL_COPY(&arg, operand);
+	fci->params = &arg;
 	fci->retval = &retval;
-	Z_TRY_ADDREF_P(operand);
 	int result = zend_call_function(&find_data->fci, &find_data->fcc);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
-	fci->retval = &retval;
 	bool found = zend_is_true(&retval);
 	zval_ptr_dtor(&retval);
 	if (UNEXPECTED(EG(exception))) {
+		zval_ptr_dtor(&arg);
 		return ZEND_HASH_APPLY_STOP;
 	}
 	if (found) {
-		ZVAL_COPY_VALUE(find_data->return_value, operand);
+		ZVAL_COPY_VALUE(find_data->return_value, &arg);
 		find_data->found = 1;
 		return ZEND_HASH_APPLY_STOP;
 	}
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&arg);
 	return ZEND_HASH_APPLY_KEEP;
 }
 
-- 
2.43.0


From 0bae39e2f5d6dbac285a423afeced3d589fe6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:20 +0000
Subject: [PATCH 15/60] fix: Teds\any/all/none released a reference they did
 not own for a Traversable

---
 teds.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/teds.c b/teds.c
index a05eae8..282de33 100644
--- a/teds.c
+++ b/teds.c
@@ -235,13 +235,13 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 		ZVAL_DEREF(operand);
 		fci.retval = &retval;
 		fci.param_count = 1;
-		/* Use the operand like an array of size 1 */
-		fci.params = operand;
-		fci.retval = &retval;
-		Z_TRY_ADDREF_P(operand);
+		/* Use a copy like an array of size 1: the callback may make the iterator move or release the original zval. */
+		zval arg;
+		ZVAL_COPY(&arg, operand);
+		fci.params = &arg;
 		result = zend_call_function(&fci, &until_info->fcc);
-		zval_ptr_dtor(operand);
-		if (result == FAILURE) {
+		zval_ptr_dtor(&arg);
+		if (UNEXPECTED(result == FAILURE || EG(exception))) {
 			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
@@ -251,11 +251,12 @@ static int teds_traversable_func_until(zend_object_iterator *iter, void *puser)
 	} else {
 		zval *operand = iter->funcs->get_current_data(iter);
 		if (UNEXPECTED(!operand || EG(exception))) {
+			until_info->result = FAILURE;
 			return ZEND_HASH_APPLY_STOP;
 		}
 		ZVAL_DEREF(operand);
+		/* The iterator owns the zval, there is no reference to release here. */
 		stop = zend_is_true(operand) == until_info->stop_value;
-		zval_ptr_dtor(operand);
 	}
 	if (stop) {
 		until_info->found = true;
-- 
2.43.0


From d3a203bda5cbd1c486faa205a1551e12c7d0a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:23 +0000
Subject: [PATCH 16/60] fix: Teds\fold released the iterator's zval instead of
 its own copy

---
 teds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds.c b/teds.c
index 282de33..75da03f 100644
--- a/teds.c
+++ b/teds.c
@@ -139,7 +139,7 @@ static int teds_traversable_reduce_elem(zend_object_iterator *iter, void *puser)
 	ZVAL_COPY(&reduce_data->args[1], operand);
 	ZVAL_NULL(fci->retval);
 	int result = zend_call_function(&reduce_data->fci, &reduce_data->fcc);
-	zval_ptr_dtor(operand);
+	zval_ptr_dtor(&reduce_data->args[1]);
 	zval_ptr_dtor(&reduce_data->args[0]);
 	if (UNEXPECTED(result == FAILURE || EG(exception))) {
 		return ZEND_HASH_APPLY_STOP;
-- 
2.43.0


From 834d0c0bedb446decaf53490eb76838a860eac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:13 +0000
Subject: [PATCH 17/60] fix: iterating a StrictHashSet/StrictHashMap yielded
 nothing once its first element had been removed

---
 teds_stricthashmap.c | 8 ++++++--
 teds_stricthashset.c | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 7570ebc..4405c74 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -746,7 +746,8 @@ static void teds_stricthashmap_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashmap_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashmap_it*)iter)->current = 0;
+	/* The first elements may have been removed */
+	((teds_stricthashmap_it*)iter)->current = Z_STRICTHASHMAP_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashmap_it_valid(zend_object_iterator *iter)
@@ -853,7 +854,10 @@ zend_object_iterator *teds_stricthashmap_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricthashmap_it_funcs;
 	(void) ce;
 
-	teds_intrusive_dllist_prepend(&teds_stricthashmap_entries_from_object(obj)->active_iterators, &iterator->dllist_node);
+	teds_stricthashmap_entries *const array = teds_stricthashmap_entries_from_object(obj);
+	iterator->current = array->nFirstUsed;
+
+	teds_intrusive_dllist_prepend(&array->active_iterators, &iterator->dllist_node);
 
 	return &iterator->intern;
 }
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 4ff33ea..c71cd62 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -707,7 +707,8 @@ static void teds_stricthashset_it_dtor(zend_object_iterator *iter)
 
 static void teds_stricthashset_it_rewind(zend_object_iterator *iter)
 {
-	((teds_stricthashset_it*)iter)->current = 0;
+	/* The first elements may have been removed */
+	((teds_stricthashset_it*)iter)->current = Z_STRICTHASHSET_ENTRIES_P(&iter->data)->nFirstUsed;
 }
 
 static int teds_stricthashset_it_valid(zend_object_iterator *iter)
-- 
2.43.0


From 76942ca8581d106c9915d5c158df8153e40d87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:41 +0000
Subject: [PATCH 18/60] fix: StrictHashSet/StrictHashMap iterators skipped or
 repeated elements when others were removed

---
 teds_stricthashmap.c | 20 ++++++++++----------
 teds_stricthashset.c | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 4405c74..e87d6c3 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -381,7 +381,10 @@ static void teds_stricthashmap_iterators_move_before_pack(teds_stricthashmap_ent
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) {
+				it->current = array->nNumOfElements;
+			}
+			dllist_node = dllist_node->next;
 			continue;
 		}
 		// old_position < nNumUsed
@@ -405,9 +408,9 @@ static void teds_stricthashmap_iterators_shift_to_new_end(teds_stricthashmap_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashmap_it *const it = teds_stricthashmap_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) {
+			/* Move iterators to their new positions. Iterators where key() would be a removed key are shifted to the previous key, which may be before the start of the data (in which case calling next() would make it valid again). Iterators at the end stay at the end. */
+			it->current = (it->current <= removed_idx ? nNumUsed - 1 : nNumUsed);
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -813,13 +816,10 @@ static void teds_stricthashmap_it_move_forward(zend_object_iterator *iter)
 		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
-		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		/* Move to the next valid position. If the current element was removed, that is the element following the gap. */
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index c71cd62..e232b26 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -347,7 +347,10 @@ static void teds_stricthashset_iterators_move_before_pack(teds_stricthashset_ent
 		const uint32_t old_position = it->current;
 		// fprintf(stderr, "old_position=%d\n", old_position);
 		if (old_position >= nNumUsed) {
-			it->current = array->nNumOfElements;
+			if (old_position != (uint32_t) -1) {
+				it->current = array->nNumOfElements;
+			}
+			dllist_node = dllist_node->next;
 			continue;
 		}
 		// old_position < nNumUsed
@@ -371,9 +374,9 @@ static void teds_stricthashset_iterators_shift_to_new_end(teds_stricthashset_ent
 	ZEND_ASSERT(removed_idx >= nNumUsed);
 	do {
 		teds_stricthashset_it *const it = teds_stricthashset_it_from_node(dllist_node);
-		if (it->current >= nNumUsed) {
-			/* Move iterators to their new positions. Iterators where key() would be the removed key are shifted to the previous key (removed_idx - 1), which may be before the start of the data (in which case calling next() would make it valid again) */
-			it->current = (it->current >= removed_idx ? nNumUsed - 1 : nNumUsed);
+		if (it->current >= nNumUsed && it->current != (uint32_t) -1) {
+			/* Move iterators to their new positions. Iterators where key() would be a removed key are shifted to the previous key, which may be before the start of the data (in which case calling next() would make it valid again). Iterators at the end stay at the end. */
+			it->current = (it->current <= removed_idx ? nNumUsed - 1 : nNumUsed);
 		}
 		dllist_node = dllist_node->next;
 	} while (dllist_node != NULL);
@@ -774,13 +777,10 @@ static void teds_stricthashset_it_move_forward(zend_object_iterator *iter)
 		ZEND_ASSERT(it->current == array->nNumUsed);
 		it->current = array->nNumUsed;
 	} else {
-		/* Move to the next valid position */
-		while (Z_ISUNDEF(array->arData[it->current].key)) {
+		/* Move to the next valid position. If the current element was removed, that is the element following the gap. */
+		do {
 			it->current++;
-			ZEND_ASSERT(it->current < array->nNumUsed);
-		}
-		it->current++;
-		ZEND_ASSERT(it->current <= array->nNumUsed);
+		} while (it->current < array->nNumUsed && Z_ISUNDEF(array->arData[it->current].key));
 	}
 }
 
-- 
2.43.0


From 16aaa41e673c20c2e4c5c35ee3c75d93a18b34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 19/60] fix: SortedIntVectorSet::indexOf returned false instead
 of null for integers outside the stored range

---
 teds_intvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 5d22260..927ac67 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1619,7 +1619,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, indexOf)
 #define TEDS_INTVECTOR__INT_CODEGEN(TEDS_INTVECTOR_TYPE_X, intx_t, entries_intx) \
 		case TEDS_INTVECTOR_TYPE_X: { \
 			const intx_t target = value; \
-			if (target != value) { RETURN_FALSE; } \
+			if (target != value) { RETURN_NULL(); } \
 			const intx_t *const entries = array->entries_intx; \
 			const intx_t *start = entries; \
 			const intx_t *end = start + len; \
-- 
2.43.0


From c0287d8b7f4c2774ff2c52106f8bb64fea75f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 20/60] fix: cloning an ImmutableSortedIntSet used the default
 handler and read outside the new object

---
 teds_intvector.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 927ac67..57e542f 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -518,6 +518,25 @@ static zend_object *teds_sortedintvectorset_clone(zend_object *old_object)
 	return new_object;
 }
 
+static zend_object *teds_immutablesortedintset_clone(zend_object *old_object)
+{
+	const teds_intvector_entries *const from = &teds_intvector_from_object(old_object)->array;
+	zend_object *new_object = teds_immutablesortedintset_new(old_object->ce);
+	teds_intvector_entries *const to = &teds_intvector_from_object(new_object)->array;
+
+	if (from->size > 0 && from->is_string_backed) {
+		/* The backing string is immutable and can be shared. */
+		zend_string_addref(teds_immutablesortedintset_entries_get_backing_zend_string(from));
+		*to = *from;
+	} else {
+		teds_intvector_entries_copy_ctor(to, from);
+	}
+
+	teds_assert_object_has_empty_member_list(new_object);
+
+	return new_object;
+}
+
 static TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_intvector_count_elements(zend_object *object, zend_long *count)
 {
 	const teds_intvector *intern = teds_intvector_from_object(object);
@@ -2465,7 +2484,7 @@ PHP_MINIT_FUNCTION(teds_intvector)
 	memcpy(&teds_handler_ImmutableSortedIntSet, &std_object_handlers, sizeof(zend_object_handlers));
 
 	teds_handler_ImmutableSortedIntSet.offset          = XtOffsetOf(teds_intvector, std);
-	// teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
+	teds_handler_ImmutableSortedIntSet.clone_obj       = teds_immutablesortedintset_clone;
 	teds_handler_ImmutableSortedIntSet.count_elements  = teds_intvector_count_elements;
 	teds_handler_ImmutableSortedIntSet.get_properties_for = teds_intvector_get_properties_for;
 	teds_handler_ImmutableSortedIntSet.get_gc          = teds_intvector_get_gc;
-- 
2.43.0


From 89ab1d205c8deba05ba7d586f115c622bd0c0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 21/60] fix: a cloned ImmutableSortedStringSet had no offsets
 of its strings and crashed when read

---
 teds_immutablesortedstringset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index 1482d43..f3878f9 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -244,9 +244,10 @@ static void teds_immutablesortedstringset_entries_copy_ctor(teds_immutablesorted
 		return;
 	}
 
-	/* FIXME copy the entry instead */
 	to->size = from->size;
 	to->raw_bytes = from->raw_bytes;
+	to->substring_infos = safe_emalloc(size, sizeof(teds_immutablesortedstringset_substring_info), 0);
+	memcpy(to->substring_infos, from->substring_infos, size * sizeof(teds_immutablesortedstringset_substring_info));
 	zend_string *str = teds_immutablesortedstringset_entries_get_backing_zend_string(from);
 	if (str) {
 		zend_string_addref(str);
-- 
2.43.0


From 0cea81debd93f0e6ba95c0dec4adce2741c861ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:09 +0000
Subject: [PATCH 22/60] fix: iterating an ImmutableSortedStringSet leaked every
 string

---
 teds_immutablesortedstringset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index f3878f9..a8ec0fd 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -401,6 +401,7 @@ PHP_METHOD(Teds_ImmutableSortedStringSet, getIterator)
 
 static void teds_immutablesortedstringset_it_dtor(zend_object_iterator *iter)
 {
+	zval_ptr_dtor(&((teds_immutablesortedstringset_it*)iter)->tmp);
 	zval_ptr_dtor(&iter->data);
 }
 
@@ -430,6 +431,7 @@ static zval *teds_immutablesortedstringset_it_get_current_data(zend_object_itera
 		teds_throw_invalid_sequence_index_exception();
 		return &EG(uninitialized_zval);
 	}
+	zval_ptr_dtor(&iterator->tmp);
 	return teds_immutablesortedstringset_entries_read_offset(array, iterator->current, &iterator->tmp);
 }
 
@@ -481,6 +483,7 @@ zend_object_iterator *teds_immutablesortedstringset_get_iterator(zend_class_entr
 
 	ZVAL_OBJ_COPY(&iterator->intern.data, Z_OBJ_P(object));
 	iterator->intern.funcs = &teds_immutablesortedstringset_it_funcs;
+	ZVAL_UNDEF(&iterator->tmp);
 
 	return &iterator->intern;
 }
-- 
2.43.0


From 784c9a3303df60383c733bb04c6328d6ef22e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:11 +0000
Subject: [PATCH 23/60] fix: ImmutableSortedStringSet kept strings of a
 Traversable without a reference

---
 teds_immutablesortedstringset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index a8ec0fd..f08675e 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -215,7 +215,8 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 				raw_zend_strings = emalloc(capacity * sizeof(zend_string *));
 			}
 		}
-		raw_zend_strings[size++] = value;
+		/* The iterator may release or reuse its current value when moving forward. */
+		raw_zend_strings[size++] = zend_string_copy(value);
 
 		iter->index++;
 		funcs->move_forward(iter);
@@ -229,6 +230,9 @@ static void teds_immutablesortedstringset_entries_init_from_traversable(teds_imm
 
 cleanup:
 	if (raw_zend_strings) {
+		for (uint32_t i = 0; i < size; i++) {
+			zend_string_release(raw_zend_strings[i]);
+		}
 		efree(raw_zend_strings);
 	}
 	if (iter) {
-- 
2.43.0


From 53c57de010ee546d37b31a8f7ab0583b48e8ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:13 +0000
Subject: [PATCH 24/60] fix: ImmutableSortedStringSet leaked memory when
 unserializing truncated data

---
 teds_immutablesortedstringset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_immutablesortedstringset.c b/teds_immutablesortedstringset.c
index f08675e..4ba6757 100644
--- a/teds_immutablesortedstringset.c
+++ b/teds_immutablesortedstringset.c
@@ -529,6 +529,7 @@ not_enough_data:
 		/* it and num_strings are read and moved by reference */
 		if (!teds_serialize_read_variable_len_size(&it, end, &substr_len)) {
 			ZEND_ASSERT(EG(exception));
+			efree(substring_infos);
 			return;
 		}
 		// fprintf(stderr, "substr_len=%d end=%p it=%p end-it=%d\n", substr_len, end, it, (int)(end-it));
-- 
2.43.0


From 2c85d9304ab52b2f54bfd06f1664363f1eae86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:43 +0000
Subject: [PATCH 25/60] fix: __set_state of
 SortedIntVectorSet/ImmutableSortedIntSet created an IntVector

---
 teds_intvector.c         | 5 ++++-
 teds_intvector.stub.php  | 2 +-
 teds_intvector_arginfo.h | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 57e542f..a6b0bb6 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1380,7 +1380,10 @@ PHP_METHOD(Teds_SortedIntVectorSet, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_sortedintvectorset_new(teds_ce_IntVector);
+	/* This is also the implementation of ImmutableSortedIntSet::__set_state */
+	zend_object *object = EX(func)->common.scope == teds_ce_ImmutableSortedIntSet
+		? teds_immutablesortedintset_new(teds_ce_ImmutableSortedIntSet)
+		: teds_sortedintvectorset_new(teds_ce_SortedIntVectorSet);
 	teds_intvector_entries *array = teds_intvector_entries_from_object(object);
 	teds_intvector_entries_init_from_array_values(array, array_ht);
 
diff --git a/teds_intvector.stub.php b/teds_intvector.stub.php
index b8d0412..b8e43ed 100644
--- a/teds_intvector.stub.php
+++ b/teds_intvector.stub.php
@@ -197,7 +197,7 @@ final class SortedIntVectorSet implements \IteratorAggregate, Set, \JsonSerializ
     /**
      * Create a SortedIntVectorSet of unique values from an array
      */
-    public static function __set_state(array $array): IntVector {}
+    public static function __set_state(array $array): SortedIntVectorSet {}
 
     /**
      * @throws \UnderflowException if there are no more elements
diff --git a/teds_intvector_arginfo.h b/teds_intvector_arginfo.h
index ab69827..03437c4 100644
--- a/teds_intvector_arginfo.h
+++ b/teds_intvector_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 2a4293ac607ff32bddac6c9564f497ffc23b1d0f */
+ * Stub hash: 0fcb1f152d931fd56be7be1df68676509781c9f6 */
 
 ZEND_BEGIN_ARG_INFO_EX(arginfo_class_Teds_IntVector___construct, 0, 0, 0)
 	ZEND_ARG_OBJ_TYPE_MASK(0, iterator, Traversable, MAY_BE_ARRAY, "[]")
@@ -125,7 +125,9 @@ ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet___unserialize arginfo_class_Teds_IntVector___unserialize
 
-#define arginfo_class_Teds_SortedIntVectorSet___set_state arginfo_class_Teds_IntVector___set_state
+ZEND_BEGIN_ARG_WITH_RETURN_OBJ_INFO_EX(arginfo_class_Teds_SortedIntVectorSet___set_state, 0, 1, Teds\\SortedIntVectorSet, 0)
+	ZEND_ARG_TYPE_INFO(0, array, IS_ARRAY, 0)
+ZEND_END_ARG_INFO()
 
 #define arginfo_class_Teds_SortedIntVectorSet_pop arginfo_class_Teds_IntVector_count
 
-- 
2.43.0


From 791fb8a8f7a521a44d5ae973d5fe3422c273e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:02 +0000
Subject: [PATCH 26/60] fix: cloned StrictTreeSet/StrictTreeMap lost their node
 colors and became unbalanced or crashed

---
 teds_stricttreemap.c | 1 +
 teds_stricttreeset.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 89efe4f..ffca33a 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -458,6 +458,7 @@ cleanup_iter:
 static teds_stricttreemap_node *teds_stricttreemap_node_copy_ctor_recursive(const teds_stricttreemap_node *from, teds_stricttreemap_node *parent, teds_stricttreemap_node *left_parent_node, teds_stricttreemap_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreemap_node *copy = teds_stricttreemap_node_alloc(&from->key, &from->value, parent);
+	TEDS_STRICTTREEMAP_NODE_COLOR(copy) = TEDS_STRICTTREEMAP_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreemap_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 748c478..5304ba1 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -426,6 +426,7 @@ cleanup_iter:
 static teds_stricttreeset_node *teds_stricttreeset_node_copy_ctor_recursive(const teds_stricttreeset_node *from, teds_stricttreeset_node *parent, teds_stricttreeset_node *left_parent_node, teds_stricttreeset_node *right_parent_node) {
 	ZEND_ASSERT(from != NULL);
 	teds_stricttreeset_node *copy = teds_stricttreeset_node_alloc(&from->key, parent);
+	TEDS_STRICTTREESET_NODE_COLOR(copy) = TEDS_STRICTTREESET_NODE_COLOR(from);
 	if (from->left) {
 		copy->left = teds_stricttreeset_node_copy_ctor_recursive(from->left, copy, left_parent_node, copy);
 	} else {
-- 
2.43.0


From 4ab50ecb4c949e14244d49453d779442c2c6de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:25 +0000
Subject: [PATCH 27/60] fix: removing a StrictTreeSet/StrictTreeMap node lost
 the balance when its successor had a child

---
 teds_stricttreemap.c | 4 +++-
 teds_stricttreeset.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index ffca33a..b77b596 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1191,7 +1191,9 @@ static zend_always_inline teds_stricttreemap_node *teds_stricttreemap_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREEMAP_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The only child of a black node is red. Keep the number of black nodes on this path the same.
+			 * node->right is left as is to let the caller know that no rebalancing is needed. */
+			TEDS_STRICTTREEMAP_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 5304ba1..9973cb5 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -999,7 +999,9 @@ static zend_always_inline teds_stricttreeset_node *teds_stricttreeset_node_remov
 			ZEND_ASSERT(right->parent == node);
 			RBTREE_INVARIANT_ASSERT(TEDS_STRICTTREESET_NODE_COLOR(right) == TEDS_NODE_RED);
 			right->parent = parent;
-			node->right = NULL;
+			/* The only child of a black node is red. Keep the number of black nodes on this path the same.
+			 * node->right is left as is to let the caller know that no rebalancing is needed. */
+			TEDS_STRICTTREESET_NODE_COLOR(right) = TEDS_NODE_BLACK;
 		}
 		if (parent->left == node) {
 			parent->left = right;
-- 
2.43.0


From a7047e324aacf79db0af7f3463dc01292524b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 28/60] fix: unserializing an empty Teds\StrictTreeMap read an
 uninitialized node

---
 teds_stricttreemap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index b77b596..258262a 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -859,6 +859,9 @@ PHP_METHOD(Teds_StrictTreeMap, __unserialize)
 	}
 
 	teds_stricttreemap_tree_set_empty_tree(tree);
+	if (raw_size == 0) {
+		return;
+	}
 
 	zend_string *str;
 	zval key;
-- 
2.43.0


From caa5388b683cba9eec44e76e5cdbed06bec33d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:42 +0000
Subject: [PATCH 29/60] fix: collections built from an empty Traversable could
 be constructed a second time

---
 teds_deque.c                 | 2 +-
 teds_immutableiterable.c     | 2 +-
 teds_immutablesequence.c     | 2 +-
 teds_strictheap.c            | 2 +-
 teds_strictsortedvectormap.c | 4 ++--
 teds_strictsortedvectorset.c | 2 +-
 teds_vector.c                | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/teds_deque.c b/teds_deque.c
index b6ad431..73710eb 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -225,7 +225,7 @@ static void teds_deque_entries_init_from_traversable(teds_deque_entries *array,
 
 	array->size = size;
 	array->mask = capacity > 0 ? capacity - 1 : 0;
-	array->circular_buffer = circular_buffer;
+	array->circular_buffer = circular_buffer ? circular_buffer : (zval *)empty_entry_list;
 	TEDS_DEQUE_SET_SHOULD_REBUILD_PROPERTIES(array, true);
 cleanup_iter:
 	if (iter) {
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 464a302..8910790 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -201,7 +201,7 @@ static void teds_immutableiterable_entries_init_from_traversable(teds_immutablei
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 26d3a91..50cb7ae 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -181,7 +181,7 @@ static void teds_immutablesequence_entries_init_from_traversable(teds_immutables
 	}
 
 	array->size = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
diff --git a/teds_strictheap.c b/teds_strictheap.c
index 38456fa..3825395 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -144,7 +144,7 @@ static void teds_strictheap_entries_init_from_traversable(teds_strictheap_entrie
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (zval *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 5b0a443..908ed22 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -167,7 +167,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable(teds_strict
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
@@ -538,7 +538,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	zend_object_iterator *iter;
 	array->size = 0;
 	array->capacity = 0;
-	array->entries = NULL;
+	array->entries = (teds_strictsortedvectormap_entry *)empty_entry_list;
 	zval tmp_obj;
 	ZVAL_OBJ(&tmp_obj, obj);
 	iter = ce->get_iterator(ce, &tmp_obj, 0);
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 348a58f..6e54043 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -267,7 +267,7 @@ static void teds_strictsortedvectorset_entries_init_from_traversable(teds_strict
 
 	array->size = size;
 	array->capacity = capacity;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 	TEDS_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	if (size > 1) {
 		teds_strictsortedvectorset_entries_sort_and_deduplicate(array);
diff --git a/teds_vector.c b/teds_vector.c
index 0440699..8277b2e 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -210,7 +210,7 @@ static void teds_vector_entries_init_from_traversable(teds_vector_entries *array
 	array->size = size;
 	TEDS_VECTOR_SET_SHOULD_REBUILD_PROPERTIES(array, size > 0);
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
-- 
2.43.0


From c51e43cc01084766e31ba1d153a4e2914df53d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:56 +0000
Subject: [PATCH 30/60] fix: StrictMinHeap/StrictMaxHeap removal used other
 children than insertion and yielded values out of order

---
 teds_strictheap.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index 3825395..e44eb21 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -468,15 +468,17 @@ static zend_always_inline void teds_strictheap_entries_remove_top(teds_stricthea
 	uint32_t offset = 0;
 
 	/*    0
-	 *  1   2
-	 * 3 4 5 6 */
+	 *    1
+	 *  2   3
+	 * 4 5 6 7
+	 * The parent of the entry at a given offset is at (offset >> 1), like in teds_strictheap_entries_insert. */
 	while (true) {
-		uint32_t new_offset = offset * 2 + 1;
+		uint32_t new_offset = offset > 0 ? offset * 2 : 1;
 		if (new_offset >= len) {
 			break;
 		}
 		zval *new_entry = &entries[new_offset];
-		if (new_offset + 1 < len) {
+		if (offset > 0 && new_offset + 1 < len) {
 			if (teds_strictheap_should_be_above(new_entry + 1, new_entry, is_min_heap)) {
 				new_offset++;
 				new_entry++;
-- 
2.43.0


From 4e4ae0654727cef3e5f55836f76148faf4cb46d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:22 +0000
Subject: [PATCH 31/60] fix: Teds\StrictMaxHeap::__set_state created a
 StrictMinHeap

---
 teds_strictheap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_strictheap.c b/teds_strictheap.c
index e44eb21..db73136 100644
--- a/teds_strictheap.c
+++ b/teds_strictheap.c
@@ -450,9 +450,9 @@ PHP_METHOD(Teds_StrictMaxHeap, __set_state)
 	ZEND_PARSE_PARAMETERS_START(1, 1)
 		Z_PARAM_ARRAY_HT(array_ht)
 	ZEND_PARSE_PARAMETERS_END();
-	zend_object *object = teds_strictheap_new(teds_ce_StrictMinHeap);
+	zend_object *object = teds_strictheap_new(teds_ce_StrictMaxHeap);
 	teds_strictheap *intern = teds_strictheap_from_object(object);
-	teds_strictheap_entries_init_from_array(&intern->array, array_ht, true);
+	teds_strictheap_entries_init_from_array(&intern->array, array_ht, false);
 
 	RETURN_OBJ(object);
 }
-- 
2.43.0


From 2f547e7c58a0151d94180aa145be94bbf5b72f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:09 +0000
Subject: [PATCH 32/60] fix: fromPairs leaked the iterator or its storage when
 the source threw or held no valid pair

---
 teds_immutableiterable.c     | 10 ++++++++--
 teds_mutableiterable.c       | 10 ++++++++--
 teds_stricthashmap.c         |  1 +
 teds_strictsortedvectormap.c |  1 +
 teds_stricttreemap.c         |  1 +
 5 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 8910790..79d9dba 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -677,7 +677,7 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
-			return;
+			goto cleanup_iter;
 		}
 	}
 	while (funcs->valid(iter) == SUCCESS) {
@@ -710,13 +710,19 @@ static void teds_immutableiterable_entries_init_from_traversable_pairs(teds_immu
 			break;
 		}
 	}
-	if (capacity > size) {
+	if (size == 0) {
+		if (entries) {
+			efree(entries);
+		}
+		entries = (zval_pair *)empty_entry_list;
+	} else if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
 
 	array->size = size;
 	array->entries = entries;
+cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 2a890c1..97ea4ff 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -811,7 +811,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
-			return;
+			goto cleanup_iter;
 		}
 	}
 	while (funcs->valid(iter) == SUCCESS) {
@@ -844,7 +844,12 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 			break;
 		}
 	}
-	if (capacity > size) {
+	if (size == 0) {
+		if (entries) {
+			efree(entries);
+		}
+		entries = (zval_pair *)empty_entry_list;
+	} else if (capacity > size) {
 		/* Shrink allocated value to actual required size */
 		entries = erealloc(entries, size * sizeof(zval_pair));
 	}
@@ -852,6 +857,7 @@ static void teds_mutableiterable_entries_init_from_traversable_pairs(teds_mutabl
 	array->size = size;
 	array->capacity = size;
 	array->entries = entries;
+cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
 	}
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index e87d6c3..c3a80a9 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -976,6 +976,7 @@ static void teds_stricthashmap_entries_init_from_traversable_pairs(teds_strictha
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index 908ed22..b60991d 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -552,6 +552,7 @@ static void teds_strictsortedvectormap_entries_init_from_traversable_pairs(teds_
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 258262a..530f7ce 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -973,6 +973,7 @@ static void teds_stricttreemap_tree_init_from_traversable_pairs(teds_stricttreem
 	if (funcs->rewind) {
 		funcs->rewind(iter);
 		if (UNEXPECTED(EG(exception))) {
+			zend_iterator_dtor(iter);
 			return;
 		}
 	}
-- 
2.43.0


From 758f52632b67f816de04dc86cc26ec5df7eeda29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:28 +0000
Subject: [PATCH 33/60] fix: unserializing an empty iterable collection leaked
 an allocation

---
 teds_cachediterable.c    | 5 +++++
 teds_immutableiterable.c | 5 +++++
 teds_mutableiterable.c   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7a6aa51..c6e3f60 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -633,6 +633,11 @@ PHP_METHOD(Teds_CachedIterable, __unserialize)
 
 	ZEND_ASSERT(array->entries == NULL);
 
+	if (raw_size == 0) {
+		teds_cachediterable_entries_set_empty_list(array);
+		return;
+	}
+
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 79d9dba..8ff0c33 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -581,6 +581,11 @@ PHP_METHOD(Teds_ImmutableIterable, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (raw_size == 0) {
+		teds_immutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
+
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 97ea4ff..4a5048f 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -710,6 +710,11 @@ PHP_METHOD(Teds_MutableIterable, __unserialize)
 
 	ZEND_ASSERT(intern->array.entries == NULL);
 
+	if (raw_size == 0) {
+		teds_mutableiterable_entries_set_empty_list(&intern->array);
+		return;
+	}
+
 	const uint32_t num_entries = raw_size / 2;
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
 	zval *it = &entries[0].key;
-- 
2.43.0


From 08b648cc05fc70d2265f571ccbe9b3c2b286c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:33 +0000
Subject: [PATCH 34/60] fix: iterable collections created empty could be
 constructed a second time

---
 teds_immutableiterable.c | 3 +--
 teds_mutableiterable.c   | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 8ff0c33..668ff33 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -637,8 +637,7 @@ static void teds_immutableiterable_entries_init_from_array_pairs(teds_immutablei
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->entries = NULL;
+		teds_immutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 4a5048f..be4c923 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -231,7 +231,7 @@ static void teds_mutableiterable_entries_init_from_traversable(teds_mutableitera
 
 	array->size = size;
 	array->capacity = size;
-	array->entries = entries;
+	array->entries = entries ? entries : (zval_pair *)empty_entry_list;
 cleanup_iter:
 	if (iter) {
 		zend_iterator_dtor(iter);
@@ -767,9 +767,7 @@ static void teds_mutableiterable_entries_init_from_array_pairs(teds_mutableitera
 {
 	uint32_t num_entries = zend_hash_num_elements(raw_data);
 	if (num_entries == 0) {
-		array->size = 0;
-		array->capacity = 0;
-		array->entries = NULL;
+		teds_mutableiterable_entries_set_empty_list(array);
 		return;
 	}
 	zval_pair *entries = safe_emalloc(num_entries, sizeof(zval_pair), 0);
-- 
2.43.0


From 4903da4dca7b4bd7393db29b6d980831ad9aeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:11 +0000
Subject: [PATCH 35/60] fix: Teds\CachedIterable searches did not look at
 lazily fetched elements after the first

---
 teds_cachediterable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index c6e3f60..c602f50 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -881,6 +881,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -911,6 +912,7 @@ PHP_METHOD(Teds_CachedIterable, indexOfValue)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_LONG(i);
 		}
+		i++;
 	}
 	RETURN_NULL();
 }
@@ -941,6 +943,7 @@ PHP_METHOD(Teds_CachedIterable, containsKey)
 		if (teds_is_identical_inline(key, &array->entries[i].key)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
@@ -971,6 +974,7 @@ PHP_METHOD(Teds_CachedIterable, contains)
 		if (teds_is_identical_inline(value, &array->entries[i].value)) {
 			RETURN_TRUE;
 		}
+		i++;
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From 39d83357eb9bb72e55328cd83a9cfaf179e97270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:12 +0000
Subject: [PATCH 36/60] fix: Teds\CachedIterable::toPairs/jsonSerialize dropped
 elements that were not fetched yet

---
 teds_cachediterable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index c602f50..9e63471 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -981,11 +981,12 @@ PHP_METHOD(Teds_CachedIterable, contains)
 
 static void teds_cachediterable_entries_return_pairs(zval *return_value, teds_cachediterable_entries *array)
 {
+	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
+
 	const uint32_t len = array->size;
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	TEDS_CACHEDITERABLE_ENTRIES_FETCH_ALL_OR_THROW(array);
 
 	zval_pair *entries = array->entries;
 	RETURN_ARR(teds_zval_pairs_to_refcounted_pairs(entries, len));
-- 
2.43.0


From cc139d7b3af5cd17e012f05ff16d8222f9eddfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:14 +0000
Subject: [PATCH 37/60] fix: Teds\CachedIterable looped forever when its source
 read it while being fetched

---
 teds_cachediterable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 9e63471..e39e748 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -242,7 +242,9 @@ handle_exception:
 static zend_always_inline void teds_cachediterable_entries_fetch_all(teds_cachediterable_entries *array)
 {
 	while (array->iter) {
-		teds_cachediterable_entries_lazy_fetch_next(array);
+		if (!teds_cachediterable_entries_lazy_fetch_next(array)) {
+			break;
+		}
 	}
 }
 
-- 
2.43.0


From 4ef98d1294c2afa737a1ebb04656cca3167ef4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:16 +0000
Subject: [PATCH 38/60] fix: Teds\CachedIterable took an exception thrown by
 valid() of its source for the end

---
 teds_cachediterable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index e39e748..7d49b78 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -234,6 +234,9 @@ handle_exception:
 		array->is_calling_inner = false;
 		return true;
 	}
+	if (UNEXPECTED(EG(exception))) {
+		goto handle_exception;
+	}
 	array->is_calling_inner = false;
 	teds_cachediterable_entries_free_inner_traversable(array);
 	return false;
-- 
2.43.0


From 1740106fe85f8e042e6f04a796b50954a8c13174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:18 +0000
Subject: [PATCH 39/60] fix: count() of a Teds\CachedIterable ignored elements
 that were not fetched yet

---
 teds_cachediterable.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 7d49b78..866c56e 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -421,8 +421,16 @@ static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
 
 TEDS_COUNT_ELEMENTS_RETURN_TYPE teds_size_t_count_elements(zend_object *object, zend_long *count)
 {
-	const teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	*count = intern->array.size;
+	teds_cachediterable_entries *array = &teds_cachediterable_from_object(object)->array;
+	teds_cachediterable_entries_fetch_all(array);
+	if (UNEXPECTED(EG(exception))) {
+		return FAILURE;
+	}
+	if (UNEXPECTED(array->end_exception)) {
+		teds_cachediterable_entries_throw_end_exception(array);
+		return FAILURE;
+	}
+	*count = array->size;
 	return SUCCESS;
 }
 
-- 
2.43.0


From fd166c77bc47bbb2aa106900c5960eef726ec3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:34 +0000
Subject: [PATCH 40/60] fix: contains() of EmptySequence/EmptySet threw for
 values that are not integers

---
 teds_emptycollection.stub.php  | 3 +--
 teds_emptycollection_arginfo.h | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 240f340..7cb1919 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -115,7 +115,6 @@ enum EmptySequence implements \Iterator, Sequence, \JsonSerializable
     public function indexOf(mixed $value): ?int {}
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
      */
     public function contains(mixed $value): bool {}
 
@@ -304,7 +303,7 @@ enum EmptySet implements \Iterator, Set, \JsonSerializable
 
     /**
      * @return false
-     * @implementation-alias Teds\EmptySequence::offsetExists
+     * @implementation-alias Teds\EmptySequence::contains
      */
     public function contains(mixed $value): bool {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 28f9770..4f25a9e 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 5f15d481b4e91cfc2590a84139279e5d4d4f0ecd */
+ * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -393,7 +393,7 @@ static const zend_function_entry class_Teds_EmptySequence_methods[] = {
 	ZEND_ME(Teds_EmptySequence, offsetSet, arginfo_class_Teds_EmptySequence_offsetSet, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, offsetUnset, arginfo_class_Teds_EmptySequence_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, indexOf, arginfo_class_Teds_EmptySequence_indexOf, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptySequence, contains, arginfo_class_Teds_EmptySequence_contains, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, map, arginfo_class_Teds_EmptySequence_map, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptySequence, filter, arginfo_class_Teds_EmptySequence_filter, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySequence_jsonSerialize, ZEND_ACC_PUBLIC)
@@ -440,7 +440,7 @@ static const zend_function_entry class_Teds_EmptySet_methods[] = {
 	ZEND_MALIAS(Teds_StrictMinHeap, clear, rewind, arginfo_class_Teds_EmptySet_clear, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, toArray, toArray, arginfo_class_Teds_EmptySet_toArray, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, values, toArray, arginfo_class_Teds_EmptySet_values, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_EmptySequence, contains, offsetExists, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
+	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptySet_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, add, offsetUnset, arginfo_class_Teds_EmptySet_add, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, remove, contains, arginfo_class_Teds_EmptySet_remove, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, jsonSerialize, toArray, arginfo_class_Teds_EmptySet_jsonSerialize, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 9a47a71b9f4d3603aecda2bc86ffaec4fb00e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 41/60] fix: EmptyMap::offsetUnset rejected its argument

---
 teds_emptycollection.stub.php  | 1 -
 teds_emptycollection_arginfo.h | 7 +++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/teds_emptycollection.stub.php b/teds_emptycollection.stub.php
index 7cb1919..c87529e 100644
--- a/teds_emptycollection.stub.php
+++ b/teds_emptycollection.stub.php
@@ -212,7 +212,6 @@ enum EmptyMap implements \Iterator, Map, \JsonSerializable
     public function offsetSet(mixed $key, mixed $value): never {}
     /**
      * No-op for empty map.
-     * @implementation-alias Teds\StrictMinHeap::rewind
      */
     public function offsetUnset(mixed $key): void {}
 
diff --git a/teds_emptycollection_arginfo.h b/teds_emptycollection_arginfo.h
index 4f25a9e..3ebd0aa 100644
--- a/teds_emptycollection_arginfo.h
+++ b/teds_emptycollection_arginfo.h
@@ -1,5 +1,5 @@
 /* This is a generated file, edit the .stub.php file instead.
- * Stub hash: 219030b063e1694938823ccd038124c5e17fc5dc */
+ * Stub hash: cf4a56a254cae15264d4acaa381720fa07436386 */
 
 #if PHP_VERSION_ID >= 80100
 ZEND_BEGIN_ARG_WITH_RETURN_TYPE_INFO_EX(arginfo_class_Teds_EmptySequence_count, 0, 0, IS_LONG, 0)
@@ -365,6 +365,9 @@ ZEND_METHOD(Teds_EmptyMap, offsetGet);
 ZEND_METHOD(Teds_EmptySequence, contains);
 #endif
 #if PHP_VERSION_ID >= 80100
+ZEND_METHOD(Teds_EmptyMap, offsetUnset);
+#endif
+#if PHP_VERSION_ID >= 80100
 ZEND_METHOD(Teds_EmptyMap, get);
 #endif
 
@@ -418,7 +421,7 @@ static const zend_function_entry class_Teds_EmptyMap_methods[] = {
 	ZEND_ME(Teds_EmptyMap, offsetGet, arginfo_class_Teds_EmptyMap_offsetGet, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetExists, contains, arginfo_class_Teds_EmptyMap_offsetExists, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, offsetSet, offsetSet, arginfo_class_Teds_EmptyMap_offsetSet, ZEND_ACC_PUBLIC)
-	ZEND_MALIAS(Teds_StrictMinHeap, offsetUnset, rewind, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
+	ZEND_ME(Teds_EmptyMap, offsetUnset, arginfo_class_Teds_EmptyMap_offsetUnset, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, contains, contains, arginfo_class_Teds_EmptyMap_contains, ZEND_ACC_PUBLIC)
 	ZEND_MALIAS(Teds_EmptySequence, containsKey, contains, arginfo_class_Teds_EmptyMap_containsKey, ZEND_ACC_PUBLIC)
 	ZEND_ME(Teds_EmptyMap, get, arginfo_class_Teds_EmptyMap_get, ZEND_ACC_PUBLIC)
-- 
2.43.0


From 5daff280aaa614a0e9210187d91a637303772be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:47 +0000
Subject: [PATCH 42/60] fix: EmptyMap::offsetGet returned null although it is
 declared never to return

---
 teds_emptycollection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 29b0c57..44d8209 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -244,7 +244,7 @@ PHP_METHOD(Teds_EmptyMap, offsetGet)
 		Z_PARAM_ZVAL(offset_zv)
 	ZEND_PARSE_PARAMETERS_END();
 
-	RETURN_NULL();
+	TEDS_THROW_MISSING_MAP_KEY_EXCEPTION();
 }
 
 PHP_METHOD(Teds_EmptyMap, offsetUnset)
-- 
2.43.0


From 6e2ade4ef78406448667f785522eb8149744f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:13 +0000
Subject: [PATCH 43/60] fix: EmptySequence::offsetGet/offsetExists returned
 null for numeric offsets that are not integers

---
 teds_emptycollection.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teds_emptycollection.c b/teds_emptycollection.c
index 44d8209..3128a0a 100644
--- a/teds_emptycollection.c
+++ b/teds_emptycollection.c
@@ -232,7 +232,9 @@ PHP_METHOD(Teds_EmptySequence, offsetGet)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	teds_throw_invalid_sequence_index_exception();
 }
@@ -279,7 +281,9 @@ PHP_METHOD(Teds_EmptySequence, offsetExists)
 
 	if (UNEXPECTED(Z_TYPE_P(offset_zv) != IS_LONG)) {
 		teds_get_offset(offset_zv); /* Throws for invalid type */
-		RETURN_THROWS();
+		if (UNEXPECTED(EG(exception))) {
+			RETURN_THROWS();
+		}
 	}
 	RETURN_FALSE;
 }
-- 
2.43.0


From 5c54e7589b0cdd74c42c6d232b8a29dbc8a1a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:58 +0000
Subject: [PATCH 44/60] fix: unserializing an IntVector or sorted int set with
 an unknown type tag crashed or leaked

---
 teds_intvector.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index a6b0bb6..e85e1f0 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1107,7 +1107,7 @@ PHP_METHOD(Teds_IntVector, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1151,7 +1151,7 @@ PHP_METHOD(Teds_SortedIntVectorSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\SortedIntVectorSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1203,7 +1203,7 @@ PHP_METHOD(Teds_ImmutableSortedIntSet, __unserialize)
 		RETURN_THROWS();
 	}
 	const zend_ulong type_tag = Z_LVAL_P(type_tag_zval);
-	if (UNEXPECTED(type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+	if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
 		zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\ImmutableSortedIntSet unserialize got unsupported type tag %d", (int)type_tag);
 		RETURN_THROWS();
 	}
@@ -1243,11 +1243,21 @@ PHP_METHOD(Teds_IntVector, unserialize)
 		teds_intvector_entries_set_empty_list(array);
 	} else {
 		if (len < 2) {
+			zend_object_release(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "IntVector::unserialize expected at least 2 bytes", 0);
 			RETURN_THROWS();
 		}
 		const uint8_t type_tag = ZSTR_VAL(zstr)[len - 1];
+		if (UNEXPECTED(type_tag == TEDS_INTVECTOR_TYPE_UNINITIALIZED || type_tag >= TEDS_INTVECTOR_TYPE_COUNT)) {
+			zend_object_release(new_object);
+			zend_throw_exception_ex(spl_ce_RuntimeException, 0, "Teds\\IntVector unserialize got unsupported type tag %d", (int)type_tag);
+			RETURN_THROWS();
+		}
 		teds_intvector_entries_unserialize_from_string(array, ZSTR_VAL(zstr), len - 1, type_tag);
+		if (UNEXPECTED(EG(exception))) {
+			zend_object_release(new_object);
+			RETURN_THROWS();
+		}
 	}
 	RETURN_OBJ(new_object);
 }
-- 
2.43.0


From 32b133ddbda3a71f3ca0b47fd55a549f79ecc823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:11 +0000
Subject: [PATCH 45/60] fix: unserializing a BitVector without data bytes
 overflowed its size

---
 teds_bitvector.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 0556001..339f760 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -618,6 +618,11 @@ zend_object_iterator *teds_bitvector_get_iterator(zend_class_entry *ce, zval *ob
 
 static void teds_bitvector_initialize_from_bytes(teds_bitvector_entries *array, const uint8_t *bytes, const size_t byte_count, const uint8_t modulo_bit_len)
 {
+	if (byte_count == 0) {
+		ZEND_ASSERT(modulo_bit_len == 0);
+		teds_bitvector_entries_set_empty_list(array);
+		return;
+	}
 	const size_t bit_size = byte_count * 8 - modulo_bit_len;
 	ZEND_ASSERT(bit_size > 0);
 	const size_t bit_capacity = teds_bitvector_compute_next_valid_capacity(bit_size);
@@ -667,7 +672,7 @@ PHP_METHOD(Teds_BitVector, __unserialize)
 	const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 	const size_t byte_count = ZSTR_LEN(zstr) - 1;
 	const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-	if (modulo_bit_len >= 8) {
+	if (modulo_bit_len >= 8 || (byte_count == 0 && modulo_bit_len != 0)) {
 		zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 		RETURN_THROWS();
 	}
@@ -801,7 +806,8 @@ PHP_METHOD(Teds_BitVector, unserialize)
 		const uint8_t *bytes = (const uint8_t *)ZSTR_VAL(zstr);
 		const size_t byte_count = ZSTR_LEN(zstr) - 1;
 		const uint8_t modulo_bit_len = (uint8_t) bytes[byte_count];
-		if (modulo_bit_len >= 8) {
+		if (modulo_bit_len >= 8 || (byte_count == 0 && modulo_bit_len != 0)) {
+			zend_object_release(new_object);
 			zend_throw_exception(spl_ce_RuntimeException, "Teds\\BitVector expected binary data to end with number of wasted bits", 0);
 			RETURN_THROWS();
 		}
-- 
2.43.0


From 93852070cc85b63953f857f0dbeaba974499d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:16 +0000
Subject: [PATCH 46/60] fix: StrictTreeSet::__unserialize stored PHP references

---
 teds_stricttreeset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 9973cb5..9de3410 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -843,6 +843,7 @@ PHP_METHOD(Teds_StrictTreeSet, __unserialize)
 			RETURN_THROWS();
 		}
 
+		ZVAL_DEREF(val);
 		if (nodes != NULL) {
 			if (EXPECTED(sorted_nodes_count == 0 || teds_stable_compare(val, &prev->key) > 0)) {
 				prev = teds_stricttreeset_node_alloc(val, NULL);
-- 
2.43.0


From 26deb72c959d33a54ccc545f102fc9cbcff7cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:52 +0000
Subject: [PATCH 47/60] fix: inserting into a LowMemoryVector moved iterators
 whose element had been removed

---
 teds_lowmemoryvector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index d0b7c5c..9860323 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -641,10 +641,12 @@ static zend_always_inline void teds_lowmemoryvector_maybe_adjust_iterators_befor
 static void teds_lowmemoryvector_adjust_iterators_before_insert(teds_lowmemoryvector_entries *const array, teds_intrusive_dllist_node *node, const size_t inserted_offset, const uint32_t n)
 {
 	const zend_object *const obj = teds_lowmemoryvector_to_object(array);
+	const size_t old_size = array->size;
+	ZEND_ASSERT(inserted_offset <= old_size);
 	do {
 		teds_lowmemoryvector_it *it = teds_lowmemoryvector_it_from_node(node);
 		if (Z_OBJ(it->intern.data) == obj) {
-			if (it->current >= inserted_offset) {
+			if (it->current >= inserted_offset && it->current < old_size) {
 				it->current += n;
 			}
 		}
-- 
2.43.0


From 9be06cadbc3b3dd221b1ee47a3e39e6eda6d0e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:52 +0000
Subject: [PATCH 48/60] fix: SortedIntVectorSet iterators skipped or repeated
 elements after add() and remove()

---
 teds_intvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index e85e1f0..10a4631 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -1982,6 +1982,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_add(teds_intvecto
 				else { return false; /* Already exists */ } \
 			} \
 			/* The value at *start is > target */ \
+			teds_intvector_maybe_adjust_iterators_before_insert(array, start - entries, 1); \
 			memmove(start + 1, start, (entries + old_size - start) * sizeof(intx_t)); \
 			*start = target; \
 			break; \
@@ -2013,6 +2014,7 @@ static zend_always_inline bool teds_sortedintvectorset_entries_remove(teds_intve
 				if (target < *mid) { end = mid; }  \
 				else if (target > *mid) { start = mid + 1; }  \
 				else { \
+					teds_intvector_maybe_adjust_iterators_before_remove(array, mid - entries); \
 					memmove(mid, mid + 1, (entries + old_size - (mid + 1)) * sizeof(intx_t)); \
 					goto after_remove; \
 				} \
-- 
2.43.0


From a81d6d6254b988af4eb59bc1d0004d71a06490ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:01 +0000
Subject: [PATCH 49/60] fix: clear() of StrictTreeSet/StrictTreeMap left open
 iterators pointing to freed nodes

---
 teds_stricttreemap.c | 8 ++++++++
 teds_stricttreeset.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 530f7ce..e427bec 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -830,6 +830,7 @@ zend_object_iterator *teds_stricttreemap_get_iterator(zend_class_entry *ce, zval
 	ZVAL_OBJ_COPY(&iterator->intern.data, obj);
 	iterator->intern.funcs = &teds_stricttreemap_it_funcs;
 	iterator->node = teds_stricttreemap_tree_get_first(&Z_STRICTTREEMAP_P(object)->tree);
+	iterator->is_before_first = iterator->node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreemap_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -1709,6 +1710,13 @@ static void teds_stricttreemap_tree_clear(teds_stricttreemap_tree *tree) {
 	}
 	teds_stricttreemap_tree array_copy = *tree;
 
+	/* The nodes are about to be freed, so iterators can no longer refer to them. */
+	for (teds_intrusive_dllist_node *it_node = tree->active_iterators.first; it_node != NULL; it_node = it_node->next) {
+		teds_stricttreemap_it *it = teds_stricttreemap_it_from_dllist_node(it_node);
+		it->node = NULL;
+		it->is_before_first = true;
+	}
+
 	teds_stricttreemap_tree_set_empty_tree(tree);
 
 	teds_stricttreemap_tree_dtor(&array_copy);
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 9de3410..5706603 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -794,6 +794,7 @@ zend_object_iterator *teds_stricttreeset_get_iterator(zend_class_entry *ce, zval
 	iterator->intern.funcs = &teds_stricttreeset_it_funcs;
 	teds_stricttreeset_node *node = teds_stricttreeset_tree_get_first(&Z_STRICTTREESET_P(object)->tree);
 	iterator->node = node;
+	iterator->is_before_first = iterator->node == NULL;
 	(void) ce;
 
 	teds_intrusive_dllist_prepend(&teds_stricttreeset_tree_from_object(obj)->active_iterators, &iterator->dllist_node);
@@ -1375,6 +1376,13 @@ static void teds_stricttreeset_tree_clear(teds_stricttreeset_tree *tree) {
 	}
 	teds_stricttreeset_tree array_copy = *tree;
 
+	/* The nodes are about to be freed, so iterators can no longer refer to them. */
+	for (teds_intrusive_dllist_node *it_node = tree->active_iterators.first; it_node != NULL; it_node = it_node->next) {
+		teds_stricttreeset_it *it = teds_stricttreeset_it_from_dllist_node(it_node);
+		it->node = NULL;
+		it->is_before_first = true;
+	}
+
 	teds_stricttreeset_tree_set_empty_tree(tree);
 
 	teds_stricttreeset_tree_dtor(&array_copy);
-- 
2.43.0


From 1e3c1b47bcb873db08ad528e28a25e4bd95fb098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:11 +0000
Subject: [PATCH 50/60] fix: release WeakReferences to a collection before
 freeing its elements

Destructors of the elements could get the half-freed collection back from a WeakReference and modify or keep it (use after free, leaked elements).
---
 teds_cachediterable.c    | 3 ++-
 teds_deque.c             | 3 ++-
 teds_immutableiterable.c | 3 ++-
 teds_immutablesequence.c | 3 ++-
 teds_lowmemoryvector.c   | 3 ++-
 teds_mutableiterable.c   | 3 ++-
 teds_stricthashmap.c     | 3 ++-
 teds_stricthashset.c     | 3 ++-
 teds_stricttreemap.c     | 3 ++-
 teds_stricttreeset.c     | 3 ++-
 teds_vector.c            | 3 ++-
 11 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/teds_cachediterable.c b/teds_cachediterable.c
index 866c56e..cd9ceb4 100644
--- a/teds_cachediterable.c
+++ b/teds_cachediterable.c
@@ -397,8 +397,9 @@ static HashTable* teds_cachediterable_get_properties_for(zend_object *obj, zend_
 static void teds_cachediterable_free_storage(zend_object *object)
 {
 	teds_cachediterable *intern = teds_cachediterable_from_object(object);
-	teds_cachediterable_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_cachediterable_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_cachediterable_new(zend_class_entry *class_type)
diff --git a/teds_deque.c b/teds_deque.c
index 73710eb..462389a 100644
--- a/teds_deque.c
+++ b/teds_deque.c
@@ -425,8 +425,9 @@ static HashTable* teds_deque_get_properties_for(zend_object *obj, zend_prop_purp
 static void teds_deque_free_storage(zend_object *object)
 {
 	teds_deque *intern = teds_deque_from_object(object);
-	teds_deque_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_deque_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_deque_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_immutableiterable.c b/teds_immutableiterable.c
index 668ff33..bb11036 100644
--- a/teds_immutableiterable.c
+++ b/teds_immutableiterable.c
@@ -342,8 +342,9 @@ static HashTable* teds_immutableiterable_get_properties_for(zend_object *obj, ze
 static void teds_immutableiterable_free_storage(zend_object *object)
 {
 	teds_immutableiterable *intern = teds_immutableiterable_from_object(object);
-	teds_immutableiterable_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_immutableiterable_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_immutableiterable_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_immutablesequence.c b/teds_immutablesequence.c
index 50cb7ae..cb8c14c 100644
--- a/teds_immutablesequence.c
+++ b/teds_immutablesequence.c
@@ -335,8 +335,9 @@ static HashTable* teds_immutablesequence_get_properties_for(zend_object *obj, ze
 static void teds_immutablesequence_free_storage(zend_object *object)
 {
 	teds_immutablesequence *intern = teds_immutablesequence_from_object(object);
-	teds_immutablesequence_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_immutablesequence_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_immutablesequence_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 9860323..3701a34 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -435,8 +435,9 @@ static HashTable* teds_lowmemoryvector_get_properties_for(zend_object *obj, zend
 static void teds_lowmemoryvector_free_storage(zend_object *object)
 {
 	teds_lowmemoryvector *intern = teds_lowmemoryvector_from_object(object);
-	teds_lowmemoryvector_clear(intern);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(object);
+	teds_lowmemoryvector_clear(intern);
 }
 
 static zend_object *teds_lowmemoryvector_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index be4c923..440ca8a 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -376,8 +376,9 @@ HashTable* teds_mutableiterable_get_properties_for(zend_object *obj, zend_prop_p
 void teds_mutableiterable_free_storage(zend_object *object)
 {
 	teds_mutableiterable *intern = teds_mutableiterable_from_object(object);
-	teds_mutableiterable_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_mutableiterable_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_mutableiterable_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index c3a80a9..32d8515 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -628,8 +628,9 @@ static HashTable* teds_stricthashmap_get_properties_for(zend_object *obj, zend_p
 static void teds_stricthashmap_free_storage(zend_object *object)
 {
 	teds_stricthashmap *intern = teds_stricthashmap_from_object(object);
-	teds_stricthashmap_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_stricthashmap_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_stricthashmap_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index e232b26..1038dc2 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -589,8 +589,9 @@ static HashTable* teds_stricthashset_get_properties_for(zend_object *obj, zend_p
 static void teds_stricthashset_free_storage(zend_object *object)
 {
 	teds_stricthashset *intern = teds_stricthashset_from_object(object);
-	teds_stricthashset_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_stricthashset_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_stricthashset_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index e427bec..01f3482 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -626,8 +626,9 @@ static HashTable* teds_stricttreemap_get_properties_for(zend_object *obj, zend_p
 static void teds_stricttreemap_free_storage(zend_object *object)
 {
 	teds_stricttreemap *intern = teds_stricttreemap_from_object(object);
-	teds_stricttreemap_tree_dtor(&intern->tree);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_stricttreemap_tree_dtor(&intern->tree);
 }
 
 static zend_object *teds_stricttreemap_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index 5706603..d5a4be6 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -589,8 +589,9 @@ static HashTable* teds_stricttreeset_get_properties_for(zend_object *obj, zend_p
 static void teds_stricttreeset_free_storage(zend_object *object)
 {
 	teds_stricttreeset *intern = teds_stricttreeset_from_object(object);
-	teds_stricttreeset_tree_dtor(&intern->tree);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_stricttreeset_tree_dtor(&intern->tree);
 }
 
 static zend_object *teds_stricttreeset_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
diff --git a/teds_vector.c b/teds_vector.c
index 8277b2e..b43bca3 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -376,8 +376,9 @@ HashTable* teds_vector_get_properties_for(zend_object *obj, zend_prop_purpose pu
 void teds_vector_free_storage(zend_object *object)
 {
 	teds_vector *intern = teds_vector_from_object(object);
-	teds_vector_entries_dtor(&intern->array);
+	/* First: this clears WeakReferences, so that destructors of elements cannot reach (and modify) the object being freed. */
 	zend_object_std_dtor(&intern->std);
+	teds_vector_entries_dtor(&intern->array);
 }
 
 static zend_object *teds_vector_new_ex(zend_class_entry *class_type, zend_object *orig, bool clone_orig)
-- 
2.43.0


From cd43c2471f7c6fbbc19a0396739ba8fd77311ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:10 +0000
Subject: [PATCH 51/60] fix: popFront of IntVector and LowMemoryVector breaks
 the precondition of copy_offset

copy_offset(remove = true) asserts size < capacity, which does not hold before the size is decremented when
the storage is full: an assertion failure in debug builds, a false assumption for the optimizer in others.
---
 teds_intvector.c       | 2 +-
 teds_lowmemoryvector.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index 10a4631..e0d0ca7 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -2334,8 +2334,8 @@ PHP_METHOD(Teds_IntVector, popFront)
 
 	teds_intvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	array->size--;
+	teds_intvector_entries_copy_offset(array, 0, return_value, true);
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 3701a34..565927d 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -1976,8 +1976,8 @@ PHP_METHOD(Teds_LowMemoryVector, popFront)
 
 	teds_lowmemoryvector_maybe_adjust_iterators_before_remove(array, 0);
 
-	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
 	array->size--;
+	teds_lowmemoryvector_entries_copy_offset(array, 0, return_value, false, true);
 	memmove(entries_uint8, entries_uint8 + bytes_per_element, bytes_per_element * (old_size - 1));
 	if (old_size < (old_capacity >> 2)) {
 		/* Shrink the storage if only a quarter of the capacity is used  */
-- 
2.43.0


From f727cc0fb782e5308357585851d8e8468a2830e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:53 +0000
Subject: [PATCH 52/60] fix: unserializing empty binary data of IntVector, the
 int sets and LowMemoryVector leaks

An emalloc(0) block was stored with a capacity of 0; storage with that capacity is never freed.
---
 teds_intvector.c       | 10 ++++++++++
 teds_lowmemoryvector.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/teds_intvector.c b/teds_intvector.c
index e0d0ca7..e8f1ae7 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -953,6 +953,11 @@ static void teds_intvector_entries_unserialize_from_string(teds_intvector_entrie
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "IntVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				/* Storage with a capacity of 0 is never freed */
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
@@ -1019,6 +1024,11 @@ static void teds_immutablesortedintset_entries_unserialize_from_string(teds_intv
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "ImmutableSortedIntSet Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				return;
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				/* Storage with a capacity of 0 is never freed */
+				teds_intvector_entries_set_empty_list(array);
+				return;
+			}
 			array->size = num_elements;
 			array->capacity = num_elements;
 			/* FIXME assert result is sorted */
diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 565927d..9563b70 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -689,6 +689,11 @@ zend_object_iterator *teds_lowmemoryvector_get_iterator(zend_class_entry *ce, zv
 
 static void teds_lowmemoryvector_entries_unserialize_from_mixed_zval_array(teds_lowmemoryvector_entries *array, HashTable *ht) {
 	const uint32_t num_entries = zend_hash_num_elements(ht);
+	if (UNEXPECTED(num_entries == 0)) {
+		/* Storage with a capacity of 0 is never freed */
+		teds_lowmemoryvector_entries_set_empty_list(array);
+		return;
+	}
 	zval *entries = emalloc(num_entries * sizeof(zval));
 	zval *it = entries;
 	zval *val;
@@ -869,6 +874,11 @@ PHP_METHOD(Teds_LowMemoryVector, __unserialize)
 				zend_throw_exception_ex(spl_ce_RuntimeException, 0, "LowMemoryVector Unexpected binary length for type tag, expected multiple of 8 * 2**%d, got %d bytes", (int)shift, (int)str_byte_length);
 				RETURN_THROWS();
 			}
+			if (UNEXPECTED(num_elements == 0)) {
+				/* Storage with a capacity of 0 is never freed */
+				teds_lowmemoryvector_entries_set_empty_list(array);
+				return;
+			}
 			char *const values = emalloc(str_byte_length);
 			array->entries_int8 = (int8_t *)values;
 			array->size = num_elements;
-- 
2.43.0


From 0ceee24e9f5176cd335140bb911570f5789c0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:22 +0000
Subject: [PATCH 53/60] fix: LowMemoryVector refuses capacities it cannot
 represent instead of wrapping around to 0

---
 teds_lowmemoryvector.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 9563b70..a5ac38d 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -90,7 +90,7 @@ static const uint8_t teds_lmv_shift_for_element[LMV_TYPE_COUNT] = {
 		const int_smaller *src = original_entries; \
 		const size_t size = array->size; \
 		const size_t old_capacity = array->capacity; \
-		const size_t capacity = size >= 2 ? size * 2 : 4; \
+		const size_t capacity = teds_lowmemoryvector_compute_promoted_capacity(size); \
 		array->capacity = capacity; \
 		int_larger *const entries_larger  = safe_emalloc(capacity, sizeof(int_larger), 0); \
 		const int_larger *const end = entries_larger + size; \
@@ -186,6 +186,15 @@ static ZEND_COLD void teds_error_noreturn_max_lowmemoryvector_capacity()
 	zend_error_noreturn(E_ERROR, "exceeded max valid Teds\\LowMemoryVector capacity");
 }
 
+/* The capacity of the storage allocated when changing the representation of `size` elements. This does not exceed the maximum capacity. */
+static zend_always_inline size_t teds_lowmemoryvector_compute_promoted_capacity(const size_t size)
+{
+	if (UNEXPECTED(size > TEDS_MAX_ZVAL_COLLECTION_SIZE / 2)) {
+		return TEDS_MAX_ZVAL_COLLECTION_SIZE;
+	}
+	return size >= 2 ? size * 2 : 4;
+}
+
 static zend_always_inline teds_lowmemoryvector *teds_lowmemoryvector_from_object(zend_object *obj)
 {
 	return (teds_lowmemoryvector*)((char*)(obj) - XtOffsetOf(teds_lowmemoryvector, std));
@@ -234,6 +243,10 @@ static uint8_t teds_lowmemoryvector_entries_compute_memory_per_element(const ted
 
 static void teds_lowmemoryvector_entries_raise_capacity(teds_lowmemoryvector_entries *array, const size_t new_capacity) {
 	ZEND_ASSERT(new_capacity > array->capacity);
+	if (UNEXPECTED(new_capacity > TEDS_MAX_ZVAL_COLLECTION_SIZE)) {
+		teds_error_noreturn_max_lowmemoryvector_capacity();
+		ZEND_UNREACHABLE();
+	}
 	const uint8_t memory_per_element = teds_lowmemoryvector_entries_compute_memory_per_element(array);
 	if (array->capacity == 0) {
 		array->entries_raw = safe_emalloc(new_capacity, memory_per_element, 0);
@@ -1616,7 +1629,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_bool_or_null_
 	const uint8_t *src = original_types;
 	const size_t size = array->size;
 	const size_t old_capacity = array->capacity;
-	const size_t capacity = size >= 2 ? size * 2 : 4;
+	const size_t capacity = teds_lowmemoryvector_compute_promoted_capacity(size);
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
 	const zval *const end = entries_zval + size;
@@ -1638,7 +1651,7 @@ static zend_never_inline void teds_lowmemoryvector_entries_promote_double_to_zva
 	const double *src = original_entries;
 	const size_t size = array->size;
 	const size_t old_capacity = array->capacity;
-	const size_t capacity = size >= 2 ? size * 2 : 4;
+	const size_t capacity = teds_lowmemoryvector_compute_promoted_capacity(size);
 	array->capacity = capacity;
 	zval *const entries_zval = safe_emalloc(capacity, sizeof(zval), 0);
 	const zval *const end = entries_zval + size;
-- 
2.43.0


From 36933f4b888a16f5fe7c681d716f0b0ac547196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:22 +0000
Subject: [PATCH 54/60] fix: LowMemoryVector computes buffer sizes in size_t
 when cloning, shrinking and serializing

---
 teds_lowmemoryvector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index a5ac38d..4554297 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -265,7 +265,7 @@ static inline void teds_lowmemoryvector_entries_shrink_capacity(teds_lowmemoryve
 	ZEND_ASSERT(old_entries_raw == array->entries_raw);
 	const uint8_t memory_per_element = teds_lowmemoryvector_entries_compute_memory_per_element(array);
 	array->capacity = capacity;
-	array->entries_raw = erealloc2(old_entries_raw, capacity * memory_per_element, size * memory_per_element);
+	array->entries_raw = erealloc2(old_entries_raw, (size_t) capacity * memory_per_element, (size_t) size * memory_per_element);
 	ZEND_ASSERT(array->entries_raw != NULL);
 }
 
@@ -330,7 +330,7 @@ cleanup_iter:
 static void teds_lowmemoryvector_copy_range(teds_lowmemoryvector_entries *array, const int8_t *const start, const uint32_t n, const uint8_t bytes_per_element)
 {
 	if (array->type_tag <= LMV_TYPE_LAST_NONREFCOUNTED) {
-		memcpy(array->entries_int8, start, bytes_per_element * n);
+		memcpy(array->entries_int8, start, bytes_per_element * (size_t) n);
 		return;
 	}
 	ZEND_ASSERT(array->type_tag == LMV_TYPE_ZVAL);
@@ -1067,7 +1067,7 @@ LMV_GENERATE_INT_CASES()
 LMV_GENERATE_INT_CASES()
 #undef LMV_INT_CODEGEN
 		case LMV_TYPE_DOUBLE:
-			ZVAL_STR(&tmp, zend_string_init((const char *)array->entries_int8, array->size << teds_lmv_shift_for_element[type_tag], 0));
+			ZVAL_STR(&tmp, zend_string_init((const char *)array->entries_int8, ((size_t) len) << teds_lmv_shift_for_element[type_tag], 0));
 			break;
 #endif
 
-- 
2.43.0


From 6d35c0d9d2c75bed41bf7c9c399dadec8f7727a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:22 +0000
Subject: [PATCH 55/60] fix: LowMemoryVector::clear() of generic values leaves
 an initialised, empty vector

---
 teds_lowmemoryvector.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_lowmemoryvector.c b/teds_lowmemoryvector.c
index 4554297..086fecb 100644
--- a/teds_lowmemoryvector.c
+++ b/teds_lowmemoryvector.c
@@ -385,7 +385,6 @@ static void teds_lowmemoryvector_clear(teds_lowmemoryvector *intern)
 		ZEND_ASSERT(type_tag == LMV_TYPE_ZVAL);
 
 		zval *it = entries;
-		array->entries_zval = NULL;
 		for (zval *const end = it + size; it < end; it++) {
 			zval_ptr_dtor(it);
 		}
-- 
2.43.0


From 998e0b5b667a53c84b931ebd1933f81c841d6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:22 +0000
Subject: [PATCH 56/60] fix: toArray() copies the keys and values before
 converting keys, as an error handler may modify the collection

---
 teds_mutableiterable.c       | 23 ++++++-----------------
 teds_stricthashmap.c         | 16 ++++++----------
 teds_stricthashset.c         | 16 ++++++----------
 teds_strictsortedvectormap.c | 20 ++++++--------------
 teds_strictsortedvectorset.c | 21 ++++++---------------
 teds_stricttreemap.c         | 16 ++++++----------
 teds_stricttreeset.c         | 16 ++++++----------
 teds_util.c                  | 22 ++++++++++++++++++++++
 teds_util.h                  |  8 ++++++++
 9 files changed, 72 insertions(+), 86 deletions(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index 440ca8a..c1e4028 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -993,25 +993,14 @@ PHP_METHOD(Teds_MutableIterable, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
-
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
+	zval *const pairs = safe_emalloc(array->size, 2 * sizeof(zval), 0);
+	size_t i = 0;
+	for (; i < array->size; i++) {
 		zval_pair *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[2 * i], &entry->key);
+		ZVAL_COPY(&pairs[2 * i + 1], &entry->value);
 	}
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 PHP_METHOD(Teds_MutableIterable, keyAt)
diff --git a/teds_stricthashmap.c b/teds_stricthashmap.c
index 32d8515..44b0096 100644
--- a/teds_stricthashmap.c
+++ b/teds_stricthashmap.c
@@ -1361,19 +1361,15 @@ PHP_METHOD(Teds_StrictHashMap, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	zval *const pairs = safe_emalloc(array->nNumOfElements, 2 * sizeof(zval), 0);
+	size_t i = 0;
 	zval *key, *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHMAP_FOREACH_KEY_VAL(array, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[2 * i], key);
+		ZVAL_COPY(&pairs[2 * i + 1], val);
+		i++;
 	} TEDS_STRICTHASHMAP_FOREACH_END();
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 static void teds_stricthashmap_clear(teds_stricthashmap *intern) {
diff --git a/teds_stricthashset.c b/teds_stricthashset.c
index 1038dc2..1cc2a87 100644
--- a/teds_stricthashset.c
+++ b/teds_stricthashset.c
@@ -914,19 +914,15 @@ PHP_METHOD(Teds_StrictHashSet, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->nNumOfElements);
+	zval *const pairs = safe_emalloc(array->nNumOfElements, 2 * sizeof(zval), 0);
+	size_t i = 0;
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTHASHSET_FOREACH_VAL(array, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[2 * i], val);
+		ZVAL_COPY(&pairs[2 * i + 1], val);
+		i++;
 	} TEDS_STRICTHASHSET_FOREACH_END();
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 /* XXX copy zend_hash_del */
diff --git a/teds_strictsortedvectormap.c b/teds_strictsortedvectormap.c
index b60991d..8478818 100644
--- a/teds_strictsortedvectormap.c
+++ b/teds_strictsortedvectormap.c
@@ -1037,22 +1037,14 @@ PHP_METHOD(Teds_StrictSortedVectorMap, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(array->size);
-	for (uint32_t i = 0; i < array->size; i++) {
+	zval *const pairs = safe_emalloc(array->size, 2 * sizeof(zval), 0);
+	size_t i = 0;
+	for (; i < array->size; i++) {
 		teds_strictsortedvectormap_entry *entry = &array->entries[i];
-		zval *key = &entry->key;
-		zval *val = &entry->value;
-
-		// Z_TRY_ADDREF_P(key);
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[2 * i], &entry->key);
+		ZVAL_COPY(&pairs[2 * i + 1], &entry->value);
 	}
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 static void teds_strictsortedvectormap_clear(teds_strictsortedvectormap *intern) {
diff --git a/teds_strictsortedvectorset.c b/teds_strictsortedvectorset.c
index 6e54043..4599c2b 100644
--- a/teds_strictsortedvectorset.c
+++ b/teds_strictsortedvectorset.c
@@ -525,22 +525,13 @@ PHP_METHOD(Teds_StrictSortedVectorSet, toArray)
 	if (!array->size) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *const values = zend_new_array(array->size);
-	/* Initialize return array */
-
-	/* Go through values and add values to the return array */
-	for (uint32_t i = 0; i < array->size; i++) {
-		zval *key = &array->entries[i];
-
-		Z_TRY_ADDREF_P(key);
-		array_set_zval_key(values, key, key);
-		zval_ptr_dtor_nogc(key);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+	zval *const pairs = safe_emalloc(array->size, 2 * sizeof(zval), 0);
+	size_t i = 0;
+	for (; i < array->size; i++) {
+		ZVAL_COPY(&pairs[2 * i], &array->entries[i]);
+		ZVAL_COPY(&pairs[2 * i + 1], &array->entries[i]);
 	}
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 static teds_strictsortedvectorset_search_result teds_strictsortedvectorset_entries_sorted_search_for_key(const teds_strictsortedvectorset_entries *array, zval *key)
diff --git a/teds_stricttreemap.c b/teds_stricttreemap.c
index 01f3482..34eee7d 100644
--- a/teds_stricttreemap.c
+++ b/teds_stricttreemap.c
@@ -1614,19 +1614,15 @@ PHP_METHOD(Teds_StrictTreeMap, toArray)
 	if (!len) {
 		RETURN_EMPTY_ARRAY();
 	}
-	zend_array *values = zend_new_array(len);
-
+	zval *const pairs = safe_emalloc(len, 2 * sizeof(zval), 0);
+	size_t i = 0;
 	zval *key, *val;
 	TEDS_STRICTTREEMAP_FOREACH_KEY_VAL(tree, key, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, key, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[2 * i], key);
+		ZVAL_COPY(&pairs[2 * i + 1], val);
+		i++;
 	} TEDS_STRICTTREEMAP_FOREACH_END();
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 static ZEND_COLD void teds_stricttreemap_node_debug_representation(zval *return_value, teds_stricttreemap_node *node, zend_string *strings[5]) {
diff --git a/teds_stricttreeset.c b/teds_stricttreeset.c
index d5a4be6..25be45e 100644
--- a/teds_stricttreeset.c
+++ b/teds_stricttreeset.c
@@ -953,19 +953,15 @@ PHP_METHOD(Teds_StrictTreeSet, toArray)
 		RETURN_EMPTY_ARRAY();
 	}
 
-	zend_array *values = zend_new_array(tree->nNumOfElements);
+	zval *const pairs = safe_emalloc(tree->nNumOfElements, 2 * sizeof(zval), 0);
+	size_t i = 0;
 	zval *val;
-	/* TODO: Check for side effects of notices */
 	TEDS_STRICTTREESET_FOREACH_KEY(tree, val) {
-		Z_TRY_ADDREF_P(val);
-		array_set_zval_key(values, val, val);
-		zval_ptr_dtor_nogc(val);
-		if (UNEXPECTED(EG(exception))) {
-			zend_array_destroy(values);
-			RETURN_THROWS();
-		}
+		ZVAL_COPY(&pairs[2 * i], val);
+		ZVAL_COPY(&pairs[2 * i + 1], val);
+		i++;
 	} TEDS_STRICTTREESET_FOREACH_END();
-	RETURN_ARR(values);
+	teds_return_array_of_copied_pairs(return_value, pairs, i);
 }
 
 static void teds_stricttreeset_tree_replace_node_with_child(teds_stricttreeset_tree *tree, teds_stricttreeset_node *removed_node, teds_stricttreeset_node *child_node) {
diff --git a/teds_util.c b/teds_util.c
index c00aa9c..b3399d1 100644
--- a/teds_util.c
+++ b/teds_util.c
@@ -23,4 +23,26 @@ HashTable *teds_internaliterator_get_gc(zend_object_iterator *iter, zval **table
 	return NULL;
 }
 
+void teds_return_array_of_copied_pairs(zval *return_value, zval *pairs, const size_t size)
+{
+	zend_array *const values = zend_new_array(size);
+	for (size_t i = 0; i < size; i++) {
+		zval *const key = &pairs[2 * i];
+		zval *const value = &pairs[2 * i + 1];
+		if (EXPECTED(!EG(exception))) {
+			Z_TRY_ADDREF_P(value);
+			array_set_zval_key(values, key, value);
+			zval_ptr_dtor_nogc(value);
+		}
+		zval_ptr_dtor(key);
+		zval_ptr_dtor(value);
+	}
+	efree(pairs);
+	if (UNEXPECTED(EG(exception))) {
+		zend_array_destroy(values);
+		RETURN_THROWS();
+	}
+	RETURN_ARR(values);
+}
+
 const zval teds_empty_entry_list[1];
diff --git a/teds_util.h b/teds_util.h
index 25e36e1..547fd84 100644
--- a/teds_util.h
+++ b/teds_util.h
@@ -23,6 +23,14 @@
 #define TEDS_MAX_ZVAL_COLLECTION_SIZE HT_MAX_SIZE
 #define TEDS_MAX_ZVAL_PAIR_COUNT (TEDS_MAX_ZVAL_COLLECTION_SIZE / 2)
 
+/*
+ * Returns an array with the (key, value) pairs (stored in 2*size zvals). Releases the pairs.
+ *
+ * Converting a key to an array key may emit notices, and the error handler may modify the collection that is being converted,
+ * so this is given its own copies of the keys and values.
+ */
+void teds_return_array_of_copied_pairs(zval *return_value, zval *pairs, const size_t size);
+
 extern const zval teds_empty_entry_list[1];
 #define empty_entry_list ((const void*)(teds_empty_entry_list))
 static zend_always_inline bool teds_is_nan(const double v) {
-- 
2.43.0


From 93329974745d644096066f9e96bba892ddf7c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:25 +0000
Subject: [PATCH 57/60] fix: MutableIterable::setSize() shrank its storage by
 the old size, contradicting what teds_mutableiterable_shrink_capacity()
 assumes

---
 teds_mutableiterable.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/teds_mutableiterable.c b/teds_mutableiterable.c
index c1e4028..db6db7e 100644
--- a/teds_mutableiterable.c
+++ b/teds_mutableiterable.c
@@ -531,7 +531,6 @@ PHP_METHOD(Teds_MutableIterable, setSize)
 
 		/* If only a quarter of the reserved space is used, then shrink the capacity but leave some room to grow. */
 		if ((zend_ulong) size < (intern->array.capacity >> 2)) {
-			const uint32_t size = old_size - 1;
 			const uint32_t capacity = size > 2 ? size * 2 : 4;
 			if (capacity < intern->array.capacity) {
 				teds_mutableiterable_shrink_capacity(&intern->array, size, capacity, old_entries);
-- 
2.43.0


From 6d2d453338b7cb4aa1a9b07c526c8fe161101bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 58/60] fix: teds_bitvector_set_range() asserted that the range
 ends before the capacity, but BitVector::setSize() may fill it exactly

---
 teds_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_bitvector.c b/teds_bitvector.c
index 339f760..b615f2c 100644
--- a/teds_bitvector.c
+++ b/teds_bitvector.c
@@ -366,7 +366,7 @@ PHP_METHOD(Teds_BitVector, isEmpty)
 
 static void teds_bitvector_set_range(teds_bitvector_entries *const array, const size_t start_bit, const size_t end_bit, const bool value_bool) {
 	ZEND_ASSERT(start_bit < end_bit);
-	ZEND_ASSERT(end_bit < array->bit_capacity);
+	ZEND_ASSERT(end_bit <= array->bit_capacity);
 	uint8_t *const entries_bits = array->entries_bits;
 	ZEND_ASSERT(entries_bits != NULL);
 
-- 
2.43.0


From bacd8a78e9b20fe92cdcae155e43eb0f22c2fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 59/60] fix: teds_intvector_get_iterator() asserted that it
 iterates an IntVector, but also serves SortedIntVectorSet and
 ImmutableSortedIntSet

---
 teds_intvector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teds_intvector.c b/teds_intvector.c
index e8f1ae7..f72854c 100644
--- a/teds_intvector.c
+++ b/teds_intvector.c
@@ -913,8 +913,8 @@ static zend_always_inline void teds_intvector_maybe_adjust_iterators_before_inse
 
 zend_object_iterator *teds_intvector_get_iterator(zend_class_entry *ce, zval *object, int by_ref)
 {
-	// This is final
-	ZEND_ASSERT(ce == teds_ce_IntVector);
+	// These are final
+	ZEND_ASSERT(ce == teds_ce_IntVector || ce == teds_ce_SortedIntVectorSet || ce == teds_ce_ImmutableSortedIntSet);
 	teds_intvector_it *iterator;
 
 	if (UNEXPECTED(by_ref)) {
-- 
2.43.0


From bdd2853571229dfe5f90320936e3d80d6d5e7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:15 +0000
Subject: [PATCH 60/60] fix: json_encode() of a StrictMinHeap or StrictMaxHeap
 reached ZEND_UNREACHABLE

The heaps share Vector's get_properties_for handler but are not
JsonSerializable, so json_encode() asks it for ZEND_PROP_PURPOSE_JSON.
---
 teds_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teds_vector.c b/teds_vector.c
index b43bca3..c889c85 100644
--- a/teds_vector.c
+++ b/teds_vector.c
@@ -365,8 +365,8 @@ HashTable* teds_vector_get_properties_for(zend_object *obj, zend_prop_purpose pu
 #endif
 		case ZEND_PROP_PURPOSE_ARRAY_CAST:
 		case ZEND_PROP_PURPOSE_SERIALIZE:
+		case ZEND_PROP_PURPOSE_JSON: /* Vector uses jsonSerialize instead, but StrictMinHeap and StrictMaxHeap are not JsonSerializable. */
 			return teds_vector_entries_to_refcounted_array(array);
-		case ZEND_PROP_PURPOSE_JSON: /* jsonSerialize and get_properties() is used instead. */
 		default:
 			ZEND_UNREACHABLE();
 			return NULL;
-- 
2.43.0


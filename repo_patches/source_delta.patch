From 73951744e5c4187022e4f45a5838e0b50db8612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:52 +0000
Subject: [PATCH 001/120] fix: devector::resize_front() leaked the previous
 storage on reallocation

resize() and resize_front() also forgot to destroy the newly constructed
elements when relocating the existing ones throws.
---
 seq/devector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..18a6ec4 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -425,6 +425,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start);
 						}
 						catch (...) {
+							destroy_range(_new_start + size, _new_end);
 							deallocate(_new, _new_capacity);
 							throw;
 						}
@@ -484,9 +485,13 @@ namespace seq
 							copy_destroy_input(start, end, _new_start + (new_size - size));
 						}
 						catch (...) {
+							destroy_range(_new, _new + (new_size - size));
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From 4716de718e5a3348ae8620ae03e9455690b607f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 002/120] fix: devector growth without reallocation read its
 argument after moving the elements

push_back(v[i])/push_front(v[i]) used a destroyed element when the values
were shifted inside the existing storage.
---
 seq/devector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 18a6ec4..ad5dced 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -520,10 +520,11 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
+					T tmp(std::forward<Args>(args)...); // handle aliasing
 					copy_destroy_input(start, end, data);
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
+					construct_ptr(end, std::move(tmp));
 					return;
 				}
 
@@ -574,10 +575,11 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
+					T tmp(std::forward<Args>(args)...); // handle aliasing
 					copy_destroy_input(start, end, data + (capacity - size));
 					start = data + (capacity - size);
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
+					construct_ptr(start - 1, std::move(tmp));
 					return;
 				}
 				
-- 
2.43.0


From 43ffb0a35f21f4804422f8be8215d3c0f7735fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:22 +0000
Subject: [PATCH 003/120] fix: devector::emplace() assigned over the byte copy
 of a relocated element

Inserting in the left half of a devector of relocatable values left a
duplicated object behind (double free for values owning memory).
---
 seq/devector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index ad5dced..c3c3f09 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -856,11 +856,16 @@ namespace seq
 				// insert on the left side
 				T tmp = T(std::forward<Args>(args)...); //handle aliasing
 				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					// the slot at dist holds a relocated (duplicated) object: construct over it
+					destroy_ptr(begin());
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
-				else
+					construct_ptr(begin() + dist, std::move(tmp));
+				}
+				else {
 					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					*(begin() + dist) = std::move(tmp);
+				}
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From 10de3501955bace0d4b7e4401dbdd4c02d77df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 004/120] fix: sequence resize/resize_front/copy assignment to
 a smaller size removed too many elements

When all elements to remove were in the last (first) chunk the counter
wrapped to -1 and elements were popped until the container was exhausted.
---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..3c1c645 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1284,8 +1284,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1807,8 +1809,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1934,8 +1938,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (diff && front == d_data->end.next) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From 8d80403ddcbb72e3a1fe758ac5cf46acd8409b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 005/120] fix: tiered_vector::for_each() on an empty range read
 a missing bucket

---
 seq/tiered_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..e2567b0 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1619,6 +1619,8 @@ namespace seq
 			auto for_each(size_type start, size_type end, Functor fun) const -> Functor
 			{
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
@@ -1655,6 +1657,8 @@ namespace seq
 				// Construct/fill out using values from start to end
 
 				size_type remaining = end - start;
+				if (remaining == 0)
+					return fun;
 				size_type bindex = bucket_index(start);
 				size_type pos = static_cast<size_type>(bucket_pos(start));
 
-- 
2.43.0


From b1edafc576437aadb20b4a70d9778b995d3c1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 006/120] fix: tiered_vector iterators read past the last
 bucket when offset by 0 at the end

---
 seq/tiered_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index e2567b0..891d302 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -112,6 +112,9 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				// A null offset must be valid for the end iterator, including on an empty container
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
-- 
2.43.0


From 264de77af96242149d96d698e4403f5fbaf82152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 007/120] fix: tiered_vector middle insertion into a full
 bucket returned another element

---
 seq/tiered_vector.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 891d302..20da6ef 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1929,12 +1929,22 @@ namespace seq
 				SEQ_ASSERT_DEBUG(bucket_index == 0, "Corrupted tiered_vector");
 				if (d_buckets[0]->isFull()) {
 
-					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					// Might throw, fine
+					T tmp = d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...);
+					try {
+						create_back_bucket()->emplace_back(std::move(tmp));
+					}
+					catch (...) {
+						// Remove empty back bucket
+						if (d_buckets.back()->size == 0)
+							remove_back_bucket();
+						throw;
+					}
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
 					}
+					res = &at(static_cast<size_type>(index));
 				}
 				else {
 					// Might throw, fine
@@ -1966,7 +1976,7 @@ namespace seq
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
+						create_front_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -1978,6 +1988,7 @@ namespace seq
 						d_buckets[0].update();
 						d_buckets[1].update();
 					}
+					res = &at(pos);
 				}
 				else {
 					// we are going to loose value at index 0, save it
@@ -2043,7 +2054,7 @@ namespace seq
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
+						create_back_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// Remove empty back bucket
@@ -2053,6 +2064,7 @@ namespace seq
 					}
 					if (StoreBackValues)
 						d_buckets.back().update();
+					res = &at(pos);
 				}
 				else {
 
-- 
2.43.0


From 6d9aa02bd3ebf8505237382f55175128566b18f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 008/120] fix: tiered_vector insertion of one of its own
 elements read a moved element

---
 seq/tiered_vector.hpp | 78 +++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 20da6ef..10df073 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2716,14 +2716,18 @@ namespace seq
 		bucket_manager* d_manager;
 
 		// Update the bucket size if necessary, used when inserting/deleting single elements
-		SEQ_ALWAYS_INLINE void update_bucket_size()
+		SEQ_ALWAYS_INLINE bool should_check_bucket_size() const noexcept
 		{
 			static constexpr size_t minb = static_cast<size_t>(min_block_size);
 			static constexpr size_t maxb = static_cast<size_t>(max_block_size);
 			static constexpr size_t mul_factor = (minb < 8U) ? 8U : minb;
 			static constexpr size_t mask = (mul_factor * mul_factor) - 1ULL;
 			// Check the bucket size every (min_block_size * min_block_size) insertions/deletions
-			if SEQ_UNLIKELY (min_block_size != maxb && (size() < 64U || (size() & mask) == 0))
+			return min_block_size != maxb && (size() < 64U || (size() & mask) == 0);
+		}
+		SEQ_ALWAYS_INLINE void update_bucket_size()
+		{
+			if SEQ_UNLIKELY (should_check_bucket_size())
 				check_bucket_size();
 		}
 		// Find bucket size based on full tiered_vector size
@@ -3064,11 +3068,15 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might refer to an element of this tiered_vector
+					T copy(value);
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, 0U, std::min(count, this->size()), get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					manager()->resize(count, copy);
 				}
-				manager()->resize(count, value);
+				else
+					manager()->resize(count, value);
 			}
 		}
 
@@ -3116,14 +3124,18 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might refer to an element of this tiered_vector
+					T copy(value);
 					size_type fsize = std::min(count, this->size());
 					size_type fstart =
 					  static_cast<size_t>(std::max(static_cast<difference_type>(this->size()) - static_cast<difference_type>(fsize), static_cast<difference_type>(0)));
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, fstart, fsize, get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					manager()->resize_front(count, copy);
 				}
-				manager()->resize_front(count, value);
+				else
+					manager()->resize_front(count, value);
 			}
 		}
 
@@ -3140,22 +3152,12 @@ namespace seq
 		/// @brief Appends the given element value to the end of the container.
 		/// @param value the value of the element to append
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
-		SEQ_ALWAYS_INLINE void push_back(const T& value)
-		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(value);
-		}
+		SEQ_ALWAYS_INLINE void push_back(const T& value) { emplace_back(value); }
 
 		/// @brief Appends the given element value to the end of the container using move semantic.
 		/// @param value the value of the element to append
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
-		SEQ_ALWAYS_INLINE void push_back(T&& value)
-		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(std::move(value));
-		}
+		SEQ_ALWAYS_INLINE void push_back(T&& value) { emplace_back(std::move(value)); }
 
 		/// @brief Appends a new element to the end of the container
 		/// @tparam ...Args
@@ -3166,29 +3168,24 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace_back(Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (should_check_bucket_size()) {
+				// Arguments might refer to an element of this tiered_vector: build the value before moving elements
+				T tmp(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->emplace_back(std::move(tmp));
+			}
 			return manager()->emplace_back(std::forward<Args>(args)...);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container.
 		/// @param value the value of the element to append
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
-		SEQ_ALWAYS_INLINE void push_front(const T& value)
-		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(value);
-		}
+		SEQ_ALWAYS_INLINE void push_front(const T& value) { emplace_front(value); }
 
 		/// @brief Appends the given element value to the beginning of the container using move semantic.
 		/// @param value the value of the element to append
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
-		SEQ_ALWAYS_INLINE void push_front(T&& value)
-		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(std::move(value));
-		}
+		SEQ_ALWAYS_INLINE void push_front(T&& value) { emplace_front(std::move(value)); }
 
 		/// @brief Appends a new element to the beginning of the container
 		/// @tparam ...Args
@@ -3199,7 +3196,12 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace_front(Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (should_check_bucket_size()) {
+				// Arguments might refer to an element of this tiered_vector: build the value before moving elements
+				T tmp(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->emplace_front(std::move(tmp));
+			}
 			return manager()->emplace_front(std::forward<Args>(args)...);
 		}
 
@@ -3209,9 +3211,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, value);
+			emplace(pos, value);
 		}
 
 		/// @brief Insert \a value before \a pos using move semantic.
@@ -3220,9 +3220,7 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, T&& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, std::move(value));
+			emplace(pos, std::move(value));
 		}
 
 		/// @brief Insert \a value before \a it
@@ -3254,9 +3252,11 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(size_type pos, Args&&... args) -> T&
 		{
+			// Arguments might refer to an element of this tiered_vector: build the value before moving elements
+			T tmp(std::forward<Args>(args)...);
 			make_manager_if_null();
 			update_bucket_size();
-			return manager()->insert(pos, std::forward<Args>(args)...);
+			return manager()->insert(pos, std::move(tmp));
 		}
 
 		/// @brief Inserts a new element into the container directly before \a pos.
@@ -3268,9 +3268,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(const_iterator pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos.absolutePos(), std::forward<Args>(args)...);
+			return emplace(pos.absolutePos(), std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts elements from range [first, last) before pos.
-- 
2.43.0


From 1f1acf3c78ba9a9841a29da98298076a1e8e73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 009/120] fix: tiered_vector::assign() of an empty range used a
 null bucket manager

---
 seq/tiered_vector.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 10df073..cd03884 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2849,10 +2849,11 @@ namespace seq
 			}
 			else
 				resize(count);
-			manager()->for_each(0, size(), [&](T& v) {
-				v = *first;
-				++first;
-			});
+			if (count)
+				manager()->for_each(0, size(), [&](T& v) {
+					v = *first;
+					++first;
+				});
 		}
 
 		SEQ_ALWAYS_INLINE void make_manager_if_null()
-- 
2.43.0


From 0f69c77a562095756672b72246ad4c8162029da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 010/120] fix: sequence end iterator compared lower than
 iterators of later chunks

---
 seq/sequence.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 3c1c645..423cce8 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -779,7 +779,8 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				// Greater than any chunk index
+				endNode()->node_index = LLONG_MAX;
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
@@ -879,7 +880,8 @@ namespace seq
 								if (vec_chunk && node != endNode())
 									vec_chunk->push_back(node);
 								index = 0;
-								node->node_index = static_cast<std::int64_t>(chunks++);
+								if (node != endNode())
+									node->node_index = static_cast<std::int64_t>(chunks++);
 							}
 							++it;
 						}
-- 
2.43.0


From d4b89d9888fb75b0ec2c96cfc0d765a18d174b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 011/120] fix: sequence::sort() used a chunk deallocated by the
 compaction step

---
 seq/sequence.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 423cce8..9327fbb 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -914,6 +914,9 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						// This chunk is about to be deallocated
+						if (vec_chunk && vec_chunk->size() && vec_chunk->back() == node)
+							vec_chunk->pop_back();
 					}
 
 					last->next = endNode();
-- 
2.43.0


From 75b787a3fcec0c2887898935d48a80ae6d117d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 012/120] fix: comparing sequence iterators of an empty
 sequence dereferenced a null chunk

---
 seq/sequence.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 9327fbb..b63a2e3 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -353,6 +353,8 @@ namespace seq
 			{
 				if (it1.node == it2.node) {
 					// Same node
+					if (it1.pos == it2.pos)
+						return 0;
 					if (it1.pos > it2.pos) {
 						return static_cast<difference_type>(popcnt64((it1.node->used & ((1ULL << it1.pos) - 1)) >> it2.pos));
 					}
@@ -469,12 +471,12 @@ namespace seq
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos)));
+			return a.node == b.node ? (a.pos > b.pos) : (a.node->node_index > b.node->node_index);
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator<(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos)));
+			return a.node == b.node ? (a.pos < b.pos) : (a.node->node_index < b.node->node_index);
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>=(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
-- 
2.43.0


From 24fdd92104d07509a7c9ff05905859947141ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 013/120] fix: sequence::shrink_to_fit() kept stale links in
 its free list

---
 seq/sequence.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index b63a2e3..67523d0 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -947,8 +947,10 @@ namespace seq
 				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
 				if (last->used == full)
 					endNode()->prev_free = endNode()->next_free = endNode();
-				else
+				else {
 					endNode()->prev_free = endNode()->next_free = last;
+					last->prev_free = last->next_free = endNode();
+				}
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From 218e5bd0dda6a7a430ce62a31602df9102be6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 014/120] fix: merge_adaptive_n() debug check ignored the
 comparator

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..ed71475 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -642,7 +642,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
-- 
2.43.0


From 494c2324b7a56e0387c7e0a74a8e6fda535944ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 015/120] fix: net_sort() was not stable: its 8 elements
 sorting network swapped distant elements

---
 seq/algorithm.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index ed71475..612a951 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -838,13 +838,12 @@ namespace seq
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
-			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
-			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
-			CHECK_2(5, 6);
+			// Odd-even transposition network: only compares neighbours, and is therefore stable
+			for (unsigned i = 0; i < 4; ++i) {
+				CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+				CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+				CHECK_2(5, 6);
+			}
 		}
 
 #undef CHECK_2
-- 
2.43.0


From fa28fa21e13e6f99c8a331a626da175dc1b13982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 016/120] fix: move assignment of devector, sequence and
 tiered_vector ignored the allocator propagation rules

---
 seq/devector.hpp      | 20 +++++++++++++-------
 seq/sequence.hpp      |  4 ++--
 seq/tiered_vector.hpp |  4 ++--
 seq/utils.hpp         | 37 +++++++++++++++++++++++++++++++++++++
 4 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index c3c3f09..f8e152d 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -649,6 +649,15 @@ namespace seq
 	{
 		using base_type = detail::DEVectorData<T, Allocator>;
 
+		// Exchange the contents, but not the allocators
+		void swap_data(devector& other) noexcept
+		{
+			std::swap(base_type::data, other.base_type::data);
+			std::swap(base_type::start, other.base_type::start);
+			std::swap(base_type::end, other.base_type::end);
+			std::swap(base_type::capacity, other.base_type::capacity);
+		}
+
 	public:
 		using value_type = T;
 		using allocator_type = Allocator;
@@ -727,7 +736,7 @@ namespace seq
 		  : base_type(alloc)
 		{
 			if (alloc == other.get_allocator()) {
-				swap(other);
+				swap_data(other);
 			}
 			else {
 				resize(other.size());
@@ -1054,10 +1063,7 @@ namespace seq
 		{
 			if (this != std::addressof(other)) {
 				swap_allocator(get_allocator(), other.get_allocator());
-				std::swap(base_type::data, other.base_type::data);
-				std::swap(base_type::start, other.base_type::start);
-				std::swap(base_type::end, other.base_type::end);
-				std::swap(base_type::capacity, other.base_type::capacity);
+				swap_data(other);
 			}
 		}
 
@@ -1218,9 +1224,9 @@ namespace seq
 			return *this;
 		}
 		/// @brief Move assignment operator
-		auto operator=(devector&& other) noexcept(noexcept(std::declval<devector&>().swap(std::declval<devector&>()))) -> devector&
+		auto operator=(devector&& other) noexcept(nothrow_move_assign_alloc<Allocator>::value) -> devector&
 		{
-			swap(other);
+			move_assign_container(*this, other, [](devector& l, devector& r) noexcept { l.swap_data(r); });
 			return *this;
 		}
 	};
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 67523d0..6173580 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1492,9 +1492,9 @@ namespace seq
 		/// @brief Move assignment operator
 		/// @param other input sequence object
 		/// @return reference to this
-		auto operator=(sequence&& other) noexcept(noexcept(std::declval<sequence&>().swap(std::declval<sequence&>()))) -> sequence&
+		auto operator=(sequence&& other) noexcept(nothrow_move_assign_alloc<Allocator>::value) -> sequence&
 		{
-			this->swap(other);
+			move_assign_container(*this, other, [](sequence& l, sequence& r) noexcept { std::swap(l.d_data, r.d_data); });
 			return *this;
 		}
 
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index cd03884..4443927 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2966,9 +2966,9 @@ namespace seq
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(tiered_vector&& other) noexcept(noexcept(std::declval<tiered_vector&>().swap(std::declval<tiered_vector&>()))) -> tiered_vector&
+		auto operator=(tiered_vector&& other) noexcept(nothrow_move_assign_alloc<Allocator>::value) -> tiered_vector&
 		{
-			this->swap(other);
+			move_assign_container(*this, other, [](tiered_vector& l, tiered_vector& r) noexcept { std::swap(l.d_manager, r.d_manager); });
 			return *this;
 		}
 
diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..5ae5049 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -592,6 +592,43 @@ namespace seq
 		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value && !is_always_equal<Allocator>::value;
 	};
 
+	/// @brief Tells if the container move assignment just has to transfer ownership of the memory,
+	/// without (potentially) moving elements one by one.
+	template<class Allocator>
+	struct nothrow_move_assign_alloc
+	{
+		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || is_always_equal<Allocator>::value;
+	};
+
+	/// @brief Implements the container move assignment, following the allocator propagation rules.
+	/// @param left destination container
+	/// @param right source container
+	/// @param swap_data functor exchanging the content of 2 containers, but not their allocators
+	template<class Container, class SwapData>
+	void move_assign_container(Container& left, Container& right, SwapData swap_data) noexcept(nothrow_move_assign_alloc<typename Container::allocator_type>::value)
+	{
+		using allocator_type = typename Container::allocator_type;
+		if (std::addressof(left) == std::addressof(right))
+			return;
+		if constexpr (is_always_equal<allocator_type>::value) {
+			move_allocator(left.get_allocator(), right.get_allocator());
+			swap_data(left, right);
+		}
+		else if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value) {
+			Container tmp(std::move(right));
+			std::swap(left.get_allocator(), tmp.get_allocator());
+			swap_data(left, tmp);
+		}
+		else {
+			if (left.get_allocator() == right.get_allocator())
+				swap_data(left, right);
+			else {
+				Container tmp(std::move(right), left.get_allocator());
+				swap_data(left, tmp);
+			}
+		}
+	}
+
 	template<class Allocator>
 	struct move_alloc
 	{
-- 
2.43.0


From 725113f2abbe5a2a9a193b6c74cf027fdcd31f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 017/120] fix: sequence copy assignment leaked its chunks when
 propagating an unequal allocator

---
 seq/sequence.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 6173580..a2effc4 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1473,10 +1473,8 @@ namespace seq
 			if (this != std::addressof(other)) {
 
 				if constexpr (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
-						destroy_data(d_data);
-						d_data = nullptr;
-					}
+					if (get_allocator() != other.get_allocator())
+						clear();
 				}
 				assign_allocator(get_allocator(), other.get_allocator());
 
-- 
2.43.0


From c31f4d26f6c9570c0d5410cff5896cdadc49b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 018/120] fix: flat_set/flat_map range assignment from non
 random access iterators did not compile

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..22cb1b2 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -477,7 +477,7 @@ namespace seq
 					++count;
 				}
 				while (first != last) {
-					push_back(*first);
+					d_deque.push_back(*first);
 					if (sorted) {
 						if ((*this)(*first, *prev))
 							sorted = false;
@@ -491,7 +491,7 @@ namespace seq
 				}
 
 				// Resize if the tiered_vector was bigger
-				resize(count);
+				d_deque.resize(count);
 
 				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
-- 
2.43.0


From 33fdf0c95f07c21998dde6a82c23c46ce05dccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 019/120] fix: flat_set/flat_map range insertion from non
 random access iterators wrote past the end of the storage

---
 seq/flat_map.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 22cb1b2..09bc224 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -751,15 +751,11 @@ namespace seq
 					d_deque.resize(std::distance(first, last) + size_before);
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
 				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
 				else {
-					while (first != last) {
-						*dit = *first;
-						++first;
-						++dit;
-					}
+					for (; first != last; ++first)
+						d_deque.push_back(*first);
 				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
-- 
2.43.0


From 3100076724f76bcbe87d2faaa00fe46dc3852fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 020/120] fix: flat_set/flat_map insertion of an
 initializer_list did not compile

---
 seq/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 09bc224..4e437cd 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -773,7 +773,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
-- 
2.43.0


From 1f1524307018b63d99f875573a0d3755b2eb03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:51 +0000
Subject: [PATCH 021/120] fix: flat_set/flat_map equal_range of an absent key
 returned a non empty range

---
 seq/flat_map.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 4e437cd..0a7899c 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -880,7 +880,7 @@ namespace seq
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) -> std::pair<iterator, iterator>
 			{
 				iterator low = lower_bound(x);
-				if (low == end())
+				if (low == end() || (*this)(x, *low))
 					return std::pair<iterator, iterator>(low, low);
 				if constexpr (Unique)
 					return std::pair<iterator, iterator>(low, low + 1);
@@ -891,18 +891,18 @@ namespace seq
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) const -> std::pair<const_iterator, const_iterator>
 			{
 				const_iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
+				if (low == end() || (*this)(x, *low))
+					return std::pair<const_iterator, const_iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<const_iterator, const_iterator>(low, low + 1);
 				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				return std::pair<const_iterator, const_iterator>(low, up);
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
 			{
 				size_t low = lower_bound_pos(x);
-				if (low == size())
+				if (low == size() || (*this)(x, d_deque[low]))
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
 					return std::pair<size_t, size_t>(low, low + 1);
-- 
2.43.0


From beb2b9135c55d16c38a6ac2db3d3995366003c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 022/120] fix: flat_set/flat_map merge() used operator==
 instead of the comparator, lost the allocators and did not compile for maps
 and multisets

---
 seq/flat_map.hpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 0a7899c..b67116f 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -356,7 +356,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								*it_rem = std::move(*first2);
 								++it_rem;
@@ -388,7 +388,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								remaining->push_back(std::move(*first2));
 							}
@@ -910,12 +910,14 @@ namespace seq
 				return std::pair<size_t, size_t>(low, up);
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			template<class C2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable, Unique>& source)
 			{
-				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
+				if (static_cast<const void*>(this) == static_cast<const void*>(&source) || source.empty())
+					return;
+				if constexpr (Unique) {
+					container_type out(get_allocator());
+					typename flat_tree<Key, Value, C2, Allocator, Stable, Unique>::container_type rem(source.get_allocator());
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
 					d_deque = std::move(out);
 					source.d_deque = std::move(rem);
@@ -923,8 +925,9 @@ namespace seq
 				else {
 					// add elements from source to this tiered_vector
 					size_t before_size = size();
-					d_deque.insert(d_deque.end(), source.begin(), source.end());
-					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
+					d_deque.insert(d_deque.end(), std::make_move_iterator(source.begin()), std::make_move_iterator(source.end()));
+					std::inplace_merge(d_deque.begin(), d_deque.begin() + static_cast<difference_type>(before_size), d_deque.end(), base());
+					d_deque.manager()->update_all_back_values();
 					source.clear();
 				}
 			}
@@ -1061,6 +1064,9 @@ namespace seq
 		using flat_tree_type = detail::flat_tree<Key, Key, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
+		template<class K2, class C2, class A2, bool S2, bool U2>
+		friend class flat_set;
+
 		using Policy = detail::BuildValue<Key, has_is_transparent<Compare>::value>;
 
 	public:
@@ -1496,7 +1502,7 @@ namespace seq
 		/// If there is an element in this with key equivalent to the key of an element from source, then that element is not extracted from source.
 		/// Note that elements from source are moved to this.
 		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator>& source)
+		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator, Stable, Unique>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
@@ -1687,6 +1693,9 @@ namespace seq
 		using flat_tree_type = detail::flat_tree<Key, std::pair<Key, T>, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
+		template<class K2, class T2, class C2, class A2, bool S2, bool U2>
+		friend class flat_map;
+
 		using Policy = detail::BuildValue<std::pair<Key, T>, has_is_transparent<Compare>::value>;
 
 	public:
@@ -2068,7 +2077,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range_pos(const Key& x) const -> std::pair<size_t, size_t> { return d_tree.equal_range_pos(x); }
 
 		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator>& source)
+		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator, Stable, Unique>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
-- 
2.43.0


From e7a7615d8d63697cba08a6675f3ba21611c177e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 023/120] fix: flat_multiset/flat_multimap initializer_list
 assignment and sorted_equivalent insertion did not compile

---
 seq/flat_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index b67116f..db9a07c 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1632,7 +1632,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -1650,11 +1650,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
@@ -2197,7 +2197,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From d38a2bc9c0d676c3428157f885d551a036a90997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 024/120] fix: flat_set merge() left the cached bucket back
 values unset, breaking later lookups

---
 seq/flat_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index db9a07c..7f07599 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -921,6 +921,9 @@ namespace seq
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
 					d_deque = std::move(out);
 					source.d_deque = std::move(rem);
+					d_deque.manager()->update_all_back_values();
+					if (!source.empty())
+						source.d_deque.manager()->update_all_back_values();
 				}
 				else {
 					// add elements from source to this tiered_vector
-- 
2.43.0


From 0b747a770cadb6df42c0b3ee74a7e7c3d9e98fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 025/120] fix: erase_if() on an empty flat_set/flat_map
 dereferenced a null manager

---
 seq/flat_map.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 7f07599..e019eeb 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -2292,9 +2292,10 @@ namespace seq
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
 		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
+		size_t res = static_cast<size_t>(d.end() - it);
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (!d.empty())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
@@ -2327,9 +2328,10 @@ namespace seq
 		// use const_cast to avoid flagging the flat_set as dirty
 		container_type& d = const_cast<container_type&>(s1.container());
 		auto it = std::remove_if(d.begin(), d.end(), p);
-		size_t res = d.end() - it;
+		size_t res = static_cast<size_t>(d.end() - it);
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (!d.empty())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
-- 
2.43.0


From d17b66f30e628cc4df234b920590f2d255613093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 026/120] fix: sorting a tiered_vector used a stale bucket
 count when filling its front bucket removed the last one

---
 seq/tiered_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 4443927..3404955 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2452,7 +2452,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
 
 				size_t size_before = 0;
 				if (bucket_idx)
@@ -2479,6 +2478,9 @@ namespace seq
 					}
 				}
 
+				// Filling the front bucket might remove the last one
+				size_t bucket_count = d_buckets.size() - bucket_idx;
+
 				// Create buffer to sort buckets
 				std::vector<T> buf(count / 2);
 
-- 
2.43.0


From 4da73220857a284d352b5fbf5e9133275581dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 027/120] fix: looking up in a flat_set/flat_map emptied by
 erase() compared with a destroyed key

---
 seq/flat_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index e019eeb..6aa378a 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,8 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			// An empty tiered_vector might still hold an empty bucket without back value
+			if SEQ_UNLIKELY (d.empty())
 				return { 0, false };
 
 			using T = typename Deque::value_type;
-- 
2.43.0


From 1e1136777679d0583a0065ca6a9354f3f0a9d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 028/120] fix: ordered_map hinted insertion of a convertible
 value did not compile

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..41dbce0 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1748,7 +1748,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
-- 
2.43.0


From e2057bfc817069fe292073e95c4c856b9ac1994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 029/120] fix: ordered_set/map rehash to a table without any
 empty node, or of a single node

---
 seq/ordered_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 41dbce0..c94362a 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -583,6 +583,8 @@ namespace seq
 					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
 				if (size == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
+				if (size < this->size() + 2)
+					size = this->size() + 2; // Keep at least one empty node, and a non null mask
 				size_t new_hash_mask;
 				size_t new_hash_len;
 				if ((size & (size - 1ULL)) == 0ULL)
-- 
2.43.0


From d86d099052a99361107c10041f5282fd6c4ee910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 030/120] fix: ordered_set/map rehash of a dirty table wrote
 past the end of its nodes

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index c94362a..976dced 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -429,7 +429,7 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-- 
2.43.0


From da8829a3ae31f28796367f453d6ef24ffedc4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 031/120] fix: ordered_set/map in linear probing mode inserted
 a key twice if a tombstone preceded it

---
 seq/ordered_map.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 976dced..5fbb3f9 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -684,13 +684,21 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
-				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
+				// Pure linear hashing: a tombstone does not break the probe chain, but might be reused.
+				size_t insert_index = bucket_size();
+				size_t count = 0;
+				while (d_buckets[index].distance() != -1 && count++ != bucket_size()) {
+					if (d_buckets[index].is_tombstone()) {
+						if (insert_index == bucket_size())
+							insert_index = index;
+					}
+					else if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
 						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
+				if (insert_index != bucket_size())
+					index = insert_index;
 
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
 				d_buckets[index] = node_type(h, index == mask_hash(hash, d_hash_mask, d_hash_len) ? 0 : node_type::max_distance, tmp_it.as_uint());
-- 
2.43.0


From 745d7da4afacb73dfc442a9209c7ed331949c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 032/120] fix: ordered_set/map swap() exchanged twice the hash
 and equality functors

---
 seq/ordered_map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 5fbb3f9..30aec12 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -536,7 +536,6 @@ namespace seq
 			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this != std::addressof(other)) {
-					std::swap(static_cast<base_type&>(*this), static_cast<base_type&>(other));
 					std::swap(d_buckets, other.d_buckets);
 					std::swap(d_hash_mask, other.d_hash_mask);
 					std::swap(d_hash_len, other.d_hash_len);
-- 
2.43.0


From 290ff9fb0237d94f00851797edd539115c3c067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 033/120] fix: ordered_set/map copy assignment kept the stale
 nodes and functors of the destination

---
 seq/ordered_map.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 30aec12..f7b9e82 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -547,6 +547,24 @@ namespace seq
 				}
 			}
 
+			void copy_assign(const SparseFlatNodeHashTable& other)
+			{
+				// Release the nodes before the allocator is potentially replaced
+				clear();
+				try {
+					d_seq = other.d_seq;
+					static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
+					d_load_factor = other.d_load_factor;
+					if (other.dirty())
+						mark_dirty();
+					rehash(0, true);
+				}
+				catch (...) {
+					clear();
+					throw;
+				}
+			}
+
 			SEQ_ALWAYS_INLINE bool dirty() const noexcept
 			{
 				// check for dirty
@@ -1171,11 +1189,7 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				this->copy_assign(other);
 			}
 			return *this;
 		}
@@ -1637,11 +1651,7 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
+				this->copy_assign(other);
 			}
 			return *this;
 		}
-- 
2.43.0


From c9b64aea16f472de7c5fdbeb732dc0bda3939024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 034/120] fix: ordered_set/map move assignment ignored the
 allocator propagation rules

---
 seq/ordered_map.hpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index f7b9e82..2977527 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -547,6 +547,36 @@ namespace seq
 				}
 			}
 
+			void move_assign(SparseFlatNodeHashTable& other) noexcept(
+			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
+			{
+				if (this == std::addressof(other))
+					return;
+				if constexpr (is_always_equal<Allocator>::value)
+					swap(other);
+				else {
+					clear();
+					static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
+					d_load_factor = other.d_load_factor;
+					const bool steal =
+					  std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || d_seq.get_allocator() == other.d_seq.get_allocator();
+					const bool is_dirty = other.dirty();
+					d_seq = std::move(other.d_seq);
+					if (steal) {
+						std::swap(d_buckets, other.d_buckets);
+						std::swap(d_hash_mask, other.d_hash_mask);
+						std::swap(d_hash_len, other.d_hash_len);
+						std::swap(d_next_target, other.d_next_target);
+						std::swap(d_max_dist, other.d_max_dist);
+					}
+					else {
+						if (is_dirty)
+							mark_dirty();
+						rehash(0, true);
+					}
+					other.clear();
+				}
+			}
 			void copy_assign(const SparseFlatNodeHashTable& other)
 			{
 				// Release the nodes before the allocator is potentially replaced
@@ -1197,7 +1227,7 @@ namespace seq
 		/// @brief Move assignment operator
 		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_set&
 		{
-			base_type::swap(other);
+			base_type::move_assign(other);
 			return *this;
 		}
 
@@ -1657,7 +1687,7 @@ namespace seq
 		}
 		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
 		{
-			base_type::swap(other);
+			base_type::move_assign(other);
 			return *this;
 		}
 
-- 
2.43.0


From 760c6f7895b5fc93ebf39e216c1b045728d3cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 035/120] fix: ordered_set/map moved from with another
 allocator kept nodes to moved elements

---
 seq/ordered_map.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 2977527..9792274 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -527,6 +527,7 @@ namespace seq
 					// rehash
 					d_buckets = null_node();
 					rehash(0, true);
+					other.clear();
 				}
 			}
 
@@ -548,7 +549,7 @@ namespace seq
 			}
 
 			void move_assign(SparseFlatNodeHashTable& other) noexcept(
-			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
+			  nothrow_move_assign_alloc<Allocator>::value&& noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this == std::addressof(other))
 					return;
@@ -1225,7 +1226,7 @@ namespace seq
 		}
 
 		/// @brief Move assignment operator
-		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_set&
+		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().move_assign(std::declval<base_type&>()))) -> ordered_set&
 		{
 			base_type::move_assign(other);
 			return *this;
@@ -1685,7 +1686,7 @@ namespace seq
 			}
 			return *this;
 		}
-		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
+		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().move_assign(std::declval<base_type&>()))) -> ordered_map&
 		{
 			base_type::move_assign(other);
 			return *this;
-- 
2.43.0


From f248e78ac4db144f8701b3cb322ab6acca9f1b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 036/120] fix: radix_map of move only values did not compile:
 rebalance() copied the content of vector nodes

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..9de7ed0 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3001,7 +3001,7 @@ namespace seq
 							auto* vec = dir->child(pos).to_vector();
 							for (unsigned i = 0; i < vec->size(); ++i) {
 								if (it.dir != dir || it.child != pos || it.node_pos != i)
-									this->emplace(std::move(vec->at(i)));
+									this->emplace(std::move(const_cast<T&>(vec->at(i))));
 							}
 						}
 					});
-- 
2.43.0


From 662a454333526a6d2c69a8ba2357897d33ef8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 037/120] fix: radix_set/radix_map lower_bound() and
 upper_bound() did not compile for the heterogeneous keys find() accepts

---
 seq/internal/radix_tree.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 9de7ed0..03023b0 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3243,7 +3243,8 @@ namespace seq
 				return find_ptr_hash(hash_key(k), k);
 			}
 
-			const_iterator lower_bound_in_vector(const directory* d, unsigned pos, size_t bit_pos, const key_type& key) const
+			template<class U>
+			const_iterator lower_bound_in_vector(const directory* d, unsigned pos, size_t bit_pos, const U& key) const
 			{
 				const vector_type* v = d->children()[pos].to_vector();
 				unsigned p = static_cast<unsigned>(v->lower_bound(key));
@@ -3253,7 +3254,8 @@ namespace seq
 			}
 
 			/// @brief Find key based on its hash value
-			SEQ_ALWAYS_INLINE const_iterator lower_bound_hash(const_hash_ref hash, const key_type& key) const
+			template<class U>
+			SEQ_ALWAYS_INLINE const_iterator lower_bound_hash(const_hash_ref hash, const U& key) const
 			{
 				// start directory
 				const directory* d = d_root;
@@ -3314,10 +3316,11 @@ namespace seq
 				return lower_bound_hash(hash_key(k), k);
 			}
 
-			SEQ_ALWAYS_INLINE const_iterator upper_bound_hash(const_hash_ref hash, const key_type& key) const
+			template<class U>
+			SEQ_ALWAYS_INLINE const_iterator upper_bound_hash(const_hash_ref hash, const U& key) const
 			{
 				const_iterator it = lower_bound_hash(hash, key);
-				if (it != end() && ExtractKey{}(*it) == key)
+				if (it != end() && ExtractKey{}(*it) == ExtractKey{}(key))
 					++it;
 				return it;
 			}
-- 
2.43.0


From 63ca984170eb9035216210aeea93795433b6bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 038/120] fix: radix tree leaves stored their elements at
 misaligned addresses

---
 seq/internal/radix_tree.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 03023b0..91cfa8d 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -920,8 +920,12 @@ namespace seq
 			// maximum capacity (and size), lower for sorted elements
 			static constexpr unsigned max_capacity = Sorted ? 64 : 96;
 
-			// returns size of header and tiny hash values
-			static unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept { return header_size + capacity; }
+			// returns size of header and tiny hash values, rounded up to keep the values aligned
+			static constexpr unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept
+			{
+				constexpr unsigned align = static_cast<unsigned>(alignof(T));
+				return (header_size + capacity + (align - 1u)) / align * align;
+			}
 			// returns the capacity for a given size
 			static unsigned capacity_for_size(unsigned size) noexcept
 			{
@@ -948,8 +952,8 @@ namespace seq
 			SEQ_ALWAYS_INLINE const std::uint8_t* hashs() const noexcept { return reinterpret_cast<const std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE std::uint8_t* hashs() noexcept { return reinterpret_cast<std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE unsigned count() const noexcept { return *size(); }
-			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(hashs() + *capacity()); }
-			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(hashs() + *capacity()); }
+			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(reinterpret_cast<std::uint8_t*>(this) + hash_for_size(0, *capacity())); }
+			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(reinterpret_cast<const std::uint8_t*>(this) + hash_for_size(0, *capacity())); }
 			SEQ_ALWAYS_INLINE const T& back() const noexcept { return values()[count() - 1]; }
 			SEQ_ALWAYS_INLINE std::uint8_t get_tiny_hash(unsigned pos) const { return hashs()[pos]; }
 
-- 
2.43.0


From 1e01a73c981126abe443630e4345fc21b042c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 039/120] fix: radix_set/radix_map equal_range() of an absent
 key did not return its lower bound

---
 seq/radix_map.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index e4ef92c..dfc3a43 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -385,8 +385,11 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<iterator, iterator>
 		{
 			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
+			if (it == d_tree.end()) {
+				// missing key: empty range at its lower bound
+				it = d_tree.lower_bound(key);
+				return std::pair<iterator, iterator>(it, it);
+			}
 			auto start = it++;
 			return std::pair<iterator, iterator>(start, it);
 		}
@@ -969,8 +972,11 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) -> std::pair<iterator, iterator>
 		{
 			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
+			if (it == d_tree.end()) {
+				// missing key: empty range at its lower bound
+				it = d_tree.lower_bound(key);
+				return std::pair<iterator, iterator>(it, it);
+			}
 			auto start = it++;
 			return std::pair<iterator, iterator>(start, it);
 		}
@@ -979,8 +985,11 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<const_iterator, const_iterator>
 		{
 			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<const_iterator, const_iterator>(d_tree.end(), d_tree.end());
+			if (it == d_tree.end()) {
+				// missing key: empty range at its lower bound
+				it = d_tree.lower_bound(key);
+				return std::pair<const_iterator, const_iterator>(it, it);
+			}
 			auto start = it++;
 			return std::pair<const_iterator, const_iterator>(start, it);
 		}
-- 
2.43.0


From c4b51b6682c1fa9bbf82904cb623dbc53c0a8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:29 +0000
Subject: [PATCH 040/120] fix: radix_map try_emplace/insert_or_assign of an
 existing key of a vector node consumed the arguments

---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 91cfa8d..72bcc4a 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -693,6 +693,10 @@ namespace seq
 			template<class Vector, class K, class... Args>
 			static std::pair<size_t, bool> emplace_vector(Vector& v, K&& key, Args&&... args)
 			{
+				// do not consume the arguments if the key already exists
+				const size_t found = v.find(key);
+				if (found != v.size())
+					return std::pair<size_t, bool>(found, false);
 				return v.emplace(
 				  typename Vector::value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...)));
 			}
-- 
2.43.0


From fb48352d42da158bbb0489455fd25181cb8b6369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 041/120] fix: radix tree order of arrays of signed, floating
 point or 64 bits elements

---
 seq/internal/radix_tree.hpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 72bcc4a..5dfb270 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -152,15 +152,6 @@ namespace seq
 			// Convert pointer to uintptr_t
 			return reinterpret_cast<std::uintptr_t>(p);
 		}
-		static SEQ_ALWAYS_INLINE auto to_uint(wchar_t k) noexcept
-		{
-			// Convert wchar_t to its unsigned representation.
-			// That's because wchar_t string comparison works
-			// on the unsigned character.
-			// Other character types (char8_t, char16_t, char32_t)
-			// are already unsigned.
-			return static_cast<std::make_unsigned<wchar_t>::type>(k);
-		}
 		static SEQ_ALWAYS_INLINE bool to_uint(bool k) noexcept
 		{
 			return k;
@@ -380,26 +371,26 @@ namespace seq
 
 					// That's easier in big endian as all the bytes
 					// are already in the right order...
+					// Elements past the end must remain 0 (lower than any element), whatever their sign
 					using unsigned_type = typename RadixHasher<type>::integral_type;
 					type* p = reinterpret_cast<type*>(&hash);
 					unsigned_type* up = reinterpret_cast<unsigned_type*>(&hash);
 					static_assert(!std::is_const_v<T>, " const type!");
 					if constexpr (sizeof(type) == 2) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						up[2] = swap_b(to_uint(p[2]));
-						up[3] = swap_b(to_uint(p[3]));
+						for (size_t i = 0; i < 4u && char_offset + i < size; ++i)
+							up[i] = swap_b(to_uint(p[i]));
 						hash = swap_b(hash);
 					}
 					else if constexpr (sizeof(type) == 4) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
+						for (size_t i = 0; i < 2u && char_offset + i < size; ++i)
+							up[i] = swap_b(to_uint(p[i]));
 						hash = swap_b(hash);
 					}
 					else {
 						// no byte swap here, just plain old bits manipulation
-						up[0] = to_uint(p[0]);
-						if (shift > 32 && (char_offset + 1) < size) {
+						if (char_offset < size)
+							up[0] = to_uint(p[0]);
+						if (byte_offset && (char_offset + 1) < size) {
 							auto hash2 = to_uint(data[char_offset + 1]);
 							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
 							return static_cast<unsigned>((hash << bit_offset) >> (64u - count));
-- 
2.43.0


From cfdec3c8a0753369874aa2bb0b67af46dc0f695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 042/120] fix: radix_set/radix_map hashed a temporary copy of
 the key extracted from a value

---
 seq/radix_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index dfc3a43..0fa45b6 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -49,7 +49,7 @@ namespace seq
 		{
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
 				return ExtractKey{}(p);
 			}
@@ -489,7 +489,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
 				return ExtractKey{}(p);
 			}
-- 
2.43.0


From 26f8e2d366fb9a29b59b3cac1c90387cf54997cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 043/120] fix: radix tree string comparison formed pointers
 before the start of short strings

---
 seq/internal/radix_tree.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 5dfb270..a1e24f7 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -418,7 +418,7 @@ namespace seq
 					if (l && *v1 != *v2)
 						return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2));
 					const type* end = v1 + l;
-					while ((v1 < end - (8 - 1))) {
+					while (end - v1 >= 8) {
 						uint64_t r1 = read_64(v1);
 						uint64_t r2 = read_64(v2);
 						if (r1 != r2)
@@ -426,7 +426,7 @@ namespace seq
 						v1 += 8;
 						v2 += 8;
 					}
-					if ((v1 < (end - 3))) {
+					if (end - v1 >= 4) {
 						uint32_t r1 = read_32(v1);
 						uint32_t r2 = read_32(v2);
 						if (r1 != r2)
@@ -434,7 +434,7 @@ namespace seq
 						v1 += 4;
 						v2 += 4;
 					}
-					if ((v1 < (end - 1))) {
+					if (end - v1 >= 2) {
 						uint16_t r1 = read_16(v1);
 						uint16_t r2 = read_16(v2);
 						if (r1 != r2)
@@ -474,19 +474,19 @@ namespace seq
 					if (l1 && *v1 != *v2)
 						return false;
 					const type* end = v1 + l1;
-					while ((v1 < end - (8 - 1))) {
+					while (end - v1 >= 8) {
 						if (read_64(v1) != read_64(v2))
 							return false;
 						v1 += 8;
 						v2 += 8;
 					}
-					if ((v1 < (end - 3))) {
+					if (end - v1 >= 4) {
 						if (read_32(v1) != read_32(v2))
 							return false;
 						v1 += 4;
 						v2 += 4;
 					}
-					if ((v1 < (end - 1))) {
+					if (end - v1 >= 2) {
 						if (read_16(v1) != read_16(v2))
 							return false;
 						v1 += 2;
-- 
2.43.0


From 80227e5f0d16e086b1d04b721c7bd844858ad9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 044/120] fix: radix tree leaked emptied vector nodes

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index a1e24f7..84c54bd 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3043,7 +3043,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From a855024fd528d65cdbda2592722494d65486c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 045/120] fix: radix_hash_map::erase(iterator) selected the
 heterogeneous key overload

---
 seq/radix_hash_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..59911fe 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -837,6 +837,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](Key&& key) -> T& { return try_emplace(std::move(key)).first->second; }
 
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return d_tree.erase(pos.iter); }
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return d_tree.erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
 		SEQ_ALWAYS_INLINE auto erase(const K& key) -> size_type
-- 
2.43.0


From ddb0334f4aa2ce4768016a9978bb74c8584019ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:40 +0000
Subject: [PATCH 046/120] fix: radix_hash_map equality depended on the
 iteration order

---
 seq/radix_hash_map.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index 59911fe..c7a3e21 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -877,16 +877,15 @@ namespace seq
 		}
 	};
 
-	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
+	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each key in s1 is found in s2 with an equal mapped value. Ordering is not considered.
 	template<class Key, class T, class Hash, class Equal, class L1, class L2, class Al1, class Al2>
 	auto operator==(const radix_hash_map<Key, T, Hash, Equal, Al1, L1>& s1, const radix_hash_map<Key, T, Hash, Equal, Al2, L2>& s2) -> bool
 	{
-		using value_type_extract = typename radix_hash_map<Key, T, Hash, Equal, Al1, L1>::value_type_extract;
 		if (s1.size() != s2.size())
 			return false;
-		auto it1 = s1.begin();
-		for (auto it2 = s2.begin(); it2 != s2.end(); ++it2, ++it1) {
-			if (value_type_extract{}(*it1) != value_type_extract{}(*it2) || it1->second != it2->second)
+		for (auto it1 = s1.begin(); it1 != s1.end(); ++it1) {
+			auto it2 = s2.find(it1->first);
+			if (it2 == s2.end() || !(it1->second == it2->second))
 				return false;
 		}
 		return true;
-- 
2.43.0


From 12d50f3181ac469fb189116fb9478016baa012b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 047/120] fix: radix hash containers lost the state of their
 hash and equality functors

---
 seq/internal/radix_tree.hpp | 12 +++++++++---
 seq/radix_hash_map.hpp      |  8 ++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 84c54bd..b82a51a 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -653,6 +653,8 @@ namespace seq
 			{
 				return Equal::operator()(l, r);
 			}
+			SEQ_ALWAYS_INLINE const Hash& hash_function() const noexcept { return *this; }
+			SEQ_ALWAYS_INLINE const Equal& key_eq() const noexcept { return *this; }
 		};
 
 	}
@@ -1964,6 +1966,7 @@ namespace seq
 				if (std::addressof(other) != this) {
 					clear();
 					assign_allocator<Allocator>(*this, other);
+					static_cast<Hash&>(*this) = static_cast<const Hash&>(other);
 					insert(other.begin(), other.end(), false);
 				}
 				return *this;
@@ -2015,6 +2018,8 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE Allocator& get_allocator() noexcept { return static_cast<Allocator&>(*this); }
 			SEQ_ALWAYS_INLINE const Allocator& get_allocator() const noexcept { return static_cast<const Allocator&>(*this); }
+			SEQ_ALWAYS_INLINE const auto& hash_function() const noexcept { return this->Hash::hash_function(); }
+			SEQ_ALWAYS_INLINE const auto& key_eq() const noexcept { return this->Hash::key_eq(); }
 
 			// Size functions
 
@@ -2030,6 +2035,7 @@ namespace seq
 			{
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
+				std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
 				if (swap_alloc)
 					swap_allocator<Allocator>(*this, other);
 			}
@@ -2733,7 +2739,7 @@ namespace seq
 			insert_in_leaf(directory* dir, node* child, size_t hash_bits, unsigned pos, const_hash_ref hash, std::uint8_t th, Policy policy, K&& key, Args&&... args)
 			{
 				// find key in node
-				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal{}, hash_bits, th, ExtractKey{}(key));
+				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal(static_cast<const Hash&>(*this)), hash_bits, th, ExtractKey{}(key));
 
 				if (found.first)
 					// key already exists!
@@ -3176,7 +3182,7 @@ namespace seq
 							return find_in_vector(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal(static_cast<const Hash&>(*this)), bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return const_iterator(d_data, d, pos, th, bit_pos);
 							return cend();
@@ -3220,7 +3226,7 @@ namespace seq
 							return find_in_vector_ptr(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal(static_cast<const Hash&>(*this)), bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return d->children()[pos].to_node()->values() + th;
 							return nullptr;
diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index c7a3e21..fd2104f 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -250,7 +250,7 @@ namespace seq
 		/// @brief Returns the hash function
 		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return d_tree.hash_function(); }
 		/// @brief Returns the equality comparison function
-		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return key_equal{}; }
+		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return d_tree.key_eq(); }
 
 		/// @brief Returns an iterator to the first element of the container.
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return d_tree.end(); }
@@ -661,8 +661,8 @@ namespace seq
 		  : d_tree(std::move(other.d_tree), alloc)
 		{
 		}
-		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& = key_equal(), const Allocator& alloc = Allocator())
-		  : radix_hash_map(init.begin(), init.end(), hash, key_equal(), alloc)
+		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& eq = key_equal(), const Allocator& alloc = Allocator())
+		  : radix_hash_map(init.begin(), init.end(), hash, eq, alloc)
 		{
 		}
 		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash, const Allocator& alloc)
@@ -697,7 +697,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return this->d_tree.get_allocator(); }
 
 		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return this->d_tree.hash_function(); }
-		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return KeyEqual{}; }
+		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return d_tree.key_eq(); }
 
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return this->d_tree.end(); }
 		SEQ_ALWAYS_INLINE auto end() const noexcept -> const_iterator { return this->d_tree.end(); }
-- 
2.43.0


From 47e16c8511a7d8532fef6cdef0a8dc0787b4f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 048/120] fix: radix tree reserve() scanned the bits of a null
 capacity

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index b82a51a..f417160 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2051,7 +2051,7 @@ namespace seq
 
 				// Update its root size
 				capacity = (capacity / (node::max_capacity));
-				unsigned bits = bit_scan_reverse_64(capacity) + 1;
+				unsigned bits = capacity ? bit_scan_reverse_64(capacity) + 1 : 1;
 				bits = std::min(bits, 26U); // maximum 26 bits for a directory
 				other.make_data(bits);
 
-- 
2.43.0


From 7dbeef59caa874840ef921cdd3d2a7079abcfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:19 +0000
Subject: [PATCH 049/120] fix: ExtractKey::value returned the mapped value as a
 key type

Comparing two concurrent_map did not compile for unrelated mapped types, and compared
truncated (dangling) values for convertible ones.
---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index 5ae5049..19ee29c 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From 5412406ee0288b8cb71d3c6c57b8c07e40eebb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 050/120] fix: free function erase_if of the concurrent
 containers returned nothing

---
 seq/concurrent_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 253e0ee..8ccdd34 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -424,7 +424,7 @@ namespace seq
 	template<class Key, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_set<Key, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_set<Key, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 	template<class Key, class T, class Hash = hasher<Key>, class Equal = std::equal_to<>, class Allocator = std::allocator<std::pair<Key, T>>, unsigned Shards = seq::medium_concurrency>
@@ -919,7 +919,7 @@ namespace seq
 	template<class Key, class T, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_map<Key, T, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_map<Key, T, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 }
-- 
2.43.0


From f052f9666998ebbc0282c024130489f70f1d740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 051/120] fix: const visit_all of the concurrent containers
 ignored the functor's result

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..36db709 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1750,7 +1750,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all([&fun](const Value& v) { return std::forward<F>(fun)(v); }))
 						return false;
 				return true;
 			}
-- 
2.43.0


From eba41b082e0f66bf3e371c5e38485aacf534c271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 052/120] fix: non const visit_all of the concurrent containers
 ignored the functor's result

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 36db709..4d496b7 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -487,7 +487,7 @@ namespace seq
 			bool for_each_until(ConcurrentValueNode<T>* n, F&& f) noexcept(noexcept(std::forward<F>(f)(std::declval<std::uint8_t*>(), 0, std::declval<T&>())))
 			{
 				return static_cast<const ConcurrentHashNode*>(this)->for_each_until(
-				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
+				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { return std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
 			}
 		};
 
-- 
2.43.0


From 66e6bb5f729908dac2d8a62bc81e82c804b078b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 053/120] fix: lookups in an empty concurrent table
 dereferenced a null value array

---
 seq/internal/concurrent_hash_table.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 4d496b7..df9240c 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1217,6 +1217,8 @@ namespace seq
 					pos = (hash & d_hash_mask);
 
 				LockShared<node_lock> ll(lock, true);
+				if SEQ_UNLIKELY (d_buckets == get_static_node())
+					return 0;
 				return FindInNode<extract_key>(node_type::tiny_hash(hash), d_data->key_eq(), key, d_buckets + pos, d_values + pos, std::forward<F>(f));
 			}
 			template<class K, class F>
@@ -1230,6 +1232,8 @@ namespace seq
 				else
 					pos = (hash & d_hash_mask);
 				LockUnique<node_lock> ll(lock, true);
+				if SEQ_UNLIKELY (d_buckets == get_static_node())
+					return 0;
 				return FindInNode<extract_key>(node_type::tiny_hash(hash), d_data->key_eq(), key, d_buckets + pos, d_values + pos, std::forward<F>(f));
 			}
 
-- 
2.43.0


From 4e545c9121a69572ef369738a21a55349b367755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 054/120] fix: a functor throwing from a concurrent table
 lookup called std::terminate

---
 seq/internal/concurrent_hash_table.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index df9240c..06b4a71 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -494,8 +494,7 @@ namespace seq
 		/// @brief Find given value in a dense node.
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
-		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) noexcept(noexcept(eq(std::forward<K>(key),
-																	     ExtractKey::key(std::declval<Value&>())))) -> size_t
+		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) -> size_t
 		{
 			do {
 				auto v = FindWithTh<ExtractKey, chain_concurrent_node_size>(th, eq, std::forward<K>(key), n->hashs, n->values());
@@ -510,8 +509,7 @@ namespace seq
 		/// @brief Find given value in main node.
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
-		SEQ_CONCURRENT_INLINE auto FindInNode(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentHashNode* node, const ConcurrentValueNode<Value>* values, F&& f) noexcept(
-		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>())))) -> size_t
+		SEQ_CONCURRENT_INLINE auto FindInNode(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentHashNode* node, const ConcurrentValueNode<Value>* values, F&& f) -> size_t
 		{
 			if (auto v = FindWithTh<ExtractKey, max_concurrent_node_size>(th, eq, std::forward<K>(key), node->hashs, values->values())) {
 				std::forward<F>(f)(const_cast<Value&>(*v));
-- 
2.43.0


From 22234ab8eeaef660cb77c13cb436a344e31a4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:52 +0000
Subject: [PATCH 055/120] fix: concurrent table readers took the bucket lock in
 write mode and released it in read mode

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 06b4a71..e7a8af9 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -743,7 +743,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From 4a6a20e82c31a09f6724d568c61087315906c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:53 +0000
Subject: [PATCH 056/120] fix: concurrent table members read without lock were
 not synchronized

---
 seq/internal/concurrent_hash_table.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index e7a8af9..ac9821b 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -205,7 +205,7 @@ namespace seq
 			// Allocate/initialize the array for given index (between 0 and 31)
 			lock_type* make_array(size_t index)
 			{
-				lock_type* l = arrays[index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[index].load(std::memory_order_acquire);
 				if (l)
 					return l;
 				rebind_alloc<lock_type> al = *this;
@@ -233,7 +233,7 @@ namespace seq
 				}
 				auto operator*() const noexcept -> Lock&
 				{
-					lock_type* l = array->arrays[array_index].load(std::memory_order_relaxed);
+					lock_type* l = array->arrays[array_index].load(std::memory_order_acquire);
 					if SEQ_UNLIKELY (!l)
 						l = array->make_array(array_index);
 					return l[index];
@@ -269,7 +269,7 @@ namespace seq
 			{
 				size_t count = bit_scan_reverse_32(static_cast<unsigned>(size));
 				for (size_t i = 0; i <= count; ++i)
-					if (!arrays[i].load(std::memory_order_relaxed))
+					if (!arrays[i].load(std::memory_order_acquire))
 						at(i);
 			}
 			/// @brief Returns element at given position.
@@ -279,7 +279,7 @@ namespace seq
 			{
 				unsigned ar_index = bit_scan_reverse_32(static_cast<unsigned>(i + 1u));
 				unsigned in_array = static_cast<unsigned>(i) - ((1u << ar_index) - 1u);
-				lock_type* l = arrays[ar_index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[ar_index].load(std::memory_order_acquire);
 				if SEQ_UNLIKELY (!l)
 					l = const_cast<SharedLockArray*>(this)->make_array(ar_index);
 				return l[in_array];
@@ -305,11 +305,11 @@ namespace seq
 			return v;
 		}
 
-		/// @brief Relaxed atomic load
+		/// @brief Acquire atomic load
 		template<class T>
 		static SEQ_CONCURRENT_INLINE T AtomicLoad(const std::atomic<T>& v) noexcept
 		{
-			return v.load(std::memory_order_relaxed);
+			return v.load(std::memory_order_acquire);
 		}
 
 		/// @brief Movemask function of 8 bytes word
@@ -663,6 +663,8 @@ namespace seq
 			static constexpr bool is_concurrent = !std::is_same_v<NodeLock, null_lock>;
 			using size_type = typename std::conditional<is_concurrent, std::atomic<size_t>, size_t>::type;
 			using chain_count_type = typename std::conditional<is_concurrent, std::atomic<unsigned>, unsigned>::type;
+			using mask_type = size_type;
+			using bucket_array_type = typename std::conditional<is_concurrent, std::atomic<node_type*>, node_type*>::type;
 			using lock_array_type = typename std::conditional<is_concurrent, std::atomic<lock_array*>, lock_array*>::type;
 
 			// Maximum hash mask, depends on the SharedLockArray max size.
@@ -670,13 +672,13 @@ namespace seq
 			static constexpr size_t max_hash_mask = is_concurrent ? ((1u << 31u) - 1u) : std::numeric_limits<size_t>::max();
 
 		private:
-			node_type* d_buckets;	       // hash table
+			bucket_array_type d_buckets;   // hash table
 			value_node_type* d_values;     // values
 			PrivateData* d_data;	       // pointer to upper PrivateData
 			lock_array_type d_locks;       // lock array
 			size_type d_size;	       // total size
-			size_t d_next_target;	       // next size before rehash
-			size_t d_hash_mask;	       // hash mask
+			mask_type d_next_target;       // next size before rehash
+			mask_type d_hash_mask;	       // hash mask
 			node_lock d_rehash_lock;       // unique lock for rehash
 			std::atomic<bool> d_in_rehash; // tells if we are in rehash
 			std::mutex d_rehash_mutex;
@@ -1453,7 +1455,8 @@ namespace seq
 				destroy_buckets(d_buckets, d_values, count);
 				d_buckets = get_static_node();
 				d_values = nullptr;
-				d_size = d_next_target = 0;
+				d_size = 0;
+				d_next_target = 0;
 				d_hash_mask = 0;
 
 				if (is_concurrent && locks) {
-- 
2.43.0


From a0038815f1b8da91ea82f46a14d9a4186ce37558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 057/120] fix: non const visit_all of a single bucket
 concurrent table only took a shared lock

---
 seq/internal/concurrent_hash_table.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index ac9821b..5254776 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1268,8 +1268,14 @@ namespace seq
 			template<class F>
 			bool visit_all(F&& fun)
 			{
-				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				// Avoid rehash while calling visit_all.
+				// Without bucket locks, the rehash lock is the one that protects the values.
+				LockShared<node_lock> lock;
+				LockUnique<node_lock> global_lock;
+				if (AtomicLoad(d_locks))
+					lock.init(d_rehash_lock);
+				else
+					global_lock.init(d_rehash_lock);
 				if (d_buckets == get_static_node())
 					return true;
 
-- 
2.43.0


From 3aaea1e66771d339dd9679f861dc1693793de91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:56 +0000
Subject: [PATCH 058/120] fix: concurrent table rehash did not lock the static
 bucket and unlocked too much on exception

---
 seq/internal/concurrent_hash_table.hpp | 31 ++++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 5254776..403f018 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -775,15 +775,17 @@ namespace seq
 				LockUnique<node_lock> ll(d_rehash_lock);
 
 				// Make sure we are growing
-				if (grow_only && new_hash_mask <= d_hash_mask && d_hash_mask != 0)
+				if (grow_only && new_hash_mask <= d_hash_mask && d_buckets != get_static_node())
 					return;
 
 				lock_array* locks = AtomicLoad(d_locks);
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
 				size_t i = 0;
+				size_t locked = 0;
 
 				// Reset chain count
+				unsigned chain_count = AtomicLoad(d_chain_count);
 				d_chain_count = 0;
 
 				try {
@@ -792,14 +794,20 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// The static node has one (empty) bucket, that must be locked like any other
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
+
+						if (d_buckets == get_static_node())
+							break;
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -828,11 +836,11 @@ namespace seq
 					// Destroy and deallocate
 					destroy_buckets(buckets, values, new_hash_mask + 1);
 
-					if (is_concurrent && locks) {
-						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
-							locks->at(j).unlock();
-					}
+					d_chain_count += chain_count;
+					// Unlock locked nodes
+					for (size_t j = 0; j < locked; ++j)
+						locks->at(j).unlock();
+					d_rehash_condition.notify_all();
 					throw;
 				}
 
@@ -850,8 +858,7 @@ namespace seq
 				if (is_concurrent && locks) {
 					// Unlock all nodes
 					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
-					for (i = 0; i < count; ++i, ++iter)
+					for (i = 0; i < locked; ++i, ++iter)
 						iter->unlock();
 				}
 
@@ -873,10 +880,10 @@ namespace seq
 			void destroy_buckets(node_type* buckets, value_node_type* values, size_t count, bool destroy_values = true)
 			{
 				// Deallocate nodes and destroy values
-				if (buckets == get_static_node())
+				if (!buckets || buckets == get_static_node())
 					return;
 
-				for (size_t i = 0; i < count; ++i) {
+				for (size_t i = 0; values && i < count; ++i) {
 					node_type* n = buckets + i;
 					value_node_type* v = values + i;
 					if (destroy_values && !std::is_trivially_destructible_v<Value>) {
-- 
2.43.0


From 02a1c432b914171cf620ccacce3318607efc354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 059/120] fix: concurrent insertion racing with clear() could
 spin forever or use a null table

---
 seq/internal/concurrent_hash_table.hpp | 27 +++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 403f018..0efb09d 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -936,8 +936,21 @@ namespace seq
 					rehash_on_next_target(s);
 			}
 
+			/// @brief Relock a node after a rehash.
+			/// If WaitForBucket is true, make sure that the table has buckets, as it might have been cleared in between.
+			template<bool WaitForBucket>
 			SEQ_NOINLINE(auto) update_lock(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l)
 			{
+				if (WaitForBucket && d_buckets == get_static_node()) {
+					l->unlock();
+					rehash_on_next_target(0);
+					std::this_thread::yield();
+					hash_mask = d_hash_mask;
+					pos = (hash & hash_mask);
+					l = &locks->at(pos);
+					this->lock(*l);
+					return;
+				}
 				hash_mask = d_hash_mask;
 				if (((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
@@ -961,14 +974,18 @@ namespace seq
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
 				l = &d_rehash_lock;
 				l->lock();
+				while (WaitForBucket && d_buckets == get_static_node()) {
+					// No bucket yet (or the table was cleared in between)
+					l->unlock();
+					rehash_on_next_target(0);
+					std::this_thread::yield();
+					l->lock();
+				}
 				if ((locks = AtomicLoad(d_locks))) {
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
+					return this->template get_node<WaitForBucket>(locks, hash, l);
 				}
 				return (hash & d_hash_mask);
 			}
@@ -983,7 +1000,7 @@ namespace seq
 				l = &locks->at(pos);
 				this->lock(*l);
 				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
-					update_lock(locks, hash, hash_mask, pos, l);
+					this->template update_lock<WaitForBucket>(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
 
-- 
2.43.0


From 42ab1d20a7c3f3099a0bd856dfbe268141eb5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 060/120] fix: concurrent table erase left a bucket
 inconsistent when a move threw

---
 seq/internal/concurrent_hash_table.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 0efb09d..5f558d8 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1068,6 +1068,7 @@ namespace seq
 				memset(n->hashs, 0, sizeof(n->hashs));
 
 				chain_node_type* d = v->right;
+				v->right = nullptr;
 				while (d) {
 					if (!std::is_trivially_destructible_v<Value>) {
 						for (unsigned i = 0; i < d->count(); ++i)
@@ -1119,7 +1120,13 @@ namespace seq
 				// Erase position from main node and shift left remaining values
 				if (values->right) {
 					// Take last value from right node
-					values->values()[pos] = std::move(values->right->values()[values->right->count() - 1]);
+					try {
+						values->values()[pos] = std::move(values->right->values()[values->right->count() - 1]);
+					}
+					catch (...) {
+						erase_full_bucket(bucket, values);
+						throw;
+					}
 					bucket->hashs[pos + 1] = values->right->hashs[values->right->count()];
 					// Erase last value from right node
 					erase_from_dense(bucket, values, values->right, values->right->count() - 1);
@@ -1127,7 +1134,14 @@ namespace seq
 				else {
 					// move hashs and values toward the left
 					if (unsigned move_count = (bucket->hashs[0] - pos - 1)) {
-						std::move(values->values() + pos + 1, values->values() + pos + 1 + move_count, values->values() + pos);
+						try {
+							std::move(values->values() + pos + 1, values->values() + pos + 1 + move_count, values->values() + pos);
+						}
+						catch (...) {
+							// Erase full node, no ways to revert back the state
+							erase_full_bucket(bucket, values);
+							throw;
+						}
 						memmove(bucket->hashs + pos + 1, bucket->hashs + pos + 2, move_count);
 					}
 					// invalidate last hash, destroy value, decrease size
-- 
2.43.0


From afd3b8c7178f059d86aa398c1f6080c6d38bfa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 061/120] fix: concurrent table comparison and merge ignored
 the hash state, and deadlocked on the same table

---
 seq/internal/concurrent_hash_table.hpp | 78 ++++++++++++++------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 5f558d8..6bb1055 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1151,22 +1151,15 @@ namespace seq
 				}
 			}
 
-			bool contains_value(const Value& key_value) const
+		public:
+			bool contains_value(size_t hash, const Value& key_value) const
 			{
 				// Returns true if given value (key AND value) exists in this table
-				size_t hash = hash_key(extract_key::key(key_value));
 				bool ret = false;
 				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
 				return ret;
 			}
-			bool contains(const Value& key_value) const
-			{
-				// Returns true if given value (key AND value) exists in this table
-				size_t hash = hash_key(extract_key::key(key_value));
-				return visit_hash(hash, extract_key::key(key_value), [&](const auto&) {});
-			}
 
-		public:
 			/// @brief Constructor
 			explicit ChainingHashTable(PrivateData* data) noexcept
 			  : d_buckets(get_static_node())
@@ -1511,23 +1504,6 @@ namespace seq
 				}
 			}
 
-			/// @brief Returns true if two ChainingHashTable are equals
-			bool equal_to(const ChainingHashTable& other) const
-			{
-				if (d_size != other.size())
-					return false;
-
-				return visit_all([&](const auto& v) { return other.contains_value(v); });
-			}
-
-			/// @brief insert all entries from other not found in this, and remove them from other
-			size_t merge(ChainingHashTable& other)
-			{
-				return other.erase_if([&](auto& v) {
-					size_t hash = hash_key(extract_key::key(v));
-					return this->emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
-				});
-			}
 		};
 
 		/// @brief Base concurrent hash table class, used by both concurrent_set and concurrent_map.
@@ -1685,6 +1661,7 @@ namespace seq
 				return d;
 			}
 			SEQ_CONCURRENT_INLINE const PrivateData* get_data() const noexcept { return AtomicLoad(d_data); }
+			SEQ_CONCURRENT_INLINE PrivateData* get_data_if_any() noexcept { return AtomicLoad(d_data); }
 			SEQ_CONCURRENT_INLINE const PrivateData* cget_data() const noexcept { return AtomicLoad(d_data); }
 
 			/// @brief Given a hash value, returns the corresponding sub-table index
@@ -1702,6 +1679,20 @@ namespace seq
 #endif
 				}
 			}
+			template<class K, class V, class H, class E, class A, unsigned S>
+			friend class ConcurrentHashTable;
+
+			/// @brief Move to d1 all entries of the sub-table d2 not found in d1.
+			/// The 2 tables might use different hash functions (or states), and therefore different sub-tables for the same key.
+			template<class OtherMap>
+			size_t merge_map(PrivateData* d1, OtherMap& d2)
+			{
+				return d2.erase_if([&](auto& v) {
+					size_t hash = d1->hash_key(extract_key::key(v));
+					return d1->at(index_from_hash(hash)).template emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
+				});
+			}
+
 			template<class Policy, class K, class... Args>
 			SEQ_CONCURRENT_INLINE auto emplace_policy_no_check(K&& key, Args&&... args) -> bool
 			{
@@ -2022,8 +2013,11 @@ namespace seq
 				}
 			}
 
-			auto merge(ConcurrentHashTable& other) -> size_t
+			template<class Other>
+			auto merge(Other& other) -> size_t
 			{
+				if (static_cast<const void*>(this) == static_cast<const void*>(std::addressof(other)))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2032,19 +2026,21 @@ namespace seq
 				LockUnique<data_lock_type> l2(const_cast<data_lock_type*>(&other.d_data_lock), true);
 
 				PrivateData* d1 = get_data_no_lock();
-				PrivateData* d2 = const_cast<PrivateData*>(other.cget_data());
+				auto* d2 = other.get_data_if_any();
 				if (!d2)
 					return 0;
 
 				size_t res = 0;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					res += d1->at(i).merge(d2->at(i));
+					res += merge_map(d1, d2->at(i));
 				return res;
 			}
 
-			template<class ExecPolicy>
-			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
+			template<class ExecPolicy, class Other>
+			auto merge(ExecPolicy&& p, Other& other) -> size_t
 			{
+				if (static_cast<const void*>(this) == static_cast<const void*>(std::addressof(other)))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2054,20 +2050,20 @@ namespace seq
 				LockUnique<data_lock_type> l2(const_cast<data_lock_type*>(&other.d_data_lock), true);
 
 				PrivateData* d1 = get_data_no_lock();
-				PrivateData* d2 = const_cast<PrivateData*>(other.cget_data());
+				auto* d2 = other.get_data_if_any();
 				if (!d2)
 					return 0;
 
 				std::atomic<size_t> res = 0;
-				std::for_each(std::forward<ExecPolicy>(p), d1->maps, d1->maps + PrivateData::map_count, [&](const auto& m) {
-					unsigned index = static_cast<unsigned>(&m - d1->maps);
-					res += d1->at(index).merge(d2->at(index));
-				});
+				std::for_each(std::forward<ExecPolicy>(p), d2->maps, d2->maps + PrivateData::map_count, [&](auto& m) { res += merge_map(d1, *m.as_map()); });
 				return res;
 			}
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				if (this == std::addressof(other))
+					return true;
+
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2083,8 +2079,16 @@ namespace seq
 				if (!d2)
 					return size() == 0;
 
+				if (size() != other.size())
+					return false;
+
+				// The 2 tables might use different hash states, and therefore different sub-tables for the same key
+				auto contains_value = [&](const Value& v) {
+					size_t hash = d2->hash_key(extract_key::key(v));
+					return d2->at(other.index_from_hash(hash)).contains_value(hash, v);
+				};
 				for (unsigned i = 0; i < PrivateData::map_count; ++i) {
-					if (!(d1->at(i).equal_to(d2->at(i))))
+					if (!d1->at(i).visit_all(contains_value))
 						return false;
 				}
 				return true;
-- 
2.43.0


From 2d4ed5b3d4321994d573f345f5fbdfd98fd116fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 062/120] fix: concurrent containers assignment lost the hash
 state and mixed allocators

---
 seq/concurrent_map.hpp                 |  8 ++---
 seq/internal/concurrent_hash_table.hpp | 50 ++++++++++++++++----------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 8ccdd34..0a5713e 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -184,9 +184,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_set&
+		auto operator=(concurrent_set&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_set&
 		{
-			base_type::swap(other);
+			static_cast<base_type&>(*this) = static_cast<base_type&&>(other);
 			return *this;
 		}
 
@@ -600,9 +600,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_map&
+		auto operator=(concurrent_map&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_map&
 		{
-			base_type::swap(other);
+			static_cast<base_type&>(*this) = static_cast<base_type&&>(other);
 			return *this;
 		}
 
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 6bb1055..3a04457 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1709,9 +1709,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(const ConcurrentHashTable& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
 				this->reserve(other.size());
 				other.visit_all([&](const Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(v); });
@@ -1721,9 +1719,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
 				if (alloc == other.get_safe_allocator()) {
 					this->swap(other, false);
@@ -1731,6 +1727,8 @@ namespace seq
 				else {
 					this->reserve(other.size());
 					other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
+					// other only holds moved from values
+					other.clear();
 				}
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other) noexcept(std::is_nothrow_move_constructible_v<Alloc> && std::is_nothrow_copy_constructible_v<base_hash_equal>)
@@ -1752,23 +1750,39 @@ namespace seq
 			ConcurrentHashTable& operator=(const ConcurrentHashTable& other)
 			{
 				if (this != std::addressof(other)) {
-					clear();
-					{
-						// Allocator assignment
-						std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
-						LockUnique<data_lock_type> l1(&d_data_lock, true);
-						LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
-
-						assign_allocator<Alloc>(*this, other.get_allocator());
-						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
+					constexpr bool propagate = std::allocator_traits<Alloc>::propagate_on_container_copy_assignment::value;
+					const Alloc al = propagate ? other.get_safe_allocator() : get_safe_allocator();
+
+					if (std::is_empty_v<Hash> && std::is_empty_v<KeyEqual> && al == get_safe_allocator()) {
+						clear();
+						other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
 					}
-					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
+					else {
+						// The hash function, equality comparator or allocator might change: use a new table
+						ConcurrentHashTable tmp(other, al);
+						swap(tmp, false);
+					}
+					LockUnique<data_lock_type> l(d_data_lock);
+					assign_allocator<Alloc>(*this, al);
 				}
 				return *this;
 			}
-			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(noexcept(std::declval<ConcurrentHashTable&>().swap(std::declval<ConcurrentHashTable&>())))
+			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(nothrow_move_assign_alloc<Alloc>::value && noexcept(std::declval<base_hash_equal&>().swap(std::declval<base_hash_equal&>())))
 			{
-				swap(other);
+				if (this != std::addressof(other)) {
+					if constexpr (!nothrow_move_assign_alloc<Alloc>::value) {
+						const Alloc al = get_safe_allocator();
+						if (!(al == other.get_safe_allocator())) {
+							// Cannot take over the memory of other
+							ConcurrentHashTable tmp(std::move(other), al);
+							swap(tmp, false);
+							return *this;
+						}
+					}
+					swap(other, false);
+					if constexpr (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value)
+						std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(other));
+				}
 				return *this;
 			}
 
-- 
2.43.0


From 4fafe6a6e35c2b3caa41d275cad3e892e1725eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 063/120] fix: concurrent containers merge did not compile for
 another hash function type

---
 seq/concurrent_map.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 0a5713e..3d72674 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -42,6 +42,9 @@ namespace seq
 		template<class K, class H, class E>
 		using is_transparent = std::integral_constant<bool, !std::is_same_v<K, void> && has_is_transparent<H>::value && has_is_transparent<E>::value>;
 
+		template<class K, class H, class KE, class A, unsigned S>
+		friend class concurrent_set;
+
 		template<class K, class H, class KE, class A, unsigned S>
 		friend bool operator==(concurrent_set<K, H, KE, A, S> const& lhs, concurrent_set<K, H, KE, A, S> const& rhs);
 
@@ -385,8 +388,9 @@ namespace seq
 		template<class H2, class P2>
 		size_type merge(concurrent_set<Key, H2, P2, Allocator, Shards>& x)
 		{
+			using other_base = typename concurrent_set<Key, H2, P2, Allocator, Shards>::base_type;
 			SEQ_ASSERT_DEBUG(get_allocator() == x.get_allocator(), "");
-			return base_type::merge(x);
+			return base_type::merge(static_cast<other_base&>(x));
 		}
 
 		template<class H2, class P2>
@@ -398,8 +402,9 @@ namespace seq
 		template<class ExecPolicy, class H2, class P2>
 		typename std::enable_if<detail::internal_is_execution_policy<ExecPolicy>, size_type>::type merge(ExecPolicy&& p, concurrent_set<Key, H2, P2, Allocator, Shards>& x)
 		{
+			using other_base = typename concurrent_set<Key, H2, P2, Allocator, Shards>::base_type;
 			SEQ_ASSERT_DEBUG(get_allocator() == x.get_allocator(), "");
-			return base_type::merge(std::forward<ExecPolicy>(p), x);
+			return base_type::merge(std::forward<ExecPolicy>(p), static_cast<other_base&>(x));
 		}
 
 		template<class ExecPolicy, class H2, class P2>
@@ -438,6 +443,9 @@ namespace seq
 		template<class K, class H, class E>
 		using is_transparent = std::integral_constant<bool, !std::is_same_v<K, void> && has_is_transparent<H>::value && has_is_transparent<E>::value>;
 
+		template<class K, class V, class H, class KE, class A, unsigned S>
+		friend class concurrent_map;
+
 		template<class K, class V, class H, class KE, class A, unsigned S>
 		friend bool operator==(concurrent_map<K, V, H, KE, A, S> const& lhs, concurrent_map<K, V, H, KE, A, S> const& rhs);
 
@@ -880,8 +888,9 @@ namespace seq
 		template<class H2, class P2>
 		size_type merge(concurrent_map<Key, T, H2, P2, Allocator, Shards>& x)
 		{
+			using other_base = typename concurrent_map<Key, T, H2, P2, Allocator, Shards>::base_type;
 			SEQ_ASSERT_DEBUG(get_allocator() == x.get_allocator(), "");
-			return base_type::merge(x);
+			return base_type::merge(static_cast<other_base&>(x));
 		}
 
 		template<class H2, class P2>
@@ -893,8 +902,9 @@ namespace seq
 		template<class ExecPolicy, class H2, class P2>
 		typename std::enable_if<detail::internal_is_execution_policy<ExecPolicy>, size_type>::type merge(ExecPolicy&& p, concurrent_map<Key, T, H2, P2, Allocator, Shards>& x)
 		{
+			using other_base = typename concurrent_map<Key, T, H2, P2, Allocator, Shards>::base_type;
 			SEQ_ASSERT_DEBUG(get_allocator() == x.get_allocator(), "");
-			return base_type::merge(std::forward<ExecPolicy>(p), x);
+			return base_type::merge(std::forward<ExecPolicy>(p), static_cast<other_base&>(x));
 		}
 
 		template<class ExecPolicy, class H2, class P2>
-- 
2.43.0


From fc1fd21e197c198bb3d8c69f4d6d66d52eb19429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:34 +0000
Subject: [PATCH 064/120] fix: a hash function throwing in a concurrent table
 called std::terminate

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 3a04457..fb416a6 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1586,7 +1586,7 @@ namespace seq
 				SEQ_CONCURRENT_INLINE auto max_load_factor() const noexcept -> float { return AtomicLoad(load_factor); }
 
 				template<class K>
-				SEQ_CONCURRENT_INLINE auto hash_key(const K& key) const noexcept -> size_t
+				SEQ_CONCURRENT_INLINE auto hash_key(const K& key) const -> size_t
 				{
 					return hash_map::hash_key(this->hash_function(), key);
 				}
-- 
2.43.0


From 9d644c01ea2547604ec1784e3e62aaea12d8fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 065/120] fix: a failing lock array allocation in a concurrent
 table called std::terminate

---
 seq/internal/concurrent_hash_table.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index fb416a6..99e3e5e 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -264,13 +264,14 @@ namespace seq
 					}
 				}
 			}
-			/// @brief Resize array. Not mandatory as at() member will do it if necessary.
+			/// @brief Resize array. Not mandatory as at() member will do it if necessary,
+			/// but a lock array already large enough does not throw on access.
 			void resize(size_t size)
 			{
 				size_t count = bit_scan_reverse_32(static_cast<unsigned>(size));
 				for (size_t i = 0; i <= count; ++i)
 					if (!arrays[i].load(std::memory_order_acquire))
-						at(i);
+						make_array(i);
 			}
 			/// @brief Returns element at given position.
 			/// Resize array if necessary.
@@ -793,6 +794,8 @@ namespace seq
 					// Alloc new buckets
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
+					if (is_concurrent && locks)
+						locks->resize(new_hash_mask + 1u);
 
 					// The static node has one (empty) bucket, that must be locked like any other
 					size_t count = d_hash_mask + 1u;
@@ -871,6 +874,14 @@ namespace seq
 					rebind_alloc<lock_array> al = get_allocator();
 					locks = al.allocate(1);
 					construct_ptr(locks, get_allocator());
+					try {
+						locks->resize(new_hash_mask + 1u);
+					}
+					catch (...) {
+						destroy_ptr(locks);
+						al.deallocate(locks, 1);
+						throw;
+					}
 					d_locks = (locks);
 				}
 
-- 
2.43.0


From 06b3f02493cee79a5535b63e3c2f6797089631ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 066/120] fix: concurrent table move with another allocator
 left moved from keys when it threw

---
 seq/internal/concurrent_hash_table.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 99e3e5e..3fbe005 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1737,8 +1737,14 @@ namespace seq
 				}
 				else {
 					this->reserve(other.size());
-					other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
-					// other only holds moved from values
+					// other might only hold moved from values, even in case of exception
+					try {
+						other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
+					}
+					catch (...) {
+						other.clear();
+						throw;
+					}
 					other.clear();
 				}
 			}
-- 
2.43.0


From 560cae416309ee06f104e8ed698fdc617c172689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:39 +0000
Subject: [PATCH 067/120] fix: concurrent table load_factor() could return NaN
 or infinity while another thread cleared the table

---
 seq/internal/concurrent_hash_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 3fbe005..11bfff8 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1229,7 +1229,8 @@ namespace seq
 			{
 				// Returns the current load factor
 				size_t bucket_count = d_buckets != get_static_node() ? d_hash_mask + 1u : 0u;
-				return size() == 0 ? 0.f : static_cast<float>(size()) / static_cast<float>(bucket_count * node_type::size);
+				size_t count = size();
+				return count == 0 || bucket_count == 0 ? 0.f : static_cast<float>(count) / static_cast<float>(bucket_count * node_type::size);
 			}
 			/// @brief Reserve enough space in the hash table
 			void reserve(size_t size)
-- 
2.43.0


From 41f01ad6884b2850ed22f15f8fbfb0e0ed31fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 068/120] fix: spinlock::try_lock_until did not compile for
 another clock than system_clock

---
 seq/lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/lock.hpp b/seq/lock.hpp
index 7a9cfb4..abf32b6 100644
--- a/seq/lock.hpp
+++ b/seq/lock.hpp
@@ -94,7 +94,7 @@ namespace seq
 					return true;
 
 				while (d_lock.load(std::memory_order_relaxed)) {
-					if (std::chrono::system_clock::now() > timePoint)
+					if (Clock::now() > timePoint)
 						return false;
 					std::this_thread::yield();
 				}
-- 
2.43.0


From 1e217dc1d4344c4fac1c64fd034677b404abc927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 069/120] fix: tiny_string find_last_of, find_last_not_of and
 count were ambiguous for a C string and a position

---
 seq/tiny_string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b380671..734bf25 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1878,7 +1878,7 @@ namespace seq
 		}
 
 		/// @brief Returns the count of non-overlapping occurrences of 'str' starting from position start
-		auto count(const Char* str, size_t n, size_t start = 0) const noexcept -> size_t
+		auto count(const Char* str, size_t n, size_t start) const noexcept -> size_t
 		{
 			if (length() == 0)
 				return 0;
@@ -1991,7 +1991,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class Al, size_t S>
@@ -2016,7 +2016,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0)
@@ -2277,7 +2277,7 @@ namespace seq
 		/**
 		 * Convenient function, returns the count of non-overlapping occurrences of 'str'
 		 */
-		auto count(const Char* str, size_t n, size_t start = 0) const noexcept -> size_t
+		auto count(const Char* str, size_t n, size_t start) const noexcept -> size_t
 		{
 			if (length() == 0)
 				return 0;
-- 
2.43.0


From 8fffea379ffcef417193f8c81d5ca239fd264c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 070/120] fix: tstring_view rfind, find_last_of and
 find_last_not_of did not compile for a C string

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 734bf25..c0acf18 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2364,7 +2364,7 @@ namespace seq
 		auto rfind(const std::basic_string_view<Char, Traits>& str, size_t pos = npos) const noexcept -> size_t { return rfind(str.data(), pos, str.size()); }
 
 		auto rfind(const Char* s, size_t pos = npos) const noexcept -> size_t { return rfind(s, pos, Traits::length(s)); }
-		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind(data(), pos, size(), s, n, npos); }
+		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind<Traits>(data(), pos, size(), s, n, npos); }
 		auto rfind(Char c, size_t pos = npos) const noexcept -> size_t { return std::basic_string_view<Char, Traits>(data(), size()).rfind(c, pos); }
 
 		auto find_first_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_of<Traits>(data(), pos, size(), s, n, npos); }
@@ -2382,7 +2382,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class A, size_t S>
@@ -2409,7 +2409,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0) {
-- 
2.43.0


From 3e0a1b068ff61c734dac425f01a0cb90a2f5b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 071/120] fix: tiny_string concatenation did not compile for
 other characters than char

---
 seq/tiny_string.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index c0acf18..29b13ff 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2770,45 +2770,45 @@ namespace seq
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string<Char, Traits, Al2>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs.data(), rhs.size());
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string_view<Char, Traits>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs.data(), rhs.size());
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const Char* rhs)
 	{
-		return lhs + tstring_view(rhs);
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs);
 	}
 	template<class Char, class Traits, size_t Size, class Al>
-	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, char rhs)
+	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, typename Traits::char_type rhs)
 	{
-		return lhs + tstring_view(&rhs, 1);
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(&rhs, 1);
 	}
 
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const std::basic_string<Char, Traits, Al2>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs.data(), lhs.size()) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const std::basic_string_view<Char, Traits>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs.data(), lhs.size()) + rhs;
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const Char* lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(Char lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(&lhs, 1) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(&lhs, 1) + rhs;
 	}
 
 	/// @brief Returns the string data (const char*) for given string object
-- 
2.43.0


From 8fb9645a72be7402c8f1c3b5ed9e749e2d4ba61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 072/120] fix: default constructed and cleared tiny_string were
 not null terminated

---
 seq/tiny_string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 29b13ff..49b1688 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -551,6 +551,7 @@ namespace seq
 			SEQ_STR_INLINE_STRONG void reset() noexcept
 			{
 				// Initialize with SSO string of size 0
+				d_union.sso.data[0] = 0;
 				last_sso_char() = static_cast<unsigned_char>(sso_mask);
 			}
 		};
-- 
2.43.0


From a656f63b75dbd9e698f7f70278196cf2cb30e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 073/120] fix: tiny_string find members read outside the string
 for a position past the end, and were wrong for an empty needle

---
 seq/tiny_string.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 49b1688..10863ee 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -363,10 +363,10 @@ namespace seq
 		template<class Traits, class Char>
 		inline auto traits_string_find(const Char* data, size_t pos, size_t size, const Char* s, size_t n, size_t npos) noexcept -> size_t
 		{
-			if (n > size || pos + n > size)
+			if (pos > size || n > size - pos)
 				return npos;
 			if (n == 0)
-				return 0;
+				return pos;
 
 			const Char* in = data + pos;
 			const Char* end = in + (size - pos - n) + 1;
@@ -1956,6 +1956,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == NULL ? npos : p - begin();
 		}
@@ -2004,6 +2006,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p)
 				if (*p != c)
@@ -2025,9 +2029,9 @@ namespace seq
 			if (pos >= size())
 				pos = size() - 1;
 			const Char* p = data();
-			for (const Char* in = p + pos; in >= p; --in)
-				if (*in != c)
-					return in - p;
+			for (size_t i = pos + 1; i > 0; --i)
+				if (p[i - 1] != c)
+					return i - 1;
 			return npos;
 		}
 
@@ -2347,6 +2351,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == nullptr ? npos : static_cast<size_t>(p - begin());
 		}
@@ -2395,6 +2401,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p) {
 				if (*p != c) {
@@ -2420,9 +2428,9 @@ namespace seq
 				pos = size() - 1;
 			}
 			const Char* p = data();
-			for (const Char* in = p + pos; in >= p; --in) {
-				if (*in != c) {
-					return static_cast<size_t>(in - p);
+			for (size_t i = pos + 1; i > 0; --i) {
+				if (p[i - 1] != c) {
+					return i - 1;
 				}
 			}
 			return npos;
-- 
2.43.0


From 1d0dbfe3e7102b9f6d140431d7358aac959a2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 074/120] fix: tiny_string read or wrote out of bounds for a
 position past the end or a too large length, and replace used the wrong
 sub-length

---
 seq/tiny_string.hpp | 127 +++++++++++++++++++-------------------------
 1 file changed, 54 insertions(+), 73 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 10863ee..2aa185b 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -412,6 +412,14 @@ namespace seq
 			return npos;*/
 		}
 
+		/// Returns the length of the sub-string [pos, pos + len) of a string of given size, throw std::out_of_range for invalid position
+		inline auto string_sub_length(size_t pos, size_t len, size_t size) -> size_t
+		{
+			if (pos > size)
+				throw std::out_of_range("tiny_string out of range");
+			return len < size - pos ? len : size - pos;
+		}
+
 		template<class Char, size_t MaxSSO>
 		struct SSOStorage
 		{
@@ -1152,15 +1160,14 @@ namespace seq
 		tiny_string(const tiny_string& other, size_t pos, size_t len, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			if (len == npos || pos + len > other.size())
-				len = other.size() - pos;
+			len = detail::string_sub_length(pos, len, other.size());
 			memcpy(initialize(len), other.data() + pos, len * sizeof(Char));
 		}
 		/// @brief Construct by copying a sub-part of other
 		tiny_string(const tiny_string& other, size_t pos, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			size_t len = other.size() - pos;
+			size_t len = detail::string_sub_length(pos, npos, other.size());
 			memcpy(initialize(len), other.data() + pos, len * sizeof(Char));
 		}
 		/// @brief Move constructor
@@ -1277,8 +1284,7 @@ namespace seq
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = str.size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			internal_resize(sublen, false, true);
 			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
 			return *this;
@@ -1545,24 +1551,21 @@ namespace seq
 		template<size_t Ss, class Al>
 		auto append(const tiny_string<Char, Traits, Al, Ss>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = str.size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			return append(str.data() + subpos, sublen);
 		}
 		/// @brief Append the sub-part of str to this string
 		template<class Al>
 		auto append(const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = str.size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			return append(str.data() + subpos, sublen);
 		}
 
 		/// @brief Append the sub-part of str to this string
 		auto append(const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = str.size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			return append(str.data() + subpos, sublen);
 		}
 
@@ -1622,6 +1625,7 @@ namespace seq
 		template<size_t S, class AL>
 		auto insert(size_t pos, const tiny_string<Char, Traits, AL, S>& str) -> tiny_string&
 		{
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, str.begin(), str.end());
 			return *this;
 		}
@@ -1629,6 +1633,7 @@ namespace seq
 		template<class Al>
 		auto insert(size_t pos, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, str.begin(), str.end());
 			return *this;
 		}
@@ -1636,6 +1641,7 @@ namespace seq
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, str.begin(), str.end());
 			return *this;
 		}
@@ -1643,8 +1649,8 @@ namespace seq
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const tiny_string& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = str.size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1653,18 +1659,21 @@ namespace seq
 		{
 			// avoid multiple push_back
 			size_t len = Traits::length(s);
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, s, s + len);
 			return *this;
 		}
 		/// @brief Inserts buffer at position pos
 		auto insert(size_t pos, const Char* s, size_t n) -> tiny_string&
 		{
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, s, s + n);
 			return *this;
 		}
 		/// @brief Inserts n copies of character c at position pos
 		auto insert(size_t pos, size_t n, Char c) -> tiny_string&
 		{
+			detail::string_sub_length(pos, 0, size());
 			insert(begin() + pos, cvalue_iterator<Char>(0, c), cvalue_iterator<Char>(n));
 			return *this;
 		}
@@ -1691,8 +1700,7 @@ namespace seq
 		/// @brief Removes up to sublen character starting from subpos
 		auto erase(size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > size())
-				sublen = size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, size());
 			erase_internal(subpos, subpos + sublen);
 			return *this;
 		}
@@ -1715,8 +1723,7 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
 		}
@@ -1724,8 +1731,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
 		}
@@ -1749,8 +1755,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
 		}
@@ -1766,10 +1771,8 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
-				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			len = detail::string_sub_length(pos, len, size());
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1777,10 +1780,8 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
-				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			len = detail::string_sub_length(pos, len, size());
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1788,10 +1789,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by a sub-part of str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
-				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			len = detail::string_sub_length(pos, len, size());
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1800,6 +1799,7 @@ namespace seq
 		auto replace(size_t pos, size_t len, const Char* s) -> tiny_string&
 		{
 			size_t l = Traits::length(s);
+			len = detail::string_sub_length(pos, len, size());
 			replace_internal(pos, len, s, s + l);
 			return *this;
 		}
@@ -1813,6 +1813,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by buffer s of size n
 		auto replace(size_t pos, size_t len, const Char* s, size_t n) -> tiny_string&
 		{
+			len = detail::string_sub_length(pos, len, size());
 			replace_internal(pos, len, s, s + n);
 			return *this;
 		}
@@ -1826,6 +1827,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by n copies of c
 		auto replace(size_t pos, size_t len, size_t n, Char c) -> tiny_string&
 		{
+			len = detail::string_sub_length(pos, len, size());
 			replace_internal(pos, len, cvalue_iterator<Char>(0, c), cvalue_iterator<Char>(n));
 			return *this;
 		}
@@ -1921,10 +1923,7 @@ namespace seq
 		/// Returns the number of copied characters.
 		auto copy(Char* s, size_t len, size_t pos = 0) const -> size_t
 		{
-			if (pos > size())
-				throw std::out_of_range("tiny_string::copy out of range");
-			if (len == npos || pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			memcpy(s, data() + pos, len * sizeof(Char));
 			return len;
 		}
@@ -1932,10 +1931,7 @@ namespace seq
 		// @brief Returns a sub-part of this string as a tstring_view object
 		auto substr(size_t pos, size_t len = npos) const -> tiny_string<Char, Traits, view_allocator<Char>, 0>
 		{
-			if (pos > size())
-				throw std::out_of_range("tiny_string::substr out of range");
-			if (len == npos || pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			return tiny_string<Char, Traits, view_allocator<Char>, 0>(begin() + pos, len);
 		}
 
@@ -2051,31 +2047,29 @@ namespace seq
 		}
 
 		template<class Al, size_t S>
-		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) const noexcept -> int
+		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) const -> int
 		{
 			return compare(pos, len, str.data(), str.size());
 		}
 		template<class Al>
-		auto compare(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) const noexcept -> int
+		auto compare(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) const -> int
 		{
 			return compare(pos, len, str.data(), str.size());
 		}
 
-		auto compare(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) const noexcept -> int { return compare(pos, len, str.data(), str.size()); }
+		auto compare(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) const -> int { return compare(pos, len, str.data(), str.size()); }
 
 		template<class Al, size_t S>
-		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) const noexcept -> int
+		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) const -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = str.size() - subpos;
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			return compare(pos, len, str.data() + subpos, sublen);
 		}
 		auto compare(const Char* s) const noexcept -> int { return compare(0, size(), s); }
-		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
-		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
+		auto compare(size_t pos, size_t len, const Char* s) const -> int { return compare(pos, len, s, Traits::length(s)); }
+		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const -> int
 		{
-			if (len == npos) //|| pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
 
@@ -2313,24 +2307,14 @@ namespace seq
 
 		auto copy(Char* s, size_t len, size_t pos = 0) const -> size_t
 		{
-			if (pos > size()) {
-				throw std::out_of_range("tiny_string::copy out of range");
-			}
-			if (len == npos || pos + len > size()) {
-				len = size() - pos;
-			}
+			len = detail::string_sub_length(pos, len, size());
 			memcpy(s, data() + pos, len * sizeof(Char));
 			return len;
 		}
 
 		auto substr(size_t pos = 0, size_t len = npos) const -> tiny_string
 		{
-			if (pos > size()) {
-				throw std::out_of_range("tiny_string::substr out of range");
-			}
-			if (len == npos || pos + len > size()) {
-				len = size() - pos;
-			}
+			len = detail::string_sub_length(pos, len, size());
 			return { begin() + pos, len };
 		}
 
@@ -2452,28 +2436,25 @@ namespace seq
 		}
 
 		template<class Al>
-		auto compare(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) const noexcept -> int
+		auto compare(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) const -> int
 		{
 			return compare(pos, len, str.data(), str.size());
 		}
 
-		int compare(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) const noexcept { return compare(pos, len, str.data(), str.size()); }
+		int compare(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) const { return compare(pos, len, str.data(), str.size()); }
 
 		template<class A, size_t S>
-		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, A, S>& str, size_t subpos, size_t sublen) const noexcept -> int
+		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, A, S>& str, size_t subpos, size_t sublen) const -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size()) {
-				sublen = str.size() - subpos;
-			}
+			sublen = detail::string_sub_length(subpos, sublen, str.size());
 			return compare(pos, len, str.data() + subpos, sublen);
 		}
 		auto compare(const Char* s) const noexcept -> int { return compare(0, size(), s); }
-		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
-		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
+		auto compare(size_t pos, size_t len, const Char* s) const -> int { return compare(pos, len, s, Traits::length(s)); }
+		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const -> int
 		{
 
-			if (len == npos) //|| pos + len > size())
-				len = size() - pos;
+			len = detail::string_sub_length(pos, len, size());
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
 
-- 
2.43.0


From 967c280c08d2e9498c5860c73e0dbbea339a47ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 075/120] fix: tiny_string replace moved too few bytes for
 characters wider than one byte

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 2aa185b..ca69415 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -999,7 +999,7 @@ namespace seq
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
-					memmove(data() + pos + input_size, data() + pos + len, size() - (pos + len));
+					memmove(data() + pos + input_size, data() + pos + len, (size() - (pos + len)) * sizeof(Char));
 
 				// copy input
 				std::copy(first, last, data() + pos);
-- 
2.43.0


From 901c27d2b9fb6dd6b33d05c58c52b7bb0f0beac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 076/120] fix: tiny_string assign, append, insert and replace
 were wrong for a source inside the string, and append of single pass or
 forward ranges did not compile

---
 seq/tiny_string.hpp | 144 ++++++++++++++++++++++++--------------------
 1 file changed, 80 insertions(+), 64 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index ca69415..3e4724e 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -904,39 +904,64 @@ namespace seq
 			d_data.setSize(len);
 		}
 
-		template<class Iter, class Cat>
-		void assign_cat(Iter first, Iter last, Cat /*unused*/)
+		/// Detect iterators that never refer to the content of a string
+		template<class Iter>
+		struct is_value_iterator : std::is_same<Iter, cvalue_iterator<Char>>
+		{
+		};
+		template<class Iter>
+		struct is_char_pointer : std::integral_constant<bool, std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>>
+		{
+		};
+
+		bool is_inside(const Char* s) const noexcept
+		{
+			// Returns true if s points to this string content
+			const Char* p = data();
+			return std::less_equal<const Char*>()(p, s) && std::less_equal<const Char*>()(s, p + size());
+		}
+		template<class Iter>
+		bool may_alias(const Iter& it) const noexcept
+		{
+			// Returns true if a range starting at given iterator might be a part of this string
+			if constexpr (is_char_pointer<Iter>::value)
+				return is_inside(it);
+			else
+				return !is_value_iterator<Iter>::value;
+		}
+		template<class Iter>
+		auto copy_range(Iter first, Iter last) const -> tiny_string
 		{
-			// assign range for non random access iterators
-			tiny_string tmp;
-			while (first != last) {
-				tmp.push_back(*first);
-				++first;
+			// Returns a copy of the range [first,last)
+			tiny_string tmp(d_data.get_allocator());
+			if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<Iter>::iterator_category>) {
+				tmp.internal_resize(static_cast<size_t>(last - first), false, true);
+				std::copy(first, last, tmp.data());
 			}
-			*this = std::move(tmp);
+			else {
+				for (; first != last; ++first)
+					tmp.push_back(*first);
+			}
+			return tmp;
 		}
+
 		template<class Iter>
-		void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
+		void assign_range(Iter first, Iter last)
 		{
-			// assign range for random access iterators
-			internal_resize(static_cast<size_t>(last - first), false, true);
-			std::copy(first, last, data());
+			if constexpr (is_char_pointer<Iter>::value)
+				assign(static_cast<const Char*>(first), static_cast<size_t>(last - first));
+			else {
+				tiny_string tmp = copy_range(first, last);
+				swap(tmp);
+			}
 		}
 
 		template<class Iter, class Cat>
 		void insert_cat(size_t pos, Iter first, Iter last, Cat /*unused*/)
 		{
 			// insert range for non random access iterators
-			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
-			if (first == last)
-				return;
-
-			// push back, might throw
-			size_type prev_size = size();
-			for (; first != last; ++first)
-				push_back(*first);
-			// Might throw, fine
-			std::rotate(begin() + pos, begin() + prev_size, end());
+			const tiny_string tmp = copy_range(first, last);
+			insert_cat(pos, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
 		}
 
 		template<class Iter>
@@ -946,6 +971,10 @@ namespace seq
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
+			if (may_alias(first)) {
+				const tiny_string tmp = copy_range(first, last);
+				return insert_cat(pos, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
+			}
 
 			if (pos < size() / 2) {
 				size_type to_insert = static_cast<size_t>(last - first);
@@ -994,6 +1023,11 @@ namespace seq
 		template<class Iter>
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
+			if (may_alias(first)) {
+				const tiny_string tmp = copy_range(first, last);
+				return replace_cat(pos, len, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
+			}
+
 			size_t input_size = (last - first);
 			size_t new_size = size() - len + input_size;
 			if (new_size <= capacity()) {
@@ -1022,17 +1056,11 @@ namespace seq
 			swap(other);
 		}
 		template<class Iter, class Cat>
-		void replace_cat(size_t pos, size_t len, Iter first, Iter last, Cat c)
+		void replace_cat(size_t pos, size_t len, Iter first, Iter last, Cat /*unused*/)
 		{
-			// otherwise, create a new string and fill it
-			tiny_string other;
-			// first part
-			other.append(data(), pos);
-			// middle part
-			other.append(first, last);
-			// last part
-			other.append(data() + pos + len, size() - (pos + len));
-			swap(other);
+			// replace for non random access iterators
+			const tiny_string tmp = copy_range(first, last);
+			replace_cat(pos, len, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
 		}
 		template<class Iter>
 		void replace_internal(size_t pos, size_t len, Iter first, Iter last)
@@ -1196,7 +1224,7 @@ namespace seq
 		tiny_string(Iter first, Iter last, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
+			assign_range(first, last);
 		}
 		/// @brief Construct from initializer list
 		tiny_string(std::initializer_list<Char> il, const Allocator& al = Allocator())
@@ -1237,7 +1265,7 @@ namespace seq
 		template<class Iter>
 		auto assign(Iter first, Iter last) -> tiny_string&
 		{
-			assign_cat(first, last, typename std::iterator_traits<Iter>::iterator_category());
+			assign_range(first, last);
 			return *this;
 		}
 		/// @brief Assign the content of other to this string
@@ -1262,44 +1290,39 @@ namespace seq
 		template<class OtherAlloc, size_t OtherMaxStaticSize>
 		auto assign(const tiny_string<Char, Traits, OtherAlloc, OtherMaxStaticSize>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		template<class Al>
 		auto assign(const std::basic_string<Char, Traits, Al>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		auto assign(const std::basic_string_view<Char, Traits>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.data(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
 			sublen = detail::string_sub_length(subpos, sublen, str.size());
-			internal_resize(sublen, false, true);
-			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
-			return *this;
+			return assign(str.data() + subpos, sublen);
 		}
 		/// @brief Assign a null-terminated buffer to this string
 		auto assign(const Char* s) -> tiny_string&
 		{
-			size_t len = Traits::length(s);
-			internal_resize(len, false, true);
-			memcpy(this->data(), s, len * sizeof(Char));
-			return *this;
+			return assign(s, Traits::length(s));
 		}
 		/// @brief Assign a buffer to this string
 		auto assign(const Char* s, size_t n) -> tiny_string&
 		{
+			if SEQ_UNLIKELY (is_inside(s)) {
+				// s is a part of this string
+				memmove(this->data(), s, n * sizeof(Char));
+				internal_resize(n, false, true);
+				return *this;
+			}
 			internal_resize(n, false, true);
 			memcpy(this->data(), s, n * sizeof(Char));
 			return *this;
@@ -1579,8 +1602,10 @@ namespace seq
 				return *this;
 			size_t old_size = size();
 			size_t new_size = old_size + n;
+			const bool inside = is_inside(s);
+			const size_t offset = inside ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
-			memcpy(d + old_size, s, n * sizeof(Char));
+			memcpy(d + old_size, inside ? d + offset : s, n * sizeof(Char));
 			d[new_size] = 0;
 			return *this;
 		}
@@ -1602,21 +1627,12 @@ namespace seq
 		{
 			if (first == last)
 				return *this;
-			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
-				size_t n = std::distance(first, last);
-				size_t old_size = size();
-				size_t new_size = old_size + n;
-				Char* d = resize_grow(new_size);
-				std::copy(first, last, d + old_size);
-				d[new_size] = 0;
-			}
+			if constexpr (is_char_pointer<Iter>::value)
+				return append(static_cast<const Char*>(first), static_cast<size_t>(last - first));
 			else {
-				while (first != last) {
-					push_back(*first);
-					++first;
-				}
+				const tiny_string tmp = copy_range(first, last);
+				return append(tmp.data(), tmp.size());
 			}
-			return *this;
 		}
 		/// @brief Append the content of the range [il.begin(),il.end()) to this string
 		auto append(std::initializer_list<Char> il) -> tiny_string& { return append(il.begin(), il.end()); }
-- 
2.43.0


From 0a21d6f0c4085d50d2108453747aca6dc03ae5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 077/120] fix: tiny_string copy and move assignment ignored the
 allocator propagation rules, and temporaries used a default allocator

---
 seq/tiny_string.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 3e4724e..02d7d75 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1044,7 +1044,7 @@ namespace seq
 			}
 
 			// otherwise, create a new string and fill it (might throw)
-			tiny_string other(new_size, 0);
+			tiny_string other(new_size, 0, d_data.get_allocator());
 			Char* op = other.data();
 			// first part
 			memcpy(op, data(), pos * sizeof(Char));
@@ -1271,16 +1271,20 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const tiny_string& other) -> tiny_string&
 		{
+			if SEQ_UNLIKELY (this == std::addressof(other))
+				return *this;
+			if constexpr (assign_alloc<Allocator>::value) {
+				if (get_allocator() != other.get_allocator()) {
+					tiny_string tmp(other, other.get_allocator());
+					std::swap(get_allocator(), tmp.get_allocator());
+					std::swap(d_data.d_union, tmp.d_data.d_union);
+					return *this;
+				}
+			}
+			assign_allocator(get_allocator(), other.get_allocator());
 			if (is_sso() && other.is_sso())
 				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
 			else {
-				if constexpr (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
-						clear();
-					}
-				}
-				assign_allocator(get_allocator(), other.get_allocator());
-
 				internal_resize(other.size(), false, true);
 				memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
 			}
@@ -1337,9 +1341,12 @@ namespace seq
 		/// @brief Assign to this string the initializer list il
 		auto assign(std::initializer_list<Char> il) -> tiny_string& { return assign(il.begin(), il.end()); }
 		/// @brief Move the content of other to this string. Equivalent to tiny_string::operator=.
-		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(noexcept(std::declval<internal_data&>().swap(std::declval<internal_data&>()))) -> tiny_string&
+		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(nothrow_move_assign_alloc<Allocator>::value) -> tiny_string&
 		{
-			if constexpr (sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
+			if constexpr (!is_always_equal<Allocator>::value)
+				// Follow the allocator propagation rules
+				move_assign_container(*this, other, [](tiny_string& l, tiny_string& r) { std::swap(l.d_data.d_union, r.d_data.d_union); });
+			else if constexpr (sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
 				// Use internal_data.swap() for small static size or if moving allocator is NOT noexcept
 				d_data.swap(other.d_data);
 			else if SEQ_LIKELY (this != std::addressof(other)) {
@@ -1395,7 +1402,7 @@ namespace seq
 				return;
 			}
 
-			tiny_string other(n, 0);
+			tiny_string other(n, 0, d_data.get_allocator());
 			if (n > old_size) {
 				std::fill_n(other.data(), n - old_size, c);
 				memcpy(other.data() + n - old_size, data(), old_size * sizeof(Char));
-- 
2.43.0


From 5820bcd4e0a24e0834ddca26a41dbf850a109e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 078/120] fix: tiny_string wrote out of bounds instead of
 throwing std::length_error for a too large size

---
 seq/tiny_string.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 02d7d75..fac2a17 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -471,7 +471,7 @@ namespace seq
 			static constexpr unsigned_char sso_mask = sizeof(unsigned_char) == 8U ? (1ULL << 63ULL) : (1ULL << (sizeof(unsigned_char) * 8ULL - 1ULL));
 			static constexpr unsigned_char non_sso_mask = sso_mask >> 1ULL;
 			static constexpr unsigned_char check_sso_mask = sso_mask | non_sso_mask;
-			static constexpr std::uintptr_t max_capacity = last_character_overlapp ? (std::numeric_limits<size_t>::max() >> 2ULL) : std::numeric_limits<size_t>::max();
+			static constexpr std::uintptr_t max_capacity = std::numeric_limits<size_t>::max() >> 2ULL;
 
 			static constexpr std::uintptr_t non_sso_flag = (1ULL << (sizeof(std::uintptr_t) * 8U - 2U));
 			static constexpr size_t char_offset = sizeof(size_t) / sizeof(Char);
@@ -856,6 +856,8 @@ namespace seq
 			const bool sso = is_sso();
 			if (len == old_size)
 				return;
+			if SEQ_UNLIKELY (len > max_size())
+				throw std::length_error("tiny_string too long");
 
 			// Avoid reallocating if we have enough capacity
 			if (sso) {
@@ -914,6 +916,14 @@ namespace seq
 		{
 		};
 
+		auto grown_size(size_t n) const -> size_t
+		{
+			// Returns the size after adding n characters
+			if SEQ_UNLIKELY (n > max_size() - size())
+				throw std::length_error("tiny_string too long");
+			return size() + n;
+		}
+
 		bool is_inside(const Char* s) const noexcept
 		{
 			// Returns true if s points to this string content
@@ -979,7 +989,7 @@ namespace seq
 			if (pos < size() / 2) {
 				size_type to_insert = static_cast<size_t>(last - first);
 				// Might throw, fine
-				resize_front(size() + to_insert);
+				resize_front(grown_size(to_insert));
 				iterator beg = begin();
 				// Might throw, fine
 				Char* p = data();
@@ -992,7 +1002,7 @@ namespace seq
 			else {
 				// Might throw, fine
 				size_type to_insert = static_cast<size_t>(last - first);
-				resize(size() + to_insert);
+				resize(grown_size(to_insert));
 				Char* p = data();
 				size_t s = size();
 				std::copy_backward(p + pos, p + (s - to_insert), p + s);
@@ -1029,7 +1039,7 @@ namespace seq
 			}
 
 			size_t input_size = (last - first);
-			size_t new_size = size() - len + input_size;
+			size_t new_size = grown_size(input_size) - len;
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
@@ -1072,6 +1082,8 @@ namespace seq
 		auto initialize(size_t size) -> Char*
 		{
 			// intialize the string for given size
+			if SEQ_UNLIKELY (size > max_size())
+				throw std::length_error("tiny_string too long");
 			if (!d_data.setSize(size)) {
 				// non sso
 				try {
@@ -1608,7 +1620,7 @@ namespace seq
 			if SEQ_UNLIKELY (n == 0)
 				return *this;
 			size_t old_size = size();
-			size_t new_size = old_size + n;
+			size_t new_size = grown_size(n);
 			const bool inside = is_inside(s);
 			const size_t offset = inside ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
@@ -1622,7 +1634,7 @@ namespace seq
 			if SEQ_UNLIKELY (n == 0)
 				return *this;
 			size_t old_size = size();
-			size_t new_size = old_size + n;
+			size_t new_size = grown_size(n);
 			Char* d = resize_grow(new_size);
 			std::fill_n(d + old_size, n, c);
 			d[new_size] = 0;
-- 
2.43.0


From 85b311df9b8e6dfd24dd748ff51a44ae8a331c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 079/120] fix: tiny_string stream extraction reset the width of
 a stream it did not read

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index fac2a17..5c245bc 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -3111,9 +3111,9 @@ namespace seq
 			catch (...) {
 				iss.setstate(std::ios_base::badbit);
 			}
+			iss.width(0);
 		}
 
-		iss.width(0);
 		if (!changed)
 			state |= std::ios_base::failbit;
 		iss.setstate(state);
-- 
2.43.0


From 48c6bb70d331c8c5bf29aa8fa950341621dceb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 080/120] fix: tiny_string shrink_to_fit read a wrong capacity
 when going back to the static storage

---
 seq/tiny_string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 5c245bc..33b9948 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1445,15 +1445,16 @@ namespace seq
 			size_t s = size();
 			if (!is_sso() && capacity_internal() != s + 1) {
 				Char* p = d_data.d_union.non_sso.data;
+				const size_t cap = capacity_internal();
 				if (is_sso(s)) {
 					memcpy(d_data.d_union.sso.data, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, cap + char_offset);
 				}
 				else {
 					Char* _new = d_data.allocate(s + char_offset + 1);
 					write_size_t(_new, s + 1);
 					memcpy(_new + char_offset, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, cap + char_offset);
 					d_data.d_union.non_sso.data = _new;
 				}
 				d_data.setSize(s);
-- 
2.43.0


From 8e0845224db12b3d8460a241546c4ff2fecb3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:50 +0000
Subject: [PATCH 081/120] fix: tiny_string comparison ignored the order of its
 character traits (wchar_t, custom traits)

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 33b9948..fe3c2a1 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -132,11 +132,11 @@ namespace seq
 			using unsigned_char = typename std::make_unsigned<Char>::type;
 
 			size_t l = l1 < l2 ? l1 : l2;
-			if (l && *v1 != *v2)
-				return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2)) ? -1 : 1;
+			if (l && !Traits::eq(*v1, *v2))
+				return Traits::lt(*v1, *v2) ? -1 : 1;
 
 #ifndef SEQ_NO_FAST_BSWAP
-			if constexpr (sizeof(Char) == 1) {
+			if constexpr (sizeof(Char) == 1 && std::is_same_v<Traits, std::char_traits<Char>>) {
 				const Char* end = v1 + l;
 				while ((v1 < end - (8 - 1))) {
 					std::uint64_t r1 = read_64(v1);
-- 
2.43.0


From f0054403b56661a1bce86cc6f55b531699b8f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 082/120] fix: integer to_chars overflowed its buffer with a
 large minimum width, and wrote a bool through a null pointer

---
 seq/charconv.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..afe5350 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1114,6 +1114,9 @@ namespace seq
 
 			if constexpr (std::is_same_v<T, bool>) {
 				Char* dst = range.add_size(1);
+				if SEQ_UNLIKELY (!dst) {
+					return { range.end_ptr(), std::errc::value_too_large };
+				}
 				*dst++ = _val ? (Char)('1') : (Char)('0');
 				return { dst, std::errc() };
 			}
@@ -1135,8 +1138,10 @@ namespace seq
 				}
 				const char* chars = fmt.upper_case ? upper_chars : lower_chars;
 				int min_width = static_cast<int>(fmt.integral_min_width);
-				char tmp[66];
-				int index = 65;
+				// up to 255 digits (see integral_min_width), the sign and the prefix
+				static constexpr int max_chars = 255 + 3;
+				char tmp[max_chars + 1];
+				int index = max_chars;
 				tmp[index] = 0;
 				unsigned neg = 0;
 
@@ -1158,8 +1163,8 @@ namespace seq
 					val = _new;
 				}
 				if (min_width >= 0) {
-					int count = 65 - index;
-					while (min_width-- > count && index > 0) {
+					int count = max_chars - index;
+					while (min_width-- > count) {
 						tmp[--index] = '0';
 					}
 				}
-- 
2.43.0


From 090f21943429f3596878c1d6960ed5c2665c9086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 083/120] fix: negate_if_signed and abs overflowed for the
 smallest signed value

---
 seq/type_traits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/type_traits.hpp b/seq/type_traits.hpp
index de4ab82..e35bd19 100644
--- a/seq/type_traits.hpp
+++ b/seq/type_traits.hpp
@@ -93,7 +93,8 @@ namespace seq
 	auto negate_if_signed(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(-v);
+			// negate the unsigned value: -v overflows for the smallest one
+			return static_cast<std::make_unsigned_t<T>>(0 - static_cast<std::make_unsigned_t<T>>(v));
 		else
 			return v;
 	}
@@ -102,7 +103,7 @@ namespace seq
 	auto abs(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(v < 0 ? -v : v);
+			return v < 0 ? negate_if_signed(v) : static_cast<std::make_unsigned_t<T>>(v);
 		else
 			return v;
 	}
-- 
2.43.0


From d0dfaecfae212224be023df80badadb1964be5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 084/120] fix: integer parsing accepted a lone sign, rejected a
 last single digit in other bases, and overflowed signed integers

---
 seq/charconv.hpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index afe5350..55976de 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -490,7 +490,9 @@ namespace seq
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			// accumulate in an unsigned type: too large values silently wrap
+			using uint_type = typename integer_abs_return<T>::type;
+			uint_type x = 0;
 			int sign = 1;
 
 			// get first character
@@ -515,23 +517,20 @@ namespace seq
 				sign = -1;
 				first = (int)str.getc();
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+			// at least one digit is mandatory
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
 
-			while (is_digit(first)) {
-				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
+			do {
+				x = static_cast<uint_type>((x * static_cast<uint_type>(10)) + static_cast<uint_type>(first - '0'));
 				first = (int)str.getc();
-			}
+			} while (is_digit(first));
 			if (first != EOF)
 				str.back();
 
 			str.reset();
 
-			return sign_value(x, sign);
+			return static_cast<T>(sign_value(x, sign));
 
 		error:
 			if (str)
@@ -554,7 +553,9 @@ namespace seq
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			// accumulate in an unsigned type: too large values silently wrap
+			using uint_type = typename integer_abs_return<T>::type;
+			uint_type x = 0;
 			int sign = 1;
 			unsigned val;
 			// get frist character
@@ -585,7 +586,7 @@ namespace seq
 				val = to_digit_hex(first);
 				if SEQ_UNLIKELY (val >= base)
 					goto error;
-				x = static_cast<T>(val);
+				x = static_cast<uint_type>(val);
 
 				// read second one
 				first = (int)str.getc();
@@ -594,7 +595,7 @@ namespace seq
 					if (x != 0) {
 						// X after non 0 digit, return
 						str.back();
-						return sign_value(x, sign); // sign == -1 ? -x : x;
+						return static_cast<T>(sign_value(x, sign)); // sign == -1 ? -x : x;
 					}
 					first = (int)str.getc();
 					val = to_digit_hex(first);
@@ -607,16 +608,18 @@ namespace seq
 
 				if SEQ_UNLIKELY (val >= base) {
 					// invalid char
-					str.back();
-					return sign_value(x, sign); // sign == -1 ? -x : x;
+					if (first != EOF)
+						str.back();
+					str.reset();
+					return static_cast<T>(sign_value(x, sign)); // sign == -1 ? -x : x;
 				}
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
 				first = (int)str.getc();
 				val = to_digit_hex(first);
 			}
 
 			while (val < base) {
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
 				first = (int)str.getc();
 				val = to_digit_hex(first);
 			}
@@ -624,7 +627,7 @@ namespace seq
 				str.back();
 
 			str.reset();
-			return sign_value(x, sign); // sign == -1 ? -x : x;
+			return static_cast<T>(sign_value(x, sign)); // sign == -1 ? -x : x;
 
 		error:
 			if (str)
-- 
2.43.0


From e7d9e108e275fb819c008c4d24663b6cab77a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 085/120] fix: text input streams mistook the character 0xff
 for the end of file, missed it for char16_t, and read wide letters as digits

---
 seq/charconv.hpp | 59 ++++++++++++++++++++++++++++--------------------
 seq/format.hpp   |  2 +-
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 55976de..ea5faa8 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -389,6 +389,16 @@ namespace seq
 			return sign == -1 ? (0ULL - val) : val;
 		}
 
+		/// Convert a character to an int that never equals EOF for a valid character
+		template<class Char>
+		static SEQ_ALWAYS_INLINE auto char_to_int(Char c) noexcept -> int
+		{
+			if constexpr (sizeof(Char) == 1)
+				return static_cast<int>(static_cast<unsigned char>(c));
+			else
+				return static_cast<int>(c);
+		}
+
 		static SEQ_ALWAYS_INLINE auto digit_value(int c) noexcept -> unsigned
 		{
 			return static_cast<unsigned>(c - '0');
@@ -406,10 +416,10 @@ namespace seq
 		{
 			return c == '\n' || c == '\r';
 		}
-		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> char
+		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> int
 		{
-			static constexpr char offset = 'a' - 'A';
-			return static_cast<char>(c >= 'a' ? c - offset : c);
+			static constexpr int offset = 'a' - 'A';
+			return (c >= 'a' && c <= 'z') ? c - offset : c;
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
@@ -702,8 +712,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			char a = to_upper((int)str.getc());
-			char n = to_upper((int)str.getc());
+			int a = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -716,8 +726,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			char n = to_upper((int)str.getc());
-			char f = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
+			int f = to_upper((int)str.getc());
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
@@ -1875,7 +1885,7 @@ namespace seq
 			const Char* d_end;
 			std::errc d_state;
 
-			auto set_eof() noexcept -> Char
+			auto set_eof() noexcept -> int
 			{
 				d_state = std::errc::invalid_argument;
 				return EOF;
@@ -1927,13 +1937,12 @@ namespace seq
 			SEQ_ALWAYS_INLINE void seek(const Char* pos) noexcept { d_start = pos; }
 			/// @brief Extract a single character from the stream and put the read position to the next character
 			/// @return extracted character or EOF
-			SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+			SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 			{
 				if SEQ_LIKELY (d_start != d_end) {
-					return *d_start++;
+					return char_to_int(*d_start++);
 				}
-				d_state = std::errc::invalid_argument;
-				return (Char)EOF;
+				return set_eof();
 			}
 		};
 
@@ -1958,10 +1967,10 @@ namespace seq
 		streamsize d_pos;
 		StreamState d_state;
 
-		auto set_eof() noexcept -> Char
+		auto set_eof() noexcept -> int
 		{
 			d_state = EndOfFile;
-			return (Char)EOF;
+			return EOF;
 		}
 
 	public:
@@ -2031,10 +2040,10 @@ namespace seq
 		}
 		/// @brief Extract a single character from the stream and put the read position to the next character
 		/// @return extracted character or EOF
-		SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+		SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 		{
 			if SEQ_LIKELY (d_pos != d_len) {
-				return d_buff[d_pos++];
+				return detail::char_to_int(d_buff[d_pos++]);
 			}
 			return set_eof();
 			// return d_pos != d_len ? d_buff[d_pos++] : set_eof();
@@ -2079,13 +2088,13 @@ namespace seq
 		Char* d_buff_end;
 		State d_state;
 
-		auto set_eof() noexcept -> Char
+		auto set_eof() noexcept -> int
 		{
 			set_state(EndOfFile);
-			return (Char)EOF;
+			return EOF;
 		}
 
-		auto fillbuff() -> Char
+		auto fillbuff() -> int
 		{
 			d_file->read(d_buff, buff_size);
 			size_t read = d_file->gcount();
@@ -2095,7 +2104,7 @@ namespace seq
 			d_buff_end = d_buff + read;
 			if SEQ_LIKELY (read > 0) {
 				++d_pos;
-				return *d_buff_pos++;
+				return detail::char_to_int(*d_buff_pos++);
 			}
 			return set_eof();
 		}
@@ -2193,13 +2202,13 @@ namespace seq
 			return d_pos;
 		}
 		/// @brief Returns the next character from the stream and update the get position
-		SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+		SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 		{
 			// We need this one to be very fast
 			if SEQ_UNLIKELY (d_buff_pos == d_buff_end)
 				return fillbuff();
 			++d_pos;
-			return *d_buff_pos++;
+			return detail::char_to_int(*d_buff_pos++);
 		}
 		/// @brief Read several bytes from the stream, and return the number of read bytes.
 		auto read(Char* dst, size_t size) noexcept -> size_t
@@ -2250,7 +2259,7 @@ namespace seq
 		State d_state;
 		int d_flag;
 
-		auto set_eof() noexcept -> char
+		auto set_eof() noexcept -> int
 		{
 			set_state(EndOfFile);
 			return EOF;
@@ -2263,7 +2272,7 @@ namespace seq
 			d_buff_end = d_buff + read;
 			if SEQ_LIKELY (read) {
 				++d_pos;
-				return *d_buff_pos++;
+				return detail::char_to_int(*d_buff_pos++);
 			}
 			return set_eof();
 		}
@@ -2401,7 +2410,7 @@ namespace seq
 			if SEQ_UNLIKELY (d_buff_pos == d_buff_end)
 				return fillbuff();
 			++d_pos;
-			return *d_buff_pos++;
+			return detail::char_to_int(*d_buff_pos++);
 		}
 		/// @brief Read several bytes from the stream, and return the number of read bytes.
 		auto read(char* dst, streamsize size) noexcept -> streamsize
diff --git a/seq/format.hpp b/seq/format.hpp
index 42583de..a01043d 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1562,7 +1562,7 @@ namespace seq
 				tmp.reserve(min_cap);
 			}
 
-			char fmt = detail::to_upper(val.format());
+			char fmt = static_cast<char>(detail::to_upper(val.format()));
 			bool upper = val.format() <= 'Z';
 
 #if !defined(SEQ_USE_INTERNAL_STD_TO_CHARS) && !defined(__GNUC__) // a LOT of version of gcc are missing the floating point std::to_chars
-- 
2.43.0


From 79242b89454303d5dfbe72eb9414550fe4c53dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 086/120] fix: floating point parsing rejected .5 and 1., lost
 large/small exponents and subnormals, overflowed integers and misread
 incomplete exponents

---
 seq/charconv.hpp | 309 ++++++++++++++++++++---------------------------
 1 file changed, 129 insertions(+), 180 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ea5faa8..4443926 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -675,22 +675,22 @@ namespace seq
 			second = static_cast<unsigned>((int)str.getc() - '0');
 			count = 0;
 			while ((first <= 9) && (second <= 9)) {
+				if SEQ_UNLIKELY (count == 18) {
+					goto too_long_int;
+				}
 				x = x * static_cast<int64_t>(100) + static_cast<int64_t>(integral_read_table[first][second]);
 				first = static_cast<unsigned>((int)str.getc() - '0');
 				second = static_cast<unsigned>((int)str.getc() - '0');
 				count += 2;
-				if SEQ_UNLIKELY (count > 18) {
-					goto too_long_int;
-				}
 			}
 			if (second != _EOF) {
 				str.back();
 			}
 			if ((first <= 9)) {
-				x = x * 10 + static_cast<int64_t>(first);
-				if (++count > 18) {
+				if SEQ_UNLIKELY (count == 18) {
 					goto too_long_int;
 				}
+				x = x * 10 + static_cast<int64_t>(first);
 			}
 			else if (first != _EOF) {
 				str.back();
@@ -755,126 +755,119 @@ namespace seq
 			static constexpr Integral value = nullptr;
 		};
 
-		template<class T, class Integral, class Stream>
-		SEQ_NOINLINE(auto)
-		read_long_double(T res, Integral saved, int sign, char dot, Stream& str, const chars_format& fmt) -> T
+		/// Returns value * 10^exp, without intermediate overflow/underflow
+		template<class T>
+		static inline auto scale_pow_10(T value, int exp) -> T
 		{
-			// Read double too long to be read as separate integrals
+			static constexpr int max_exp = std::numeric_limits<T>::max_exponent10;
+			static constexpr int min_exp = std::numeric_limits<T>::min_exponent10;
+
+			if SEQ_LIKELY (exp >= min_exp && exp <= max_exp)
+				return value * get_pow<T>(exp);
 
-			if (std::isnan(res)) {
-				res = 0;
+			while (exp > max_exp && SEQ_COMPARE_FLOAT(value != 0) && value <= std::numeric_limits<T>::max()) {
+				value *= get_pow<T>(max_exp);
+				exp -= max_exp;
 			}
+			while (exp < min_exp && SEQ_COMPARE_FLOAT(value != 0)) {
+				value *= get_pow<T>(min_exp);
+				exp -= min_exp;
+			}
+			if (exp < min_exp || exp > max_exp)
+				return value; // 0 or inf
+			return value * get_pow<T>(exp);
+		}
 
-			Integral save_point = NullValue<Integral>::value;
+		/// Read the exponent part of a floating point value, starting after the 'e' character.
+		/// Returns false if there is no valid exponent.
+		template<class Stream>
+		static inline auto read_exponent(Stream& str, int& exp) -> bool
+		{
+			static constexpr int max_exp = 100000000;
+
+			int c = (int)str.getc();
+			int sign = 1;
+			if (c == '-' || c == '+') {
+				sign = c == '-' ? -1 : 1;
+				c = (int)str.getc();
+			}
+			if (!is_digit(c))
+				return false;
+			exp = 0;
+			do {
+				// saturate
+				if SEQ_LIKELY (exp < max_exp)
+					exp = (exp * 10) + static_cast<int>(c - '0');
+				c = (int)str.getc();
+			} while (is_digit(c));
+			if (c != EOF)
+				str.back();
+			str.reset();
+			exp *= sign;
+			return true;
+		}
+
+		template<class T, class Integral, class Stream>
+		SEQ_NOINLINE(auto)
+		read_long_double(Integral saved, int sign, char dot, Stream& str, const chars_format& fmt) -> T
+		{
+			// Read double too long to be read as separate integrals.
+			// Keep the 19 first significant digits.
+
+			std::uint64_t mantissa = 0;
+			int digits = 0;
+			int shift = 0;
 			int first = (int)str.getc();
+			bool has_exp = false;
+
+			auto add_digit = [&](int c) {
+				if (digits < 19) {
+					mantissa = mantissa * 10u + static_cast<std::uint64_t>(c - '0');
+					if (mantissa)
+						++digits;
+					return true;
+				}
+				return false;
+			};
 
 			// read decimal
 			while (is_digit(first)) {
-				res = (res * static_cast<T>(10)) + static_cast<T>(first - '0');
+				if (!add_digit(first))
+					++shift;
 				first = (int)str.getc();
 			}
-			if (first == EOF) {
-				if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
-					str.set_state(BadInputFormat);
-					goto error;
-				}
-				str.reset();
-				return sign_value(res, sign);
-			}
-
 			if (first == dot) {
-
 				// read fractional part
 				first = (int)str.getc();
-				T factor = static_cast<T>(0.1);
 				while (is_digit(first)) {
-					res = res + static_cast<T>(first - '0') * factor;
-					factor *= static_cast<T>(0.1);
+					if (add_digit(first))
+						--shift;
 					first = (int)str.getc();
 				}
-				if (first == EOF) {
-					if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
-						str.set_state(BadInputFormat);
-						goto error;
-					}
-
-					str.reset();
-					return sign_value(res, sign);
-				}
 			}
-
-			if (first == 'e' || first == 'E') {
-				if SEQ_UNLIKELY ((fmt & scientific) == 0) {
-					str.back();
-					return sign_value(res, sign);
-				}
-
-				save_point = str.tell() - 1;
-				// read exponent part
-				first = (int)str.getc();
-				int exp_sign = 1;
+			if ((first == 'e' || first == 'E') && fmt != fixed) {
+				Integral save_point = str.tell();
 				int exp = 0;
-				if (first == '-') {
-					exp_sign = -1;
-					first = (int)str.getc();
-					if (!is_digit(first)) {
-						goto partial;
-					}
-				}
-				else if (first == '+') {
-					first = (int)str.getc();
-					if (!is_digit(first)) {
-						goto partial;
-					}
-				}
-				else if (!is_digit(first)) {
-					goto partial;
-				}
-
-				do {
-					exp = (exp * 10) + static_cast<int>(first - '0');
-					first = (int)str.getc();
-				} while (is_digit(first));
-				exp = exp_sign == -1 ? -exp : exp;
-				if (exp < -323 || exp > 308) {
-#if LDBL_MANT_DIG > DBL_MANT_DIG
-					// long double are supported
-					res *= std::pow(10.L, exp);
-#else
-					res = exp > 0 ? std::numeric_limits<T>::infinity() : 0;
-#endif
+				if (read_exponent(str, exp)) {
+					has_exp = true;
+					shift += exp;
 				}
 				else {
-					res *= static_cast<T>(get_pow_double(exp)); // pow10[exp + 323];
-				}
-
-				if (first != EOF) {
-					str.back();
+					// the 'e' character is not part of the value
+					str.reset();
+					str.seek(save_point);
 				}
 			}
-			else {
-				if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
-					str.set_state(BadInputFormat);
-					goto error;
+			if (!has_exp) {
+				if SEQ_UNLIKELY (fmt == scientific) {
+					return return_bad_format<T>(saved, str);
 				}
 				if (first != EOF) {
 					str.back();
 				}
 			}
-
-			str.reset();
-			return sign_value(res, sign);
-
-		error:
-			if (str) {
-				str.set_state(BadInputFormat);
-			}
-			str.seek(saved);
-			return 0;
-		partial:
 			str.reset();
-			str.seek(save_point);
-			return sign_value(res, sign);
+			return sign_value(scale_pow_10(static_cast<T>(mantissa), shift), sign);
 		}
 
 		template<class T, class Stream>
@@ -902,16 +895,10 @@ namespace seq
 				// first character is a sign
 				sign = -1;
 				first = (int)str.getc();
-				if SEQ_UNLIKELY (first == EOF) {
-					return 0;
-				}
 			}
 			else if (first == '+') {
 				// first character is a sign
 				first = (int)str.getc();
-				if SEQ_UNLIKELY (first == EOF) {
-					return 0;
-				}
 			}
 			// potential nan
 			else if SEQ_UNLIKELY (to_upper(first) == 'N') {
@@ -931,110 +918,72 @@ namespace seq
 
 			// fast path: read integral part and decimal part as integers
 			str.back();
-			Integral check_point = str.tell();
-			// read intergal part
-			int64_t integral = read_int64(str);
-			if SEQ_UNLIKELY (!str) {
-				if (integral == -1) {
+			// mark this state as a check point for the slow path.
+			const Integral check_point = str.tell();
+			bool has_digits = false;
+
+			if SEQ_LIKELY (first != dot) {
+				// read intergal part
+				int64_t integral = read_int64(str);
+				if SEQ_UNLIKELY (!str) {
 					// too big: switch to the default slower version
 					goto slow_path;
 				}
-
-				// invalid intergal part: invalid format
-				return return_bad_format<T>(saved, str);
+				has_digits = true;
+				res = static_cast<T>(integral);
 			}
 
 			// keep going with dot, decimal part, exponent.
-			// mark this state as a chack point, as the intergal part might be reused by the slow path.
-			res = static_cast<T>(integral);
-			check_point = str.tell();
-
 			c = (int)str.getc();
 			if (c == dot) {
 				// read decimal part
 				Integral new_check_point = str.tell();
 				int64_t decimal = read_int64(str);
-				if SEQ_UNLIKELY (!str) {
-					if (decimal == -1) {
-						// too big: switch to the default slower version
+				if SEQ_LIKELY (str) {
+					has_digits = true;
+					int dist = static_cast<int>(str.tell() - new_check_point);
+					if SEQ_UNLIKELY (dist > 18)
 						goto slow_path;
-					}
-					if (fmt == scientific) {
-						// exponent is mandatory
+					res += static_cast<T>(decimal) * get_pow<T>(-dist);
+				}
+				else if (decimal == -1) {
+					// too big: switch to the default slower version
+					goto slow_path;
+				}
+				else {
+					// we accept a dot with nothing after, provided that there is an integral part
+					if SEQ_UNLIKELY (!has_digits)
 						return return_bad_format<T>(saved, str);
-					}
-					// we accept a dot with nothing after
-					return sign_value(res, sign);
+					str.reset();
+					str.seek(new_check_point);
 				}
-				int dist = static_cast<int>(str.tell() - new_check_point);
-				res += static_cast<T>(decimal) * get_pow<T>(-dist);
 				c = (int)str.getc();
 			}
-			if (c == 'e' || c == 'E') {
-				if SEQ_UNLIKELY (fmt == fixed) {
-					// exponent forbiden
-					return return_bad_format<T>(saved, str);
-				}
+			if ((c == 'e' || c == 'E') && fmt != fixed) {
 				// read exponent
+				Integral exp_check_point = str.tell();
 				int exp = 0;
-				int esign = 1;
-				c = (int)str.getc();
-				if (!is_digit(c)) {
-					// read exponent sign
-					if (c == '-') {
-						esign = -1;
-					}
-					else if SEQ_UNLIKELY (c != '+') {
-						return return_bad_format<T>(saved, str);
-					}
-					c = (int)str.getc();
-					if (!is_digit(c)) {
-						return return_bad_format<T>(saved, str);
-					}
-				}
-				// read exponent value
-				unsigned cc = static_cast<unsigned>(c - '0');
-				do {
-					exp = (exp * 10) + static_cast<int>(cc);
-					cc = static_cast<unsigned>((int)str.getc() - '0');
-				} while (cc <= 9U);
-				if (cc != _EOF) {
-					str.back();
-				}
-				else {
-					str.reset();
-				}
-
-				exp = sign_value(exp, esign);
-				// check exponent validity
-				if SEQ_UNLIKELY (exp > std::numeric_limits<T>::max_exponent10) {
-					return sign_value(std::numeric_limits<T>::infinity(), sign);
-				}
-				if SEQ_UNLIKELY (exp < std::numeric_limits<T>::min_exponent10)
-					return sign_value(static_cast<T>(0), sign);
-
-				// success
-				T p = get_pow<T>(exp);
-				res = sign_value(res * p, sign);
-				return res;
+				if SEQ_LIKELY (read_exponent(str, exp))
+					return sign_value(scale_pow_10(res, exp), sign);
+				// the 'e' character is not part of the value
+				str.reset();
+				str.seek(exp_check_point);
 			}
 			if SEQ_UNLIKELY (fmt == scientific) {
 				// exponent is mandatory
 				return return_bad_format<T>(saved, str);
 			}
-			else {
-				// success
-				str.reset();
-				if (c != EOF)
-					str.back();
-				return sign_value(res, sign);
-			}
+			// success
+			if (c != EOF)
+				str.back();
+			str.reset();
+			return sign_value(res, sign);
 
 		slow_path:
 			// slower way of reading a floating point value, relies on floating point arithmetic.
-			// reuse the integral part if possible.
+			str.reset();
 			str.seek(check_point);
-			return read_long_double<T>(integral != -1 ? res : std::numeric_limits<T>::quiet_NaN(), saved, sign, dot, str, fmt);
+			return read_long_double<T>(saved, sign, dot, str, fmt);
 		}
 
 		template<class T, class Stream>
-- 
2.43.0


From 590cf85e9011ee4308b9aaac16976afb27204da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 087/120] fix: floating point writing gave 10e+00, read out of
 bounds, picked the layout before rounding and refused exactly sized buffers

---
 seq/charconv.hpp | 273 +++++++++++++++++++++--------------------------
 1 file changed, 124 insertions(+), 149 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 4443926..36ab9c6 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1436,6 +1436,11 @@ namespace seq
 						exponent += pow_table[start];
 					}
 				}
+				// the value might have been rounded below the power of 10
+				if SEQ_UNLIKELY (value < 1) {
+					value *= 10;
+					--exponent;
+				}
 			}
 			else if (value > 0 && value < 1) {
 				const float_tables<T>* t = get_float_low_div_tables<T>();
@@ -1447,6 +1452,12 @@ namespace seq
 				}
 			}
 
+			// the last multiplication might have been rounded up to 10
+			if SEQ_UNLIKELY (value >= 10) {
+				value *= static_cast<T>(0.1);
+				++exponent;
+			}
+
 			// for higher precision, this method can be used (note: reduce precision for long double as it might be the result of std::pow)
 			// if (sizeof(T) <= 8)
 			//	value = saved * get_pow<T>(-exponent);
@@ -1468,10 +1479,15 @@ namespace seq
 			if (fmt.fmt == seq::general) {
 				// see https://stackoverflow.com/questions/30658919/the-precision-of-printf-with-specifier-g
 				width = width == 0 ? 1 : width;
+				// the layout depends on the exponent of the value once rounded to width digits
+				int exp = exponent;
+				if (value + get_pow<T>(width > 20 ? -19 : 1 - width) / 2 >= 10 - 40 * std::numeric_limits<T>::epsilon()) {
+					++exp;
+				}
 				// adjust format and precision
-				if (width > exponent && exponent >= -4 && exponent <= max_exp_for_fixed) {
+				if (width > exp && exp >= -4 && exp <= max_exp_for_fixed) {
 					fmt.fmt = seq::fixed;
-					width = width - 1 - exponent;
+					width = width - 1 - exp;
 				}
 				else {
 					fmt.fmt = seq::scientific;
@@ -1493,7 +1509,10 @@ namespace seq
 				null_first = true;
 			}
 
-			int p = width > 17 ? 17 : width;
+			if (width > 17) {
+				width = 17;
+			}
+			const int p = width;
 			remainder *= get_pow<T>(p);
 			decimals = static_cast<UInt>(remainder);
 
@@ -1505,181 +1524,143 @@ namespace seq
 				if SEQ_UNLIKELY (decimals >= max_val) {
 					decimals = 0;
 					integral++;
-					if (exponent != 0 && integral >= 10) {
+					if (fmt.fmt != seq::fixed && integral >= 10) {
 						exponent++;
 						integral = 1;
 					}
 				}
 			}
 
+			// only zeros after the dot
+			if (null_first && decimals == static_cast<UInt>(get_pow<T>(p - 1) + static_cast<T>(0.5))) {
+				decimals = 0;
+			}
+
 			return width;
 		}
 
-		template<class Range, class T>
-		SEQ_ALWAYS_INLINE auto write_double_fixed(const Range& range, T value, int width, float_chars_format fmt) -> to_chars_result<typename Range::char_type>
+		/// Write, one digit after the other, the digits of a value in fixed notation.
+		/// The last digits are held back while a rounding might change them, as well as
+		/// the possible trailing zeros: only the final characters go to the output range.
+		template<class Range>
+		struct fixed_digits_writer
 		{
-			// Write floating point value with fixed method (usually slower than scientific or general)
-
 			using Char = typename Range::char_type;
 
-			// extract full exponent
-			fmt.fmt = scientific;
-			std::int16_t exponent = static_cast<std::int16_t>(normalize_double(value, fmt));
-
-			// output sign
-
-			Char* start = range.current();
-			const char* dec_table = decimal_table();
-
-			// append leading 0, just use for rounding purpose
-			if SEQ_UNLIKELY (!range.append((Char)'0')) {
-				return { range.end_ptr(), std::errc::value_too_large };
+			const Range& range;
+			Char dot;
+			int integral;	   // remaining digits before the dot
+			int held = -1;	   // last digit different from 9, -1 for the (omitted) leading zero
+			int nines = 0;	   // number of 9 following
+			int zeros = 0;	   // number of zeros not yet written in the decimal part
+			bool has_dot = false;
+
+			fixed_digits_writer(const Range& r, char d, int integral_digits)
+			  : range(r)
+			  , dot(static_cast<Char>(d))
+			  , integral(integral_digits)
+			{
 			}
-
-			std::int16_t exp = exponent;
-			if (exponent >= 0) {
-				// output integral part for positive exponent
-
-				// reduce the number of floating point operations by outputting 2 digits at once
-				if (exp) {
-					value *= 10;
-					do {
-						char v = static_cast<char>(value);
-						Char* dst = range.add_size(2);
-						if SEQ_UNLIKELY (!dst) {
-							return { range.end_ptr(), std::errc::value_too_large };
-						}
-						const char* d = dec_table + static_cast<int>(v) * 2;
-						dst[0] = (Char)d[1];
-						dst[1] = (Char)d[0];
-						exp -= 2;
-						// for big exponents, we end up with a value of 0, therefore avoid the useless floating point math
-						if (SEQ_COMPARE_FLOAT(v != 0 || value != 0)) {
-							value -= v;
-							value *= 100;
+			bool write(int digit)
+			{
+				if (integral > 0) {
+					--integral;
+				}
+				else if (digit == 0) {
+					++zeros;
+					return true;
+				}
+				else {
+					if (!has_dot) {
+						has_dot = true;
+						if SEQ_UNLIKELY (!range.append(dot)) {
+							return false;
 						}
-					} while (exp >= 1);
-					if (exp <= 0) {
-						value *= static_cast<T>(0.1);
 					}
-				}
-				while (exp >= 0) {
-					char v = static_cast<char>(value);
-					if SEQ_UNLIKELY (!range.append((Char)(v + '0'))) {
-						return { range.end_ptr(), std::errc::value_too_large };
+					for (; zeros > 0; --zeros) {
+						if SEQ_UNLIKELY (!range.append(static_cast<Char>('0'))) {
+							return false;
+						}
 					}
-					--exp;
-					value -= v;
-					value *= 10.;
 				}
+				return range.append(static_cast<Char>('0' + digit));
 			}
-			else {
-				// output 0 for negative exponent
-				if SEQ_UNLIKELY (!range.append((Char)'0')) {
-					return { range.end_ptr(), std::errc::value_too_large };
+			bool push(int digit)
+			{
+				if (digit == 9) {
+					++nines;
+					return true;
 				}
+				if SEQ_UNLIKELY (!finish(false)) {
+					return false;
+				}
+				held = digit;
+				return true;
 			}
-			// output dot
-			if SEQ_UNLIKELY (!range.append((Char)fmt.dot)) {
-				return { range.end_ptr(), std::errc::value_too_large };
-			}
-
-			// for negative exponent, output possibly LOTS of 0 before the remaining of decimal part
-			while (++exponent < 0) {
-				if SEQ_UNLIKELY (!range.append((Char)'0')) {
-					return { range.end_ptr(), std::errc::value_too_large };
+			bool finish(bool round_up)
+			{
+				if (held < 0 && round_up) {
+					// one more integral digit
+					++integral;
+					held = 0;
 				}
-				--width;
-				if (width == -1) {
-					width = 0;
-					break; // we went outside the required precision, stop
+				if SEQ_UNLIKELY (held >= 0 && !write(held + static_cast<int>(round_up))) {
+					return false;
+				}
+				for (; nines > 0; --nines) {
+					if SEQ_UNLIKELY (!write(round_up ? 0 : 9)) {
+						return false;
+					}
 				}
+				return true;
 			}
+		};
 
-			// output decimal part with a precision of width +1 for rounding purpose
+		template<class Range, class T>
+		SEQ_ALWAYS_INLINE auto write_double_fixed(const Range& range, T value, int width, float_chars_format fmt) -> to_chars_result<typename Range::char_type>
+		{
+			// Write floating point value with fixed method (usually slower than scientific or general)
 
-			// We still have a precision issue, as normalize_double() might produce a remainder like 0.49999... while it should be 0.5
-			// Therefore, the value might be rounded to the lower decimal instead of the upper one, only for values ending with '5'
-			// Current fix is to add a very small value that can compensate the computation rounding errors
-			// value += 1e-9; // Disabled for now
+			// extract full exponent
+			fmt.fmt = scientific;
+			int exponent = normalize_double(value, fmt);
 
-			// reduce the number of floating point operations by outputting 2 digits at once
-			if (exponent >= 0) {
-				if (width) {
-					value *= 10;
-					do {
-						char v = static_cast<char>(value);
-						Char* dst = range.add_size(2);
-						if SEQ_UNLIKELY (!dst) {
-							return { range.end_ptr(), std::errc::value_too_large };
-						}
-						const char* d = dec_table + static_cast<int>(v) * 2;
-						dst[0] = (Char)d[1];
-						dst[1] = (Char)d[0];
-						width -= 2;
-						if (SEQ_COMPARE_FLOAT(v != 0 || value != 0)) {
-							value -= v;
-							value *= 100;
-						}
-					} while (width >= 1);
-					if (width <= 0) {
-						value *= static_cast<T>(0.1);
-					}
-				}
-				while (width >= 0) {
-					char v = static_cast<char>(value);
-					if SEQ_UNLIKELY (!range.append((Char)(v + '0'))) {
-						return { range.end_ptr(), std::errc::value_too_large };
-					}
-					--width;
-					value -= v;
-					value *= 10.;
-				}
-			}
+			fixed_digits_writer<Range> writer(range, fmt.dot, exponent >= 0 ? exponent + 1 : 1);
 
-			// round
-			Char* last = range.current() - 1;
-			if (*last >= (Char)'5') {
-				Char* saved_last = last - 1;
-				do {
-					--last;
-					// skip dot to round the integral part
-					if (*last == (Char)fmt.dot) {
-						--last;
-					}
-					(*last)++;
-					if (*last == (Char)':') {
-						*last = (Char)'0';
-					}
-					else {
-						break;
-					}
-				} while (last > start);
+			// number of digits to write
+			int count = (exponent >= 0 ? exponent + 1 : 1) + width;
 
-				if (last != start) {
-					// remove leading 0
-					memmove(start, start + 1, static_cast<size_t>(saved_last - start) * sizeof(Char));
-					--saved_last;
+			// output leading zeros for negative exponent
+			for (int i = exponent; i < 0 && count > 0; ++i, --count, ++exponent) {
+				if SEQ_UNLIKELY (!writer.push(0)) {
+					return { range.end_ptr(), std::errc::value_too_large };
 				}
-				last = saved_last;
-			}
-			else {
-				// remove leading 0
-				memmove(start, start + 1, static_cast<size_t>(last - start - 1) * sizeof(Char));
-				last -= 2;
 			}
 
-			// remove trailing 0(s)
-			while (*last == (Char)'0') {
-				--last;
+			// output the remaining digits
+			auto next_digit = [&value]() {
+				int digit = static_cast<int>(value);
+				if SEQ_UNLIKELY (digit > 9) {
+					digit = 9;
+				}
+				value = (value - static_cast<T>(digit)) * 10;
+				return digit;
+			};
+			for (; count > 0; --count) {
+				if (SEQ_COMPARE_FLOAT(value == 0) && count <= width) {
+					break; // only trailing zeros
+				}
+				if SEQ_UNLIKELY (!writer.push(next_digit())) {
+					return { range.end_ptr(), std::errc::value_too_large };
+				}
 			}
 
-			// do not keep a dot without trailing values
-			if (*last == (Char)fmt.dot) {
-				--last;
+			// round based on the following digit (a zero if we went outside the required precision)
+			if SEQ_UNLIKELY (!writer.finish(exponent >= 0 && next_digit() >= 5)) {
+				return { range.end_ptr(), std::errc::value_too_large };
 			}
 
-			return { last + 1, std::errc() };
+			return { range.current(), std::errc() };
 		}
 
 		template<class Range>
@@ -1755,16 +1736,10 @@ namespace seq
 					return { range.end_ptr(), std::errc::value_too_large };
 				}
 
-				Char* t = range.current();
 				r = write_integer_decimal_part(range, (decimals), width, decrement_first);
 				if SEQ_UNLIKELY (r.ec == std::errc::value_too_large) {
 					return r;
 				}
-
-				// if nothing was outputed, remove the dot
-				if (r.ptr == t) {
-					r.ptr = range.back();
-				}
 			}
 			// write exponent
 			if (exponent | (fmt.fmt == scientific)) {
-- 
2.43.0


From a4c2b65e0e605ebc56c28168410e5ddcb0b11361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 088/120] fix: text input streams went below position 0, read
 stale characters after a block read, and rewound an opened FILE

---
 seq/charconv.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 36ab9c6..4e8aeb5 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1978,7 +1978,7 @@ namespace seq
 		{
 			streamsize rem = d_len - d_pos;
 			streamsize to_read = std::min(size, rem);
-			memcpy(dst, d_buff + d_pos, to_read);
+			std::copy(d_buff + d_pos, d_buff + d_pos + to_read, dst);
 			if (size > rem) {
 				set_eof();
 			}
@@ -2091,7 +2091,7 @@ namespace seq
 				--d_buff_pos;
 				--d_pos;
 			}
-			else
+			else if (d_pos > 0)
 				seek(d_pos - 1);
 		}
 		/// @brief Seek to given position and returns the new get position
@@ -2105,8 +2105,12 @@ namespace seq
 				}
 				else {
 					d_buff_pos = d_buff_end = nullptr;
-					if (!d_file->seekg(pos, std::ios::beg))
-						return d_pos = d_file->tellg();
+					if (!d_file->seekg(pos, std::ios::beg)) {
+						// invalid position, stay at the current one
+						d_file->clear();
+						d_file->seekg(d_pos, std::ios::beg);
+						return d_pos;
+					}
 					d_pos = pos;
 				}
 			}
@@ -2118,8 +2122,12 @@ namespace seq
 				}
 				else {
 					d_buff_pos = d_buff_end = nullptr;
-					if (!d_file->seekg(pos, std::ios::beg))
-						return d_pos = d_file->tellg();
+					if (!d_file->seekg(pos, std::ios::beg)) {
+						// invalid position, stay at the current one
+						d_file->clear();
+						d_file->seekg(d_pos, std::ios::beg);
+						return d_pos;
+					}
 					d_pos = pos;
 				}
 			}
@@ -2146,6 +2154,8 @@ namespace seq
 				dst += from_buffer;
 			}
 			if (size > from_buffer) {
+				// the buffer no longer precedes the file position
+				d_buff_pos = d_buff_end = nullptr;
 				size -= from_buffer;
 				d_file->read(dst, size);
 				read_vals += d_file->gcount();
@@ -2226,7 +2236,7 @@ namespace seq
 		/// @brief Construct from a FILE object.
 		/// If 'own' is true, closing the stream will also close the FILE object.
 		explicit file_input_stream(FILE* file, bool own) noexcept
-		  : d_file(file)
+		  : d_file(NULL)
 		  , d_pos(0)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
@@ -2292,7 +2302,7 @@ namespace seq
 				--d_buff_pos;
 				--d_pos;
 			}
-			else
+			else if (d_pos > 0)
 				seek(d_pos - 1);
 		}
 		/// @brief Seek to given location, and return the new get position
@@ -2348,6 +2358,8 @@ namespace seq
 				dst += from_buffer;
 			}
 			if (size > from_buffer) {
+				// the buffer no longer precedes the file position
+				d_buff_pos = d_buff_end = NULL;
 				size -= from_buffer;
 				streamsize _fread = fread(dst, 1, size, d_file);
 				read_vals += _fread;
-- 
2.43.0


From 966e67ff9a0727a7441f10bff7628683e56e92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 089/120] fix: hasher of floating point values gave different
 hashes to equal zeros, murmur64 read an empty null range

---
 seq/hash.hpp               | 4 ++--
 seq/internal/hash_impl.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/hash.hpp b/seq/hash.hpp
index 8374568..4a2aa88 100644
--- a/seq/hash.hpp
+++ b/seq/hash.hpp
@@ -207,7 +207,7 @@ namespace seq
 				float fv;
 				std::uint32_t uv;
 			};
-			fv = v;
+			fv = v + 0.f; // -0 and +0 are equal
 			return hash_finalize(uv);
 		}
 	};
@@ -223,7 +223,7 @@ namespace seq
 				double fv;
 				std::uint64_t uv;
 			};
-			fv = v;
+			fv = v + 0.; // -0 and +0 are equal
 			return hash_finalize(static_cast<size_t>(uv));
 		}
 	};
diff --git a/seq/internal/hash_impl.hpp b/seq/internal/hash_impl.hpp
index 4f526db..4097fba 100644
--- a/seq/internal/hash_impl.hpp
+++ b/seq/internal/hash_impl.hpp
@@ -44,8 +44,8 @@ namespace seq
 
 			const unsigned char* ptr = static_cast<const unsigned char*>(_ptr);
 			std::uint64_t h = seed ^ (len * m);
-			const std::uint8_t* end = ptr + len - (sizeof(std::uint64_t) - 1);
-			while (ptr < end) {
+			const std::uint8_t* end = ptr + (len & ~static_cast<size_t>(7));
+			while (ptr != end) {
 				auto k = read_64(ptr);
 
 				k *= m;
-- 
2.43.0


From b5eace440dbdfec85982d9e72af5625c542edd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 090/120] fix: net_sort() and inplace_merge() did not compile
 for reverse iterators of bidirectional ones

---
 seq/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 612a951..044613b 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -51,7 +51,8 @@ namespace seq
 			template<class Diff>
 			void increment_iter(Iter& it, Diff d)
 			{
-				if constexpr (has_plus_equal<Iter>::value)
+				// std::reverse_iterator always declares operator+=, even if its base iterator does not support it
+				if constexpr (has_plus_equal<Iter>::value && !is_reverse_iterator<Iter>::value)
 					it += d;
 				else
 					std::advance(it, d);
-- 
2.43.0


From 7f763a4023ea304105284157e457f176fd5b68c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 091/120] fix: merge() did not compile for output iterators and
 moved the elements given to comparators taking them by value

---
 seq/algorithm.hpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 044613b..87b363b 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -331,10 +331,25 @@ namespace seq
 			return std::move((begin.base()), (end.base()), (out));
 		}
 
+		template<class Out, class Cmp>
+		bool is_sorted_output(Out first, Out last, Cmp c)
+		{
+			// Debug check, meaningless for pure output iterators
+			if constexpr (std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<Out>::iterator_category>)
+				return std::is_sorted(first, last, c);
+			else
+				return true;
+		}
+
 		template<bool Overlap, class Iter1, class Iter2, class Out, class Cmp>
-		inline Out merge_forward(Iter1 first1, Iter1 end1, Iter2 first2, Iter2 end2, Out out, Cmp c)
+		inline Out merge_forward(Iter1 first1, Iter1 end1, Iter2 first2, Iter2 end2, Out out, Cmp cmp)
 		{
 			// Merge 2 range forward
+
+			// The input iterators might be move iterators: make sure that a
+			// comparator taking its arguments by value does not consume the elements.
+			auto c = [&cmp](const auto& a, const auto& b) { return cmp(a, b); };
+
 			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(first1, end1, c), "");
 			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(first2, end2, c), "");
 			SEQ_DEBUG_ONLY(Out dst = out;)
@@ -412,18 +427,22 @@ namespace seq
 
 		end:
 			out = copy_internal(first1, end1, out);
-			if (Overlap && iter_equal(first2, out)) {
-				// The last range is already inplace:
-				// just advance output iterator if not
-				// a std::reverse_iterator (used by
-				// merge_backward which do not use the result).
-				if constexpr (!is_reverse_iterator<Out>::value)
-					out = iter_next(out, iter_distance(first2, end2));
+			if constexpr (Overlap) {
+				if (iter_equal(first2, out)) {
+					// The last range is already inplace:
+					// just advance output iterator if not
+					// a std::reverse_iterator (used by
+					// merge_backward which do not use the result).
+					if constexpr (!is_reverse_iterator<Out>::value)
+						out = iter_next(out, iter_distance(first2, end2));
+				}
+				else
+					out = copy_internal(first2, end2, out);
 			}
 			else
 				out = copy_internal(first2, end2, out);
 
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(dst, out, c), "");
+			SEQ_ALGO_ASSERT_DEBUG(is_sorted_output(dst, out, c), "");
 			return out;
 		}
 
-- 
2.43.0


From 660d14a1841bdb7e7dedf9d3d5269d8683bdc855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 092/120] fix: unique() kept some duplicates as its hash table
 contained the addresses of moved elements

---
 seq/algorithm.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 87b363b..a5d6dd4 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1438,10 +1438,11 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
-				continue;
-			}
-			*loc++ = std::move(*first);
+			// Move the element before inserting its address: the table must
+			// only contain the addresses of kept elements, at their final location.
+			*loc = std::move(*first);
+			if (set.emplace(std::addressof(*loc)))
+				++loc;
 		}
 		return loc;
 	}
-- 
2.43.0


From 57f1b5e0db3d4e683507c679ebea009e76beab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 093/120] fix: null_buffer was the same as default_buffer and
 allocated memory

---
 seq/algorithm.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index a5d6dd4..00c8759 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1147,6 +1147,8 @@ namespace seq
 		{
 			if (buf.size == 0)
 				return (count);
+			if (buf.size == std::numeric_limits<size_t>::max())
+				return 0;
 			if (buf.size == std::numeric_limits<size_t>::max() - 1)
 				return (count / 8u);
 			if (buf.size == std::numeric_limits<size_t>::max() - 2)
@@ -1177,7 +1179,7 @@ namespace seq
 	static constexpr buffer<void*> tiny_buffer{ nullptr, std::numeric_limits<size_t>::max() - 3u };
 
 	/// @brief Null buffer, uses (slow) bufferless merge sort
-	static constexpr buffer<void*> null_buffer{ nullptr, 0 };
+	static constexpr buffer<void*> null_buffer{ nullptr, std::numeric_limits<size_t>::max() };
 
 	/// @brief Stable merge algorithm similar to std::merge.
 	///
@@ -1329,7 +1331,7 @@ namespace seq
 		if constexpr (std::is_same_v<buffer<void*>, Buffer>) {
 			// Compute buffer size
 			size_t buf_size = sort_buffer_size(buf, size / 2);
-			if (buf_size < 16)
+			if (buf_size < 16 && buf.size != std::numeric_limits<size_t>::max())
 				buf_size = 16;
 			std::vector<Key> buf_(buf_size);
 			return merge_sort_internal(wrap_iter(begin, 0), size, cmp, seq::buffer<Key*>{ buf_.data(), buf_.size() });
-- 
2.43.0


From 3d833da1bc380b8499f4c76f50f8e094f61078a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:43 +0000
Subject: [PATCH 094/120] fix: net_sort() terminated when swapping elements
 threw an exception

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 00c8759..a810817 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -830,7 +830,7 @@ namespace seq
 		}
 
 		template<class T>
-		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept
+		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept(std::is_nothrow_swappable_v<std::remove_reference_t<T>>)
 		{
 			// Swap elements based on is_less.
 			// Uses branchless swap for relocatable types.
-- 
2.43.0


From 8e09d27a9fa207b2fd7d8cef7b6fd7f6f84ba965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 095/120] fix: any_cast() on a hold_any pointer always failed
 for relocatable or custom small buffer hold_any types

---
 seq/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ed1d39c..c9da691 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2280,7 +2280,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(const hold_any<Interface, S, A, R>* operand) noexcept -> const T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<const T*>(operand->data());
 		return nullptr;
 	}
@@ -2288,7 +2288,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(hold_any<Interface, S, A, R>* operand) noexcept -> T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand && operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<T*>(operand->data());
 		return nullptr;
 	}
-- 
2.43.0


From 8ec8bd99b6a4b533226b026f3a1207cd911bb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 096/120] fix: copying a relocatable hold_any of a small non
 relocatable type corrupted its storage

---
 seq/any.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index c9da691..d8f74fa 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1564,6 +1564,9 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto complex_copy() const noexcept -> bool { return (this->d_type_info.full() & detail::complex_copy) != 0; }
 		SEQ_ALWAYS_INLINE auto big_size() const noexcept -> bool { return (this->d_type_info.full() & detail::big_size) != 0; }
 		SEQ_ALWAYS_INLINE auto non_relocatable() const noexcept -> bool { return (this->d_type_info.full() & detail::non_relocatable) != 0; }
+		// Size of the small buffer usable by the underlying object, 0 if it uses a separate storage.
+		// Note that a small object might use a separate storage (non relocatable type in a relocatable hold_any).
+		SEQ_ALWAYS_INLINE auto storage_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
 		template<class T>
 		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
@@ -1608,7 +1611,7 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && sizeof(type) > static_size)
+					if (d && (this->d_type_info.tag() & detail::big_size))
 						SEQ_ANY_FREE(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
@@ -1673,7 +1676,7 @@ namespace seq
 			}
 			else {
 				// copy data, might throw
-				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
 			}
 			// copy type info
 			this->d_type_info = other.d_type_info;
@@ -1699,7 +1702,7 @@ namespace seq
 				}
 				else {
 					// move data, might throw
-					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, (static_size));
+					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
 					// copy tag and info pointer on success
 					this->d_type_info = other.d_type_info;
 				}
@@ -1756,7 +1759,7 @@ namespace seq
 			}
 			else {
 				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
 			}
 			this->d_type_info = other.d_type_info;
 
@@ -1790,14 +1793,14 @@ namespace seq
 					}
 					else {
 						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
 					}
 				}
 				else {
 					// different type, clear this object
 					reset();
 					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, static_size);
+					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, other.storage_size());
 					// copy type info with tags
 					this->d_type_info = other.d_type_info;
 				}
-- 
2.43.0


From 2240d1341e9ef4dcd423f5f217c603879eb111db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 097/120] fix: a hold_any with a small buffer smaller than a
 pointer wrote past its end

---
 seq/any.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index d8f74fa..703b289 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -799,7 +799,8 @@ namespace seq
 		// using storage_type = typename std::aligned_storage< StaticSize, Alignment>::type;
 		struct alignas(Alignment) storage_type
 		{
-			char data[StaticSize];
+			// must be able to store a pointer
+			char data[StaticSize < sizeof(void*) ? sizeof(void*) : StaticSize];
 		};
 		using pointer_type = tagged_pointer<TypeInfo, CustomAlignment, 32>;
 
@@ -1635,7 +1636,7 @@ namespace seq
 		using typed_type_info_type = typename Interface::template typed_type_info<T>;
 
 		/// Maximum size for Small Buffer Optimization
-		static constexpr size_t static_size = sizeof(typename std::aligned_storage<StaticSize, Alignment>::type);
+		static constexpr size_t static_size = sizeof(typename base_type::storage_type);
 
 		/// @brief Returns the type info for given type
 		template<class T>
-- 
2.43.0


From b94f85fc234d697eaea339e633d85c763c698ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 098/120] fix: hold_any stored over-aligned objects at
 misaligned addresses

---
 seq/any.hpp | 53 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 703b289..651d789 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -557,6 +557,25 @@ namespace seq
 			return false;
 		}
 
+		/// @brief Allocate storage for given type, supports over-aligned types
+		template<class T>
+		void* alloc_storage()
+		{
+			if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				return ::operator new(sizeof(T), std::align_val_t(alignof(T)));
+			else
+				return SEQ_ANY_MALLOC(sizeof(T));
+		}
+		/// @brief Deallocate storage for given type
+		template<class T>
+		void free_storage(void* p) noexcept
+		{
+			if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				::operator delete(p, std::align_val_t(alignof(T)));
+			else
+				SEQ_ANY_FREE(p);
+		}
+
 		template<class T, class any_type_info>
 		void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size)
 		{
@@ -575,7 +594,7 @@ namespace seq
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-					dst = SEQ_ANY_MALLOC(sizeof(T));
+					dst = alloc_storage<T>();
 					if (!dst)
 						throw std::bad_alloc();
 					memcpy(out_storage, &dst, sizeof(void*));
@@ -585,7 +604,7 @@ namespace seq
 				}
 				catch (...) {
 					if (sizeof(T) > out_storage_size)
-						SEQ_ANY_FREE(dst);
+						free_storage<T>(dst);
 					throw;
 				}
 			}
@@ -606,7 +625,7 @@ namespace seq
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-					dst = SEQ_ANY_MALLOC(sizeof(T));
+					dst = alloc_storage<T>();
 					if SEQ_UNLIKELY (!dst)
 						throw std::bad_alloc();
 					memcpy(out_storage, &dst, sizeof(void*));
@@ -616,7 +635,7 @@ namespace seq
 				}
 				catch (...) {
 					if (sizeof(T) > out_storage_size)
-						SEQ_ANY_FREE(dst);
+						free_storage<T>(dst);
 					throw;
 				}
 			}
@@ -643,6 +662,8 @@ namespace seq
 		virtual auto sizeof_type() const noexcept -> size_t = 0;
 		/// @brief Destroy object
 		virtual void destroy_any(void* in) const noexcept = 0;
+		/// @brief Deallocate the separate storage of an object of underlying type
+		virtual void dealloc_any(void* in) const noexcept = 0;
 		/// @brief Compare 2 objects of same type for equality
 		virtual auto equal_any(const void* a, const void* o) const -> bool = 0;
 		/// @brief Compare 2 objects of same type for less than
@@ -665,6 +686,7 @@ namespace seq
 	{
 		auto sizeof_type() const noexcept -> size_t override { return sizeof(T); }
 		void destroy_any(void* in) const noexcept override { static_cast<T*>(in)->~T(); }
+		void dealloc_any(void* in) const noexcept override { detail::free_storage<T>(in); }
 		auto equal_any(const void* a, const void* b) const -> bool override { return detail::compare_equal_any<T>(a, b); }
 		auto less_any(const void* a, const void* b) const -> bool override { return detail::compare_less_any<T>(a, b); }
 		auto hash_any(const void* in) const -> size_t override { return detail::hash_any<T, SupportHash>(in); }
@@ -767,15 +789,15 @@ namespace seq
 		}
 
 		/// @brief Check if given type required a separated (heap allocated) storage
-		template<class T, size_t SizeofStorage, bool ForceRelocatable>
+		template<class T, class Storage, bool ForceRelocatable>
 		struct need_separate_storage
 		{
-			static constexpr bool value = sizeof(T) > SizeofStorage;
+			static constexpr bool value = sizeof(T) > sizeof(Storage) || alignof(T) > alignof(Storage);
 		};
-		template<class T, size_t SizeofStorage>
-		struct need_separate_storage<T, SizeofStorage, true>
+		template<class T, class Storage>
+		struct need_separate_storage<T, Storage, true>
 		{
-			static constexpr bool value = (sizeof(T) > SizeofStorage) || (!seq::is_relocatable<T>::value);
+			static constexpr bool value = need_separate_storage<T, Storage, false>::value || (!seq::is_relocatable<T>::value);
 		};
 	}
 
@@ -811,15 +833,14 @@ namespace seq
 		template<class T>
 		auto alloc() -> void*
 		{
-			static constexpr size_t size_T = sizeof(T);
 			// compile time tags
 			static constexpr size_t tag = (std::is_trivially_destructible_v<T> ? 0 : 1) | (std::is_trivially_copyable_v<T> ? 0 : 2) | (is_relocatable<T>::value ? 0 : 4) |
-						      (detail::need_separate_storage<T, sizeof(storage_type), ForceRelocatable>::value ? 8 : 0) | (std::is_pointer_v<T> ? 16 : 0);
+						      (detail::need_separate_storage<T, storage_type, ForceRelocatable>::value ? 8 : 0) | (std::is_pointer_v<T> ? 16 : 0);
 
 			// create object storage with allocation if sizeof(T) > StaticSize
 			void* d = &d_storage;
 			if (tag & detail::big_size) {
-				d = SEQ_ANY_MALLOC(size_T);
+				d = detail::alloc_storage<T>();
 				if SEQ_UNLIKELY (d == nullptr)
 					throw std::bad_alloc();
 				memcpy(&d_storage, &d, sizeof(void*));
@@ -836,7 +857,7 @@ namespace seq
 			if (d_type_info.full() & detail::big_size) {
 				void* d;
 				memcpy(&d, &d_storage, sizeof(void*));
-				SEQ_ANY_FREE(d);
+				type()->dealloc_any(d);
 			}
 			// clear any_type_info pointer
 			d_type_info.set_full(0);
@@ -1613,7 +1634,7 @@ namespace seq
 				catch (...) {
 					// free memory chunk if needed
 					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+						detail::free_storage<type>(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
@@ -1732,7 +1753,7 @@ namespace seq
 			catch (...) {
 				// free memory if needed
 				if (d && (this->d_type_info.tag() & detail::big_size))
-					SEQ_ANY_FREE(d);
+					detail::free_storage<type>(d);
 				// reset type info
 				this->d_type_info.set_full(0);
 				throw;
@@ -1837,7 +1858,7 @@ namespace seq
 				catch (...) {
 					// free memory chunk if needed
 					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+						detail::free_storage<type>(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-- 
2.43.0


From 506f7412fa2fefeecf11638fc804cef400dea568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 099/120] fix: hold_any assignment leaked or did not compile
 for non assignable types, and destroyed the assigned value when it belonged
 to the held object

---
 seq/any.hpp | 196 +++++++++++++++++++---------------------------------
 1 file changed, 70 insertions(+), 126 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 651d789..8f1d7cd 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -260,7 +260,6 @@ namespace seq
 		{
 			if constexpr (!std::is_arithmetic_v<T>) {
 				throw std::bad_cast();
-				return T();
 			}
 			else {
 				switch (in_p->type_id()) {
@@ -298,7 +297,6 @@ namespace seq
 						return static_cast<T>(*static_cast<const long double*>(in));
 					default:
 						throw std::bad_cast();
-						return T();
 				}
 			}
 		}
@@ -315,7 +313,6 @@ namespace seq
 			}
 			else {
 				throw std::bad_cast();
-				return T();
 			}
 		}
 
@@ -366,7 +363,6 @@ namespace seq
 			}
 			else {
 				throw std::bad_cast();
-				return String();
 			}
 		}
 
@@ -378,7 +374,6 @@ namespace seq
 				return String(string_data(str), string_size(str));
 			else {
 				throw std::bad_cast();
-				return String();
 			}
 		}
 
@@ -394,7 +389,6 @@ namespace seq
 			}
 			else {
 				throw std::bad_cast();
-				return String();
 			}
 		}
 
@@ -405,7 +399,6 @@ namespace seq
 				return static_cast<OutPtr>(const_cast<void*>(ptr));
 			else {
 				throw std::bad_cast();
-				return OutPtr();
 			}
 		}
 
@@ -676,6 +669,10 @@ namespace seq
 		virtual void ostream_any(const void* in, std::ostream& oss) const = 0;
 		/// @brief Read object of underlying type from a std::istream object
 		virtual void istream_any(void* in, std::istream& iss) const = 0;
+		/// @brief Tells if underlying type is copy assignable
+		virtual auto copy_assignable_any() const noexcept -> bool = 0;
+		/// @brief Tells if underlying type is move assignable
+		virtual auto move_assignable_any() const noexcept -> bool = 0;
 		virtual void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size) const = 0;
 		virtual void move_any(const any_type_info* in_p, void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size) const = 0;
 	};
@@ -693,6 +690,8 @@ namespace seq
 		void format_any(std::string& out, const void* in, const width_format& wfmt, const numeric_format& nfmt) const override { detail::format_any<T>(out, in, wfmt, nfmt); }
 		void ostream_any(const void* in, std::ostream& oss) const override { return detail::ostream_any<T>(oss, in); }
 		void istream_any(void* in, std::istream& iss) const override { return detail::istream_any<T>(iss, in); }
+		auto copy_assignable_any() const noexcept -> bool override { return std::is_copy_assignable_v<T>; }
+		auto move_assignable_any() const noexcept -> bool override { return std::is_move_assignable_v<T>; }
 		void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size) const override
 		{
 			detail::copy_any<T>(in_p, in, out_p, out_storage, out_storage_size);
@@ -867,15 +866,6 @@ namespace seq
 		auto convert(const TypeInfo* /*unused*/, const TypeInfo* /*unused*/, std::uintptr_t /*unused*/) const -> T
 		{
 			throw std::bad_cast();
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static typename std::decay<T>::type ref;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return ref;
 		}
 
 		template<class T, class = typename std::enable_if<!std::is_reference_v<T>, void>::type>
@@ -949,9 +939,13 @@ namespace seq
 			if (out_id >= static_cast<int>(converts.size()) || !converts[static_cast<size_t>(out_id)])
 				throw std::bad_cast();
 
-			type out;
-			converts[static_cast<size_t>(out_id)](this->data(), &out);
-			return out;
+			if constexpr (std::is_default_constructible_v<type>) {
+				type out;
+				converts[static_cast<size_t>(out_id)](this->data(), &out);
+				return out;
+			}
+			else
+				throw std::bad_cast();
 		}
 
 	public:
@@ -1590,19 +1584,22 @@ namespace seq
 		// Note that a small object might use a separate storage (non relocatable type in a relocatable hold_any).
 		SEQ_ALWAYS_INLINE auto storage_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
-		template<class T>
-		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
+		// Take the content of other. This object must be empty.
+		// Might throw (except if Relocatable is true).
+		void steal(hold_any& other) noexcept(Relocatable)
 		{
-			// Returns pointer to T*, never reached (just here to avoid compile warning)
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static T t;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return &t;
+			if (Relocatable || other.big_size() || !other.non_relocatable()) {
+				// for big types or relocatable types, simple memcpy and reset other tags
+				memcpy(&this->d_storage, &other.d_storage, static_size);
+				this->d_type_info = other.d_type_info;
+				other.d_type_info.set_full(0);
+			}
+			else {
+				// move data, might throw
+				other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
+				// copy tag and info pointer on success
+				this->d_type_info = other.d_type_info;
+			}
 		}
 
 		template<class ValueType, class... Args>
@@ -1614,10 +1611,12 @@ namespace seq
 			auto* i_t = this->type();
 			auto* o_t = get_type<type>();
 			type* out = nullptr;
-			if (o_t == i_t) {
+			if (std::is_move_assignable_v<type> && o_t == i_t) {
 				// same type
-				out = static_cast<type*>(this->data());
-				*out = type(std::forward<Args>(args)...);
+				if constexpr (std::is_move_assignable_v<type>) {
+					out = static_cast<type*>(this->data());
+					*out = type(std::forward<Args>(args)...);
+				}
 			}
 			else {
 				// different types, clear this object
@@ -1638,8 +1637,6 @@ namespace seq
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-					// just to remove cppcheck warning
-					out = get_null_out<type>();
 				}
 			}
 
@@ -1709,26 +1706,7 @@ namespace seq
 		hold_any(hold_any&& other) noexcept(Relocatable)
 		  : base_type()
 		{
-			if constexpr (Relocatable) {
-				memcpy(&this->d_storage, &other.d_storage, static_size);
-				this->d_type_info = other.d_type_info;
-				other.d_type_info.set_full(0);
-			}
-			else {
-
-				if (other.big_size() || !other.non_relocatable()) {
-					// for big types or relocatable types, simple memcpy and reset other tags
-					memcpy(&this->d_storage, &other.d_storage, static_size);
-					this->d_type_info = other.d_type_info;
-					other.d_type_info.set_full(0);
-				}
-				else {
-					// move data, might throw
-					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
-					// copy tag and info pointer on success
-					this->d_type_info = other.d_type_info;
-				}
-			}
+			steal(other);
 		}
 
 		/// @brief Construct from any object except another hold_any
@@ -1769,21 +1747,26 @@ namespace seq
 			const auto* i_t = this->type();
 			const auto* o_t = other.type();
 
-			if (i_t != o_t) {
-				// reset this object content if its type is different than other's type
+			if (!other.big_size() && !other.complex_copy()) {
+				// copy small POD type.
+				// Note that other might be stored inside the object held by this.
+				const auto storage = other.d_storage;
+				const auto type_info = other.d_type_info;
 				reset();
-				i_t = nullptr;
+				this->d_storage = storage;
+				this->d_type_info = type_info;
 			}
-
-			if (!other.big_size() && !other.complex_copy()) {
-				// copy small POD type
-				memcpy(&this->d_storage, &other.d_storage, static_size);
+			else if (i_t == o_t && o_t->copy_assignable_any()) {
+				// same type, might throw
+				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
 			}
 			else {
-				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
+				// copy any type, might throw.
+				// Reset this object after the copy as it might contain other.
+				hold_any tmp(other);
+				reset();
+				steal(tmp);
 			}
-			this->d_type_info = other.d_type_info;
 
 			return *this;
 		}
@@ -1791,44 +1774,20 @@ namespace seq
 		/// @brief Move assignment, MIGHT THROW if Relocatable is false !
 		auto operator=(hold_any&& other) noexcept(Relocatable) -> hold_any&
 		{
-			if constexpr (Relocatable) {
-				// Move assignment is much more simple with relocatable hold_any
-				std::swap(this->d_storage, other.d_storage);
-				std::swap(this->d_type_info, other.d_type_info);
-				return *this;
+			const auto* i_t = this->type();
+			const auto* o_t = other.type();
+
+			if (!Relocatable && o_t && i_t == o_t && !other.big_size() && other.non_relocatable() && o_t->move_assignable_any()) {
+				// same non relocatable type in the small buffer: move assign, might throw
+				o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
 			}
 			else {
-
-				if (other.empty()) {
-					// move empty object
-					reset();
-					return *this;
-				}
-				const auto* i_t = this->type();
-				const auto* o_t = other.type();
-
-				if (i_t == o_t) {
-					// same non null type
-					if (!other.non_relocatable()) {
-						// relocatable: just swap storage
-						std::swap(this->d_storage, other.d_storage);
-					}
-					else {
-						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
-					}
-				}
-				else {
-					// different type, clear this object
-					reset();
-					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, other.storage_size());
-					// copy type info with tags
-					this->d_type_info = other.d_type_info;
-				}
-
-				return *this;
+				// Reset this object after moving other, as this object might contain it.
+				hold_any tmp(std::move(other));
+				reset();
+				steal(tmp);
 			}
+			return *this;
 		}
 
 		/// @brief Assign any kind of object except a hold_any
@@ -1836,35 +1795,20 @@ namespace seq
 		auto operator=(T&& value) -> hold_any&
 		{
 			using type = typename std::decay<T>::type;
-			auto* i_t = this->type();
-			auto* o_t = get_type<type>();
 
-			if (o_t == i_t) {
-				// same type
-				*static_cast<type*>(this->data()) = std::forward<T>(value);
-			}
-			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					new (d) type(std::forward<T>(value));
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						detail::free_storage<type>(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
+			if constexpr (std::is_assignable_v<type&, T&&>) {
+				if (get_type<type>() == this->type()) {
+					// same type
+					*static_cast<type*>(this->data()) = std::forward<T>(value);
+					return *this;
 				}
 			}
 
+			// different or non assignable types, might throw.
+			// Reset this object afterward as it might contain the value.
+			hold_any tmp(std::forward<T>(value));
+			reset();
+			steal(tmp);
 			return *this;
 		}
 
-- 
2.43.0


From 11311504e06f25b272d6ed50bb703ac889912f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 100/120] fix: ordering of hold_any objects holding signed and
 unsigned integers was not a strict weak ordering

---
 seq/any.hpp | 59 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 8f1d7cd..07c82be 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -402,23 +402,39 @@ namespace seq
 			}
 		}
 
+		/// @brief Mathematical less than comparison between 64 bits integers of possibly different signs
+		template<class A, class B>
+		constexpr bool less_integral(A a, B b) noexcept
+		{
+			if constexpr (std::is_signed_v<A> == std::is_signed_v<B>)
+				return a < b;
+			else if constexpr (std::is_signed_v<A>)
+				return a < 0 || static_cast<unsigned long long>(a) < b;
+			else
+				return b > 0 && a < static_cast<unsigned long long>(b);
+		}
+
 		/// @brief Less than comparison for hold_any::less_than
-		template<class T, class Cast, class U>
+		template<class U, class T>
 		bool less_arithmetic(const U& a, const T& b)
 		{
-			if constexpr (std::is_arithmetic_v<T>)
-				return a < static_cast<Cast>(b);
-			else
+			if constexpr (!std::is_arithmetic_v<T>)
 				return false;
+			else if constexpr (std::is_integral_v<U> && std::is_integral_v<T>)
+				return less_integral(a, static_cast<std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>(b));
+			else
+				return static_cast<long double>(a) < static_cast<long double>(b);
 		}
 		/// @brief Greater than comparison for hold_any::greater_than
-		template<class T, class Cast, class U>
+		template<class U, class T>
 		bool greater_arithmetic(const U& a, const T& b)
 		{
-			if constexpr (std::is_arithmetic_v<T>)
-				return a > static_cast<Cast>(b);
-			else
+			if constexpr (!std::is_arithmetic_v<T>)
 				return false;
+			else if constexpr (std::is_integral_v<U> && std::is_integral_v<T>)
+				return less_integral(static_cast<std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>(b), a);
+			else
+				return static_cast<long double>(a) > static_cast<long double>(b);
 		}
 
 		template<class T>
@@ -1916,12 +1932,12 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
+					if (is_unsigned_integral_type(a_id))
+						return detail::less_arithmetic(this->template cast<unsigned long long>(), other);
 					else
-						return detail::less_arithmetic<type, long long>(this->template cast<long long>(), other);
+						return detail::less_arithmetic(this->template cast<long long>(), other);
 				}
-				return detail::less_arithmetic<type, long double>(this->template cast<long double>(), other);
+				return detail::less_arithmetic(this->template cast<long double>(), other);
 			}
 
 			// string comparison
@@ -1959,12 +1975,12 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
+					if (is_unsigned_integral_type(a_id))
+						return detail::greater_arithmetic(this->template cast<unsigned long long>(), other);
 					else
-						return detail::greater_arithmetic<type, long long>(this->template cast<long long>(), other);
+						return detail::greater_arithmetic(this->template cast<long long>(), other);
 				}
-				return detail::greater_arithmetic<type, long double>(this->template cast<long double>(), other);
+				return detail::greater_arithmetic(this->template cast<long double>(), other);
 			}
 
 			// string comparison
@@ -2043,10 +2059,15 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && is_arithmetic_type(b_id)) {
 				if (is_integral_type(a_id) && is_integral_type(b_id)) {
-					if (is_signed_integral_type(a_id) != is_signed_integral_type(b_id) || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
+					const bool a_unsigned = is_unsigned_integral_type(a_id);
+					const bool b_unsigned = is_unsigned_integral_type(b_id);
+					if (a_unsigned && b_unsigned)
 						return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
-					else
-						return this->template cast<long long>() < other.template cast<long long>();
+					if (a_unsigned)
+						return detail::less_integral(this->template cast<unsigned long long>(), other.template cast<long long>());
+					if (b_unsigned)
+						return detail::less_integral(this->template cast<long long>(), other.template cast<unsigned long long>());
+					return this->template cast<long long>() < other.template cast<long long>();
 				}
 				return this->template cast<long double>() < other.template cast<long double>();
 			}
-- 
2.43.0


From f5dc63054c29a1de10d915b4d5de83d84e2398b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 101/120] fix: an empty hold_any was both less and greater than
 any value

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 07c82be..1657b6d 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1962,7 +1962,7 @@ namespace seq
 			using type = typename std::decay<T>::type;
 
 			if (this->empty())
-				return true;
+				return false;
 
 			const type_info_type* otype = get_type<type>();
 
-- 
2.43.0


From 1e671a0dfd314b8f566ac7e6bcd0b715e965772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 102/120] fix: hold_any objects holding equal arithmetic values
 of different types had different hash values

---
 seq/any.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index 1657b6d..290f26d 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -208,6 +208,33 @@ namespace seq
 		//
 		//////////////////////////////////////////////////////////////////////////////////////////////////////////
 
+		/// @brief Hash arithmetic value.
+		/// As arithmetic values of different types can compare equal, their hash value only depends on the mathematical value.
+		template<class T>
+		auto hash_arithmetic(T value) -> size_t
+		{
+			if constexpr (std::is_integral_v<T>)
+				return hasher<std::uint64_t>{}(static_cast<std::uint64_t>(value));
+			else {
+				// -2^63 <= value < 0
+				if (value < 0 && value >= static_cast<T>(-9223372036854775808.)) {
+					const auto i = static_cast<std::int64_t>(value);
+					if (static_cast<T>(i) == value)
+						return hash_arithmetic(i);
+				}
+				// 0 <= value < 2^64
+				else if (value >= 0 && value < static_cast<T>(18446744073709551616.)) {
+					const auto i = static_cast<std::uint64_t>(value);
+					if (static_cast<T>(i) == value)
+						return hash_arithmetic(i);
+				}
+				const double d = static_cast<double>(value);
+				if (static_cast<T>(d) == value)
+					return hasher<double>{}(d);
+				return hasher<T>{}(value);
+			}
+		}
+
 		/// @brief Hash value only if is_hashable<T>::value is true,
 		/// otherwise throw bad_any_function_call
 		template<class T>
@@ -224,6 +251,8 @@ namespace seq
 					using char_type = typename T::value_type;
 					return hasher<basic_tstring_view<char_type>>{}(*static_cast<const T*>(in));
 				}
+				else if constexpr (std::is_arithmetic_v<T>)
+					return hash_arithmetic(*static_cast<const T*>(in));
 				else
 					return hasher<T>{}(*static_cast<const T*>(in));
 			}
-- 
2.43.0


From 2e86e81a68fd3de1fadab55bb4cd29a6368acc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 103/120] fix: hold_any did not handle bool and wchar_t as
 arithmetic types, and casts to some character types did not compile

---
 seq/any.hpp | 59 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 290f26d..6858c30 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -98,38 +98,42 @@ namespace seq
 			return 5;
 		else if constexpr (std::is_same_v<long long, T>)
 			return 6;
-		else if constexpr (std::is_same_v<unsigned char, T>)
+		else if constexpr (std::is_same_v<wchar_t, T>)
 			return 7;
-		else if constexpr (std::is_same_v<char16_t, T>)
+		else if constexpr (std::is_same_v<bool, T>)
 			return 8;
-		else if constexpr (std::is_same_v<char32_t, T>)
+		else if constexpr (std::is_same_v<unsigned char, T>)
 			return 9;
-		else if constexpr (std::is_same_v<unsigned short, T>)
+		else if constexpr (std::is_same_v<char16_t, T>)
 			return 10;
-		else if constexpr (std::is_same_v<unsigned int, T>)
+		else if constexpr (std::is_same_v<char32_t, T>)
 			return 11;
-		else if constexpr (std::is_same_v<unsigned long, T>)
+		else if constexpr (std::is_same_v<unsigned short, T>)
 			return 12;
-		else if constexpr (std::is_same_v<unsigned long long, T>)
+		else if constexpr (std::is_same_v<unsigned int, T>)
 			return 13;
-		else if constexpr (std::is_same_v<float, T>)
+		else if constexpr (std::is_same_v<unsigned long, T>)
 			return 14;
-		else if constexpr (std::is_same_v<double, T>)
+		else if constexpr (std::is_same_v<unsigned long long, T>)
 			return 15;
-		else if constexpr (std::is_same_v<long double, T>)
+		else if constexpr (std::is_same_v<float, T>)
 			return 16;
-		else if constexpr (std::is_same_v<std::string, T>)
+		else if constexpr (std::is_same_v<double, T>)
 			return 17;
-		else if constexpr (std::is_same_v<tstring, T>)
+		else if constexpr (std::is_same_v<long double, T>)
 			return 18;
-		else if constexpr (std::is_same_v<tstring_view, T>)
+		else if constexpr (std::is_same_v<std::string, T>)
 			return 19;
-		else if constexpr (std::is_same_v<const char*, T>)
+		else if constexpr (std::is_same_v<tstring, T>)
 			return 20;
-		else if constexpr (std::is_same_v<char*, T>)
+		else if constexpr (std::is_same_v<tstring_view, T>)
 			return 21;
-		else if constexpr (std::is_same_v<std::string_view, T>)
+		else if constexpr (std::is_same_v<const char*, T>)
 			return 22;
+		else if constexpr (std::is_same_v<char*, T>)
+			return 23;
+		else if constexpr (std::is_same_v<std::string_view, T>)
+			return 24;
 		else {
 			return 0;
 		}
@@ -145,7 +149,7 @@ namespace seq
 		if constexpr (v != 0)
 			return v;
 		else {
-			static constexpr int last_id = 22;
+			static constexpr int last_id = 24;
 			static int id = detail::build_type_id<last_id + 1>();
 			return id;
 		}
@@ -154,12 +158,12 @@ namespace seq
 	/// @brief Returns true if given type id corresponds to a signed integral type
 	SEQ_ALWAYS_INLINE auto is_signed_integral_type(int id) noexcept -> bool
 	{
-		return id != 0 && id <= get_type_id<long long>();
+		return id != 0 && (id <= get_type_id<long long>() || (std::is_signed_v<wchar_t> && id == get_type_id<wchar_t>()));
 	}
 	/// @brief Returns true if given type id corresponds to an unsigned integral type
 	SEQ_ALWAYS_INLINE auto is_unsigned_integral_type(int id) noexcept -> bool
 	{
-		return id >= get_type_id<unsigned char>() && id <= get_type_id<unsigned long long>();
+		return id >= (std::is_signed_v<wchar_t> ? get_type_id<bool>() : get_type_id<wchar_t>()) && id <= get_type_id<unsigned long long>();
 	}
 	/// @brief Returns true if given type id corresponds to an integral type
 	SEQ_ALWAYS_INLINE auto is_integral_type(int id) noexcept -> bool
@@ -298,6 +302,10 @@ namespace seq
 						return static_cast<T>(*static_cast<const signed char*>(in));
 					case get_base_type_id<unsigned char>():
 						return static_cast<T>(*static_cast<const unsigned char*>(in));
+					case get_base_type_id<bool>():
+						return static_cast<T>(*static_cast<const bool*>(in));
+					case get_base_type_id<wchar_t>():
+						return static_cast<T>(*static_cast<const wchar_t*>(in));
 					case get_base_type_id<char16_t>():
 						return static_cast<T>(*static_cast<const char16_t*>(in));
 					case get_base_type_id<char32_t>():
@@ -334,7 +342,14 @@ namespace seq
 		template<class T, class String>
 		T arithmetic_from_string(const String& in)
 		{
-			if constexpr (std::is_arithmetic_v<T>) {
+			if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, wchar_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t>) {
+				// types not supported by from_chars()
+				const auto res = arithmetic_from_string<long long>(in);
+				if (static_cast<long long>(static_cast<T>(res)) != res)
+					throw std::bad_cast();
+				return static_cast<T>(res);
+			}
+			else if constexpr (std::is_arithmetic_v<T>) {
 				T res;
 				if (from_chars(string_data(in), string_data(in) + string_size(in), res).ec != std::errc())
 					throw std::bad_cast();
@@ -358,6 +373,10 @@ namespace seq
 						return fmt(*static_cast<const signed char*>(in)).append(res);
 					case get_base_type_id<unsigned char>():
 						return fmt(*static_cast<const unsigned char*>(in)).append(res);
+					case get_base_type_id<bool>():
+						return fmt(*static_cast<const bool*>(in)).append(res);
+					case get_base_type_id<wchar_t>():
+						return fmt(*static_cast<const wchar_t*>(in)).append(res);
 					case get_base_type_id<char16_t>():
 						return fmt(*static_cast<const char16_t*>(in)).append(res);
 					case get_base_type_id<char32_t>():
-- 
2.43.0


From 6cee37142c575bfec24a853221b1a5a1c98ece68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 104/120] fix: hold_any cleaned up failed constructions with a
 condition that compilers reported as freeing the small buffer

---
 seq/any.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 6858c30..a99073e 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1648,6 +1648,10 @@ namespace seq
 		// Note that a small object might use a separate storage (non relocatable type in a relocatable hold_any).
 		SEQ_ALWAYS_INLINE auto storage_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
+		// Tells if given type uses a separate storage
+		template<class T>
+		static constexpr bool need_storage = detail::need_separate_storage<T, typename hold_any::storage_type, Relocatable>::value;
+
 		// Take the content of other. This object must be empty.
 		// Might throw (except if Relocatable is true).
 		void steal(hold_any& other) noexcept(Relocatable)
@@ -1696,7 +1700,7 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
+					if (need_storage<type> && d)
 						detail::free_storage<type>(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
@@ -1794,7 +1798,7 @@ namespace seq
 			}
 			catch (...) {
 				// free memory if needed
-				if (d && (this->d_type_info.tag() & detail::big_size))
+				if (need_storage<type> && d)
 					detail::free_storage<type>(d);
 				// reset type info
 				this->d_type_info.set_full(0);
-- 
2.43.0


From 49f4d7b7b9975da00c1e0813961fdf3a79680fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 105/120] fix: formatting a pointer kept the address of a
 temporary and overwrote the text already in the output string

---
 seq/format.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index a01043d..c5fe405 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -756,8 +756,8 @@ namespace seq
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
 		{
-			if constexpr (std::is_arithmetic_v<typename Ostream::value_type>) {
-				// Append arithmetic value: use a temporary buffer
+			if constexpr (std::is_arithmetic_v<typename Ostream::value_type> || std::is_same_v<const void*, typename Ostream::value_type>) {
+				// Append arithmetic value or pointer: use a temporary buffer
 				using Char = typename String::value_type;
 				auto& tmp = numeric_buffer<Char>();
 				tmp.clear();
@@ -788,8 +788,8 @@ namespace seq
 		{
 		};
 
-		/// @brief Tells if T is one of format library basic type (arithmetic or tstring_view types)
-		template<class T, bool IsBasicType = (std::is_arithmetic_v<T> || is_tiny_string<T>::value || inline_value_storage<T>::value)>
+		/// @brief Tells if T is one of format library basic type (arithmetic, pointer or tstring_view types)
+		template<class T, bool IsBasicType = (std::is_arithmetic_v<T> || std::is_pointer_v<T> || is_tiny_string<T>::value || inline_value_storage<T>::value)>
 		struct is_fmt_basic_type
 		{
 			static constexpr bool value = IsBasicType;
-- 
2.43.0


From 7415b49e9fcba95449bc8e4e6541375ea10b269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 106/120] fix: formatting a custom type that itself uses the
 format module corrupted the text being built

---
 seq/format.hpp | 56 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index c5fe405..d9b1fa2 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -752,6 +752,34 @@ namespace seq
 			return tmp;
 		}
 
+		/// @brief Borrow a thread local buffer.
+		///
+		/// Formatting a custom type might itself use the format module (for instance within its operator<<).
+		/// The buffer in use is therefore taken out of the thread local storage and given back on destruction.
+		///
+		template<class Char>
+		class borrowed_buffer
+		{
+			std::basic_string<Char>& d_source;
+			std::basic_string<Char> d_str;
+
+		public:
+			explicit borrowed_buffer(std::basic_string<Char>& source) noexcept
+			  : d_source(source)
+			{
+				d_str.swap(d_source);
+				d_str.clear();
+			}
+			borrowed_buffer(const borrowed_buffer&) = delete;
+			borrowed_buffer& operator=(const borrowed_buffer&) = delete;
+			~borrowed_buffer()
+			{
+				if (d_str.capacity() > d_source.capacity())
+					d_source.swap(d_str);
+			}
+			auto get() noexcept -> std::basic_string<Char>& { return d_str; }
+		};
+
 		// Helper function, append a ostream_format to a string
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
@@ -1280,8 +1308,8 @@ namespace seq
 		auto to_chars(Char* dst) -> Char*
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrowed_buffer<Char> buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = buffer.get();
 			this->append(tmp);
 			detail::memcpy_char(dst, tmp.data(), tmp.size());
 			return dst + tmp.size();
@@ -1293,8 +1321,8 @@ namespace seq
 		auto to_chars(Char* dst, size_t max) -> std::pair<Char*, size_t>
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrowed_buffer<Char> buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = buffer.get();
 			this->append(tmp);
 			if (tmp.size() > max) {
 				detail::memcpy_char(dst, tmp.data(), max);
@@ -1310,8 +1338,8 @@ namespace seq
 		{
 			using Char = typename std::iterator_traits<Iter>::value_type;
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::borrowed_buffer<Char> buffer(detail::to_chars_buffer<Char>());
+			auto& tmp = buffer.get();
 			this->append(tmp);
 			return std::copy(tmp.begin(), tmp.end(), dst);
 		}
@@ -1665,8 +1693,8 @@ namespace seq
 	{
 		using valid_char_type = typename ostream_format<T, S>::valid_char_type;
 		static_assert(std::is_same_v<valid_char_type, Elem>, "output to stream: cannot mix different character types");
-		auto& tmp = detail::ostream_buffer<Elem>();
-		tmp.clear();
+		detail::borrowed_buffer<Elem> buffer(detail::ostream_buffer<Elem>());
+		auto& tmp = buffer.get();
 		size_t s = val.to_string(tmp);
 		if (!ostream_format<T, S>::auto_width_format) {
 			// non default ostream_format, the width formatting must be applied
@@ -2260,8 +2288,8 @@ namespace seq
 			template<class C>
 			auto to_chars(C* dst, size_t max) -> std::pair<C*, size_t>
 			{
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::borrowed_buffer<C> buffer(detail::to_chars_buffer<C>());
+				auto& tmp = buffer.get();
 				reserve_string(tmp);
 				this->append(tmp);
 				if (tmp.size() > max) {
@@ -2276,8 +2304,8 @@ namespace seq
 			auto to_iter(Iter dst) -> Iter
 			{
 				using C = typename std::iterator_traits<Iter>::value_type;
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::borrowed_buffer<C> buffer(detail::to_chars_buffer<C>());
+				auto& tmp = buffer.get();
 				reserve_string(tmp);
 				this->append(tmp);
 				return std::copy(tmp.begin(), tmp.end(), dst);
@@ -2945,8 +2973,8 @@ namespace seq
 	inline auto operator<<(std::basic_ostream<Elem, Traits>& oss, const detail::mutli_ostream_format<T, C, HS, P, S>& val) -> std::basic_ostream<Elem, Traits>&
 	{
 		static_assert(std::is_void_v<C> || std::is_same_v<Elem, C>, "cannot mix different character types");
-		auto& tmp = detail::multi_ostream_buffer<Elem>();
-		tmp.clear();
+		detail::borrowed_buffer<Elem> buffer(detail::multi_ostream_buffer<Elem>());
+		auto& tmp = buffer.get();
 		val.append(tmp);
 		oss.rdbuf()->sputn(tmp.data(), static_cast<std::streamsize>(tmp.size()));
 		return oss;
-- 
2.43.0


From 3494be67dbb9af41a94ae56b18998f50545f907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 107/120] fix: str() on a multiple values format holding no
 string did not compile

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index d9b1fa2..7db2174 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2311,7 +2311,7 @@ namespace seq
 				return std::copy(tmp.begin(), tmp.end(), dst);
 			}
 
-			template<class String = std::basic_string<char_type>>
+			template<class String = std::basic_string<valid_char_type>>
 			auto str() const -> String
 			{
 				// convert this formatting object to string-like object
-- 
2.43.0


From cfe00e6b478b0442de02f9643a244ef70a7c43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 108/120] fix: a width without alignment added uninitialized
 characters to formatted numbers

---
 seq/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 7db2174..5e6f9ae 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1573,7 +1573,7 @@ namespace seq
 				size = static_cast<size_t>(f.ptr - tmp.data());
 			}
 
-			if (val.width() > size) {
+			if (val.width() > size && val.width_fmt().has_format()) {
 				detail::format_width(tmp, size, val.width_fmt());
 				size = val.width();
 			}
@@ -1608,7 +1608,7 @@ namespace seq
 			}
 #endif
 			size_t size = static_cast<size_t>(f.ptr - tmp.data());
-			if (val.width() > size) {
+			if (val.width() > size && val.width_fmt().has_format()) {
 				detail::format_width(tmp, size, val.width_fmt());
 				size = val.width();
 			}
-- 
2.43.0


From 6c8a036f1c72ede1629608c60268476f0a5201f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 109/120] fix: split() did not apply its skip behavior to the
 last element nor to single characters

---
 seq/format.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 5e6f9ae..631be22 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2872,7 +2872,7 @@ namespace seq
 			auto last = this->value().end();
 
 			if (first == last)
-				return prev;
+				return 0;
 
 			auto f = seq::fmt<val_type>();
 			f.set_numeric_format(this->numeric_fmt());
@@ -3173,12 +3173,14 @@ namespace seq
 			{
 				// Special case: split all characters
 				if (match.full_split()) {
-					if (start == source.size())
-						start = view_type::npos;
-					else {
+					do {
+						if (start == source.size()) {
+							start = view_type::npos;
+							return;
+						}
 						current = view_type(source.data() + start, 1);
 						++start;
-					}
+					} while (Skip::skip(current.data(), current.size()));
 					return;
 				}
 
@@ -3193,7 +3195,7 @@ namespace seq
 					if SEQ_UNLIKELY (found == view_type::npos) {
 						// last occurence
 						current = source.substr(start, source.size() - start);
-						start = view_type::npos - 1;
+						start = Skip::skip(current.data(), current.size()) ? view_type::npos : view_type::npos - 1;
 						return;
 					}
 					else {
-- 
2.43.0


From 1f08005fa03b04ff77bb8d9264ffa6c5430eb5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 110/120] fix: replace() dropped matches located at the ends of
 the string or next to each other

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 631be22..036004b 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3260,7 +3260,7 @@ namespace seq
 	template<class Out, class Str1, class Str2, class Str3>
 	inline auto replace(const Str1& src, const Str2& match, const Str3& _new)
 	{
-		auto r = split(src, by_string(match), skip_empty{});
+		auto r = split(src, by_string(match), no_skip{});
 		return Out(join(_new, r));
 	}
 
-- 
2.43.0


From 3ccbe32e843dadd8ac32b9929a5d541bca1092eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 111/120] fix: hold_any formatted the address of C strings
 instead of their content

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index a99073e..2d03e66 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -272,7 +272,7 @@ namespace seq
 		{
 			if constexpr (!is_formattable<T>::value)
 				throw seq::bad_any_function_call("data type is not formattable");
-			else if constexpr (std::is_pointer_v<T>) {
+			else if constexpr (std::is_pointer_v<T> && !is_generic_char_string<T>::value) {
 				const void * ptr = reinterpret_cast<const void*>(*static_cast<const T*>(in));
 				auto f = fmt(ptr); 
 				f.set_width_format(wfmt);
-- 
2.43.0


From f824ee125094467395dfe144c804ac36328330e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 112/120] fix: an any slot dropped the formatting options of
 the format object it was given

---
 seq/any.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index 2d03e66..50c6300 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2366,6 +2366,15 @@ namespace seq
 		{
 		}
 
+		using base_type::operator();
+		/// @brief Hold the formatting object itself in order to keep its formatting options
+		template<class U, bool Sl>
+		auto operator()(const ostream_format<U, Sl>& other) -> ostream_format&
+		{
+			this->_value.set_value(other);
+			return *this;
+		}
+
 		auto to_string(std::string& out) const -> size_t
 		{
 			size_t prev = out.size();
-- 
2.43.0


From 52cbf1cb30875278ca44108d1da4e49e97b2575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 113/120] fix: dynamically typed format slots used invalid
 bases for integers and upper case floating point values

---
 seq/format.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 036004b..df1c6a0 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1550,6 +1550,9 @@ namespace seq
 
 			to_chars_result<Char> f;
 			size_t size;
+			// the numeric format might come from a floating point value
+			const char base = val.base() < 2 || val.base() > 36 ? static_cast<char>(10) : val.base();
+
 			size_t min_cap = std::max(static_cast<size_t>(14), static_cast<size_t>(val.width()));
 			if SEQ_UNLIKELY (tmp.capacity() < min_cap) {
 				tmp.reserve(min_cap);
@@ -1564,7 +1567,7 @@ namespace seq
 				for (;;) {
 					f = detail::write_integral(detail::char_range<Char>(const_cast<Char*>(tmp.data()), const_cast<Char*>(tmp.data()) + tmp.capacity()),
 								   ival,
-								   val.base(),
+								   base,
 								   integral_chars_format(0, (val.formatting() & detail::f_prefix) != 0, (val.formatting() & detail::f_upper) != 0));
 					if SEQ_LIKELY (f.ec == std::errc())
 						break;
@@ -1591,7 +1594,7 @@ namespace seq
 			}
 
 			char fmt = static_cast<char>(detail::to_upper(val.format()));
-			bool upper = val.format() <= 'Z';
+			bool upper = val.format() >= 'A' && val.format() <= 'Z';
 
 #if !defined(SEQ_USE_INTERNAL_STD_TO_CHARS) && !defined(__GNUC__) // a LOT of version of gcc are missing the floating point std::to_chars
 			to_chars_result<Char> f = detail::float_to_chars<Char>(val.value(), fmt, val.precision(), tmp);
-- 
2.43.0


From 3bd34401c46bad852c7626148f7910fbf2d43b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 114/120] fix: joined ranges with wide separators could not be
 written to wide streams

---
 seq/format.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index df1c6a0..4720bdb 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2844,6 +2844,7 @@ namespace seq
 
 	public:
 		using char_type = Char;
+		using valid_char_type = Char;
 
 		basic_tstring_view<Char> separator;
 		width_format wfmt;
-- 
2.43.0


From 30bfea96752e7fe7daebf0605a358fb149d2df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 115/120] fix: null could not be given to nested formats with
 multiple values

---
 seq/format.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index 4720bdb..562dd04 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2396,6 +2396,8 @@ namespace seq
 				AffectValuesFromTuple<Tuple, T>::convert(this->d_tuple, o.d_tuple);
 				return *this;
 			}
+			// operator() using placeholder object (nested formatting), no-op
+			auto operator()(const null_format& /*unused*/) -> mutli_ostream_format& { return *this; }
 		};
 
 		template<class Tuple, class Char, bool HasSeparator, size_t... Ts, bool Slot>
@@ -2452,6 +2454,8 @@ namespace seq
 				AffectValuesWithPosFromTuple<pos_type, Tuple, T>::convert(this->d_tuple, o.d_tuple);
 				return *this;
 			}
+			// operator() using placeholder object (nested formatting), no-op
+			auto operator()(const null_format& /*unused*/) -> mutli_ostream_format& { return *this; }
 		};
 
 		/// @brief Used to specialize ostream_format for iterable types
-- 
2.43.0


From ec20730fb5cf11e74190ed6c3c1960a168c5ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 116/120] fix: join() on an initializer list kept the address
 of its own parameter

---
 seq/format.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index 562dd04..d871cd8 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -816,6 +816,11 @@ namespace seq
 		{
 		};
 
+		template<class T>
+		struct inline_value_storage<std::initializer_list<T>> : std::true_type
+		{
+		};
+
 		/// @brief Tells if T is one of format library basic type (arithmetic, pointer or tstring_view types)
 		template<class T, bool IsBasicType = (std::is_arithmetic_v<T> || std::is_pointer_v<T> || is_tiny_string<T>::value || inline_value_storage<T>::value)>
 		struct is_fmt_basic_type
-- 
2.43.0


From 4f4caf03f2fb4661b74a412bb9bb18a757958ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 117/120] fix: numbers given to any slots were truncated to the
 width of the slot

---
 seq/any.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index 50c6300..a04bc60 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2357,6 +2357,9 @@ namespace seq
 		using base_type = base_ostream_format<hold_any<Interface, S, A, R>, ostream_format<hold_any<Interface, S, A, R>, Slot>>;
 
 	public:
+		// the width format is applied by to_string()
+		static constexpr bool auto_width_format = true;
+
 		ostream_format()
 		  : base_type()
 		{
@@ -2380,6 +2383,8 @@ namespace seq
 			size_t prev = out.size();
 			if (!this->value().empty())
 				this->value().type()->format_any(out, this->value().data(), this->width_fmt(), this->numeric_fmt());
+			else
+				width_format::format(out, prev, out.size(), this->width_fmt());
 			return out.size() - prev;
 		}
 	};
-- 
2.43.0


From 15bd99566f3e6ffbf0da5b0eba21b4e2f150480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 118/120] fix: ordered_map::erase(iterator) was taken for a
 heterogeneous key when the hash is transparent (string keys) and did not
 compile

---
 seq/ordered_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 9792274..adf998b 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -2008,6 +2008,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](Key&& k) -> T& { return try_emplace(std::move(k)).first->second; }
 
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return this->base_type::erase(pos); }
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return this->base_type::erase(const_iterator(pos)); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return this->base_type::erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
 		SEQ_ALWAYS_INLINE auto erase(const K& key) -> size_type
-- 
2.43.0


From 337c1c5b7794462ea6197617a549adc805a90957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 119/120] fix: maps keyed by std::pair took the first member of
 the key for the key and did not compile

---
 seq/radix_hash_map.hpp | 2 ++
 seq/utils.hpp          | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index fd2104f..eb34be0 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -492,6 +492,8 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE const Key& operator()(const std::pair<Key, T>& p) const noexcept { return (p.first); }
 			SEQ_ALWAYS_INLINE const Key& operator()(const std::pair<const Key, T>& p) const noexcept { return (p.first); }
+			// the key itself, which might be a std::pair
+			SEQ_ALWAYS_INLINE const Key& operator()(const Key& key) const noexcept { return key; }
 		};
 
 		using Policy = detail::BuildValue<std::pair<Key, T>, has_is_transparent<Hash>::value && has_is_transparent<KeyEqual>::value>;
diff --git a/seq/utils.hpp b/seq/utils.hpp
index 19ee29c..7e06a4c 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -398,6 +398,8 @@ namespace seq
 			using mapped_type = typename T::second_type;
 			static constexpr bool has_value = true;
 			SEQ_ALWAYS_INLINE static auto key(const value_type& value) noexcept -> const key_type& { return value.first; }
+			// the key itself, which might be a std::pair
+			SEQ_ALWAYS_INLINE static auto key(const key_type& value) noexcept -> const key_type& { return value; }
 			template<class U, class V>
 			SEQ_ALWAYS_INLINE static auto key(const std::pair<U, V>& value) noexcept -> const U&
 			{
@@ -432,6 +434,7 @@ namespace seq
 			}
 
 			SEQ_ALWAYS_INLINE auto operator()(const value_type& value) noexcept -> const key_type& { return value.first; }
+			SEQ_ALWAYS_INLINE auto operator()(const key_type& value) noexcept -> const key_type& { return value; }
 			template<class U, class V>
 			SEQ_ALWAYS_INLINE auto operator()(const std::pair<U, V>& value) noexcept -> const U&
 			{
-- 
2.43.0


From 073f5b0e19225a30e286d0e54ff157cf007956f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 120/120] fix: sorted tiered_vector kept copies of owning keys
 (std::shared_ptr) alive, and copied destroyed ones

---
 seq/tiered_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 3404955..f16e1c5 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1195,7 +1195,8 @@ namespace seq
 		struct StorePlainKey
 		{
 			using key_type = KeyType;
-			static constexpr bool value = (std::is_copy_constructible_v<KeyType> && std::is_nothrow_copy_constructible_v<KeyType> && sizeof(KeyType) <= 16);
+			// Keys owning something (like std::shared_ptr) must not be kept alive by the copy
+			static constexpr bool value = (std::is_copy_constructible_v<KeyType> && std::is_nothrow_copy_constructible_v<KeyType> && std::is_trivially_destructible_v<KeyType> && sizeof(KeyType) <= 16);
 		};
 
 		// Store a CircularBuffer pointer and an optional back value (pointer to the back value of the CircularBuffer)
-- 
2.43.0


From b94f29758d8ccb7f69386233746b9463e6e4e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 01/90] fix: devector::resize_front() leaked the previous
 buffer when reallocating

---
 seq/devector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..9c8ac5e 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -487,6 +487,9 @@ namespace seq
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From a96073dff7c898d1a6c3883b1a24d6808b4ef08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 02/90] fix: devector::emplace_back() read an aliased argument
 after moving the elements

---
 seq/devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 9c8ac5e..8d47424 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -518,10 +518,11 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
+					T tmp(std::forward<Args>(args)...); //handle aliasing
 					copy_destroy_input(start, end, data);
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
+					construct_ptr(end, std::move(tmp));
 					return;
 				}
 
-- 
2.43.0


From 99c98b9cdbe2561054714c41adc4dae5062323f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 03/90] fix: devector::emplace_front() read an aliased argument
 after moving the elements

---
 seq/devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 8d47424..2157136 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -573,10 +573,11 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
+					T tmp(std::forward<Args>(args)...); //handle aliasing
 					copy_destroy_input(start, end, data + (capacity - size));
 					start = data + (capacity - size);
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
+					construct_ptr(start-1, std::move(tmp));
 					return;
 				}
 				
-- 
2.43.0


From 1a658e5741ad18dc45194e296d83946b1021d844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 04/90] fix: devector::emplace() destroyed a relocated element
 when inserting in the front half

---
 seq/devector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 2157136..9e8fed0 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -854,11 +854,15 @@ namespace seq
 				// insert on the left side
 				T tmp = T(std::forward<Args>(args)...); //handle aliasing
 				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					destroy_ptr(begin());
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
-				else
+					construct_ptr(begin() + dist, std::move(tmp));
+				}
+				else {
 					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					*(begin() + dist) = std::move(tmp);
+				}
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From e120fa2f607da7f4032f660f46413e70492b8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 05/90] fix: tiered_vector iterators read an invalid bucket
 when offset by 0 at the end or on an empty container

---
 seq/tiered_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..38ea4c9 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -112,6 +112,8 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
-- 
2.43.0


From 5b474655971a6d9c46fdb4208ef2198f837ddb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 06/90] fix: tiered_vector::emplace() returned a reference to
 the spilled element instead of the inserted one

---
 seq/tiered_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 38ea4c9..a77d9e4 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1925,7 +1925,8 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					res = &d_buckets[0]->at(index);
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
@@ -1961,7 +1962,7 @@ namespace seq
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
+						create_front_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -1973,6 +1974,7 @@ namespace seq
 						d_buckets[0].update();
 						d_buckets[1].update();
 					}
+					res = &at(pos);
 				}
 				else {
 					// we are going to loose value at index 0, save it
@@ -2038,7 +2040,7 @@ namespace seq
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
+						create_back_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// Remove empty back bucket
@@ -2048,6 +2050,7 @@ namespace seq
 					}
 					if (StoreBackValues)
 						d_buckets.back().update();
+					res = &at(pos);
 				}
 				else {
 
-- 
2.43.0


From fdccf18caa00552cec3973eea667881d86629661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 07/90] fix: tiered_vector::push_back()/push_front() read an
 aliased argument after the bucket size update moved the elements

---
 seq/tiered_vector.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index a77d9e4..b14bb81 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2712,6 +2712,15 @@ namespace seq
 			if SEQ_UNLIKELY (min_block_size != maxb && (size() < 64U || (size() & mask) == 0))
 				check_bucket_size();
 		}
+		// Returns true if update_bucket_size() would move all elements to new buckets
+		SEQ_ALWAYS_INLINE auto need_bucket_size_update() const noexcept -> bool
+		{
+			static constexpr size_t minb = static_cast<size_t>(min_block_size);
+			static constexpr size_t maxb = static_cast<size_t>(max_block_size);
+			static constexpr size_t mul_factor = (minb < 8U) ? 8U : minb;
+			static constexpr size_t mask = (mul_factor * mul_factor) - 1ULL;
+			return min_block_size != maxb && (size() < 64U || (size() & mask) == 0) && findBSize(size()) != manager()->bucket_size();
+		}
 		// Find bucket size based on full tiered_vector size
 		auto findBSize(size_type size) const noexcept -> detail::cbuffer_pos
 		{
@@ -3128,9 +3137,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_back(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_back(value);
+			emplace_back(value);
 		}
 
 		/// @brief Appends the given element value to the end of the container using move semantic.
@@ -3152,7 +3159,12 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace_back(Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (need_bucket_size_update()) {
+				// The arguments might alias an element about to be moved
+				T tmp(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->emplace_back(std::move(tmp));
+			}
 			return manager()->emplace_back(std::forward<Args>(args)...);
 		}
 
@@ -3161,9 +3173,7 @@ namespace seq
 		/// Basic exception guarantee, except if <em>MinBSize == MaxBSize</em> (strong guarantee in this case).
 		SEQ_ALWAYS_INLINE void push_front(const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->push_front(value);
+			emplace_front(value);
 		}
 
 		/// @brief Appends the given element value to the beginning of the container using move semantic.
@@ -3185,7 +3195,12 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto emplace_front(Args&&... args) -> T&
 		{
 			make_manager_if_null();
-			update_bucket_size();
+			if SEQ_UNLIKELY (need_bucket_size_update()) {
+				// The arguments might alias an element about to be moved
+				T tmp(std::forward<Args>(args)...);
+				check_bucket_size();
+				return manager()->emplace_front(std::move(tmp));
+			}
 			return manager()->emplace_front(std::forward<Args>(args)...);
 		}
 
-- 
2.43.0


From 8e72a8c602820c36afd6f90cbdf32c9d8e254efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 08/90] fix: tiered_vector::insert() read an aliased argument
 after moving the elements

---
 seq/tiered_vector.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index b14bb81..c713b69 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -3210,9 +3210,8 @@ namespace seq
 		/// Basic exception guarantee.
 		SEQ_ALWAYS_INLINE void insert(size_type pos, const T& value)
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			manager()->insert(pos, value);
+			T tmp(value); // handle aliasing
+			insert(pos, std::move(tmp));
 		}
 
 		/// @brief Insert \a value before \a pos using move semantic.
@@ -3255,9 +3254,10 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(size_type pos, Args&&... args) -> T&
 		{
+			T tmp(std::forward<Args>(args)...); // handle aliasing
 			make_manager_if_null();
 			update_bucket_size();
-			return manager()->insert(pos, std::forward<Args>(args)...);
+			return manager()->insert(pos, std::move(tmp));
 		}
 
 		/// @brief Inserts a new element into the container directly before \a pos.
@@ -3269,9 +3269,7 @@ namespace seq
 		template<class... Args>
 		SEQ_ALWAYS_INLINE auto emplace(const_iterator pos, Args&&... args) -> T&
 		{
-			make_manager_if_null();
-			update_bucket_size();
-			return manager()->insert(pos.absolutePos(), std::forward<Args>(args)...);
+			return emplace(pos.absolutePos(), std::forward<Args>(args)...);
 		}
 
 		/// @brief Inserts elements from range [first, last) before pos.
-- 
2.43.0


From 27ec3872b48601d9640af6a2de34e70dd6e4f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 09/90] fix: tiered_vector::resize() read an aliased value
 after the bucket size update moved the elements

---
 seq/tiered_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c713b69..d6919ea 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -3059,9 +3059,12 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might alias an element about to be moved
+					T copy(value);
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, 0U, std::min(count, this->size()), get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					return manager()->resize(count, copy);
 				}
 				manager()->resize(count, value);
 			}
@@ -3111,12 +3114,15 @@ namespace seq
 				int bucket_size = findBSize(count);
 				// Update bucket size if necessary
 				if (bucket_size != manager()->bucket_size()) {
+					// value might alias an element about to be moved
+					T copy(value);
 					size_type fsize = std::min(count, this->size());
 					size_type fstart =
 					  static_cast<size_t>(std::max(static_cast<difference_type>(this->size()) - static_cast<difference_type>(fsize), static_cast<difference_type>(0)));
 					bucket_manager* tmp = make_manager(get_allocator(), std::move(*manager()), bucket_size, fstart, fsize, get_allocator());
 					*d_manager = std::move(*tmp);
 					destroy_manager(tmp);
+					return manager()->resize_front(count, copy);
 				}
 				manager()->resize_front(count, value);
 			}
-- 
2.43.0


From 8d0d498a1c3a810b0503ba89d38686614f48b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 10/90] fix: sequence: shrinking within the last or first chunk
 removed every element (resize, resize_front, copy assignment)

---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..3c1c645 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1284,8 +1284,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1807,8 +1809,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1934,8 +1938,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (diff && front == d_data->end.next) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From 81b42eaa3801def17a340d5696eaab86e9f7a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 11/90] fix: sequence::shrink_to_fit() left the last chunk
 linked to released chunks in the free list

---
 seq/sequence.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 3c1c645..4f27728 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -940,8 +940,10 @@ namespace seq
 				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
 				if (last->used == full)
 					endNode()->prev_free = endNode()->next_free = endNode();
-				else
+				else {
 					endNode()->prev_free = endNode()->next_free = last;
+					last->prev_free = last->next_free = endNode();
+				}
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From 2b7ccce835b8e859aef78c2b376c837a31004c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 12/90] fix: sequence: end() did not compare greater than the
 other iterators, and its distance to them was wrong

---
 seq/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 4f27728..c15e4e7 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -779,7 +779,7 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				endNode()->node_index = std::numeric_limits<std::int64_t>::max(); // the end is after every chunk
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
-- 
2.43.0


From 2223be788615b1ec26281c72813b7f71e6dbd386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 13/90] fix: sequence::sort() used a chunk released by
 shrink_to_fit()

---
 seq/sequence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c15e4e7..04e8e67 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -912,6 +912,8 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						if (vec_chunk)
+							vec_chunk->pop_back();
 					}
 
 					last->next = endNode();
-- 
2.43.0


From 4fcc7e888f76fe8aa85bdde09a102f038969f154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 14/90] fix: flat containers: inserting or assigning a range of
 non random access iterators did not compile and wrote past the end

---
 seq/flat_map.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..e6c0224 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -477,7 +477,7 @@ namespace seq
 					++count;
 				}
 				while (first != last) {
-					push_back(*first);
+					d_deque.push_back(*first);
 					if (sorted) {
 						if ((*this)(*first, *prev))
 							sorted = false;
@@ -491,7 +491,7 @@ namespace seq
 				}
 
 				// Resize if the tiered_vector was bigger
-				resize(count);
+				d_deque.resize(count);
 
 				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
@@ -751,14 +751,12 @@ namespace seq
 					d_deque.resize(std::distance(first, last) + size_before);
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
 				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
 				else {
 					while (first != last) {
-						*dit = *first;
+						d_deque.push_back(*first);
 						++first;
-						++dit;
 					}
 				}
 
-- 
2.43.0


From d1d5bc33b329915bc1e61b011dd25ab591c1a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 15/90] fix: flat containers: insert(initializer_list) could
 not be instantiated

---
 seq/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index e6c0224..7d9bbd1 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -775,7 +775,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
-- 
2.43.0


From 57ce177a61dd98f3b5bf0a26678522808aeb06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 16/90] fix: flat_multiset, flat_multimap: assignment from an
 initializer list could not be instantiated

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 7d9bbd1..e594a07 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1628,7 +1628,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -2190,7 +2190,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From 7c73508baa4861121d4c8268ea422fdee5f339a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 17/90] fix: flat_set, flat_map: equal_range() of an absent key
 returned the next element

---
 seq/flat_map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index e594a07..1f8bcf0 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -885,7 +885,7 @@ namespace seq
 				if (low == end())
 					return std::pair<iterator, iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<iterator, iterator>(low, (*this)(x, *low) ? low : low + 1);
 				iterator up = upper_bound(x);
 				return std::pair<iterator, iterator>(low, up);
 			}
@@ -896,7 +896,7 @@ namespace seq
 				if (low == end())
 					return std::pair<iterator, iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<iterator, iterator>(low, (*this)(x, *low) ? low : low + 1);
 				const_iterator up = upper_bound(x);
 				return std::pair<iterator, iterator>(low, up);
 			}
@@ -907,7 +907,7 @@ namespace seq
 				if (low == size())
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
-					return std::pair<size_t, size_t>(low, low + 1);
+					return std::pair<size_t, size_t>(low, (*this)(x, d_deque[low]) ? low : low + 1);
 				size_t up = upper_bound_pos(x);
 				return std::pair<size_t, size_t>(low, up);
 			}
-- 
2.43.0


From 8b5090cc66b35cb051533d75d550ee05e8aefece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 18/90] fix: flat containers: erase_if() dereferenced null on
 an empty container

---
 seq/flat_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 1f8bcf0..0469452 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -2284,7 +2284,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
@@ -2319,7 +2320,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
-- 
2.43.0


From b148f0fd9e2aff2f5a01d72586326fcb406754e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:22 +0000
Subject: [PATCH 19/90] fix: tiered_vector: sorting the buckets used a wrong
 bucket count when filling the front bucket emptied the back one

---
 seq/tiered_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index d6919ea..73b5c7f 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2438,7 +2438,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
 
 				size_t size_before = 0;
 				if (bucket_idx)
@@ -2465,6 +2464,9 @@ namespace seq
 					}
 				}
 
+				// Filling the front bucket might have removed back buckets
+				size_t bucket_count = d_buckets.size() - bucket_idx;
+
 				// Create buffer to sort buckets
 				std::vector<T> buf(count / 2);
 
-- 
2.43.0


From 5df19d6bdeb2d6a1001f00b40f483b5a6be39c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 20/90] fix: flat_set::merge() used operator== instead of the
 comparator to detect equivalent elements

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 0469452..7885774 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -356,7 +356,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								*it_rem = std::move(*first2);
 								++it_rem;
@@ -388,7 +388,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								remaining->push_back(std::move(*first2));
 							}
-- 
2.43.0


From b8ce7d42acf1ea056bcd646cc0b55923be27b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 21/90] fix: flat_set::merge() did not update the back values
 of the buckets

---
 seq/flat_map.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 7885774..5f118d6 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -921,6 +921,11 @@ namespace seq
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
 					d_deque = std::move(out);
 					source.d_deque = std::move(rem);
+					// Elements were assigned after the buckets were filled
+					if (d_deque.size())
+						d_deque.manager()->update_all_back_values();
+					if (source.d_deque.size())
+						source.d_deque.manager()->update_all_back_values();
 				}
 				else {
 					// add elements from source to this tiered_vector
-- 
2.43.0


From 22b033ca09e978cc6704dc87bafc49097c7a118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 22/90] fix: flat containers: lookups in an emptied container
 read the last destroyed key

---
 seq/flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 5f118d6..35d9479 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,7 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			if SEQ_UNLIKELY (!d.manager() || d.manager()->size() == 0)
 				return { 0, false };
 
 			using T = typename Deque::value_type;
-- 
2.43.0


From c788f70c3f605d62d29be4a82368e033e5106fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:13 +0000
Subject: [PATCH 23/90] fix: flat_multiset: insert(sorted_equivalent, ...)
 could not be instantiated

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 35d9479..7d7007d 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1651,11 +1651,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
-- 
2.43.0


From 9923389f3dddd27d8f1ce2c4993a643555d4b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 24/90] fix: radix_set/radix_map::merge() did not compile

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..0738a5a 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1991,7 +1991,7 @@ namespace seq
 
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					if (this->emplace(std::move(const_cast<value_type&>(*it))).second)
 						it = other.erase(it);
 					else
 						++it;
-- 
2.43.0


From 983248a62d924cf335e534ad0dfef68d6b1917ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 25/90] fix: radix containers with bool keys did not compile

---
 seq/internal/radix_tree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 0738a5a..9e2c5cb 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -197,9 +197,13 @@ namespace seq
 
 		template<class T>
 		struct make_unsigned_or_bool : std::make_unsigned<T>
+		{
+		};
+		template<>
+		struct make_unsigned_or_bool<bool>
 		{
 			// make_unsigned that also work on bool type
-			using type = typename std::conditional<std::is_same_v<T, bool>, bool, typename std::make_unsigned<T>::type>::type;
+			using type = std::uint8_t;
 		};
 		template<class T>
 		struct make_unsigned_from_float
-- 
2.43.0


From f8b0350bda9b287397c086b8bce26221e8896846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 26/90] fix: radix tree: -0 and +0 are the same key

Equal floating-point keys had different hash values, so that a radix_set<float> could hold both zeros.
---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 9e2c5cb..af0f7b5 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -167,6 +167,8 @@ namespace seq
 		}
 		static SEQ_ALWAYS_INLINE std::uint32_t to_uint(float k) noexcept
 		{
+			if (k == 0.f)
+				k = 0.f; // -0 and +0 are the same key
 			union
 			{
 				float d;
@@ -179,6 +181,8 @@ namespace seq
 		}
 		static SEQ_ALWAYS_INLINE std::uint64_t to_uint(double k) noexcept
 		{
+			if (k == 0.)
+				k = 0.; // -0 and +0 are the same key
 			// Interpret double as 64-bit unsigned.
 			union
 			{
-- 
2.43.0


From 6a3b8ba4a6b3c31a81325ceab350461bb1c1c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 27/90] fix: hash: -0 and +0 have the same hash value

hasher<float> and hasher<double> gave different values for keys that compare equal.
---
 seq/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/hash.hpp b/seq/hash.hpp
index 8374568..f09bb19 100644
--- a/seq/hash.hpp
+++ b/seq/hash.hpp
@@ -207,7 +207,7 @@ namespace seq
 				float fv;
 				std::uint32_t uv;
 			};
-			fv = v;
+			fv = v == 0.f ? 0.f : v; // -0 and +0 are equal
 			return hash_finalize(uv);
 		}
 	};
@@ -223,7 +223,7 @@ namespace seq
 				double fv;
 				std::uint64_t uv;
 			};
-			fv = v;
+			fv = v == 0. ? 0. : v; // -0 and +0 are equal
 			return hash_finalize(static_cast<size_t>(uv));
 		}
 	};
-- 
2.43.0


From b3c976515c1fd8d819311c3cf48186843bbc953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 28/90] fix: tiny_string: clamp character counts without
 overflowing pos + len

---
 seq/tiny_string.hpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b380671..78d6d78 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1151,7 +1151,7 @@ namespace seq
 		tiny_string(const tiny_string& other, size_t pos, size_t len, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			if (len == npos || pos + len > other.size())
+			if (len > other.size() - pos)
 				len = other.size() - pos;
 			memcpy(initialize(len), other.data() + pos, len * sizeof(Char));
 		}
@@ -1276,7 +1276,7 @@ namespace seq
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			internal_resize(sublen, false, true);
 			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
@@ -1544,7 +1544,7 @@ namespace seq
 		template<size_t Ss, class Al>
 		auto append(const tiny_string<Char, Traits, Al, Ss>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1552,7 +1552,7 @@ namespace seq
 		template<class Al>
 		auto append(const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1560,7 +1560,7 @@ namespace seq
 		/// @brief Append the sub-part of str to this string
 		auto append(const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1642,7 +1642,7 @@ namespace seq
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const tiny_string& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			insert(begin() + pos, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1690,7 +1690,7 @@ namespace seq
 		/// @brief Removes up to sublen character starting from subpos
 		auto erase(size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > size())
+			if (sublen > size() - subpos)
 				sublen = size() - subpos;
 			erase_internal(subpos, subpos + sublen);
 			return *this;
@@ -1714,7 +1714,7 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1723,7 +1723,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1748,7 +1748,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1765,9 +1765,9 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1776,9 +1776,9 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1787,9 +1787,9 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by a sub-part of str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1922,7 +1922,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::copy out of range");
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			memcpy(s, data() + pos, len * sizeof(Char));
 			return len;
@@ -1933,7 +1933,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::substr out of range");
-			if (len == npos || pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return tiny_string<Char, Traits, view_allocator<Char>, 0>(begin() + pos, len);
 		}
@@ -2061,7 +2061,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return compare(pos, len, str.data() + subpos, sublen);
 		}
@@ -2311,7 +2311,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::copy out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len > size() - pos) {
 				len = size() - pos;
 			}
 			memcpy(s, data() + pos, len * sizeof(Char));
@@ -2323,7 +2323,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::substr out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len > size() - pos) {
 				len = size() - pos;
 			}
 			return { begin() + pos, len };
@@ -2453,7 +2453,7 @@ namespace seq
 		template<class A, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, A, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size()) {
+			if (sublen > str.size() - subpos) {
 				sublen = str.size() - subpos;
 			}
 			return compare(pos, len, str.data() + subpos, sublen);
-- 
2.43.0


From b7450b28c5f15ed4c6d45cc080622c735d4aa469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 29/90] fix: tiny_string::replace clamps the source count to
 the source string

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 78d6d78..4f29ed4 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1768,7 +1768,7 @@ namespace seq
 			if (len > size() - pos)
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1779,7 +1779,7 @@ namespace seq
 			if (len > size() - pos)
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1790,7 +1790,7 @@ namespace seq
 			if (len > size() - pos)
 				len = size() - pos;
 			if (sublen > str.size() - subpos)
-				sublen = size() - subpos;
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
-- 
2.43.0


From da74ea3ad9c9448bb9e09806143e5803cfed0cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 30/90] fix: tiny_string::replace moves the tail of wide
 strings entirely

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 4f29ed4..fa3b561 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -990,7 +990,7 @@ namespace seq
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
-					memmove(data() + pos + input_size, data() + pos + len, size() - (pos + len));
+					memmove(data() + pos + input_size, data() + pos + len, (size() - (pos + len)) * sizeof(Char));
 
 				// copy input
 				std::copy(first, last, data() + pos);
-- 
2.43.0


From 50b164e286c205aa62870c59e8b3d4eda7aff880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 31/90] fix: tiny_string::shrink_to_fit to inline storage
 releases the heap block it held

---
 seq/tiny_string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index fa3b561..0f2cc91 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1397,8 +1397,10 @@ namespace seq
 			if (!is_sso() && capacity_internal() != s + 1) {
 				Char* p = d_data.d_union.non_sso.data;
 				if (is_sso(s)) {
+					// read the capacity before the characters overwrite the heap representation
+					const size_t old_capacity = capacity_internal();
 					memcpy(d_data.d_union.sso.data, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, old_capacity + char_offset);
 				}
 				else {
 					Char* _new = d_data.allocate(s + char_offset + 1);
-- 
2.43.0


From 7db6b673d628632238798aaa9924e1a7728c52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 32/90] fix: tiny_string::replace clamps the replaced count for
 every overload

---
 seq/tiny_string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 0f2cc91..192cc29 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1801,6 +1801,8 @@ namespace seq
 		auto replace(size_t pos, size_t len, const Char* s) -> tiny_string&
 		{
 			size_t l = Traits::length(s);
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, s, s + l);
 			return *this;
 		}
@@ -1814,6 +1816,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by buffer s of size n
 		auto replace(size_t pos, size_t len, const Char* s, size_t n) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, s, s + n);
 			return *this;
 		}
@@ -1827,6 +1831,8 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by n copies of c
 		auto replace(size_t pos, size_t len, size_t n, Char c) -> tiny_string&
 		{
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_internal(pos, len, cvalue_iterator<Char>(0, c), cvalue_iterator<Char>(n));
 			return *this;
 		}
-- 
2.43.0


From 33d976bc4e547801d70c58329caa5ca5e940f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 33/90] fix: tiny_string modifiers accept arguments that
 designate a part of the string itself

---
 seq/tiny_string.hpp | 49 +++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 192cc29..b8e658e 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1025,10 +1025,22 @@ namespace seq
 			other.append(data() + pos + len, size() - (pos + len));
 			swap(other);
 		}
+		SEQ_STR_INLINE bool is_inside(const Char* s) const noexcept
+		{
+			// tells if given pointer designates a part of this string
+			return std::less_equal<const Char*>()(data(), s) && std::less_equal<const Char*>()(s, data() + size());
+		}
 		template<class Iter>
 		void replace_internal(size_t pos, size_t len, Iter first, Iter last)
 		{
 			// replace portion of the string
+			if constexpr (std::is_convertible_v<Iter, const Char*>) {
+				if (first != last && is_inside(first)) {
+					const tiny_string tmp(static_cast<const Char*>(first), static_cast<size_t>(last - first), get_allocator());
+					replace_cat(pos, len, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
+					return;
+				}
+			}
 			replace_cat(pos, len, first, last, typename std::iterator_traits<Iter>::iterator_category());
 		}
 
@@ -1254,9 +1266,7 @@ namespace seq
 		template<class OtherAlloc, size_t OtherMaxStaticSize>
 		auto assign(const tiny_string<Char, Traits, OtherAlloc, OtherMaxStaticSize>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		template<class Al>
@@ -1269,30 +1279,28 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const std::basic_string_view<Char, Traits>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.data(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
 			if (sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
-			internal_resize(sublen, false, true);
-			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
-			return *this;
+			return assign(str.data() + subpos, sublen);
 		}
 		/// @brief Assign a null-terminated buffer to this string
 		auto assign(const Char* s) -> tiny_string&
 		{
-			size_t len = Traits::length(s);
-			internal_resize(len, false, true);
-			memcpy(this->data(), s, len * sizeof(Char));
-			return *this;
+			return assign(s, Traits::length(s));
 		}
 		/// @brief Assign a buffer to this string
 		auto assign(const Char* s, size_t n) -> tiny_string&
 		{
+			if (is_inside(s)) {
+				memmove(this->data(), s, n * sizeof(Char));
+				internal_resize(n, true, true);
+				return *this;
+			}
 			internal_resize(n, false, true);
 			memcpy(this->data(), s, n * sizeof(Char));
 			return *this;
@@ -1577,8 +1585,10 @@ namespace seq
 				return *this;
 			size_t old_size = size();
 			size_t new_size = old_size + n;
+			const bool inside = is_inside(s);
+			const size_t offset = inside ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
-			memcpy(d + old_size, s, n * sizeof(Char));
+			memcpy(d + old_size, inside ? d + offset : s, n * sizeof(Char));
 			d[new_size] = 0;
 			return *this;
 		}
@@ -1600,7 +1610,9 @@ namespace seq
 		{
 			if (first == last)
 				return *this;
-			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
+			if constexpr (std::is_convertible_v<Iter, const Char*>)
+				return append(static_cast<const Char*>(first), static_cast<size_t>(last - first));
+			else if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
 				size_t n = std::distance(first, last);
 				size_t old_size = size();
 				size_t new_size = old_size + n;
@@ -1678,6 +1690,13 @@ namespace seq
 		auto insert(const_iterator p, InputIterator first, InputIterator last) -> iterator
 		{
 			size_t pos = static_cast<size_t>(p - cbegin());
+			if constexpr (std::is_convertible_v<InputIterator, const Char*>) {
+				if (first != last && is_inside(first)) {
+					const tiny_string tmp(static_cast<const Char*>(first), static_cast<size_t>(last - first), get_allocator());
+					insert_cat(pos, tmp.begin(), tmp.end(), std::random_access_iterator_tag());
+					return begin() + pos;
+				}
+			}
 			insert_cat(pos, first, last, typename std::iterator_traits<InputIterator>::iterator_category());
 			return begin() + pos;
 		}
-- 
2.43.0


From ba3a4b67b586de5cba8b35918b81a9f842b38209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 34/90] fix: tiny_string concatenation compiles for every
 character type

---
 seq/tiny_string.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b8e658e..f3ef6ea 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2797,45 +2797,45 @@ namespace seq
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string<Char, Traits, Al2>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + basic_tstring_view<Char>(rhs.data(), rhs.size());
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string_view<Char, Traits>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + basic_tstring_view<Char>(rhs.data(), rhs.size());
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const Char* rhs)
 	{
-		return lhs + tstring_view(rhs);
+		return lhs + basic_tstring_view<Char>(rhs);
 	}
 	template<class Char, class Traits, size_t Size, class Al>
-	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, char rhs)
+	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, Char rhs)
 	{
-		return lhs + tstring_view(&rhs, 1);
+		return lhs + basic_tstring_view<Char>(&rhs, 1);
 	}
 
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const std::basic_string<Char, Traits, Al2>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return basic_tstring_view<Char>(lhs.data(), lhs.size()) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const std::basic_string_view<Char, Traits>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return basic_tstring_view<Char>(lhs.data(), lhs.size()) + rhs;
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const Char* lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs) + rhs;
+		return basic_tstring_view<Char>(lhs) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(Char lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(&lhs, 1) + rhs;
+		return basic_tstring_view<Char>(&lhs, 1) + rhs;
 	}
 
 	/// @brief Returns the string data (const char*) for given string object
-- 
2.43.0


From a1e108dba1ca919ff3585d242502d8f0499f69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 35/90] fix: tiny string view rfind, find_last_of and
 find_last_not_of compile

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index f3ef6ea..4fd1615 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2391,7 +2391,7 @@ namespace seq
 		auto rfind(const std::basic_string_view<Char, Traits>& str, size_t pos = npos) const noexcept -> size_t { return rfind(str.data(), pos, str.size()); }
 
 		auto rfind(const Char* s, size_t pos = npos) const noexcept -> size_t { return rfind(s, pos, Traits::length(s)); }
-		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind(data(), pos, size(), s, n, npos); }
+		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind<Traits>(data(), pos, size(), s, n, npos); }
 		auto rfind(Char c, size_t pos = npos) const noexcept -> size_t { return std::basic_string_view<Char, Traits>(data(), size()).rfind(c, pos); }
 
 		auto find_first_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_of<Traits>(data(), pos, size(), s, n, npos); }
@@ -2409,7 +2409,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class A, size_t S>
@@ -2436,7 +2436,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0) {
-- 
2.43.0


From 147f3633b149b53e734870a42d78a8715da3e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 36/90] fix: an empty tiny_string is zero terminated

---
 seq/tiny_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 4fd1615..e9653b1 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -550,7 +550,8 @@ namespace seq
 
 			SEQ_STR_INLINE_STRONG void reset() noexcept
 			{
-				// Initialize with SSO string of size 0
+				// Initialize with SSO string of size 0, zero terminated
+				d_union.sso.data[0] = 0;
 				last_sso_char() = static_cast<unsigned_char>(sso_mask);
 			}
 		};
-- 
2.43.0


From b5b365318fc275ab8082805dc74c0a4d8abca92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 37/90] fix: tiny_string::find with a large position or an
 empty needle

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index e9653b1..85a517b 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -363,10 +363,10 @@ namespace seq
 		template<class Traits, class Char>
 		inline auto traits_string_find(const Char* data, size_t pos, size_t size, const Char* s, size_t n, size_t npos) noexcept -> size_t
 		{
-			if (n > size || pos + n > size)
+			if (pos > size || n > size - pos)
 				return npos;
 			if (n == 0)
-				return 0;
+				return pos;
 
 			const Char* in = data + pos;
 			const Char* end = in + (size - pos - n) + 1;
-- 
2.43.0


From f811886d49f4f29daa04070f2effed50c71b7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 38/90] fix: tiny_string::find(char) with a position beyond the
 end

---
 seq/tiny_string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 85a517b..f604bc6 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1983,6 +1983,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == NULL ? npos : p - begin();
 		}
@@ -2374,6 +2376,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == nullptr ? npos : static_cast<size_t>(p - begin());
 		}
-- 
2.43.0


From 3184a7fb4f6e71e5f00ab99b1f0c2f2dba282ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 39/90] fix: tiny_string::find_first_not_of(char) with a
 position beyond the end

---
 seq/tiny_string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index f604bc6..7e55271 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2033,6 +2033,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p)
 				if (*p != c)
@@ -2426,6 +2428,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p) {
 				if (*p != c) {
-- 
2.43.0


From dfa4d417ddb8390fce2e8c76b86fdc53ea5edd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 40/90] fix: tiny_string::compare clamps the compared part to
 the string

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 7e55271..5dfa3c8 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2101,7 +2101,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
@@ -2499,7 +2499,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
 
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
-- 
2.43.0


From 5ede7094553604064de9b91c251ff0ab4edda732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 41/90] fix: tiny_string orders wide characters like their
 traits

---
 seq/tiny_string.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 5dfa3c8..a5ea46c 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -132,8 +132,12 @@ namespace seq
 			using unsigned_char = typename std::make_unsigned<Char>::type;
 
 			size_t l = l1 < l2 ? l1 : l2;
-			if (l && *v1 != *v2)
-				return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2)) ? -1 : 1;
+			if (l && *v1 != *v2) {
+				if constexpr (sizeof(Char) == 1)
+					return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2)) ? -1 : 1;
+				else // same order as Traits::compare() below
+					return Traits::lt(*v1, *v2) ? -1 : 1;
+			}
 
 #ifndef SEQ_NO_FAST_BSWAP
 			if constexpr (sizeof(Char) == 1) {
-- 
2.43.0


From 1dc67f7ce27045f2b06924853dd8e67f69809151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 42/90] fix: tiny_string::find_last_of and find_last_not_of
 with a C string and a position are not ambiguous

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index a5ea46c..b64dc0f 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2025,7 +2025,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class Al, size_t S>
@@ -2052,7 +2052,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0)
-- 
2.43.0


From 94729cd7b5539c7fbcf834fe70a0fa35edaae0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 43/90] fix: net_sort sorts blocks of 8 elements with a stable
 sorting network

---
 seq/algorithm.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..59adef7 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -838,11 +838,18 @@ namespace seq
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
+			// Odd-even transposition network: only adjacent elements are
+			// compared and swapped, which keeps the order of equal elements.
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+			CHECK_2(5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+			CHECK_2(5, 6);
+			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+			CHECK_2(5, 6);
 			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
 			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
 			CHECK_2(5, 6);
 		}
-- 
2.43.0


From 3e434c1c68232dec2a88b189f658f1e9f08d30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 44/90] fix: seq::unique registers elements where they are kept

---
 seq/algorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 59adef7..a273791 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1426,10 +1426,10 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
-				continue;
-			}
-			*loc++ = std::move(*first);
+			// Only register elements at their final location
+			*loc = std::move(*first);
+			if (set.emplace(std::addressof(*loc)))
+				++loc;
 		}
 		return loc;
 	}
-- 
2.43.0


From 9d8c460458fcdc835156a317ba440dca1eb905bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 45/90] fix: seq::merge accepts output iterators that are not
 random access

---
 seq/algorithm.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index a273791..8802c8c 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -411,13 +411,17 @@ namespace seq
 
 		end:
 			out = copy_internal(first1, end1, out);
-			if (Overlap && iter_equal(first2, out)) {
-				// The last range is already inplace:
-				// just advance output iterator if not
-				// a std::reverse_iterator (used by
-				// merge_backward which do not use the result).
-				if constexpr (!is_reverse_iterator<Out>::value)
-					out = iter_next(out, iter_distance(first2, end2));
+			if constexpr (Overlap) {
+				if (iter_equal(first2, out)) {
+					// The last range is already inplace:
+					// just advance output iterator if not
+					// a std::reverse_iterator (used by
+					// merge_backward which do not use the result).
+					if constexpr (!is_reverse_iterator<Out>::value)
+						out = iter_next(out, iter_distance(first2, end2));
+				}
+				else
+					out = copy_internal(first2, end2, out);
 			}
 			else
 				out = copy_internal(first2, end2, out);
-- 
2.43.0


From e3ee9bd557ea3bbbaf1333d32cfb40f0619a2c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 46/90] fix: the debug check of in-place merges uses the
 comparator

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 8802c8c..fdf84fd 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -646,7 +646,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
-- 
2.43.0


From 8f43df9169957592a4c4e66d0e77c7202876db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 47/90] fix: relocatable hold_any copied/moved small non
 relocatable values inside its static storage while flagging them as
 separately stored

---
 seq/any.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ed1d39c..71d8461 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1565,6 +1565,12 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto big_size() const noexcept -> bool { return (this->d_type_info.full() & detail::big_size) != 0; }
 		SEQ_ALWAYS_INLINE auto non_relocatable() const noexcept -> bool { return (this->d_type_info.full() & detail::non_relocatable) != 0; }
 
+		// Storage size available for a copy of other's value: 0 if other's value lives in a separate memory block
+		static SEQ_ALWAYS_INLINE auto storage_size_for(const hold_any& other) noexcept -> unsigned
+		{
+			return other.big_size() ? 0u : static_cast<unsigned>(static_size);
+		}
+
 		template<class T>
 		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
 		{
@@ -1608,7 +1614,7 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && sizeof(type) > static_size)
+					if (d && (this->d_type_info.tag() & detail::big_size))
 						SEQ_ANY_FREE(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
@@ -1673,7 +1679,7 @@ namespace seq
 			}
 			else {
 				// copy data, might throw
-				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, storage_size_for(other));
 			}
 			// copy type info
 			this->d_type_info = other.d_type_info;
@@ -1699,7 +1705,7 @@ namespace seq
 				}
 				else {
 					// move data, might throw
-					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, (static_size));
+					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, storage_size_for(other));
 					// copy tag and info pointer on success
 					this->d_type_info = other.d_type_info;
 				}
@@ -1756,7 +1762,7 @@ namespace seq
 			}
 			else {
 				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, storage_size_for(other));
 			}
 			this->d_type_info = other.d_type_info;
 
@@ -1790,14 +1796,14 @@ namespace seq
 					}
 					else {
 						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, storage_size_for(other));
 					}
 				}
 				else {
 					// different type, clear this object
 					reset();
 					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, static_size);
+					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, storage_size_for(other));
 					// copy type info with tags
 					this->d_type_info = other.d_type_info;
 				}
-- 
2.43.0


From 8c7121a151f9c6445f2fbc548a910628cc1eff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 48/90] fix: assigning a hold_any holding the same non
 assignable type constructed the new value over the live old one

---
 seq/any.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index 71d8461..a1b02ba 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -572,6 +572,15 @@ namespace seq
 				// might throw, fine
 				assign_value(*static_cast<T*>(dst), *static_cast<const T*>(in));
 			}
+			else if (in_p == out_p) {
+				// same type without assignment: replace the destination object
+				if constexpr (std::is_copy_constructible_v<T>) {
+					T tmp(*static_cast<const T*>(in)); // might throw, fine
+					T* dst = static_cast<T*>(sizeof(T) > out_storage_size ? read_void_p(out_storage) : out_storage);
+					dst->~T();
+					new (dst) T(std::move(tmp));
+				}
+			}
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
@@ -603,6 +612,15 @@ namespace seq
 				// might throw, fine
 				move_assign_value(*static_cast<T*>(dst), *static_cast<T*>(in));
 			}
+			else if (in_p == out_p) {
+				// same type without assignment: replace the destination object
+				T* dst = static_cast<T*>(sizeof(T) > out_storage_size ? read_void_p(out_storage) : out_storage);
+				if (dst != in) {
+					T tmp(std::move(*static_cast<T*>(in))); // might throw, fine
+					dst->~T();
+					new (dst) T(std::move(tmp));
+				}
+			}
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-- 
2.43.0


From ac1f1ea0fdf5c267e05e704623db3e418bd1ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 49/90] fix: pointer any_cast always returned nullptr for
 hold_any types other than the default storage

---
 seq/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index a1b02ba..e789bc4 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2304,7 +2304,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(const hold_any<Interface, S, A, R>* operand) noexcept -> const T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<const T*>(operand->data());
 		return nullptr;
 	}
@@ -2312,7 +2312,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(hold_any<Interface, S, A, R>* operand) noexcept -> T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<T*>(operand->data());
 		return nullptr;
 	}
-- 
2.43.0


From acbad56653567fa010f256508ad6de28706b5091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 50/90] fix: hold_any::operator=(T&&) destroyed the held value
 before reading the assigned one, which might be part of it

---
 seq/any.hpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index e789bc4..ec0df8e 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1821,9 +1821,17 @@ namespace seq
 					// different type, clear this object
 					reset();
 					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, storage_size_for(other));
-					// copy type info with tags
-					this->d_type_info = other.d_type_info;
+					if (other.big_size() || !other.non_relocatable()) {
+						// steal other's storage
+						memcpy(&this->d_storage, &other.d_storage, static_size);
+						this->d_type_info = other.d_type_info;
+						other.d_type_info.set_full(0);
+					}
+					else {
+						o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, storage_size_for(other));
+						// copy type info with tags
+						this->d_type_info = other.d_type_info;
+					}
 				}
 
 				return *this;
@@ -1843,25 +1851,9 @@ namespace seq
 				*static_cast<type*>(this->data()) = std::forward<T>(value);
 			}
 			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					new (d) type(std::forward<T>(value));
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
-				}
+				// different types, build the new value before clearing this object
+				// as value might refer to (part of) the currently held one, might throw
+				*this = hold_any(std::forward<T>(value));
 			}
 
 			return *this;
-- 
2.43.0


From 51e6d28e570c6d3ac84b45541828e25e6cf6559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 51/90] fix: an empty hold_any compared both less and greater
 than any value

---
 seq/any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ec0df8e..62d486c 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1992,8 +1992,9 @@ namespace seq
 		{
 			using type = typename std::decay<T>::type;
 
+			// an empty hold_any is less than anything
 			if (this->empty())
-				return true;
+				return false;
 
 			const type_info_type* otype = get_type<type>();
 
-- 
2.43.0


From 213024cd866eb468b6fe5df782080cd0b548901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 52/90] fix: hold_any ordered integrals of different signedness
 by their unsigned conversion, which is no order and disagrees with operator==

---
 seq/any.hpp | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 62d486c..d64f7c6 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -428,6 +428,30 @@ namespace seq
 				return false;
 		}
 
+		// Sign and value of an integral, used to compare integrals of different types
+		struct integral_value
+		{
+			bool negative;
+			unsigned long long value;
+
+			bool operator<(const integral_value& other) const noexcept { return negative != other.negative ? negative : value < other.value; }
+		};
+
+		template<class T>
+		integral_value to_integral_value(T v) noexcept
+		{
+			if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
+				return { v < 0, static_cast<unsigned long long>(v) };
+			else
+				return { false, static_cast<unsigned long long>(v) };
+		}
+
+		template<class Any>
+		integral_value any_to_integral_value(const Any& a)
+		{
+			return { is_signed_integral_type(a.type_id()) && a.template cast<long long>() < 0, a.template cast<unsigned long long>() };
+		}
+
 		template<class T>
 		int compare_string(const tstring_view& a, const T& b)
 		{
@@ -1962,11 +1986,9 @@ namespace seq
 
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
-				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
-					else
-						return detail::less_arithmetic<type, long long>(this->template cast<long long>(), other);
+				if constexpr (std::is_integral_v<type>) {
+					if (is_integral_type(a_id))
+						return detail::any_to_integral_value(*this) < detail::to_integral_value(other);
 				}
 				return detail::less_arithmetic<type, long double>(this->template cast<long double>(), other);
 			}
@@ -2006,11 +2028,9 @@ namespace seq
 
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
-				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
-					else
-						return detail::greater_arithmetic<type, long long>(this->template cast<long long>(), other);
+				if constexpr (std::is_integral_v<type>) {
+					if (is_integral_type(a_id))
+						return detail::to_integral_value(other) < detail::any_to_integral_value(*this);
 				}
 				return detail::greater_arithmetic<type, long double>(this->template cast<long double>(), other);
 			}
@@ -2090,12 +2110,8 @@ namespace seq
 
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && is_arithmetic_type(b_id)) {
-				if (is_integral_type(a_id) && is_integral_type(b_id)) {
-					if (is_signed_integral_type(a_id) != is_signed_integral_type(b_id) || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
-					else
-						return this->template cast<long long>() < other.template cast<long long>();
-				}
+				if (is_integral_type(a_id) && is_integral_type(b_id))
+					return detail::any_to_integral_value(*this) < detail::any_to_integral_value(other);
 				return this->template cast<long double>() < other.template cast<long double>();
 			}
 
-- 
2.43.0


From 0d858bb200c1e22b6478f78b34b49d0d73b08eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 53/90] fix: hold_any did not treat bool and wchar_t as
 arithmetic types: no conversion, and any(true) compared unlike true

---
 seq/any.hpp | 56 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index d64f7c6..d0c9a9f 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -90,46 +90,50 @@ namespace seq
 			return 1;
 		else if constexpr (std::is_same_v<signed char, T>)
 			return 2;
-		else if constexpr (std::is_same_v<short, T>)
+		else if constexpr (std::is_same_v<wchar_t, T>)
 			return 3;
-		else if constexpr (std::is_same_v<int, T>)
+		else if constexpr (std::is_same_v<short, T>)
 			return 4;
-		else if constexpr (std::is_same_v<long, T>)
+		else if constexpr (std::is_same_v<int, T>)
 			return 5;
-		else if constexpr (std::is_same_v<long long, T>)
+		else if constexpr (std::is_same_v<long, T>)
 			return 6;
-		else if constexpr (std::is_same_v<unsigned char, T>)
+		else if constexpr (std::is_same_v<long long, T>)
 			return 7;
-		else if constexpr (std::is_same_v<char16_t, T>)
+		else if constexpr (std::is_same_v<bool, T>)
 			return 8;
-		else if constexpr (std::is_same_v<char32_t, T>)
+		else if constexpr (std::is_same_v<unsigned char, T>)
 			return 9;
-		else if constexpr (std::is_same_v<unsigned short, T>)
+		else if constexpr (std::is_same_v<char16_t, T>)
 			return 10;
-		else if constexpr (std::is_same_v<unsigned int, T>)
+		else if constexpr (std::is_same_v<char32_t, T>)
 			return 11;
-		else if constexpr (std::is_same_v<unsigned long, T>)
+		else if constexpr (std::is_same_v<unsigned short, T>)
 			return 12;
-		else if constexpr (std::is_same_v<unsigned long long, T>)
+		else if constexpr (std::is_same_v<unsigned int, T>)
 			return 13;
-		else if constexpr (std::is_same_v<float, T>)
+		else if constexpr (std::is_same_v<unsigned long, T>)
 			return 14;
-		else if constexpr (std::is_same_v<double, T>)
+		else if constexpr (std::is_same_v<unsigned long long, T>)
 			return 15;
-		else if constexpr (std::is_same_v<long double, T>)
+		else if constexpr (std::is_same_v<float, T>)
 			return 16;
-		else if constexpr (std::is_same_v<std::string, T>)
+		else if constexpr (std::is_same_v<double, T>)
 			return 17;
-		else if constexpr (std::is_same_v<tstring, T>)
+		else if constexpr (std::is_same_v<long double, T>)
 			return 18;
-		else if constexpr (std::is_same_v<tstring_view, T>)
+		else if constexpr (std::is_same_v<std::string, T>)
 			return 19;
-		else if constexpr (std::is_same_v<const char*, T>)
+		else if constexpr (std::is_same_v<tstring, T>)
 			return 20;
-		else if constexpr (std::is_same_v<char*, T>)
+		else if constexpr (std::is_same_v<tstring_view, T>)
 			return 21;
-		else if constexpr (std::is_same_v<std::string_view, T>)
+		else if constexpr (std::is_same_v<const char*, T>)
 			return 22;
+		else if constexpr (std::is_same_v<char*, T>)
+			return 23;
+		else if constexpr (std::is_same_v<std::string_view, T>)
+			return 24;
 		else {
 			return 0;
 		}
@@ -145,7 +149,7 @@ namespace seq
 		if constexpr (v != 0)
 			return v;
 		else {
-			static constexpr int last_id = 22;
+			static constexpr int last_id = 24;
 			static int id = detail::build_type_id<last_id + 1>();
 			return id;
 		}
@@ -159,7 +163,7 @@ namespace seq
 	/// @brief Returns true if given type id corresponds to an unsigned integral type
 	SEQ_ALWAYS_INLINE auto is_unsigned_integral_type(int id) noexcept -> bool
 	{
-		return id >= get_type_id<unsigned char>() && id <= get_type_id<unsigned long long>();
+		return id >= get_type_id<bool>() && id <= get_type_id<unsigned long long>();
 	}
 	/// @brief Returns true if given type id corresponds to an integral type
 	SEQ_ALWAYS_INLINE auto is_integral_type(int id) noexcept -> bool
@@ -274,6 +278,10 @@ namespace seq
 						return static_cast<T>(*static_cast<const char16_t*>(in));
 					case get_base_type_id<char32_t>():
 						return static_cast<T>(*static_cast<const char32_t*>(in));
+					case get_base_type_id<wchar_t>():
+						return static_cast<T>(*static_cast<const wchar_t*>(in));
+					case get_base_type_id<bool>():
+						return static_cast<T>(*static_cast<const bool*>(in));
 					case get_base_type_id<short>():
 						return static_cast<T>(*static_cast<const short*>(in));
 					case get_base_type_id<unsigned short>():
@@ -336,6 +344,10 @@ namespace seq
 						return fmt(*static_cast<const char16_t*>(in)).append(res);
 					case get_base_type_id<char32_t>():
 						return fmt(*static_cast<const char32_t*>(in)).append(res);
+					case get_base_type_id<wchar_t>():
+						return fmt(static_cast<long long>(*static_cast<const wchar_t*>(in))).append(res);
+					case get_base_type_id<bool>():
+						return fmt(static_cast<int>(*static_cast<const bool*>(in))).append(res);
 					case get_base_type_id<short>():
 						return fmt(*static_cast<const short*>(in)).append(res);
 					case get_base_type_id<unsigned short>():
-- 
2.43.0


From 68f2ded5bc352be28359098ba61cf415c44a1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 54/90] fix: any objects holding equal arithmetic values of
 different types had different hashes

---
 seq/any.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index d0c9a9f..58ed3d8 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -214,6 +214,22 @@ namespace seq
 
 		/// @brief Hash value only if is_hashable<T>::value is true,
 		/// otherwise throw bad_any_function_call
+		// Hash a floating point value: arithmetic values of different types that compare equal must have the same hash
+		template<class T>
+		auto hash_floating_point(T v) noexcept -> size_t
+		{
+			if (v >= static_cast<T>(-9223372036854775808.) && v < static_cast<T>(0)) {
+				const long long i = static_cast<long long>(v);
+				SEQ_COMPARE_FLOAT(if (static_cast<T>(i) == v) return hasher<long long>{}(i);)
+			}
+			else if (v >= static_cast<T>(0) && v < static_cast<T>(18446744073709551616.)) {
+				const unsigned long long i = static_cast<unsigned long long>(v);
+				SEQ_COMPARE_FLOAT(if (static_cast<T>(i) == v) return hasher<unsigned long long>{}(i);)
+			}
+			SEQ_COMPARE_FLOAT(if (static_cast<T>(static_cast<double>(v)) == v) return hasher<double>{}(static_cast<double>(v));)
+			return hasher<T>{}(v);
+		}
+
 		template<class T>
 		auto hash_for_val(const void* in) -> size_t
 		{
@@ -228,6 +244,8 @@ namespace seq
 					using char_type = typename T::value_type;
 					return hasher<basic_tstring_view<char_type>>{}(*static_cast<const T*>(in));
 				}
+				else if constexpr (std::is_floating_point_v<T>)
+					return hash_floating_point(*static_cast<const T*>(in));
 				else
 					return hasher<T>{}(*static_cast<const T*>(in));
 			}
-- 
2.43.0


From 607cca2d66a6dd94d9dece041a956cd33996c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 55/90] fix: hold_any::cast() to bool, wchar_t, char16_t or
 char32_t did not compile

---
 seq/any.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 58ed3d8..f6a2eb2 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -333,7 +333,14 @@ namespace seq
 		template<class T, class String>
 		T arithmetic_from_string(const String& in)
 		{
-			if constexpr (std::is_arithmetic_v<T>) {
+			if constexpr (std::is_same_v<T, bool> || std::is_same_v<T, wchar_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t>) {
+				// no from_chars() overload for these types
+				const long long res = arithmetic_from_string<long long>(in);
+				if (static_cast<long long>(static_cast<T>(res)) != res)
+					throw std::bad_cast();
+				return static_cast<T>(res);
+			}
+			else if constexpr (std::is_arithmetic_v<T>) {
 				T res;
 				if (from_chars(string_data(in), string_data(in) + string_size(in), res).ec != std::errc())
 					throw std::bad_cast();
-- 
2.43.0


From 7daa65d72d120d946daa39af18aaae6b9e23d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 56/90] fix: hold_any::emplace tests for a separate storage at
 compile time when the constructor throws

---
 seq/any.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index f6a2eb2..c3ae707 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1693,8 +1693,9 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+					if constexpr (detail::need_separate_storage<type, sizeof(this->d_storage), Relocatable>::value)
+						if (d)
+							SEQ_ANY_FREE(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-- 
2.43.0


From 506253af87387b8241cc1e2182e851bf03f90155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 57/90] fix: ordered_set/ordered_map swap exchanged the hash
 function and key equality twice, leaving them unswapped

---
 seq/ordered_map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..0a5bdec 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -544,7 +544,6 @@ namespace seq
 					std::swap(d_max_dist, other.d_max_dist);
 					std::swap(d_load_factor, other.d_load_factor);
 					d_seq.swap(other.d_seq);
-					base_type::swap(other);
 				}
 			}
 
-- 
2.43.0


From 308e332212efe414ff7865842a32b4f56a31089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 58/90] fix: ordered_set/ordered_map rehash() of a modified
 sequence wrote past the last bucket

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 0a5bdec..01f0770 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -429,7 +429,7 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-- 
2.43.0


From 9e5b9cd101cfb78128e5ee2cbc451fc3e7d5f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 59/90] fix: ordered_set/ordered_map rehash() to less buckets
 than elements never returned, and left single element tables without empty
 bucket

---
 seq/ordered_map.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 01f0770..9154081 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -578,10 +578,14 @@ namespace seq
 
 				const bool null_size = (size == 0);
 
-				if (null_size)
-					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
-				if (size == 0)
+				if (null_size && this->size() == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
+				// The table must hold all elements and at least one empty bucket
+				const size_t min_size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor)) + 1U;
+				if (size < min_size)
+					size = min_size;
+				if (size < 2)
+					size = 2;
 				size_t new_hash_mask;
 				size_t new_hash_len;
 				if ((size & (size - 1ULL)) == 0ULL)
-- 
2.43.0


From 08633fb2baa8c7d262b4f557777e3ef0d8d23883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 60/90] fix: ordered_set/ordered_map copy assignment kept the
 buckets of the previous elements and the previous hash function

---
 seq/ordered_map.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 9154081..16e318f 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1165,11 +1165,14 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
+				// In case of exception, the buckets do not match the sequence anymore
+				this->mark_dirty();
+				static_cast<typename base_type::base_type&>(*this) = other;
 				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
+				if (!other.dirty())
+					this->d_max_dist = 1;
 				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::rehash(0, true);
 			}
 			return *this;
 		}
@@ -1631,11 +1634,14 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
+				// In case of exception, the buckets do not match the sequence anymore
+				this->mark_dirty();
+				static_cast<typename base_type::base_type&>(*this) = other;
 				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
+				if (!other.dirty())
+					this->d_max_dist = 1;
 				max_load_factor(other.max_load_factor());
-				rehash();
+				base_type::rehash(0, true);
 			}
 			return *this;
 		}
-- 
2.43.0


From 19fef2266d497694d4a14d8b9d752abbd9716feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 61/90] fix: ordered_set/ordered_map copy constructor always
 builds the hash table

---
 seq/ordered_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 16e318f..bbe7f0e 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1120,7 +1120,7 @@ namespace seq
 			if (other.dirty())
 				base_type::mark_dirty();
 			max_load_factor(other.max_load_factor());
-			rehash();
+			base_type::rehash(0, true);
 		}
 		/// @brief Copy constructor
 		/// @param other another container to be used as source to initialize the elements of the container with
@@ -1604,7 +1604,7 @@ namespace seq
 			if (other.dirty())
 				base_type::mark_dirty();
 			max_load_factor(other.max_load_factor());
-			rehash();
+			base_type::rehash(0, true);
 		}
 		ordered_map(const ordered_map& other)
 		  : ordered_map(other, copy_allocator(other.get_allocator()))
-- 
2.43.0


From db7ab7da87e65003db69f1011f118042e0d6c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 62/90] fix: ordered_set/ordered_map inserted a present key
 again after an erasure in a table with many collisions

---
 seq/ordered_map.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index bbe7f0e..d6b5a50 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -685,13 +685,21 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
-				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
+				// Pure linear hashing: look for the key in the full probe chain, tombstones included,
+				// and insert it in the first tombstone or empty bucket.
+				size_t tombstone = static_cast<size_t>(-1);
+				for (size_t count = 0; count < bucket_size() && d_buckets[index].distance() != -1; ++count) {
+					if (d_buckets[index].is_tombstone()) {
+						if (tombstone == static_cast<size_t>(-1))
+							tombstone = index;
+					}
+					else if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
 						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
+				if (tombstone != static_cast<size_t>(-1))
+					index = tombstone;
 
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
 				d_buckets[index] = node_type(h, index == mask_hash(hash, d_hash_mask, d_hash_len) ? 0 : node_type::max_distance, tmp_it.as_uint());
-- 
2.43.0


From e5754b68e1542f9da29052e50030962db9a3399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 63/90] fix: ordered_set/ordered_map lookups never returned
 when erasures left no empty bucket in a table with many collisions

---
 seq/ordered_map.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index d6b5a50..71824b0 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -657,6 +657,9 @@ namespace seq
 				if SEQ_UNLIKELY(!robin_hood)
 					check_hash_operation();
 
+				// Without empty bucket (linear situation), stop after a full turn.
+				size_t count = 0;
+
 				while (!(dist > it->distance())) {
 					// Check for equality (first the hash part and then the key itself).
 					if (h == it->hash() && (*this)(extract_key::key(sequence_node_value(*it)), key))
@@ -664,6 +667,8 @@ namespace seq
 					it = it == end ? d_buckets : it + 1;
 					if SEQ_LIKELY(robin_hood)
 						++dist;
+					else if SEQ_UNLIKELY(++count > d_hash_mask)
+						break;
 				}
 				// Failed lookup
 				return d_seq.end();
-- 
2.43.0


From 40f948514fcbefc7749d3076f5f729ffde7fdf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 64/90] fix: ordered_map::insert(hint, P&&) did not compile

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 71824b0..293397c 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1770,7 +1770,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
-- 
2.43.0


From 7e207f11fc4f39f155d1c2f278b538ad22f5de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 65/90] fix: radix_hash_set/radix_hash_map hash_function() did
 not compile

---
 seq/radix_hash_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..b496382 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -248,7 +248,7 @@ namespace seq
 		/// @brief Returns the container allocator object
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return d_tree.get_allocator(); }
 		/// @brief Returns the hash function
-		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return d_tree.hash_function(); }
+		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return static_cast<const hasher&>(d_tree); }
 		/// @brief Returns the equality comparison function
 		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return key_equal{}; }
 
@@ -696,7 +696,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto get_allocator() noexcept -> allocator_type& { return this->d_tree.get_allocator(); }
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return this->d_tree.get_allocator(); }
 
-		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return this->d_tree.hash_function(); }
+		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return static_cast<const hasher&>(this->d_tree); }
 		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return KeyEqual{}; }
 
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return this->d_tree.end(); }
-- 
2.43.0


From b3735d7b413e56890bcd879b00a08a166edfb9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 66/90] fix: radix_hash_set/radix_hash_map swap and move
 assignment left the hash functions in place

---
 seq/internal/radix_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index af0f7b5..387cfb0 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2039,6 +2039,8 @@ namespace seq
 			{
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
+				if constexpr (std::is_move_constructible_v<Hash> && std::is_move_assignable_v<Hash>)
+					std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
 				if (swap_alloc)
 					swap_allocator<Allocator>(*this, other);
 			}
-- 
2.43.0


From 7564dabf2180943ef980f6ec4fbd863ad711f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 67/90] fix: radix_hash_set/radix_hash_map copy assignment kept
 the previous hash function

---
 seq/internal/radix_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 387cfb0..f931af1 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1973,6 +1973,8 @@ namespace seq
 				if (std::addressof(other) != this) {
 					clear();
 					assign_allocator<Allocator>(*this, other);
+					if constexpr (std::is_copy_assignable_v<Hash>)
+						static_cast<Hash&>(*this) = other;
 					insert(other.begin(), other.end(), false);
 				}
 				return *this;
-- 
2.43.0


From 98e624f2edf121cca2c7b6bd5734fa73fbf114f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 68/90] fix: radix_hash_map operator== depended on the
 insertion order of keys with close hash values

---
 seq/radix_hash_map.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index b496382..b33eb2f 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -876,16 +876,15 @@ namespace seq
 		}
 	};
 
-	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
+	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 having the same key.
 	template<class Key, class T, class Hash, class Equal, class L1, class L2, class Al1, class Al2>
 	auto operator==(const radix_hash_map<Key, T, Hash, Equal, Al1, L1>& s1, const radix_hash_map<Key, T, Hash, Equal, Al2, L2>& s2) -> bool
 	{
-		using value_type_extract = typename radix_hash_map<Key, T, Hash, Equal, Al1, L1>::value_type_extract;
 		if (s1.size() != s2.size())
 			return false;
-		auto it1 = s1.begin();
-		for (auto it2 = s2.begin(); it2 != s2.end(); ++it2, ++it1) {
-			if (value_type_extract{}(*it1) != value_type_extract{}(*it2) || it1->second != it2->second)
+		for (auto it1 = s1.begin(); it1 != s1.end(); ++it1) {
+			auto it2 = s2.find(it1->first);
+			if (it2 == s2.end() || !(it1->second == it2->second))
 				return false;
 		}
 		return true;
-- 
2.43.0


From 2cdb09e9bf33d744573db4c0dd5f777ec0206a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 69/90] fix: erasing the last element of a radix tree vector
 node leaked the node

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index f931af1..4614a9b 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3056,7 +3056,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From 9bbd778eadcaadd98e112f74c36772fe17ea35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 70/90] fix: concurrent_set/concurrent_map visit_all() did not
 stop when the functor returns false

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..20dbb1c 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -487,7 +487,7 @@ namespace seq
 			bool for_each_until(ConcurrentValueNode<T>* n, F&& f) noexcept(noexcept(std::forward<F>(f)(std::declval<std::uint8_t*>(), 0, std::declval<T&>())))
 			{
 				return static_cast<const ConcurrentHashNode*>(this)->for_each_until(
-				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
+				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { return std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
 			}
 		};
 
-- 
2.43.0


From 71c818990dcbb06a036e5324c59ef965cbaa21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 71/90] fix: concurrent_set/concurrent_map const visit_all()
 did not stop when the functor returns false

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 20dbb1c..4d496b7 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1750,7 +1750,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all([&fun](const Value& v) { return std::forward<F>(fun)(v); }))
 						return false;
 				return true;
 			}
-- 
2.43.0


From a14eca2cb17d9da580be6effe9f7c89c1e0321c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 72/90] fix: concurrent_set/concurrent_map const visit took a
 shared lock exclusively and never released it

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 4d496b7..0c08f9a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -745,7 +745,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From 374de6348d17b104d2c1f1a208c8e0e799311362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 73/90] fix: erase_if(concurrent_set/concurrent_map, predicate)
 did not return the number of erased elements

---
 seq/concurrent_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 253e0ee..8ccdd34 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -424,7 +424,7 @@ namespace seq
 	template<class Key, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_set<Key, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_set<Key, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 	template<class Key, class T, class Hash = hasher<Key>, class Equal = std::equal_to<>, class Allocator = std::allocator<std::pair<Key, T>>, unsigned Shards = seq::medium_concurrency>
@@ -919,7 +919,7 @@ namespace seq
 	template<class Key, class T, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_map<Key, T, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_map<Key, T, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 }
-- 
2.43.0


From 39bbe04a143d4b5531ee2282700bb388e0dbb40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 74/90] fix: concurrent_set/concurrent_map copy assignment kept
 the previous hash function and key equality

---
 seq/internal/concurrent_hash_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 0c08f9a..760af4c 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1721,6 +1721,9 @@ namespace seq
 
 						assign_allocator<Alloc>(*this, other.get_allocator());
 						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
+					// The table is empty: use the hash function and key equality of other
+					static_cast<base_hash_equal&>(*this) = other;
+					static_cast<base_hash_equal&>(*get_data_no_lock()) = other;
 					}
 					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
 				}
-- 
2.43.0


From d59dceac40633d44788ef6949afb8c690bf5aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 75/90] fix: comparing or merging a
 concurrent_set/concurrent_map with itself never returned

---
 seq/internal/concurrent_hash_table.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 760af4c..3f27924 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1978,6 +1978,9 @@ namespace seq
 
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
+				if (this == std::addressof(other))
+					return 0;
+
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -1999,6 +2002,9 @@ namespace seq
 			template<class ExecPolicy>
 			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
 			{
+				if (this == std::addressof(other))
+					return 0;
+
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2022,6 +2028,9 @@ namespace seq
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				if (this == std::addressof(other))
+					return true;
+
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
-- 
2.43.0


From 0087e782aa01af919767697c26c771eebb6bcca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 76/90] fix: concurrent_set/concurrent_map merge with different
 hash functions inserted elements in the wrong shard

---
 seq/internal/concurrent_hash_table.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 3f27924..2e3825e 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1471,12 +1471,14 @@ namespace seq
 				return visit_all([&](const auto& v) { return other.contains_value(v); });
 			}
 
-			/// @brief insert all entries from other not found in this, and remove them from other
-			size_t merge(ChainingHashTable& other)
+			/// @brief insert all entries from other not found in data's tables, and remove them from other.
+			/// The table receiving an entry depends on data's hash function.
+			template<class Index>
+			static size_t merge(PrivateData& data, Index&& index_from_hash, ChainingHashTable& other)
 			{
 				return other.erase_if([&](auto& v) {
-					size_t hash = hash_key(extract_key::key(v));
-					return this->emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
+					size_t hash = data.hash_key(extract_key::key(v));
+					return data.at(index_from_hash(hash)).template emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
 				});
 			}
 		};
@@ -1995,7 +1997,7 @@ namespace seq
 
 				size_t res = 0;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					res += d1->at(i).merge(d2->at(i));
+					res += hash_map::merge(*d1, [this](size_t hash) { return index_from_hash(hash); }, d2->at(i));
 				return res;
 			}
 
@@ -2021,7 +2023,7 @@ namespace seq
 				std::atomic<size_t> res = 0;
 				std::for_each(std::forward<ExecPolicy>(p), d1->maps, d1->maps + PrivateData::map_count, [&](const auto& m) {
 					unsigned index = static_cast<unsigned>(&m - d1->maps);
-					res += d1->at(index).merge(d2->at(index));
+					res += hash_map::merge(*d1, [this](size_t hash) { return index_from_hash(hash); }, d2->at(index));
 				});
 				return res;
 			}
-- 
2.43.0


From 00a44a77f4e523560cc2bf6e9defb622eed42558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 77/90] fix: concurrent_set/concurrent_map comparison with
 different hash functions looked for elements in the wrong shard

---
 seq/internal/concurrent_hash_table.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 2e3825e..6c89053 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1113,10 +1113,9 @@ namespace seq
 				}
 			}
 
-			bool contains_value(const Value& key_value) const
+			bool contains_value(size_t hash, const Value& key_value) const
 			{
 				// Returns true if given value (key AND value) exists in this table
-				size_t hash = hash_key(extract_key::key(key_value));
 				bool ret = false;
 				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
 				return ret;
@@ -1463,12 +1462,14 @@ namespace seq
 			}
 
 			/// @brief Returns true if two ChainingHashTable are equals
-			bool equal_to(const ChainingHashTable& other) const
+			/// The table containing an entry depends on other's hash function.
+			template<class Index>
+			bool equal_to(const PrivateData& other, Index&& index_from_hash) const
 			{
-				if (d_size != other.size())
-					return false;
-
-				return visit_all([&](const auto& v) { return other.contains_value(v); });
+				return visit_all([&](const auto& v) {
+					size_t hash = other.hash_key(extract_key::key(v));
+					return other.at(index_from_hash(hash)).contains_value(hash, v);
+				});
 			}
 
 			/// @brief insert all entries from other not found in data's tables, and remove them from other.
@@ -2048,8 +2049,10 @@ namespace seq
 				if (!d2)
 					return size() == 0;
 
+				if (size() != other.size())
+					return false;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i) {
-					if (!(d1->at(i).equal_to(d2->at(i))))
+					if (!(d1->at(i).equal_to(*d2, [this](size_t hash) { return index_from_hash(hash); })))
 						return false;
 				}
 				return true;
-- 
2.43.0


From 36d2f60e10e61b71992147fac9095b2b6d0f3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 78/90] fix: concurrent_map comparison used the mapped values
 through a reference to the key type (dangling, or not compiling)

---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..18b9f44 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From a7bce038dab44736f2572e7599b6b81523b06c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 79/90] fix: from_chars accepted a sign followed by no digit as
 0 in base 10

---
 seq/charconv.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..c0faafd 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -515,12 +515,9 @@ namespace seq
 				sign = -1;
 				first = (int)str.getc();
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<T>(first - '0');
-				first = (int)str.getc();
-			}
 
 			while (is_digit(first)) {
 				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
-- 
2.43.0


From 739d130969aa4dd5cee438e559fb73c55e02a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 80/90] fix: from_chars with a base other than 10 mishandled a
 single digit and a '0x' without digits

---
 seq/charconv.hpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index c0faafd..609cc4c 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -586,30 +586,21 @@ namespace seq
 
 				// read second one
 				first = (int)str.getc();
-				if (base == 16 && to_upper(first) == 'X') {
+				if (base == 16 && x == 0 && (first == 'x' || first == 'X')) {
 					// hexadecimal starting with '0x' or '0X'
-					if (x != 0) {
-						// X after non 0 digit, return
-						str.back();
-						return sign_value(x, sign); // sign == -1 ? -x : x;
-					}
+					typename Stream::streamsize prefix = str.tell();
 					first = (int)str.getc();
 					val = to_digit_hex(first);
-					if SEQ_UNLIKELY (val >= base)
-						// next char after '0x' is not a valid hex digit
-						goto error;
+					if SEQ_UNLIKELY (val >= base) {
+						// next char after '0x' is not a valid hex digit: just read '0'
+						str.reset();
+						str.seek(prefix);
+						str.back();
+						return x;
+					}
 				}
 				else
 					val = to_digit_hex(first);
-
-				if SEQ_UNLIKELY (val >= base) {
-					// invalid char
-					str.back();
-					return sign_value(x, sign); // sign == -1 ? -x : x;
-				}
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
-				first = (int)str.getc();
-				val = to_digit_hex(first);
 			}
 
 			while (val < base) {
-- 
2.43.0


From 7f9af622a4dbf7b780dcdb4004014469cfde001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 81/90] fix: from_chars silently wrapped integers that do not
 fit and modified the value on error

---
 seq/charconv.hpp | 110 ++++++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 45 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 609cc4c..3d31905 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -482,15 +482,37 @@ namespace seq
 			return static_cast<long double>(get_pow_double(exp));
 		}
 
+		// Append a digit to an unsigned integral value.
+		// Returns true if the result cannot be represented.
+		static SEQ_ALWAYS_INLINE auto append_digit(std::uint64_t& x, unsigned base, unsigned digit, std::uint64_t max_div_base) noexcept -> bool
+		{
+			bool overflow = x > max_div_base;
+			x = x * base + digit;
+			return overflow || x < digit;
+		}
+
+		// Convert parsed absolute value to given integral type.
+		// Set overflow to true if the result cannot be represented.
+		template<class T>
+		static SEQ_ALWAYS_INLINE auto make_integral(std::uint64_t x, int sign, bool& overflow) noexcept -> T
+		{
+			const std::uint64_t max_value = static_cast<std::uint64_t>((std::numeric_limits<T>::max)()) + (sign == -1 ? 1u : 0u);
+			if (overflow || x > max_value) {
+				overflow = true;
+				return 0;
+			}
+			return static_cast<T>(sign == -1 ? 0 - x : x);
+		}
+
 		template<class T, class Stream>
-		auto read_integral_base_10(Stream& str) -> T
+		auto read_integral_base_10(Stream& str, bool& overflow) -> T
 		{
 			// Fast decimal integral reading
 
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			std::uint64_t x = 0;
 			int sign = 1;
 
 			// get first character
@@ -520,7 +542,8 @@ namespace seq
 				goto error;
 
 			while (is_digit(first)) {
-				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
+				if SEQ_UNLIKELY (append_digit(x, 10, digit_value(first), (std::numeric_limits<std::uint64_t>::max)() / 10))
+					overflow = true;
 				first = (int)str.getc();
 			}
 			if (first != EOF)
@@ -528,7 +551,7 @@ namespace seq
 
 			str.reset();
 
-			return sign_value(x, sign);
+			return make_integral<T>(x, sign, overflow);
 
 		error:
 			if (str)
@@ -538,21 +561,22 @@ namespace seq
 		}
 
 		template<class T, class Stream>
-		auto read_integral(Stream& str, unsigned base) -> T
+		auto read_integral(Stream& str, unsigned base, bool& overflow) -> T
 		{
 			// Generic integral reading
 
 			if (base == 10)
 				// faster version for base 10
-				return read_integral_base_10<T>(str);
+				return read_integral_base_10<T>(str, overflow);
 
 			SEQ_ASSERT_DEBUG(base <= 36, "invalid 'base' value");
 
 			str.reset();
 
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			std::uint64_t x = 0;
 			int sign = 1;
+			const std::uint64_t max_div_base = (std::numeric_limits<std::uint64_t>::max)() / base;
 			unsigned val;
 			// get frist character
 			int first = (int)str.getc();
@@ -582,7 +606,7 @@ namespace seq
 				val = to_digit_hex(first);
 				if SEQ_UNLIKELY (val >= base)
 					goto error;
-				x = static_cast<T>(val);
+				x = val;
 
 				// read second one
 				first = (int)str.getc();
@@ -596,7 +620,7 @@ namespace seq
 						str.reset();
 						str.seek(prefix);
 						str.back();
-						return x;
+						return 0;
 					}
 				}
 				else
@@ -604,7 +628,8 @@ namespace seq
 			}
 
 			while (val < base) {
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				if SEQ_UNLIKELY (append_digit(x, base, val, max_div_base))
+					overflow = true;
 				first = (int)str.getc();
 				val = to_digit_hex(first);
 			}
@@ -612,7 +637,7 @@ namespace seq
 				str.back();
 
 			str.reset();
-			return sign_value(x, sign); // sign == -1 ? -x : x;
+			return make_integral<T>(x, sign, overflow);
 
 		error:
 			if (str)
@@ -1917,6 +1942,20 @@ namespace seq
 			}
 		};
 
+		template<class Char, class T>
+		auto from_chars_integral(const Char* first, const Char* last, T& value, unsigned base) -> from_chars_result<Char>
+		{
+			from_chars_stream<Char> str(first, last);
+			bool overflow = false;
+			const T res = read_integral<T>(str, base, overflow);
+			if SEQ_UNLIKELY (!str)
+				return { first, str.error() };
+			if SEQ_UNLIKELY (overflow)
+				return { str.tell(), std::errc::result_out_of_range };
+			value = res;
+			return { str.tell(), std::errc() };
+		}
+
 	} // end namespace detail
 
 	/// @brief Input stream working on a sequence of characters.
@@ -2428,7 +2467,10 @@ namespace seq
 	template<class Stream, class T>
 	inline auto from_stream(Stream& str, T& value, int base = 10) -> Stream&
 	{
-		value = detail::read_integral<T>(str, base);
+		bool overflow = false;
+		value = detail::read_integral<T>(str, static_cast<unsigned>(base), overflow);
+		if SEQ_UNLIKELY (overflow)
+			str.set_state(BadInputFormat);
 		return str;
 	}
 
@@ -2636,79 +2678,57 @@ namespace seq
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, char& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<char>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, signed char& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<signed char>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, unsigned char& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<unsigned char>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, short& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<short>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, unsigned short& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<unsigned short>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, int& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<int>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, unsigned int& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<unsigned int>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, long& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<long>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, unsigned long& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<unsigned long>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, long long& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<long long>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 	template<class Char>
 	auto from_chars(const Char* first, const Char* last, unsigned long long& value, int base = 10) -> from_chars_result<Char>
 	{
-		detail::from_chars_stream<Char> str(first, last);
-		value = detail::read_integral<unsigned long long>(str, static_cast<unsigned>(base));
-		return { str ? str.tell() : first, str.error() };
+		return detail::from_chars_integral(first, last, value, static_cast<unsigned>(base));
 	}
 
 	/// @brief Read a floating point value from the sequence of characters [first,last).
-- 
2.43.0


From 1ca06d2fdee5688a5736c11b85254fef2bca4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 82/90] fix: from_chars mistook a 0xFF character for the end of
 the input and reported one character too many

---
 seq/charconv.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 3d31905..d930add 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1932,13 +1932,15 @@ namespace seq
 			SEQ_ALWAYS_INLINE void seek(const Char* pos) noexcept { d_start = pos; }
 			/// @brief Extract a single character from the stream and put the read position to the next character
 			/// @return extracted character or EOF
-			SEQ_ALWAYS_INLINE auto getc() noexcept -> Char
+			SEQ_ALWAYS_INLINE auto getc() noexcept -> int
 			{
 				if SEQ_LIKELY (d_start != d_end) {
-					return *d_start++;
+					// do not confuse a character (like a signed char 0xFF) with EOF
+					const int c = static_cast<int>(*d_start++);
+					return c == EOF ? 0xFF : c;
 				}
 				d_state = std::errc::invalid_argument;
-				return (Char)EOF;
+				return EOF;
 			}
 		};
 
-- 
2.43.0


From 72e21064feb32e47a2e3ae2911454118ea15359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 83/90] fix: from_chars truncated wide characters to char and
 read some of them as digits or inf/nan

---
 seq/charconv.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index d930add..38cd4d4 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -406,10 +406,10 @@ namespace seq
 		{
 			return c == '\n' || c == '\r';
 		}
-		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> char
+		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> int
 		{
 			static constexpr char offset = 'a' - 'A';
-			return static_cast<char>(c >= 'a' ? c - offset : c);
+			return (c >= 'a' && c <= 'z') ? c - offset : c;
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
@@ -712,8 +712,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			char a = to_upper((int)str.getc());
-			char n = to_upper((int)str.getc());
+			int a = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -726,8 +726,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			char n = to_upper((int)str.getc());
-			char f = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
+			int f = to_upper((int)str.getc());
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
-- 
2.43.0


From 64d8a8978493d6571fc24a4a1d91bbd829baf0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 84/90] fix: to_chars wrote outside its internal buffer for
 large minimum widths

---
 seq/charconv.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 38cd4d4..0045575 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1148,8 +1148,10 @@ namespace seq
 				}
 				const char* chars = fmt.upper_case ? upper_chars : lower_chars;
 				int min_width = static_cast<int>(fmt.integral_min_width);
-				char tmp[66];
-				int index = 65;
+				// 255 characters at most for integral_min_width, '0x' prefix, sign and null character
+				static constexpr int max_size = (std::numeric_limits<unsigned char>::max)() + 3;
+				char tmp[max_size + 1];
+				int index = max_size;
 				tmp[index] = 0;
 				unsigned neg = 0;
 
@@ -1171,7 +1173,7 @@ namespace seq
 					val = _new;
 				}
 				if (min_width >= 0) {
-					int count = 65 - index;
+					int count = max_size - index;
 					while (min_width-- > count && index > 0) {
 						tmp[--index] = '0';
 					}
-- 
2.43.0


From 7ea7a6ac7dd6e9c1b70e7ed73fe3fc3e2a2dfa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 85/90] fix: spinlock::try_lock_until compared the time point
 of any clock with the system clock

---
 seq/lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/lock.hpp b/seq/lock.hpp
index 7a9cfb4..abf32b6 100644
--- a/seq/lock.hpp
+++ b/seq/lock.hpp
@@ -94,7 +94,7 @@ namespace seq
 					return true;
 
 				while (d_lock.load(std::memory_order_relaxed)) {
-					if (std::chrono::system_clock::now() > timePoint)
+					if (Clock::now() > timePoint)
 						return false;
 					std::this_thread::yield();
 				}
-- 
2.43.0


From 1d920424b2d7dea9c42f8d00dff72f32000c88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 86/90] fix: concurrent_map read its bucket array, hash mask
 and rehash target while another thread writes them in a rehash (data races)

---
 seq/internal/concurrent_hash_table.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 6c89053..b8138dc 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -666,19 +666,21 @@ namespace seq
 			using size_type = typename std::conditional<is_concurrent, std::atomic<size_t>, size_t>::type;
 			using chain_count_type = typename std::conditional<is_concurrent, std::atomic<unsigned>, unsigned>::type;
 			using lock_array_type = typename std::conditional<is_concurrent, std::atomic<lock_array*>, lock_array*>::type;
+			using bucket_array_type = typename std::conditional<is_concurrent, std::atomic<node_type*>, node_type*>::type;
+			using value_array_type = typename std::conditional<is_concurrent, std::atomic<value_node_type*>, value_node_type*>::type;
 
 			// Maximum hash mask, depends on the SharedLockArray max size.
 			// We can insert more elements than this value, but using chaining.
 			static constexpr size_t max_hash_mask = is_concurrent ? ((1u << 31u) - 1u) : std::numeric_limits<size_t>::max();
 
 		private:
-			node_type* d_buckets;	       // hash table
-			value_node_type* d_values;     // values
+			bucket_array_type d_buckets;   // hash table
+			value_array_type d_values;     // values
 			PrivateData* d_data;	       // pointer to upper PrivateData
 			lock_array_type d_locks;       // lock array
 			size_type d_size;	       // total size
-			size_t d_next_target;	       // next size before rehash
-			size_t d_hash_mask;	       // hash mask
+			size_type d_next_target;       // next size before rehash
+			size_type d_hash_mask;	       // hash mask
 			node_lock d_rehash_lock;       // unique lock for rehash
 			std::atomic<bool> d_in_rehash; // tells if we are in rehash
 			std::mutex d_rehash_mutex;
-- 
2.43.0


From ec9900db4aea4186bb2919b7f3e5d6171664b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 87/90] fix: concurrent_map read what other threads publish
 through pointers loaded without acquire ordering (data races)

---
 seq/internal/concurrent_hash_table.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index b8138dc..8b6d0c5 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -205,7 +205,7 @@ namespace seq
 			// Allocate/initialize the array for given index (between 0 and 31)
 			lock_type* make_array(size_t index)
 			{
-				lock_type* l = arrays[index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[index].load(std::memory_order_acquire);
 				if (l)
 					return l;
 				rebind_alloc<lock_type> al = *this;
@@ -233,7 +233,7 @@ namespace seq
 				}
 				auto operator*() const noexcept -> Lock&
 				{
-					lock_type* l = array->arrays[array_index].load(std::memory_order_relaxed);
+					lock_type* l = array->arrays[array_index].load(std::memory_order_acquire);
 					if SEQ_UNLIKELY (!l)
 						l = array->make_array(array_index);
 					return l[index];
@@ -269,7 +269,7 @@ namespace seq
 			{
 				size_t count = bit_scan_reverse_32(static_cast<unsigned>(size));
 				for (size_t i = 0; i <= count; ++i)
-					if (!arrays[i].load(std::memory_order_relaxed))
+					if (!arrays[i].load(std::memory_order_acquire))
 						at(i);
 			}
 			/// @brief Returns element at given position.
@@ -279,7 +279,7 @@ namespace seq
 			{
 				unsigned ar_index = bit_scan_reverse_32(static_cast<unsigned>(i + 1u));
 				unsigned in_array = static_cast<unsigned>(i) - ((1u << ar_index) - 1u);
-				lock_type* l = arrays[ar_index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[ar_index].load(std::memory_order_acquire);
 				if SEQ_UNLIKELY (!l)
 					l = const_cast<SharedLockArray*>(this)->make_array(ar_index);
 				return l[in_array];
@@ -305,11 +305,11 @@ namespace seq
 			return v;
 		}
 
-		/// @brief Relaxed atomic load
+		/// @brief Atomic load, synchronizes with the store of the loaded pointer
 		template<class T>
 		static SEQ_CONCURRENT_INLINE T AtomicLoad(const std::atomic<T>& v) noexcept
 		{
-			return v.load(std::memory_order_relaxed);
+			return v.load(std::memory_order_acquire);
 		}
 
 		/// @brief Movemask function of 8 bytes word
-- 
2.43.0


From 0af056e88e794e3b9c6a4036ca0f7f2d2df34067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 88/90] fix: concurrent_map rehash unlocked bucket locks it did
 not hold, after a clear or an allocation failure

---
 seq/internal/concurrent_hash_table.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 8b6d0c5..f94aff7 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -784,6 +784,7 @@ namespace seq
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
 				size_t i = 0;
+				size_t locked = 0; // number of locked positions
 
 				// Reset chain count
 				d_chain_count = 0;
@@ -794,14 +795,17 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// Note that the (empty) static node must be locked as well
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -832,7 +836,7 @@ namespace seq
 
 					if (is_concurrent && locks) {
 						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
+						for (size_t j = 0; j < locked; ++j)
 							locks->at(j).unlock();
 					}
 					throw;
@@ -852,8 +856,7 @@ namespace seq
 				if (is_concurrent && locks) {
 					// Unlock all nodes
 					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
-					for (i = 0; i < count; ++i, ++iter)
+					for (i = 0; i < locked; ++i, ++iter)
 						iter->unlock();
 				}
 
-- 
2.43.0


From a37fa9ed57f7b34df20cce08d7000963d4ae95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 89/90] fix: concurrent_map insertion concurrent with clear()
 waited forever or wrote in the shared empty bucket

---
 seq/internal/concurrent_hash_table.hpp | 38 ++++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index f94aff7..78d0301 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -955,20 +955,33 @@ namespace seq
 				}
 			}
 
+			// Allocate the first bucket, or let the thread already doing it proceed
+			SEQ_NOINLINE(void) make_first_bucket()
+			{
+				rehash_on_next_target(0);
+				if (d_buckets == get_static_node())
+					std::this_thread::yield();
+			}
+
 			template<bool WaitForBucket = true>
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
-				l = &d_rehash_lock;
-				l->lock();
-				if ((locks = AtomicLoad(d_locks))) {
+				for (;;) {
+					if (WaitForBucket)
+						while (d_buckets == get_static_node())
+							make_first_bucket();
+					l = &d_rehash_lock;
+					l->lock();
+					if ((locks = AtomicLoad(d_locks))) {
+						l->unlock();
+						return this->template get_node<WaitForBucket>(locks, hash, l);
+					}
+					if (!WaitForBucket || d_buckets != get_static_node())
+						return (hash & d_hash_mask);
+					// The table was cleared in-between
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
 				}
-				return (hash & d_hash_mask);
 			}
 			template<bool WaitForBucket = true>
 			SEQ_CONCURRENT_INLINE auto get_node(lock_array* locks, size_t hash, node_lock*& l) -> size_t
@@ -980,8 +993,15 @@ namespace seq
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock(*l);
-				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
+				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask) {
+					if (WaitForBucket && d_buckets == get_static_node()) {
+						// The table was cleared by another thread: do not keep the lock
+						l->unlock();
+						make_first_bucket();
+						this->lock(*l);
+					}
 					update_lock(locks, hash, hash_mask, pos, l);
+				}
 				return pos;
 			}
 
-- 
2.43.0


From 81ad92f3ed1c9367cc7e2d84ba487b55bb29975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 90/90] fix: concurrent_map visit_all gave several threads a
 mutable access to the same element in tables without bucket locks

---
 seq/internal/concurrent_hash_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 78d0301..f0faeb1 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1289,7 +1289,13 @@ namespace seq
 			bool visit_all(F&& fun)
 			{
 				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				// Without bucket locks, this is also what gives an exclusive access to the entries
+				LockShared<node_lock> shared_lock;
+				LockUnique<node_lock> unique_lock;
+				if (AtomicLoad(d_locks))
+					shared_lock.init(d_rehash_lock);
+				else
+					unique_lock.init(d_rehash_lock);
 				if (d_buckets == get_static_node())
 					return true;
 
-- 
2.43.0


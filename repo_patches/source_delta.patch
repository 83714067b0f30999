From e1267b6e9c002ff213b509553baa231cbea5c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 01/64] fix: copy assignment of any_quantity between different
 underlying types

---
 include/Conserved/Composite/cquantity.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..a8d46bb 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,8 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	any_quantity copy(other); // the underlying types can differ, and other can be moved from
+	swap(copy);
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From e16311411dee4f8f4841697e2977561aa242dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 02/64] fix: section queries check the section number against
 the dimension and raise

---
 sources/btensor.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..f1359e0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -56,19 +56,19 @@ auto promote_types(caffe2::TypeMeta a, caffe2::TypeMeta b)
 	return at::promote_types(at::typeMetaToScalarType(a), at::typeMetaToScalarType(b));
 }
 
-void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, size_t section_size)
+void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, const btensor::index_list &sections_by_dim)
 {
 	if (index >= rank)
 		throw std::invalid_argument(fmt::format("given index {} is too large for rank {}.", index, rank));
-	if (block >= section_size)
-		std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
-		                                  section_size, index, block));
+	if (block >= sections_by_dim[index])
+		throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+		                                        sections_by_dim[index], index, block));
 }
 
 size_t btensor::section_size(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 	assert(index < sections_by_dim.size());
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
@@ -78,13 +78,15 @@ size_t btensor::section_size(size_t index, size_t block) const
 any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return c_vals[ori + block];
 }
 any_quantity_cref btensor::element_conserved_qtt(size_t dim, size_t element) const
 {
+	if (dim >= rank)
+		throw std::invalid_argument(fmt::format("given dimension {} is too large for rank {}.", dim, rank));
 	auto dim_size = sizes()[dim];
 	if (element >= dim_size)
 		throw std::invalid_argument(fmt::format(
@@ -125,7 +127,7 @@ std::tuple<any_quantity_vector::iterator, any_quantity_vector::iterator> btensor
 std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, sections_by_dim);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return std::tuple<size_t, any_quantity_cref>(sections_sizes[ori + block], any_quantity_cref(c_vals[ori + block]));
-- 
2.43.0


From cae8387b07efc3e788f018efbbe736d49be10c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 03/64] fix: sizes() accumulates in 64 bits

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f1359e0..c06648f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -317,7 +317,7 @@ std::vector<int64_t> btensor::sizes() const
 	for (size_t i = 0; i < dim(); ++i)
 	{
 		auto [sections_beg, sections_end] = section_sizes(i);
-		out[i] = std::reduce(sections_beg, sections_end, 0);
+		out[i] = std::reduce(sections_beg, sections_end, int64_t(0));
 	}
 	return out;
 }
-- 
2.43.0


From bd64da12f42207deaac81d78eaed2ddc2b36a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 04/64] fix: block creation refuses indices of wrong length or
 outside the sections

---
 sources/btensor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c06648f..42ea0b5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -388,7 +388,14 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+	{
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(
+			    fmt::format("block index {} is outside of the sections {}", block_index, sections_by_dim));
+	}
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From 95abc66293a32d55050d371a26e77893fb47d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 05/64] fix: validity test checks the number of charges and
 does not read past the sections of invalid blocks

---
 sources/btensor.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 42ea0b5..eea3205 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -427,21 +427,35 @@ std::string btensor::check_tensor(const btensor &T)
 		M += fmt::format(
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
+	if (total_sections != T.c_vals.size())
+		M += fmt::format(
+		    "number of section accross all dimension ({}) incoherent with number of conserved quantities ({})\n",
+		    total_sections, T.c_vals.size());
+	if (M != "")
+		return M; // the sections of the blocks can't be looked up.
 
 	for (const auto &a : T.blocks_list)
 	{
 		auto &ind = std::get<0>(a);
 		if (ind.size() != T.rank)
+		{
 			M += fmt::format("block index {} invalid: number of index differ from rank", std::get<0>(a));
+			continue;
+		}
+		bool in_range = true;
+		for (auto i = 0U; i < ind.size(); ++i)
+			in_range = in_range and ind[i] >= 0 and ind[i] < T.sections_by_dim[i];
+		if (!in_range)
+		{
+			M += fmt::format("block index {} is outside of the sections of the tensor ({})\n", ind,
+			                 T.sections_by_dim);
+			continue;
+		}
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
 			for (auto i = 0U; i < ind.size(); ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
-					M += fmt::format(
-					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
-					    ind, i, T.sections_by_dim[i]);
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
-- 
2.43.0


From ca54bd5d3c230dcf8d8da909cead0c2b7fc6d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 06/64] fix: cyclic charge built from a multiple of minus its
 modulus is the neutral element

---
 include/Conserved/quantity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..f6a5667 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,13 +93,13 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val( (_val % N < 0) * N + (_val % N) )
 	{
 		/*
 		 * A quick explanation of the init line for val:
 		 * The modulo operation on signed integers preserve the sign of the value, and give the same absolute value for
 		 * both possible input sign. To get the correct (positive) value, the inverse of the absolute of the input, we
-		 * must first take the modulo of the negative number to bring it in range ]-N,N[. Then if it is negative, we add
+		 * must first take the modulo of the negative number to bring it in range ]-N,N[. Then if the result is negative, we add
 		 * N to bring it in the range [0,N[, and assign to the unsigned storage of this type. After this initial
 		 * assigment business, no modulo operation are ever needed.
 		 */
-- 
2.43.0


From 575ec84b45092bbbe01d6a3ade7de7d1c53a2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 07/64] fix: combination of cyclic charges does not wrap for
 moduli above 2^15

---
 include/Conserved/quantity.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index f6a5667..986b194 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,9 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		uint32_t sum = val; // the sum of two values can exceed the range of the storage type.
+		sum += cond * other.val;
+		val = sum - (sum >= N) * N;
 		return *this;
 	}
 
-- 
2.43.0


From e4294486d1fcfb2f4e0ea1e87e18b6ed225d0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 08/64] fix: a default constructed list of charges is an empty
 list

---
 include/Conserved/Composite/quantity_vector.h | 20 ++++++++++---------
 .../Composite/quantity_vector_impl.h          |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..91fd804 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,16 +42,16 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
 	 * @brief Construct a new any_quantity vector object from an initializer list of any_quantity
 	 * @param list all the any_quantity must have the same concrete type, or an exception will be raised
 	 */
-	any_quantity_vector(std::initializer_list<any_quantity> list) : ptr(list.begin()->get().make_vector(0))
+	any_quantity_vector(std::initializer_list<any_quantity> list) : ptr(list.size() ? list.begin()->get().make_vector(0) : nullptr)
 	{
-		ptr->reserve(list.end() - list.begin());
+		reserve(list.size());
 		for (const_reference a : list)
 		{
 			push_back(a);
@@ -76,7 +76,8 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		if (ptr and other.ptr) return *ptr == *(other.ptr);
+		return empty() and other.empty();
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -85,6 +86,7 @@ public:
 
 	reference operator[](size_t n)
 	{
+		if (not ptr) throw std::runtime_error( fmt::format("{} cannot be called with unitialized any_quantity_vector.",__func__ ) );
 		return any_quantity_ref((*ptr)[n]);
 	}
 	const_reference operator[](size_t n) const
@@ -137,23 +139,23 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
-		return ptr->max_size();
+		return ptr ? ptr->max_size() : 0;
 	}
 	void reserve(size_t n)
 	{
-		ptr->reserve(n);
+		if (ptr) ptr->reserve(n);
 	}
 	[[nodiscard]] size_t capacity() const
 	{
-		return ptr->capacity();
+		return ptr ? ptr->capacity() : 0;
 	}
 	void shrink_to_fit()
 	{
diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..9df03e2 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,7 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs) { return ar ? ar->ptr_diff(it, rhs.it) : 0; }
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From 9e7f8bbd22bf5dbe13e23126b02b1810fefa0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 09/64] fix: flat_map::lower_bound and upper_bound dereferenced
 the end iterator and lower_bound lost the position of absent keys

---
 include/blockTensor/flat_map.h | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..eb4a9c0 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -692,31 +692,19 @@ class flat_map
 	}
 	iterator lower_bound(const key_type &k)
 	{
-		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(begin(), end(), k, comp);
 	}
 	const_iterator lower_bound(const key_type &k) const
 	{
-		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(cbegin(), cend(), k, comp);
 	}
 	iterator upper_bound(const key_type &k)
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 	const_iterator upper_bound(const key_type &k) const
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 
 	key_compare key_comp() const { return comp.comp; }
-- 
2.43.0


From 7a2efc11696fc5ca5a3c6d267c62c07abece58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 10/64] fix: flat_map::erase of an absent key erased its
 successor

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index eb4a9c0..4c77b11 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -585,7 +585,7 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-- 
2.43.0


From 1dc49b4cbd926557a43678f4ee28f64fe3d57b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 11/64] fix: hinted insertion in flat_map could break the
 ordering of the keys

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 4c77b11..a688e38 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -745,7 +745,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From c180210ab4ce730e87e3eeb2c8110b1b83e13ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 12/64] fix: hinted emplace of a key already in the flat_map
 returned a null iterator

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index a688e38..6d5e2ee 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -520,6 +520,8 @@ class flat_map
 			it.it = content.emplace(hint.it, std::move(val));
 			success = true;
 		}
+		else
+			it = erase(hint, hint); // convert the const_iterator in an iterator
 		return std::make_pair(it, success);
 	}
 	template <class... Args>
-- 
2.43.0


From 0a654ade5094771e072b6331a495cd8e026af6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 13/64] fix: flat_map built from a sequence kept repeated keys

---
 include/blockTensor/flat_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 6d5e2ee..a4e4a67 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -148,8 +148,13 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
+	flat_map(const content_t &in) : flat_map(content_t(in)) {}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From 9050bbdf7ba0d2aed5fd3b52c30ebc4883942488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 14/64] fix: merging in a flat_map applied the no-collision
 operation to elements that were not inserted

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index a4e4a67..7e43e38 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -426,7 +426,7 @@ class flat_map
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
 		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		std::for_each(begin(), begin() + lastmfirst, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From 8cb7d1cd5208a6a65c86409644391ab2b2931bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 15/64] fix: merging an expiring flat_map applied the
 no-collision operation to the wrong map

---
 include/blockTensor/flat_map.h | 36 ++++++++++++++++------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 7e43e38..86a6778 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -620,34 +620,32 @@ class flat_map
 
 	template <class C2, class Collision>
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision)
-	{
-		merge(std::move(source), std::forward<Collision>(collision), [](auto &&) {});
-	}
-	template <class C2, class Collision, class NoCollision>
-	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
-	           NoCollision &&nocollision)
 	{
 		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
 		{
 			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
-			insert(
-			    source.begin(), source.end(),
-			    [collision](auto &a, auto &b) {
-				    // b is const in the context that call this lambda function.
-				    // But in this present context, we know it's actually a reference to a non-const value.
-				    // Casting away const in order to change a value should almost never be used.
-				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
-				    std::swap(a, c);
-				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
+			insert(source.begin(), source.end(), [collision](auto &a, auto &b) {
+				// b is const in the context that call this lambda function.
+				// But in this present context, we know it's actually a reference to a non-const value.
+				// Casting away const in order to change a value should almost never be used.
+				auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
+				std::swap(a, c);
+				collision(a, c);
+			});
 		}
 		else
 		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
+			insert(source.begin(), source.end(), std::forward<Collision>(collision));
 		}
 	}
+	template <class C2, class Collision, class NoCollision>
+	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
+	           NoCollision &&nocollision)
+	{
+		// nocollision concerns the elements of source only: they can't trade place with those of this.
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
+	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
 	{
-- 
2.43.0


From b5853a3fe77cf7912eb2451dcf0e7482b4e49a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 16/64] fix: insertion of an unsorted range in a flat_map could
 replace the elements already present

---
 include/blockTensor/flat_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 86a6778..b753282 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -728,15 +728,18 @@ class flat_map
 	 * @param last iterator to the element after the range to sort
 	 *
 	 */
-	void sort(iterator first, iterator last) { std::sort(first, last, comp); }
-	void sort() { std::sort(begin(), end(), comp); }
+	void sort(iterator first, iterator last) { std::stable_sort(first, last, comp); }
+	void sort() { std::stable_sort(begin(), end(), comp); }
 
   protected:
 	value_compare comp;
 
   private:
 	content_t content;
-	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::sort(first, last, comp); }
+	void sort(typename content_t::iterator first, typename content_t::iterator last)
+	{
+		std::stable_sort(first, last, comp);
+	}
 	// void remove_collisions(iterator first = begin(), iterator last = end())
 	// { //assume a sorted array
 	// 	auto beg = first while (first != last)
-- 
2.43.0


From 2bc0a27f6c0f86e0d92035f1a09c5b7b88c58d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 17/64] fix: construction of a flat_map from an empty range
 dereferenced the end of the range

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index b753282..42462c9 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -774,6 +774,8 @@ class flat_map
 	                                           Collision &&collision)
 	{ // no collision get applied to all elements, instead of just the new element inserted.
 		using std::swap;
+		if (first == last)
+			return last;
 		auto l = first;
 		auto second = std::upper_bound(first, last, *l, comp);
 		while (first != last)
-- 
2.43.0


From 2dc7a8da615fa238acdd2555b92d668abaaf3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 18/64] fix: tensorgdot computes the matrix sizes in 64 bits

---
 sources/tensorgdot.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..7394fb7 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -41,8 +41,8 @@ compute_shape(const torch::Tensor& add, torch::Tensor& t1, torch::Tensor& t2, co
 
 	for (size_t i = 0; i < dims1.size(); ++i)
 	{
-		int s1 = input1.size(dims1[i]);
-		int s2 = input2.size(dims2[i]);
+		int64_t s1 = input1.size(dims1[i]);
+		int64_t s2 = input2.size(dims2[i]);
 		if (s2 == 1)
 		{ // broadcasted dimensions can be summed right away
 			t1 = t1.sum(dims1[i], true);
@@ -166,11 +166,11 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 		*(rit++) = b; //assign b then increment iterator, this construct the output section size vector.
 		return a * b;
 	};
-	int size1 = std::accumulate(sizes1.begin(), sizes1.end() - dims, 1, prod); //cannot use reduce, operation must be done in order
-	int size2 = std::accumulate(sizes2.begin() + dims, sizes2.end(), 1, prod); //cannot use reduce, operation must be done in order
+	int64_t size1 = std::accumulate(sizes1.begin(), sizes1.end() - dims, int64_t(1), prod); //cannot use reduce, operation must be done in order
+	int64_t size2 = std::accumulate(sizes2.begin() + dims, sizes2.end(), int64_t(1), prod); //cannot use reduce, operation must be done in order
 	constexpr auto output_tensor_shape = "output tensor shape {} does not match the result of the contraction {}."; 
 	TORCH_CHECK(rsizes == output.sizes(), fmt::format(output_tensor_shape,fmt::join(output.sizes(),","),rsizes));
-	int csize = 1;
+	int64_t csize = 1;
 	{
 		auto it1 = sizes1.end() - dims;
 		auto it2 = sizes2.begin();
-- 
2.43.0


From 7f4ec7b543dbf3b46739fb11a82773d59016b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 19/64] fix: tensorgdot_ refuses a number of contracted
 dimensions that the operands do not have

---
 sources/tensorgdot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index 7394fb7..9db8ea9 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -160,6 +160,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	auto sizes1 = t1.sizes();
 	auto sizes2 = t2.sizes();
 	// auto [p1, p2, rsizes, size1, csize, size2] = compute_shape(output, t1, t2, input1, input2, dims1, dims2);
+	TORCH_CHECK(dims >= 0 and dims <= t1.dim() and dims <= t2.dim(),
+	            fmt::format("cannot contract {} dimensions of tensors with {} and {} dimensions", dims, t1.dim(), t2.dim()));
 	std::vector<int64_t> rsizes(t1.dim() + t2.dim() - 2 * dims);
 	auto rit = rsizes.begin();
 	auto prod = [&rit](auto&& a, auto&& b) {
-- 
2.43.0


From 191ec312732870416ba5f514824066edac0fea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 20/64] fix: tensorgdot_out refuses an output tensor of another
 shape than the result

---
 sources/tensorgdot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index 9db8ea9..dc6b386 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -107,6 +107,7 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	Tensor t1 = input1;
 	Tensor t2 = input2;
 	auto [p1, p2, rsizes, size1, csize, size2] = compute_shape(add_tens, t1, t2, input1, input2, dims1, dims2);
+	TORCH_CHECK(output.sizes() == add_tens.sizes(), "tensordot result incompatible with output tensor shape");
 	// permut and reshape for matrix multiplication
 	t1 = t1.permute(p1).reshape({size1, csize});
 	t2 = t2.permute(p2).reshape({csize, size2});
-- 
2.43.0


From 33960b0ff1ba98720d7712c70c3d4a59553bf808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 21/64] fix: in-place tensorgdot lost its result for outputs
 without a matrix view

---
 sources/tensorgdot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index dc6b386..1e6f86b 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -114,6 +114,8 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output))
+		output.copy_(rout.reshape(rsizes)); // the layout of output doesn't allow a matrix view of it.
 	return output;
 }
 
@@ -148,6 +150,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output))
+		output.copy_(rout.reshape(rsizes)); // the layout of output doesn't allow a matrix view of it.
 	return output;
 }
 
@@ -192,6 +196,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output))
+		output.copy_(rout.reshape(rsizes)); // the layout of output doesn't allow a matrix view of it.
 	return output;
 }
 
-- 
2.43.0


From 7fce1e24a41525f76e1b96cd7e4290cd017e7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 22/64] fix: reverse of a list of dimensions was padded with
 zeros

---
 sources/dimension_manip.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..d93ff7b 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,9 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
-	return out;
+	return std::vector<int64_t>(dims.rbegin(),dims.rend());
 }
 
 
-- 
2.43.0


From e0e72a5c232570fc1e88b813d9544e868e3346b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 23/64] fix: declare the tuple forms of truncate as they are
 defined

---
 include/LinearAlgebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..c28768a 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -68,7 +68,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
@@ -92,7 +92,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
-- 
2.43.0


From 4a0569604e9807813d776c96a923a94d92997c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 24/64] fix: truncate of an eigendecomposition cuts the values
 and returns vectors then values

---
 sources/LinearAlgebra.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..4fab4a4 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -86,8 +86,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto& [u,e] = tensors;
+	return truncate(u,e,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -95,7 +95,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
@@ -156,7 +156,10 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	// eigh supplies the eigenvalues in ascending order, truncate expects them in decreasing order.
+	auto [d,u] = quantit::eigh(A,split);
+	auto [tu,td] = truncate(u.flip({-1}),d.flip({-1}),tol,min_size,max_size,pow);
+	return std::make_tuple(td,tu);
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From 2d7c77bbcc90a04ad6e3b8f749098fd24c8ff8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 25/64] fix: compute_last_index reads before the first value

---
 sources/LinearAlgebra.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 4fab4a4..b09fa03 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -64,12 +64,14 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t last_index = Last_dim_size-1;
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	// the value at index 0 is the last one that can be rejected
+	while (last_index >= 0 and static_cast<size_t>(last_index) >= min_size)
 	{
 		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
 			break;
 		--last_index;
-		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
+		if (last_index >= 0)
+			trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
 	}
 	return last_index;
 }
-- 
2.43.0


From 7ef34dcd7fc9f92fff2be8b4958561c62ca7464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 26/64] fix: compute_first_index_ascending overruns the values

---
 sources/LinearAlgebra.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index b09fa03..8a886b1 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -30,16 +30,17 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
 	// auto last_index = Last_dim_size-1;
+	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t first_index = 0;
-	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow(pow);
+	// number of values remaining if the one at first_index is rejected: Last_dim_size - first_index - 1
+	while (first_index < Last_dim_size and static_cast<size_t>(Last_dim_size - first_index) > min_size)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		if (  (trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(Last_dim_size - first_index) <= max_size)
 			break;
 		++first_index;
-		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
+		if (first_index < Last_dim_size)
+			trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow(pow);
 	}
 	return first_index;
 }
-- 
2.43.0


From 031d74c23a9b27a08fd463bb3905d0cfdc10f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 27/64] fix: block truncation of an eigendecomposition keeps
 the eigenvectors

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..909de39 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -787,7 +787,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From 42a673af4862609c08d3a425fad823add1398413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 28/64] fix: block truncation removes every block of a dropped
 section

---
 sources/btensor_linalg.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 909de39..8e23152 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -688,23 +688,14 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
+		// erase every block of the section, from the last to the first.
+		auto U_it = unitary.end();
+		while (U_it != unitary.begin())
 		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
+			--U_it;
+			if (std::get<0>(*U_it).back() == d_ind.back())
+				U_it = unitary.blocks_list.erase(U_it);
 		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
 	};
 	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
 	{
-- 
2.43.0


From 5e5976a49d23e72e91d3ba99b4bc8054dc4a8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 29/64] fix: block truncation threshold: empty spectrum,
 nothing kept, zero and negative values

---
 sources/btensor_linalg.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 8e23152..cfb0ff6 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -534,7 +534,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, size_t split)
 }
 
 /**
- * @brief Search for the first index with a value not greater than val in a desccending ordered list of value. For
+ * @brief Search for the first index with a value smaller than val in a desccending ordered list of value. For
  * pytorch.
  *
  * Currently a linear search, a branchless binary search might be better.
@@ -551,7 +551,7 @@ int64_t lower_bound_impl2(TorchAccessor &acc, Value &val)
 	int64_t i = 0;
 	for (; i < acc.size(0); ++i)
 	{
-		if (!(acc[i] > val))
+		if (!(acc[i] >= val))
 			break;
 	}
 	return i;
@@ -661,6 +661,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	static_assert(std::conjunction_v<std::is_same<BTENS, btensor>...>, "The unitaries must be btensors!");
 	// d is a vector of singular values
 	assert(d.dim() == 1);
+	if (d.begin() == d.end()) // no value to truncate
+		return std::make_tuple(std::move(d), std::move(unitaries));
 	// prepare a list containing all the singular value
 	auto L = std::accumulate(d.begin(), d.end(), 0, [](auto &&a, auto &&b) { return a + std::get<1>(b).sizes()[0]; });
 	auto vd = torch::zeros(
@@ -677,9 +679,10 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
 	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
+	const auto kept_values = compute_last_index(vd, tol, pow, min, max) + 1;
+	auto smallest_value = vd.index({torch::indexing::Ellipsis, std::max<int64_t>(kept_values - 1, 0)}).clone();
 	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
+	    2 * smallest_value.abs() * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
 	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
 	// for each block trio, we can remove all the values smaller than the one in smallest_value
 	// without inducing an error larger than the tol.
@@ -719,7 +722,7 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		using namespace torch::indexing;
 		// fmt::print("last_index! {}\n\n", db > smallest_value);
 		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
+		auto last_index = kept_values > 0 ? lower_bound(db, smallest_value.item()) : 0;
 		if (last_index == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
-- 
2.43.0


From a83fe152fcb2e95a9af8c74984c80b7a0aa47ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 30/64] fix: eigh with a split recurses for ever

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index cfb0ff6..21e2a1f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -371,7 +371,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true)); // a plain bool would select the overload with a split. we want the eigenvectors.
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From cdc2a7ec523a603c3d936f4063be030444338202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 31/64] fix: eigenvectors carry the selection rule of the
 tensor

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 21e2a1f..531dedf 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -325,9 +325,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From c77682fb90f41e7629a8f9252d486843bffb5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 32/64] fix: compact a sector with its columns in section order
 and in its own type

---
 sources/btensor_linalg.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 531dedf..663d361 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,7 +131,16 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	// the columns were met in any order: lay them out in the order of the sections, like the rows are.
+	col_acc = 0;
+	for (auto &col : encountered_block_col)
+	{
+		auto &slice = std::get<1>(col);
+		auto slice_end = col_acc + slice.stop() - slice.start();
+		slice = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From 1b46d42cb69fab5a9a1f8d0f17afc883420d9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 33/64] fix: permute refuses a malformed permutation

---
 sources/btensor.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eea3205..d5aa703 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1780,11 +1780,20 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 	block_list_t::content_t out_block_list; // unordered.
 	out_block_list.reserve(blocks_list.size());
 	index_list out_section_by_dim(rank);
-	assert(in_permutation.size() == rank);
+	if (in_permutation.size() != rank)
+		throw std::invalid_argument(
+		    fmt::format("Permutation of {} dimensions given for a tensor of rank {}", in_permutation.size(), rank));
 	std::vector<int64_t> permutation(rank);
 	// turn it into a positive indexed permutation.
 	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
 	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });
+	std::vector<int64_t> used(rank, 0);
+	for (const auto &x : permutation)
+	{
+		if (x < 0 or x >= rank or used[x])
+			throw std::invalid_argument("Invalid permutation: dimension out of range or repeated");
+		used[x] = 1;
+	}
 	// permute the tensors and their position in the block matrix
 	for (size_t i = 0; i < rank; ++i)
 	{
@@ -1804,7 +1813,7 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 		out_block_list.emplace_back(permute_index(permutation, std::get<0>(block)),
 		                            std::get<1>(block).permute(permutation));
 	}
-	any_quantity_vector out_c_vals = c_vals.permute(&*permutation.begin(), &*permutation.end(), sections_by_dim);
+	any_quantity_vector out_c_vals = c_vals.permute(permutation.data(), permutation.data() + rank, sections_by_dim);
 	index_list out_section_sizes(sections_sizes.size());
 	{
 		size_t p = 0;
-- 
2.43.0


From ea8a8a93c977a424530a64ac4bab8b04aa6748b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 34/64] fix: transpose refuses dimensions beyond the rank

---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d5aa703..6d92697 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1982,6 +1982,8 @@ btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim0 >= rank or dim1 < 0 or dim1 >= rank)
+		throw std::invalid_argument(fmt::format("Transposition of dimensions {} and {} of a tensor of rank {}", dim0, dim1, rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -1993,6 +1995,8 @@ btensor &btensor::transpose_(int64_t dim0, int64_t dim1)
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim0 >= rank or dim1 < 0 or dim1 >= rank)
+		throw std::invalid_argument(fmt::format("Transposition of dimensions {} and {} of a tensor of rank {}", dim0, dim1, rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
-- 
2.43.0


From 7be2b44d518ee52d83020f3ece60578f5be87461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 35/64] fix: shifting the charges of a dimension shifts the
 selection rule with them

The selection rule was multiplied by the inverse of the shift: every stored block became forbidden.
---
 include/blockTensor/btensor.h | 12 ++++++------
 sources/btensor.cpp           |  5 +++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..6c350c3 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -676,16 +676,16 @@ class btensor
 	 */
 	btensor &inverse_cvals_();
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
-	 * conservation rule.
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+	 * conservation rule, such that the blocks remain allowed.
 	 *
 	 * @param shift shift to apply
 	 * @param dim dimension to which the shift is applied
 	 */
 	btensor cval_shift(any_quantity_cref shift, int64_t dim) const;
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
-	 * conservation rule.
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+	 * conservation rule, such that the blocks remain allowed.
 	 *
 	 * @param shift shift to apply
 	 * @param dim dimension to which the shift is applied
@@ -1465,8 +1465,8 @@ inline torch::Tensor inverse_cvals(torch::Tensor &&tens) { return std::move(tens
 inline btensor &inverse_cvals_(btensor &tens) { return tens.inverse_cvals_(); }
 inline torch::Tensor &inverse_cvals_(torch::Tensor &tens) { return tens; }
 /**
- * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
- * conservation rule.
+ * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+ * conservation rule, such that the blocks remain allowed.
  *
  * @param shift shift to apply
  * @param dim dimension to which the shift is applied
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6d92697..0622606 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2215,8 +2215,9 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
-	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	any_quantity shift_value(shift); // shift could refer to a charge of this tensor, modified by shift_impl
+	shift_impl(shift_value, dim);
+	selection_rule.value *= shift_value;
 	return *this;
 }
 
-- 
2.43.0


From 027eb92301683d6b10917cb47a352f80107b6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 36/64] fix: conversion of tensors of rank zero to and from
 dense form

---
 sources/btensor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0622606..c661745 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2533,6 +2533,11 @@ torch::Tensor btensor::to_dense() const
 	{
 		auto &index = std::get<0>(index_block);
 		auto &tens = std::get<1>(index_block);
+		if (rank == 0) // torch doesn't accept an empty list of slices.
+		{
+			out.copy_(tens);
+			continue;
+		}
 		auto Slices = full_slice(*this, index);
 		out.index_put_(Slices, tens);
 	}
@@ -2552,7 +2557,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		{
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
-			auto block = values.index(torch::ArrayRef(S));
+			// torch doesn't accept an empty list of slices.
+			auto block = S.size() ? values.index(torch::ArrayRef(S)) : values;
 			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
 			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
 			                                2, {}, false, {}) > cutoff)
-- 
2.43.0


From 3b10154b46e0730554572cf47f004a75e694b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 37/64] fix: building a block tensor from a dense tensor of
 other sizes is refused

Blocks of the wrong shape were stored, or the elements in excess ignored.
---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c661745..3158a3e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2548,6 +2548,9 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (values.sizes() != torch::IntArrayRef(out.sizes()))
+		throw std::invalid_argument(
+		    fmt::format("a tensor of sizes {} is needed, but received {}", out.sizes(), values.sizes().vec()));
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
-- 
2.43.0


From 028bc254aa5bd0c452914c25e777620cd249187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 38/64] fix: the blocks built from a dense tensor do not share
 its storage

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 3158a3e..e6d7ad1 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2567,7 +2567,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                2, {}, false, {}) > cutoff)
 			        .item()
 			        .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.clone(); // the slice shares the storage of the input.
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
-- 
2.43.0


From c1087b616c0aea0b97e132c7e6c4040b40c434bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:15 +0000
Subject: [PATCH 39/64] fix: the search of a selection rule refuses an operator
 that doesn't fit the shape

The sections were read past their end.
---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e6d7ad1..fa921cc 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2641,6 +2641,9 @@ any_quantity find_selection_rule(const torch::Tensor &tens, const btensor &shape
 		throw std::invalid_argument("the input tensor must be rank 2");
 	if (shape.dim() != 2)
 		throw std::invalid_argument("the shape specifying btensor must be rank 2");
+	if (tens.sizes() != torch::IntArrayRef(shape.sizes()))
+		throw std::invalid_argument(fmt::format("the input tensor's sizes {} differ from those of the shape {}",
+		                                        tens.sizes().vec(), shape.sizes()));
 	auto state = torch::zeros(tens.sizes()[tens.dim() - 1], tens.options());
 	auto quantitiesi = [&shape](size_t element_pos, size_t dim) -> const vquantity &
 	{ // return type must be specified, because return by value isn't an option here.
-- 
2.43.0


From 0d860914e097de0c339759988c1660dc99f1b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 40/64] fix: a view checks every index it fixes, even those
 after the last dimension kept

---
 sources/btensor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index fa921cc..175c646 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -698,13 +698,12 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+				*(out_it++) = *index_it;
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From daf218d1fbd82217282df9dc4316a9b7ad19c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 41/64] fix: assignment through a view that keeps no dimension
 reads no index of the value

---
 sources/btensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 175c646..61fc126 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -740,9 +740,8 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (*ito == -1)
+				*ito = *(itv++); // the value has an index for the dimensions kept only.
 		}
 		return out;
 	};
-- 
2.43.0


From eeb2f99cd6bf45264ff4290a9b72b504b95b8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 42/64] fix: a shape can only be restricted by an element or -1

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 61fc126..b654778 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -530,7 +530,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;
 			++it_dims;
 			++it_size;
 		}
-- 
2.43.0


From 7c9c5d9e928fa2586300f7b35e310a4b07d0738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 43/64] fix: views and assignments through views of tensors of
 rank zero

---
 sources/btensor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b654778..e1f147d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -714,7 +714,8 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		if (keep)
 		{
 			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(),
-			                              {out_index, std::get<1>(index_block).index(element)});
+			                              {out_index, element.size() ? std::get<1>(index_block).index(element)
+			                                                         : std::get<1>(index_block)});
 		}
 	}
 	if (preserve_rank)
@@ -757,7 +758,10 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 			                          size_view.end()); // because torch factories don't accept iterator pairs.
 			this->blocks_list.insert({out_ind, torch::zeros(size, options())});
 		}
-		this->blocks_list.at(out_ind).index_put_(element, block);
+		if (element.size()) // torch doesn't accept an empty list of indices.
+			this->blocks_list.at(out_ind).index_put_(element, block);
+		else
+			this->blocks_list.at(out_ind).copy_(block);
 	}
 	return *this;
 }
-- 
2.43.0


From 5de5497f5374bcdf63f0257633041b6f64b22124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 44/64] fix: reshape refuses index groups that are out of order
 or out of range

---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e1f147d..0a91998 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3038,6 +3038,10 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 {
 	using namespace reshape_helpers;
 	size_t out_rank = index_groups.size() + 1;
+	if (not std::is_sorted(index_groups.begin(), index_groups.end()) or
+	    (index_groups.size() != 0 and (index_groups.front() < 0 or index_groups.back() > rank)))
+		throw std::invalid_argument(
+		    fmt::format("the groups {} do not split {} dimensions", fmt::join(index_groups, ","), rank));
 	// make the information about the grouping explicit. The begining of the first group and the end of the last is
 	// not explicitly present in the input supplied (it's always 0 and the rank respectivily)
 	std::vector<int64_t> m_index_group(out_rank + 1);
-- 
2.43.0


From 218a6e23b67874b10dca04cc716e2976309d7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 45/64] fix: reshape of a tensor of rank zero

---
 sources/btensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0a91998..c23b878 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3053,7 +3053,8 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (rank != 0)
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From 7634c9bb5f64bc2fbaf78b59f7c08c4b325d785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 46/64] fix: reshape with several consecutive empty groups

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c23b878..a0c6a3c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2916,7 +2916,7 @@ btensor::index_list new_block_shape(torch::IntArrayRef index_groups, btensor::co
 	auto index_it = index_groups.begin() + 1;
 	for (auto i = index_groups.front(); i < old_rank; ++i)
 	{
-		if (i >= (*index_it))
+		while (i >= (*index_it)) // there can be many empty groups
 		{
 			++out_it;
 			++index_it;
-- 
2.43.0


From 458dc2b8a3c6e77c04f222f4670d5bb4558845a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 47/64] fix: the sum with a temporary modified the left operand

add(btensor&&) added into the blocks of a shallow copy of *this, scaled in place
blocks whose storage is shared with other tensors, and dereferenced the first
block of an empty result.
---
 sources/btensor.cpp | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a0c6a3c..ce60e64 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2736,30 +2736,7 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
  * Without the ability to check the refcount of the moved from tensor, this can't really be done efficiently.
  * But i know a trick to access private data.. tbd..
  */
-btensor btensor::add(btensor &&other, Scalar alpha) const
-{
-	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
-	auto out = *this;
-	out.blocks_list.merge(
-	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
-	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
-	                       // change the cost of the operations. collision
-	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    // no collision
-	    [&alpha](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	out._options = std::get<1>(*out.begin()).options();
-	return out;
-}
+btensor btensor::add(btensor &&other, Scalar alpha) const { return add(static_cast<const btensor &>(other), alpha); }
 /*!
  * In place addition. Any btensor that is a shallow copy of this (or vice versa) will not be fully updated by the
  * inplace addition. Only the blocks that where present at the moment of the copy will be affected by the inplace
-- 
2.43.0


From ceb6225461071da3d433389ac9a046508c38310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 48/64] fix: the in place sum with a temporary could modify
 other tensors

The number of references to a tensor does not tell whether its storage is shared
with other tensors, the blocks of a view or of a permutation are an example.
---
 sources/btensor.cpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ce60e64..642dc7b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2758,26 +2758,7 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 /**
  * same as add(...)
  */
-btensor &btensor::add_(btensor &&other, Scalar alpha)
-{
-	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
-	auto b_blocks = std::move(other.blocks_list);
-	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
-	this->blocks_list.merge(
-	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x)
-	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
-		    {
-			    x = x.mul(alpha);
-		    }
-		    else
-		    {
-			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
-		    }
-	    });
-	return *this;
-}
+btensor &btensor::add_(btensor &&other, Scalar alpha) { return add_(static_cast<const btensor &>(other), alpha); }
 /**
  * @brief Helper functions for btensor::reshape.
  *
-- 
2.43.0


From 3896ac74b60beca467729eb236e89c58417f33e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 49/64] fix: sums of tensors of different ranks or numbers of
 sections are refused

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 642dc7b..d577cff 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2261,7 +2261,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or
+	    !(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		return false;
 	return true;
 }
@@ -2272,7 +2273,7 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
-	if (!(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_by_dim == b.sections_by_dim) or !(a.sections_sizes == b.sections_sizes))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
 
-- 
2.43.0


From a0043cdaf8f24fd04547997af654fe744337dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 50/64] fix: sections of broadcast element-wise operations

The sizes of the sections of matching dimensions were not compared, and with one
section in both dimensions the size one was retained for the result.
---
 sources/btensor.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d577cff..26abb8d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1026,7 +1026,14 @@ struct mul_helpers
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
-				if (not(*it) and *smaller_sec != *larger_sec)
+				bool mismatch = not(*it) and *smaller_sec != *larger_sec;
+				if (not(*it) and not mismatch)
+				{
+					auto [small_begin, small_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [large_begin, large_end] = larger_tensor.section_sizes(larger_rank - n);
+					mismatch = !std::equal(small_begin, small_end, large_begin, large_end);
+				}
+				if (mismatch)
 				{
 					if (this_is_large)
 					{
@@ -1062,14 +1069,14 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (*it & 1) // the dimension of the smaller tensor is a singleton
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // the other one is, or they are equal
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From cdcbc1c2a3e0aefbe27112056bde60cab7460043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 51/64] fix: in place broadcast with an operand of larger rank

The indices of the blocks were matched as if *this had the larger rank, and the
in place operation was applied though the result is larger than *this.
---
 sources/btensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 26abb8d..b30c554 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1274,6 +1274,7 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// structure.
 
 	bool can_do_inplace =
+	    this_is_large and
 	    std::none_of(comp_mask.begin(), comp_mask.end(),
 	                 [this_is_large](auto &&x)
 	                 {
@@ -1300,13 +1301,15 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 			// at best, we could try to do it inplace for the last call.
 			// There's a single output when only this tensor has no size 1 dimensions, or the size 1 dimension are
 			// matched with a size 1 in other.
-			if (mul_helpers::match_index(smaller_rank, comp_mask, this_index, other_index))
+			auto &large_index = this_is_large ? this_index : other_index;
+			auto &small_index = this_is_large ? other_index : this_index;
+			if (mul_helpers::match_index(smaller_rank, comp_mask, large_index, small_index))
 			{
 				if (can_do_inplace)
-					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
+					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, large_index, small_index),
 					                   f_(this_tensor, other_tensor));
 				else
-					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
+					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, large_index, small_index),
 					                   f(this_tensor, other_tensor));
 			}
 		}
-- 
2.43.0


From 74e989d9d5e2ea7ddd5a57f5a679875183816c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 52/64] fix: in place power by a tensor

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b30c554..99adc76 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1779,8 +1779,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From f62ad908edf812b8a7eee883be025f838a902db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 53/64] fix: division of a scalar by a tensor wrote past the
 end of an empty list

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 99adc76..b0569dd 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3185,8 +3185,8 @@ btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
 	auto out = quantit::sparse_zeros_like(B);
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+		out.block(in.first) = A / in.second;
 	return out;
 }
 /**
-- 
2.43.0


From e85c0ce0329ee9bbc17071cf6049e87ec0850c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 54/64] fix: the sum of the elements of a tensor with a
 selection rule

The result held a block that its selection rule forbids.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b0569dd..b9e1d1a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1533,7 +1533,7 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	auto out = btensor({}, selection_rule->neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From cdbb37daf8043073568404bc217411a30258ab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 55/64] fix: contraction checks its dimensions and the sizes of
 the sections

---
 sources/btensor.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b9e1d1a..f161033 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -830,7 +830,18 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 		{
 			return false;
 		}
-		ok_CR = std::distance(std::get<0>(q1), std::get<1>(q1)) == std::distance(std::get<0>(q2), std::get<1>(q2));
+		auto sizes1 = in1.section_sizes(dims1[i]);
+		auto sizes2 = in2.section_sizes(dims2[i]);
+		ok_CR = std::equal(std::get<0>(sizes1), std::get<1>(sizes1), std::get<0>(sizes2), std::get<1>(sizes2));
+		if constexpr (Throws)
+		{
+			TORCH_CHECK(ok_CR, "contracted dimensions need sections of the same sizes, but dim ", dims1[i],
+			            " of the first tensor does not match dim ", dims2[i], " of the second");
+		}
+		else if (!ok_CR)
+		{
+			return false;
+		}
 		auto neut = in1.selection_rule->neutral();
 		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;
 		     ++it1, ++it2)
@@ -869,6 +880,12 @@ std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> com
 	TORCH_CHECK(dims1.size() == dims2.size(), "both dimension lists should have the same length.")
 	TORCH_CHECK(input1.selection_rule->get().same_type(input2.selection_rule->get()),
 	            "the two tensors have different type of conserved quantities");
+	for (size_t i = 0; i < dims1.size(); ++i)
+	{
+		TORCH_CHECK(dims1[i] >= 0 and dims1[i] < input1.dim() and dims2[i] >= 0 and dims2[i] < input2.dim(),
+		            "contracted dimensions ", dims1[i], " and ", dims2[i], " out of range for tensors of rank ",
+		            input1.dim(), " and ", input2.dim());
+	}
 
 	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
 	auto cdims1 = at::dim_list_to_bitset(dims1, input1.dim());
-- 
2.43.0


From 7c46ca0d3b7164f8afac06396e633a0b584884a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 56/64] fix: contraction with a tensor of rank zero did not
 terminate

---
 sources/btensor.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f161033..64bf813 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2075,6 +2075,12 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		}
 		return next;
 	};
+	auto column_end = [&next_index](const auto &col_start, const auto &end, const auto &less)
+	{
+		if (std::get<0>(*col_start).empty()) // rank zero: there can only be a single block
+			return std::next(col_start);
+		return std::lower_bound(col_start, end, next_index(col_start), less);
+	};
 	auto find_next_match = [dim_l](auto a_beg, const auto &a_end, auto b_beg, const auto &b_end)
 	{
 		// if we have a match both of the following boolean are false
@@ -2124,12 +2130,11 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		{
 			// assert(out_list_it != out_list.end());
 			auto other_curr_block = t2.begin();
-			auto this_col_end = std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
-			                                     less); // also the next column start if it's not the end.
+			auto this_col_end = column_end(this_col_start, t1.end(), less); // also the next column start if it's not the end.
 			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop over all the columns of other
 			{
 				auto this_curr_block = this_col_start;
-				auto other_col_end = std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
+				auto other_col_end = column_end(other_curr_block, t2.end(), less);
 				cpt_output_block(this_curr_block, other_curr_block); // side effect: update out_block_index
 				// if (!out_btens.block_conservation_rule_test(out_block_index))// not worth it with 50 site heisenber
 				// model dmrg
-- 
2.43.0


From 6ad5467dd84792849f7fef5e3197dd1ddea32574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:20 +0000
Subject: [PATCH 57/64] fix: squeeze of dimensions with a charge

The restricted shape has another selection rule than the tensor when the charges
of the size one dimensions are not neutral, the reshape to it was refused.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 64bf813..1d2bce9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2209,7 +2209,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From 3d2d41bd142063f43dfdf2c729b417e952185ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 58/64] fix: in place broadcast refuses an operand of larger
 rank

---
 sources/btensor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1d2bce9..de120a6 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1262,6 +1262,9 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// rank for the inplace case. This is a bit of a silly decision on torch's part, since it allow reallocation if the
 	// tensor has a large enough rank.
 
+	if (rank < other.rank)
+		throw std::invalid_argument(
+		    fmt::format("in place operation on a tensor of rank {} with an operand of rank {}", rank, other.rank));
 	const auto &smaller_rank = std::min(rank, other.rank);
 	const auto &larger_rank = std::max(rank, other.rank);
 	const btensor &larger_tensor = rank == larger_rank ? *this : other;
@@ -1291,7 +1294,6 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// structure.
 
 	bool can_do_inplace =
-	    this_is_large and
 	    std::none_of(comp_mask.begin(), comp_mask.end(),
 	                 [this_is_large](auto &&x)
 	                 {
-- 
2.43.0


From f3142b3f1020b7bfd9d2a608811702457fc93497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:59 +0000
Subject: [PATCH 59/64] fix: view of a tensor with a dimension without sections

---
 sources/btensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index de120a6..895f65a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -562,9 +562,8 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		out_sel_rule.op(
-		    section_conserved_qtt(i, block_ind).inverse(),
-		    not is_slice); // when el_index is negative, block_ind should be 0 and !is_slice false, which is always ok.
+		if (not is_slice) // a dimension that is kept can have no section at all.
+			out_sel_rule.op(section_conserved_qtt(i, block_ind).inverse(), true);
 		++i;
 	}
 	out_sections_by_dim.resize(out_rank);
-- 
2.43.0


From 913e7a993274ae0a63aef72b3d3d5ec3cb1565cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 60/64] fix: charges of the bonds of the block Heisenberg
 Hamiltonian

---
 sources/models.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..8e51cc2 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -93,7 +93,7 @@ bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
 	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	auto left_bond = btensor({{{1,neutral},{1,p(1)*p(0).inverse()},{1,p(0)*p(1).inverse()},{1,neutral},{1,neutral}}},neutral,phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 57287ef065bf31ac78ba8bd12f809bc577a4d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:50 +0000
Subject: [PATCH 61/64] fix: orthogonality center at the end of dmrg

---
 sources/dmrg.cpp | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..b3145af 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -205,6 +205,28 @@ struct dmrg_2sites_update
 		return E0;
 	}
 };
+/**
+ * @brief put the orthogonality center back where it was before the sweeps.
+ *
+ * The sweeps keep oc on the first site of the pair to update next. An update that moves leftward leaves the center on
+ * the first site of the pair it updated, which is oc + 1.
+ *
+ * @param state
+ * @param oc the orthogonality center of the state
+ * @param first_oc location of the center before the first sweep
+ * @param step direction of the next update
+ * @param updated whether the state was updated at all
+ */
+template <class MPS_t>
+void restore_oc(MPS_t &state, size_t &oc, size_t first_oc, int step, bool updated)
+{
+	const size_t last_pair = state.size() - 2;
+	if (not updated)
+		oc = first_oc;
+	else if (last_pair != 0 and (oc == 0 or (step == -1 and oc != last_pair)))
+		++oc;
+	state.move_oc(first_oc);
+}
 /**
  * @brief Shared implementation of the differeent interface to dmrg with 2 sites update.
  *
@@ -223,6 +245,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
+	const size_t first_oc = init_pos;
 	auto N_step = two_sites_hamil.size() - 1 + (two_sites_hamil.size() == 1);
 	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;
 	if (two_sites_hamil.size() == 1)
@@ -262,8 +285,7 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	if (oc != init_pos)
-		in_out_state.move_oc(init_pos);
+	restore_oc(in_out_state, oc, first_oc, step, options.maximum_iterations > 0);
 
 	logger.end_log_all(iteration, E0, in_out_state);
 
@@ -284,6 +306,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
+	const size_t first_oc = init_pos;
 	auto N_step = twosites_hamil.size() - 1 + (twosites_hamil.size() == 1);
 	torch::Tensor E0_update;
 	int step = (in_out_state.orthogonality_center == 0) ? 1 : -1;
@@ -321,12 +344,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
-	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
-	// such the site 0 and 1 are updated together once by the next rightward sweep.
-	// this trickery is necessary to get this optimization without writing special code in the sweeper.
-	if (oc != init_pos) // then we actually move it back to its origin location.
-		in_out_state.move_oc(init_pos);
+	restore_oc(in_out_state, oc, first_oc, step, options.maximum_iterations > 0);
 
 	logger.end_log_all(iteration, E0, in_out_state);
 
-- 
2.43.0


From 348e3528f4836cb895f9f6137e8e0a1443889f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 62/64] fix: rank checks of empty networks and of tensors of
 rank zero

---
 sources/MPT.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..05fec04 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -119,6 +119,10 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
+	if (not std::all_of(begin(), end(), [](const Tens &el) { return el.dim() == 3; }))
+		return false;
+	if (empty())
+		return true;
 	auto prev_bond = operator[](0).sizes()[0];
 	bool all_rank_3 = std::all_of(begin(), end(),
 	                              [&prev_bond](const Tens &el)
@@ -169,6 +173,10 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
+	if (not std::all_of(begin(), end(), [](const Tens &el) { return el.dim() == 4; }))
+		return false;
+	if (empty())
+		return true;
 	auto prev_bond = operator[](0).sizes()[0];
 	bool all_rank_4 = std::all_of(begin(), end(),
 	                              [&prev_bond](const Tens &el)
@@ -183,6 +191,8 @@ bool MPO::check_ranks() const
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -196,6 +206,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
-- 
2.43.0


From fdb6bf49645fb28a4ade78d0178f10ac8c564b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 63/64] fix: orthogonality center of a network of empty tensors

---
 include/MPT.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..22cf19e 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -315,7 +315,11 @@ class MPS final
 	static bool check_one(const Tens &tens);
 	MPS() : vector_lift<MPS>(), orthogonality_center(0) {}
 	MPS(size_type size) : vector_lift<MPS>(size), orthogonality_center(0) {}
-	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc) {}
+	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc)
+	{
+		if (oc >= size and oc != 0)
+			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
+	}
 	MPS(const MPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	MPS(std::vector<Tens> initl, size_t oc = 0) : vector_lift<MPS>(std::move(initl)), orthogonality_center(oc)
@@ -528,7 +532,7 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 	static bool check_one(const Tens &tens);
 	bMPS() : vector_lift<bMPS, btensor>(), orthogonality_center(0) {}
 	bMPS(size_type size) : vector_lift<bMPS, btensor>(size), orthogonality_center(0) {}
-	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(std::min(oc, size - 1)) {}
+	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(size == 0 ? 0 : std::min(oc, size - 1)) {}
 	bMPS(const bMPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	bMPS(bMPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	bMPS(std::vector<Tens> initl, size_t oc = 0)
-- 
2.43.0


From b9a8d17986f9d5f8ed94bf01b469c3419b00ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:43 +0000
Subject: [PATCH 64/64] fix: check the networks made from a pair of iterators

They could hold tensors of any rank and bonds, and the orthogonality center of
a bMPS made that way was not initialized.
---
 include/MPT.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index 22cf19e..f3bab56 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -369,7 +369,12 @@ class MPS final
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
+	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPS() = default;
 
@@ -468,7 +473,12 @@ class MPO final : public vector_lift<MPO> // specialization for rank 4 tensors
 			throw std::invalid_argument("Input MPT is an invalid MPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end) {}
+	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPO() = default;
 
@@ -583,7 +593,12 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPS() = default;
 
@@ -682,7 +697,12 @@ class bMPO final : public vector_lift<bMPO, btensor> // specialization for rank
 			throw std::invalid_argument("Input bMPT is an invalid bMPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPO() = default;
 
-- 
2.43.0


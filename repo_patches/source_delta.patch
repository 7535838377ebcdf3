From 816c5858672737668b97215425654d5ce19e2933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 01/26] fix: copy algebra bit ranges when copying a
 hilbert_space

The copy constructor and the copy assignment left algebra_bit_ranges_ empty
(or stale), so that has_algebra(), algebra_bit_range(), fermionic loperators
and N-fermion sector views did not work with copies. Self-assignment wiped
the object out.
---
 include/libcommute/loperator/hilbert_space.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..2098b66 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -233,7 +233,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -247,6 +248,8 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
+    if(this == &hs) return *this;
+    algebra_bit_ranges_ = hs.algebra_bit_ranges_;
     bit_range_end_ = hs.bit_range_end_;
     elementary_spaces_.clear();
     for(auto const& es : hs.elementary_spaces_) {
-- 
2.43.0


From 8cd5a88a7849c6b4af8781b400882187d30b6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/26] fix: leave hilbert_space unchanged when add() throws
 hilbert_space_too_big

---
 include/libcommute/loperator/hilbert_space.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 2098b66..9940da1 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -289,7 +289,14 @@ public:
   void add(elementary_space_t const& es) {
     auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     if(!r.second) throw elementary_space_exists(es);
-    recompute_bit_ranges();
+    try {
+      recompute_bit_ranges();
+    } catch(hilbert_space_too_big const&) {
+      // Restore the state from before the insertion
+      elementary_spaces_.erase(r.first);
+      recompute_bit_ranges();
+      throw;
+    }
     dim_ *= es.dim();
     init_foreach_alg();
   }
-- 
2.43.0


From e69d9000162d64158156a90910baab1a00f73ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 03/26] fix: take elementary space dimensions into account in
 hilbert_space's operator==

Spaces with bosonic dimensions 3 and 4 occupy the same number of bits and used
to compare equal in spite of having a different structure.
---
 include/libcommute/loperator/hilbert_space.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 9940da1..7ec2328 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -277,7 +277,9 @@ public:
                       hs1.elementary_spaces_.end(),
                       hs2.elementary_spaces_.begin(),
                       [](value_type const& v1, value_type const& v2) {
-                        return *v1.first == *v2.first && v1.second == v2.second;
+                        return *v1.first == *v2.first &&
+                               v1.first->dim() == v2.first->dim() &&
+                               v1.second == v2.second;
                       });
   }
   inline friend bool operator!=(hilbert_space const& hs1,
-- 
2.43.0


From 69893a07bc2141a416cd60cccf83c09c56f294d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 04/26] fix: use a 64-bit accumulator to count basis states

---
 include/libcommute/loperator/hilbert_space.hpp         | 2 +-
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 7ec2328..6aec22d 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -76,7 +76,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)),
       indices_(sizes_.size()) {}
diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..5cf1129 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -739,7 +739,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From ef3ad80734a17f435b3aeba8b5fbe2eb8010215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 05/26] fix: make foreach() re-entrant for sparse Hilbert
 spaces and N-fermion views

A nested foreach() over the same object shared the iteration state with the
outer one and made it skip basis states and visit unphysical ones.
---
 include/libcommute/loperator/hilbert_space.hpp  | 17 ++++++++---------
 .../loperator/n_fermion_sector_view.hpp         | 16 ++++++++++------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 6aec22d..33559ec 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -52,8 +52,6 @@ class sparse_foreach_basis_state {
   // jumps_[d] is the additional jump in the basis state index introduced when
   // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,18 +88,20 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers. It is local to this call so that nested
+    // iterations over the same Hilbert space do not interfere.
+    std::vector<sv_index_type> indices(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-      ++indices_[0];
+      ++indices[0];
       ++state;
 
       for(std::size_t d = 0;
-          d < indices_.size() - 1 && indices_[d] == sizes_[d];
+          d < indices.size() - 1 && indices[d] == sizes_[d];
           ++d) {
-        indices_[d] = 0;
-        ++indices_[d + 1];
+        indices[d] = 0;
+        ++indices[d + 1];
         state += jumps_[d];
       }
     }
diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 5cf1129..abfeec8 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -568,9 +568,11 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // Work with a copy so that nested iterations over 'view' do not interfere
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
@@ -955,9 +957,11 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // Work with a copy so that nested iterations over 'view' do not interfere
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From 8aa345c94279e45fbe1f750c956b6e6dd1cd4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 06/26] fix: do not truncate multisector bit masks to 32 bits

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index abfeec8..d0013b4 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -97,7 +97,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From 3c30578fc1ddbad2b455aacfa618236c6ca2575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 07/26] fix: let multisector_unranking_generator own its sector
 parameters

Copies and moved-to instances of n_fermion_multisector_view referred to
parameters stored in the original view.
---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index d0013b4..67fd8d7 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -716,7 +716,7 @@ unsigned int make_nonmultisector_mask(HSType const& hs,
 class multisector_unranking_generator {
 
   // Parameters of sectors
-  detail::sector_params_vec_t const& sector_params;
+  detail::sector_params_vec_t sector_params;
 
   // State unranking generators for each sector
   std::vector<unranking_generator> sector_gens;
-- 
2.43.0


From 932af0e46f7e065385a2d4d165822ad83d60bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 08/26] fix: compute the bit size of bosonic elementary spaces
 exactly

std::log2() of a large dimension such as 2^50 + 1 rounds down to 50.
---
 .../libcommute/loperator/elementary_space_boson.hpp    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/elementary_space_boson.hpp b/include/libcommute/loperator/elementary_space_boson.hpp
index 3ffd78c..d01d33a 100644
--- a/include/libcommute/loperator/elementary_space_boson.hpp
+++ b/include/libcommute/loperator/elementary_space_boson.hpp
@@ -39,7 +39,7 @@ public:
   elementary_space_boson(sv_index_type dim, Args&&... indices)
     : base(std::forward<Args>(indices)...),
       dim_(dim),
-      n_bits_(std::ceil(std::log2(dim))) {
+      n_bits_(required_n_bits(dim)) {
     assert(dim > 0);
   }
   elementary_space_boson(elementary_space_boson const&) = default;
@@ -71,6 +71,14 @@ private:
 
   // ceil(log_2(dim))
   int const n_bits_;
+
+  // Compute ceil(log_2(dim)) in integer arithmetic
+  static int required_n_bits(sv_index_type dim) {
+    int n_bits = 0;
+    for(sv_index_type max_n = dim - 1; max_n != 0; max_n >>= 1)
+      ++n_bits;
+    return n_bits;
+  }
 };
 
 namespace static_indices {
-- 
2.43.0


From d3c85d7fc50a0b5d73db4939d4113d73e31343ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 09/26] fix: avoid intermediate overflow in binomial
 coefficients C(63, k)

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 67fd8d7..05feb51 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -54,8 +54,11 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n) return 0;
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
-  for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+  for(unsigned int i = 0; i < k; ++i) {
+    // C * (n - i) is always divisible by (i + 1), but it can overflow
+    sv_index_type const q = C / (i + 1), r = C % (i + 1);
+    C = q * (n - i) + (r * (n - i)) / (i + 1);
+  }
   return C;
 }
 
-- 
2.43.0


From 7569a351d2016ea0765ed2dea00c70fb3609149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 10/26] fix: compress paths of all elements in
 disjoint_sets::compress_sets()

The loop was visiting parents of the elements instead of the elements, which
could leave trees of depth 2 behind. normalize_sets() requires fully compressed
trees to make every representative the smallest element of its set.
---
 include/libcommute/loperator/disjoint_sets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/disjoint_sets.hpp b/include/libcommute/loperator/disjoint_sets.hpp
index 3287b38..cde20ed 100644
--- a/include/libcommute/loperator/disjoint_sets.hpp
+++ b/include/libcommute/loperator/disjoint_sets.hpp
@@ -108,7 +108,7 @@ public:
 
   // Compress all sets (make every element represented by its parent)
   void compress_sets() {
-    for(std::size_t x : parents_)
+    for(std::size_t x = 0; x < size(); ++x)
       find_root(x);
   }
 
-- 
2.43.0


From be75b48b2a500fbd9e6a4c1dda8149fa3ad593e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 11/26] fix: do not forward coefficient arguments of
 parametric_loperator repeatedly

An rvalue argument was moved into the first evaluated coefficient taking it by
value, and all other coefficients received a moved-from object.
---
 include/libcommute/loperator/loperator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..e0d9c9c 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -226,8 +226,8 @@ public:
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      // The arguments are used repeatedly and must not be forwarded
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -246,8 +246,9 @@ private:
     // Evaluate coefficients
     evaluated_coeffs.reserve(m_act.size());
     for(auto const& a : m_act)
+      // The arguments are used repeatedly and must not be forwarded
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From b14db1f6051bd713789a8dec7c20487c0250bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 12/26] fix: merge targets of all merged 'in' subspaces in
 merge_subspaces()

merge_conn_targets() only compared adjacent entries of the connection map, but
merged 'in' subspaces are not necessarily adjacent. As a result, the operators
could be left with many-to-one connections.
---
 .../libcommute/loperator/space_partition.hpp  | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..a8a322a 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -177,21 +177,16 @@ public:
 
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // 'In' subspaces that have already been merged are not necessarily
+      // adjacent in 'conn', so look up targets by the 'in' representative.
+      std::map<sv_index_type, sv_index_type> targets;
+      for(auto const& c : conn) {
+        auto it = targets.emplace(ds.find_root(c.first), c.second).first;
+        sv_index_type out_subspace1 = ds.find_root(it->second);
+        sv_index_type out_subspace2 = ds.find_root(c.second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From 9cd57e3d47754301a36055a68f3bd7b1626bf262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 13/26] fix: apply composed operators in the documented order
 in basis_mapper

The constructor was collecting basis states of O_M^{n_M} ... O_1^{n_1} |vac>
instead of O_1^{n_1} ... O_M^{n_M} |vac>, which is different when the operators
do not commute.
---
 include/libcommute/loperator/mapped_basis_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..e8f4fdd 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -156,7 +156,8 @@ class basis_mapper {
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
-      O_list[m](from_st, to_st);
+      // The rightmost operator in O_1^{n_1} ... O_M^{n_M} is applied first
+      O_list[O_list.size() - 1 - m](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
       compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
       from_st = to_st;
-- 
2.43.0


From f0dc13654dab0f4be9b93ae0d1fc36a5e06777dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 14/26] fix: allow subtracting an expression from itself in
 place

'e -= e' was incrementing an iterator to an erased element and crashed.
The same applies to 'e += e' with scalars, for which a + a can vanish.
---
 include/libcommute/expression/expression.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..187206f 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -246,7 +246,11 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
-    for(auto const& p : expr.get_monomials()) {
+    auto const& mons = expr.get_monomials();
+    for(auto p_it = mons.begin(); p_it != mons.end();) {
+      // Advance the iterator first, as 'expr' can be the same object as '*this'
+      // and the current element can be erased.
+      auto const& p = *(p_it++);
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p);
@@ -261,7 +265,11 @@ public:
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
     auto const z = scalar_traits<ScalarType>::make_const(0);
-    for(auto const& p : expr.get_monomials()) {
+    auto const& mons = expr.get_monomials();
+    for(auto p_it = mons.begin(); p_it != mons.end();) {
+      // Advance the iterator first, as 'expr' can be the same object as '*this'
+      // and the current element can be erased.
+      auto const& p = *(p_it++);
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p.first, z - p.second);
-- 
2.43.0


From f18b01302677a7c370724ab266e30d47f0a00a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 15/26] fix: recognise a vanishing real or rational permutation
 coefficient

swap_with() is allowed to return a zero of any var_number kind, but only the
integer zero stopped the normalization of a monomial.
---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 187206f..4fab1b2 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -676,7 +676,7 @@ private:
 
             process_f(n);
 
-            if(c == 0) { // We have to stop sorting here as all contributions
+            if(c.is_zero()) { // We have to stop sorting here as all contributions
                          // to the currently processed monomial are already
                          // taken care of by process_f(n).
               return;
-- 
2.43.0


From 499f9588b94812c5fdde512f825a2832afbd323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 16/26] fix: simplify products of all neighbours when
 normalizing a monomial

The bubble sort was not revisiting the tail of the monomial, so that a pair of
generators brought into the canonical order by the last swap was never passed
to simplify_prod().
---
 include/libcommute/expression/expression.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 4fab1b2..ee58bd2 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -662,7 +662,9 @@ private:
         }
       };
 
-      std::size_t n_max = m.size() - 1;
+      // All pairs are inspected at every pass, because a swap can turn a pair
+      // of neighbours into one whose product has to be simplified.
+      std::size_t const n_max = m.size() - 1;
       bool is_swapped = false;
       do {
         is_swapped = false;
@@ -693,7 +695,6 @@ private:
             }
           }
         }
-        --n_max;
       } while(is_swapped);
 
       // Check that coefficient in front of this monomial is not zero
-- 
2.43.0


From 68d335d2406e7c43be7523fed14e1131407d8d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 17/26] fix: normalize monomials produced by the constant term
 of reduce_power()

Reducing g^p to a constant creates new neighbours, whose product may have to
be simplified.
---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index ee58bd2..a90b641 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -730,7 +730,7 @@ private:
             auto v = scalar_traits<ScalarType>::make_const(f.const_term);
             // cppcheck-suppress knownConditionTrueFalse
             if(!scalar_traits<ScalarType>::is_zero(v))
-              reduce_powers_and_store(
+              normalize_and_store(
                   concatenate(std::make_pair(m.begin(), it - power + 2),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
-- 
2.43.0


From ff764ddffa0995845bd8776f8a4d413264a33a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 18/26] fix: never store monomials with vanishing coefficients

Conversion between scalar types, multiplication by a scalar and products of
short monomials could leave zero coefficients behind (narrowing, underflow below
the is_zero() threshold, rings with zero divisors).
---
 include/libcommute/expression/expression.hpp | 50 +++++++++++++++-----
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index a90b641..54a16e4 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -126,8 +126,11 @@ public:
     static_assert(std::is_constructible<scalar_type, S>::value,
                   "Incompatible scalar type in assignment");
     monomials_.clear();
-    for(auto const& y : x.get_monomials())
-      monomials_.emplace(monomial_t(y.first), scalar_type(y.second));
+    for(auto const& y : x.get_monomials()) {
+      scalar_type val(y.second);
+      if(!scalar_traits<scalar_type>::is_zero(val))
+        monomials_.emplace(monomial_t(y.first), std::move(val));
+    }
     return *this;
   }
 
@@ -387,9 +390,11 @@ public:
   expression& operator*=(S const& alpha) {
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
-    else
+    else {
       for(auto& p : monomials_)
         mul_assign(p.second, alpha);
+      remove_vanishing_terms();
+    }
     return *this;
   }
 
@@ -696,11 +701,11 @@ private:
           }
         }
       } while(is_swapped);
-
-      // Check that coefficient in front of this monomial is not zero
-      if(scalar_traits<ScalarType>::is_zero(coeff)) return;
     }
 
+    // Check that coefficient in front of this monomial is not zero
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
+
     // Store the result
     reduce_powers_and_store(std::move(m), coeff, target);
   }
@@ -759,6 +764,17 @@ private:
   // Multiplication by scalar
   //
 
+  // Remove monomials with coefficients that have become zero, e.g. because
+  // ScalarType is a ring with zero divisors or due to a floating-point underflow
+  void remove_vanishing_terms() {
+    for(auto it = monomials_.begin(); it != monomials_.end();) {
+      if(scalar_traits<ScalarType>::is_zero(it->second))
+        it = monomials_.erase(it);
+      else
+        ++it;
+    }
+  }
+
   // Multiplication by scalar (postfix form)
   // mul_res_t<ScalarType, S> == ScalarType
   template <typename S>
@@ -767,6 +783,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       mul_assign(p.second, alpha);
+    res.remove_vanishing_terms();
     return res;
   }
 
@@ -776,10 +793,14 @@ private:
   inline expression_t<mul_res_t<ScalarType, S>>
   // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   mul_const_postfix_impl(S&& alpha, std::false_type) const {
-    expression_t<mul_res_t<ScalarType, S>> res;
+    using res_s_t = mul_res_t<ScalarType, S>;
+    expression_t<res_s_t> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, p.second * alpha);
+    for(auto const& p : monomials_) {
+      res_s_t val = p.second * alpha;
+      if(!scalar_traits<res_s_t>::is_zero(val))
+        res_mons.emplace_hint(res_mons.end(), p.first, std::move(val));
+    }
     return res;
   }
 
@@ -791,6 +812,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       p.second = alpha * p.second;
+    res.remove_vanishing_terms();
     return res;
   }
 
@@ -800,10 +822,14 @@ private:
   inline expression_t<mul_res_t<S, ScalarType>>
   // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   mul_const_prefix_impl(S&& alpha, std::false_type) const {
-    expression_t<mul_res_t<S, ScalarType>> res;
+    using res_s_t = mul_res_t<S, ScalarType>;
+    expression_t<res_s_t> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, alpha * p.second);
+    for(auto const& p : monomials_) {
+      res_s_t val = alpha * p.second;
+      if(!scalar_traits<res_s_t>::is_zero(val))
+        res_mons.emplace_hint(res_mons.end(), p.first, std::move(val));
+    }
     return res;
   }
 
-- 
2.43.0


From 82005107b082d8149527e2e1d96c53b0e10f389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 19/26] fix: make expression *= scalar safe for references to
 own coefficients

---
 include/libcommute/expression/expression.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 54a16e4..8603d52 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -391,8 +391,10 @@ public:
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
     else {
+      // 'alpha' can be a reference to a coefficient of this very expression
+      auto const alpha_copy = alpha;
       for(auto& p : monomials_)
-        mul_assign(p.second, alpha);
+        mul_assign(p.second, alpha_copy);
       remove_vanishing_terms();
     }
     return *this;
-- 
2.43.0


From eec12512aed180e83973ab05acb1b8a459139153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 20/26] fix: do not simplify products of spin-1/2 and higher
 spin generators

Generators of spins with different multiplicities commute even when their
indices coincide. simplify_prod() treated the second generator as a component
of the same spin-1/2.
---
 include/libcommute/expression/generator_spin.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..94a3197 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,8 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 || g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From 63344da6a04349946b7a3f1e74f02603708f7434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 21/26] fix: refuse generators of other algebras in
 single-algebra es_constructor

---
 include/libcommute/loperator/es_constructor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 7b38ece..093d829 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -143,6 +143,8 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(g.algebra_id() != fermion)
+      throw es_construction_failure<IndexTypes...>(g);
     return make_unique<elementary_space_fermion<IndexTypes...>>(g.indices());
   }
 };
@@ -158,6 +160,8 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(g.algebra_id() != boson)
+      throw es_construction_failure<IndexTypes...>(g);
     return make_unique<elementary_space_boson<IndexTypes...>>(dim_boson_,
                                                               g.indices());
   }
@@ -170,6 +174,8 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(g.algebra_id() != spin)
+      throw es_construction_failure<IndexTypes...>(g);
     double s = dynamic_cast<generator_spin<IndexTypes...> const&>(g).spin();
     return make_unique<elementary_space_spin<IndexTypes...>>(s, g.indices());
   }
-- 
2.43.0


From a3216ef056a4c40ef9db581f16ce3c9bebdf7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 22/26] fix: iterate over compressed views of one-dimensional
 Hilbert spaces

---
 include/libcommute/loperator/compressed_state_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/compressed_state_view.hpp b/include/libcommute/loperator/compressed_state_view.hpp
index 8a8032e..4a3c88f 100644
--- a/include/libcommute/loperator/compressed_state_view.hpp
+++ b/include/libcommute/loperator/compressed_state_view.hpp
@@ -95,7 +95,8 @@ private:
             mask = 0;
           }
         });
-    if(dim != 1) {
+    // A product of one-dimensional spaces has one basis state
+    if(dim != 1 || (sizes.empty() && hs.size() != 0)) {
       sizes.push_back(dim);
       masks.push_back(mask);
     }
-- 
2.43.0


From a52658f4fc1d22332689524b1d3306478b2bfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 23/26] fix: store no vanishing coefficients when scalars are
 narrowed

Constructors and compound additions accept scalars of other types, whose
conversion to the scalar type of the expression can give zero.
---
 include/libcommute/expression/expression.hpp | 31 ++++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 8603d52..71c4b2b 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -90,7 +90,11 @@ public:
     // NOLINTNEXTLINE(modernize-type-traits)
     static_assert(std::is_constructible<scalar_type, S>::value,
                   "Incompatible scalar type in construction");
-    if(!scalar_traits<S>::is_zero(x)) monomials_.emplace(monomial_t{}, x);
+    if(!scalar_traits<S>::is_zero(x)) {
+      scalar_type val(x);
+      if(!scalar_traits<scalar_type>::is_zero(val))
+        monomials_.emplace(monomial_t{}, std::move(val));
+    }
   }
 
   // Construct from a monomial
@@ -255,9 +259,11 @@ public:
       // and the current element can be erased.
       auto const& p = *(p_it++);
       auto it = monomials_.find(p.first);
-      if(it == monomials_.end())
-        monomials_.emplace(p);
-      else {
+      if(it == monomials_.end()) {
+        scalar_type val(p.second);
+        if(!scalar_traits<scalar_type>::is_zero(val))
+          monomials_.emplace(p.first, std::move(val));
+      } else {
         add_assign(it->second, p.second);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
       }
@@ -274,9 +280,11 @@ public:
       // and the current element can be erased.
       auto const& p = *(p_it++);
       auto it = monomials_.find(p.first);
-      if(it == monomials_.end())
-        monomials_.emplace(p.first, z - p.second);
-      else {
+      if(it == monomials_.end()) {
+        scalar_type val(z - p.second);
+        if(!scalar_traits<scalar_type>::is_zero(val))
+          monomials_.emplace(p.first, std::move(val));
+      } else {
         sub_assign(it->second, p.second);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
       }
@@ -409,7 +417,8 @@ public:
       if(it == monomials_.end()) {
         auto val = scalar_traits<ScalarType>::make_const(0);
         add_assign(val, alpha);
-        monomials_.emplace_hint(monomials_.begin(), monomial_t{}, val);
+        if(!scalar_traits<ScalarType>::is_zero(val))
+          monomials_.emplace_hint(monomials_.begin(), monomial_t{}, val);
       } else {
         add_assign(it->second, alpha);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -426,7 +435,11 @@ public:
     if(!scalar_traits<s_t>::is_zero(alpha)) {
       auto it = monomials_.find(monomial_t{});
       if(it == monomials_.end()) {
-        monomials_.emplace_hint(monomials_.begin(), monomial_t{}, z - alpha);
+        scalar_type val(z - alpha);
+        if(!scalar_traits<scalar_type>::is_zero(val))
+          monomials_.emplace_hint(monomials_.begin(),
+                                  monomial_t{},
+                                  std::move(val));
       } else {
         sub_assign(it->second, alpha);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
-- 
2.43.0


From 71ab2c40d5e081907ebd248294d1eae3823bc548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:10 +0000
Subject: [PATCH 24/26] fix: count bits correctly without compiler built-ins

The portable branch of detail::popcount() folded the bits as the computation
of the parity does, without counting them.
---
 include/libcommute/loperator/bit_ops.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/libcommute/loperator/bit_ops.hpp b/include/libcommute/loperator/bit_ops.hpp
index b3e7c69..634f87c 100644
--- a/include/libcommute/loperator/bit_ops.hpp
+++ b/include/libcommute/loperator/bit_ops.hpp
@@ -57,13 +57,11 @@ inline unsigned int popcount(std::uint64_t i) {
 #if defined(__GNUC__) || defined(__clang__)
   return __builtin_popcountll(i);
 #else
-  i ^= i >> 32;
-  i ^= i >> 16;
-  i ^= i >> 8;
-  i ^= i >> 4;
-  i ^= i >> 2;
-  i ^= i >> 1;
-  return i;
+  // https://graphics.stanford.edu/%7Eseander/bithacks.html#CountBitsSetParallel
+  i = i - ((i >> 1) & 0x5555555555555555);
+  i = (i & 0x3333333333333333) + ((i >> 2) & 0x3333333333333333);
+  i = (i + (i >> 4)) & 0x0f0f0f0f0f0f0f0f;
+  return (i * 0x0101010101010101) >> 56;
 #endif
 }
 
-- 
2.43.0


From d2a73e06a1b2c76b3ead0d6d40530672e02a8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:09 +0000
Subject: [PATCH 25/26] fix: keep rational constants canonical in
 scalar_traits<mpq_class>

mpq_class(num, den) does not cancel common factors and does not move the
sign to the numerator, and GMP's comparisons require canonical operands:
structure constants like var_number(2, 4) or var_number(1, -2) gave
coefficients unequal to 1/2 and -1/2.
---
 include/libcommute/scalars/gmpxx.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/scalars/gmpxx.hpp b/include/libcommute/scalars/gmpxx.hpp
index 0f9ce71..549b2d7 100644
--- a/include/libcommute/scalars/gmpxx.hpp
+++ b/include/libcommute/scalars/gmpxx.hpp
@@ -123,9 +123,11 @@ template <> struct scalar_traits<mpq_class> {
   static mpq_class make_const(var_number const& vn) {
     if(vn.number_type == var_number::integer)
       return int(vn);
-    else if(vn.number_type == var_number::rational)
-      return {vn.numerator(), vn.denominator()};
-    else {
+    else if(vn.number_type == var_number::rational) {
+      mpq_class q(vn.numerator(), vn.denominator());
+      q.canonicalize();
+      return q;
+    } else {
       std::stringstream ss;
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
-- 
2.43.0


From efe4efa763df2b416462ce8b65c4897a9e111acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:14 +0000
Subject: [PATCH 26/26] fix: let construction rules of elementary spaces be
 copied as a whole

---
 include/libcommute/loperator/es_constructor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 093d829..4920b37 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -130,6 +130,17 @@ public:
   template <typename... Args>
   // cppcheck-suppress noExplicitConstructor
   inline es_constructor(Args&&... args) : base(std::forward<Args>(args)...) {}
+
+  // Value semantics
+  es_constructor(es_constructor const&) = default;
+  // Without this overload, copies of non-constant objects would be made by the
+  // variadic constructor, which does not copy 'base' as a whole.
+  es_constructor(es_constructor& esc)
+    : es_constructor(static_cast<es_constructor const&>(esc)) {}
+  es_constructor(es_constructor&&) noexcept = default;
+  es_constructor& operator=(es_constructor const&) = default;
+  es_constructor& operator=(es_constructor&&) noexcept = default;
+  ~es_constructor() = default;
 };
 
 //
-- 
2.43.0


From ae202a1f9fc34f0f40b9beb62a4cc7f5a7555cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 01/45] fix: contraction of bosonic symmetric edges that do not
 share every sector

The sectors that only one side of a contracted edge has are cut before merging,
but without split or reverse the data loop still visited the blocks of the cut
sectors and threw std::out_of_range.
---
 include/TAT/edge_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..05eeb57 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -520,7 +520,8 @@ namespace TAT {
       using MapFromTransposeToSourceDestination = NormalMapFromTransposeToSourceDestination;
 #endif
       auto data_before_transpose_to_source = MapFromTransposeToSourceDestination();
-      if (!split_map.empty() || (is_fermi && !reversed_name.empty())) {
+      // 如果有cut, 那么被cut掉的symmetry所在的block不应出现, 所以也需要根据cut后的edge生成
+      if (!split_map.empty() || (is_fermi && !reversed_name.empty()) || !edge_and_symmetries_to_cut_before_all.empty()) {
          // 需要使用reversed前的symmetry，所以
          // 1. 上面判断了是否reversed为空，不然else中的edge不正确 2.下面使用edge_after_split而不是edge_before_transpose
          for (auto& [symmetries_before_transpose, size] : initialize_block_symmetries_with_check(edge_after_split)) {
-- 
2.43.0


From 171c4b1f7b19424c998d4fa35019308816870ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 02/45] fix: splitting an edge without sectors into no edge

Contracting two tensors without any common block to a scalar threw
std::out_of_range instead of giving zero.
---
 include/TAT/edge_operator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 05eeb57..e22aad3 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -209,8 +209,11 @@ namespace TAT {
                loop_edge(
                      edge_list_after_split,
                      split_rank,
-                     [&this_offset]() {
-                        this_offset[pmr::vector<Symmetry>{}] = {Symmetry(), 0};
+                     [&this_offset, &offset_bank]() {
+                        // 和下面一样, 被split的边上可能没有这个symmetry
+                        if (offset_bank.find(Symmetry()) != offset_bank.end()) {
+                           this_offset[pmr::vector<Symmetry>{}] = {Symmetry(), 0};
+                        }
                      },
                      []() {},
                      [&](const auto& symmetry_iterator_list, Rank minimum_changed) {
-- 
2.43.0


From 641ed8182e0e65a157b40735f02a67c1a203fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 03/45] fix: uninitialized arrow of a merged edge without any
 directed part

The garbage reached the free edges of contraction results.
---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index e22aad3..04a76be 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -402,7 +402,7 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
-- 
2.43.0


From 0ee920a3f9cdb80b935d5abdd2fa04ef9e86d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 04/45] fix: order of sectors when several conjugated edges are
 contracted together

Merging several common edges enumerates their sectors in increasing order
in both tensors, but the sectors of one tensor are the negation of those of
the other one, so the k index of the two matrices did not match for U1-like
symmetries.
---
 include/TAT/contract.hpp      |  5 ++++-
 include/TAT/edge.hpp          | 19 +++++++++++++++++++
 include/TAT/edge_operator.hpp | 24 ++++++++++++++++--------
 include/TAT/tensor.hpp        |  6 ++++--
 4 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index fb83f36..3577441 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -509,7 +509,10 @@ namespace TAT {
                                  pmr::vector<Name>{InternalName<Name>::Contract_1, InternalName<Name>::Contract_2},
             false,
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {}}},
-            delete_2);
+            delete_2,
+            // 公共边在两个张量中互为共轭, 需要使得merge后的排列一致
+            // 费米张量缩并多条边的已有结果记录在test/simple_test.out中, 故保持不变
+            is_fermi ? pmr::set<Name>{} : pmr::set<Name>{InternalName<Name>::Contract_1});
       // calculate_product
       auto product_result = Tensor<ScalarType, Symmetry, Name>(
             {InternalName<Name>::Contract_1, InternalName<Name>::Contract_2},
diff --git a/include/TAT/edge.hpp b/include/TAT/edge.hpp
index 41235a3..e31a092 100644
--- a/include/TAT/edge.hpp
+++ b/include/TAT/edge.hpp
@@ -310,6 +310,25 @@ namespace TAT {
       }
    }
 
+   /**
+    * 与loop_edge相同, 但是conjugated为真时, 遍历的是各个edge的共轭, 即各个对称性被取负
+    * \private
+    */
+   template<typename T, typename F1, typename F2, typename F3>
+   void loop_edge_possibly_conjugated(const bool conjugated, const T* edges, const Rank rank, F1&& rank0, F2&& dims0, F3&& operate) {
+      if (conjugated) {
+         auto conjugated_edges = pmr::vector<BoseEdge<typename T::symmetry_type>>(rank);
+         for (Rank i = 0; i < rank; i++) {
+            for (const auto& [symmetry, dimension] : edges[i].map) {
+               conjugated_edges[i].map[-symmetry] = dimension;
+            }
+         }
+         loop_edge(conjugated_edges.data(), rank, rank0, dims0, operate);
+      } else {
+         loop_edge(edges, rank, rank0, dims0, operate);
+      }
+   }
+
    /// \private
    template<typename T>
    [[nodiscard]] auto initialize_block_symmetries_with_check(const T& edges) {
diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 04a76be..bcc47f3 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -50,7 +50,8 @@ namespace TAT {
          typename MapNameVectorName,
          typename VectorName,
          typename SetName2,
-         typename MapNameMapSymmetrySize>
+         typename MapNameMapSymmetrySize,
+         typename SetName3>
    [[nodiscard]] Tensor<ScalarType, Symmetry, Name> Tensor<ScalarType, Symmetry, Name>::edge_operator(
          const MapNameName& rename_map,
          const MapNameVectorNameAndEdge& split_map,
@@ -59,7 +60,8 @@ namespace TAT {
          const VectorName& new_names,
          const bool apply_parity,
          const std::array<SetName2, 4>& parity_exclude_name,
-         const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all) const {
+         const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all,
+         const SetName3& conjugated_name) const {
       auto timer_guard = transpose_guard();
       auto pmr_guard = scope_resource<>();
       // step 1: rename and cut
@@ -74,6 +76,8 @@ namespace TAT {
       // parity_exclude_name的四部分分别是split, reverse, reverse_for_merge, merge
       // name 均为rename后的名称，split取split前， merge取merge后
 
+      // conjugated_name中的边在split或merge时, 各个子块按照共轭对称性的顺序排列, 从而与其共轭的边的排列一致
+
       // is_fermi
       constexpr auto is_fermi = is_fermi_symmetry_v<Symmetry>;
 
@@ -206,7 +210,9 @@ namespace TAT {
                auto accumulated_symmetries = pmr::vector<Symmetry>(split_rank);
                auto accumulated_dimensions = pmr::vector<Size>(split_rank);
                auto current_symmetries = pmr::vector<Symmetry>(split_rank);
-               loop_edge(
+               const bool conjugated = conjugated_name.find(name_before_split[position_before_split]) != conjugated_name.end();
+               loop_edge_possibly_conjugated(
+                     conjugated,
                      edge_list_after_split,
                      split_rank,
                      [&this_offset, &offset_bank]() {
@@ -222,9 +228,9 @@ namespace TAT {
                            accumulated_symmetries[i] = symmetry_iterator->first + (i ? accumulated_symmetries[i - 1] : Symmetry());
                            accumulated_dimensions[i] = symmetry_iterator->second * (i ? accumulated_dimensions[i - 1] : 1);
                            // do not check dim=0, because in constructor, it didn't check
-                           current_symmetries[i] = symmetry_iterator->first;
+                           current_symmetries[i] = conjugated ? -symmetry_iterator->first : symmetry_iterator->first;
                         }
-                        auto target_symmetry = accumulated_symmetries.back();
+                        auto target_symmetry = conjugated ? -accumulated_symmetries.back() : accumulated_symmetries.back();
                         auto target_dimension = accumulated_dimensions.back();
                         // 这是可能不存在的, 不存在的情况是因为此target_symmetry没有有效block
                         // split后的各个symmetry指向了一个不存在的split前symmetry
@@ -436,7 +442,9 @@ namespace TAT {
             auto current_symmetries = pmr::vector<Symmetry>(merge_rank);
 
             if (merge_rank != 1) {
-               loop_edge(
+               const bool conjugated = conjugated_name.find(name_after_merge[position_after_merge]) != conjugated_name.end();
+               loop_edge_possibly_conjugated(
+                     conjugated,
                      edge_before_merge.data() + start_of_merge,
                      merge_rank,
                      [&merged_edge, &this_offset]() {
@@ -450,9 +458,9 @@ namespace TAT {
                            accumulated_symmetries[i] = symmetry_iterator->first + (i ? accumulated_symmetries[i - 1] : Symmetry());
                            accumulated_dimensions[i] = symmetry_iterator->second * (i ? accumulated_dimensions[i - 1] : 1);
                            // do not check dim=0, because in constructor, i didn't check
-                           current_symmetries[i] = symmetry_iterator->first;
+                           current_symmetries[i] = conjugated ? -symmetry_iterator->first : symmetry_iterator->first;
                         }
-                        auto target_symmetry = accumulated_symmetries.back();
+                        auto target_symmetry = conjugated ? -accumulated_symmetries.back() : accumulated_symmetries.back();
                         this_offset[current_symmetries] = {target_symmetry, merged_edge.map[target_symmetry]};
                         merged_edge.map[target_symmetry] += accumulated_dimensions.back();
                         return merge_rank;
diff --git a/include/TAT/tensor.hpp b/include/TAT/tensor.hpp
index 655411f..ad9267d 100644
--- a/include/TAT/tensor.hpp
+++ b/include/TAT/tensor.hpp
@@ -471,7 +471,8 @@ namespace TAT {
             typename MapNameVectorName = pmr::map<Name, std::vector<Name>>,
             typename VectorName = pmr::vector<Name>,
             typename SetName2 = pmr::set<Name>,
-            typename MapNameMapSymmetrySize = pmr::map<Name, std::map<Symmetry, Size>>>
+            typename MapNameMapSymmetrySize = pmr::map<Name, std::map<Symmetry, Size>>,
+            typename SetName3 = pmr::set<Name>>
       [[nodiscard]] Tensor<ScalarType, Symmetry, Name> edge_operator(
             const MapNameName& rename_map,
             const MapNameVectorNameAndEdge& split_map,
@@ -480,7 +481,8 @@ namespace TAT {
             const VectorName& new_names,
             bool apply_parity = false,
             const std::array<SetName2, 4>& parity_exclude_name = {{{}, {}, {}, {}}},
-            const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all = {}) const;
+            const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all = {},
+            const SetName3& conjugated_name = {}) const;
 
       /**
        * 对张量边的名称进行重命名
-- 
2.43.0


From 00b5087c3d44268ab2069dac8f23180a71fe444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:26 +0000
Subject: [PATCH 05/45] fix: trace over several pairs of U1-like edges, and
 over edges that do not share every sector

---
 include/TAT/trace.hpp | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index f71b71c..a962704 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -99,6 +99,28 @@ namespace TAT {
             }
          }
       }
+      // 与contract相同, 仅存在于一侧的symmetry对结果没有贡献, 需要去掉
+      auto delete_map = pmr::map<Name, pmr::map<Symmetry, Size>>();
+      auto delete_unused_dimension = [&](const Name& name_this, const Name& name_other) {
+         const auto& edge_this = core->edges[name_to_index.at(name_this)];
+         const auto& edge_other = core->edges[name_to_index.at(name_other)];
+         if constexpr (is_fermi) {
+            if (edge_this.arrow == edge_other.arrow) {
+               TAT_error("Different Fermi Arrow to Trace");
+            }
+         }
+         for (const auto& [symmetry, dimension] : edge_this.map) {
+            if (auto found = edge_other.map.find(-symmetry); found == edge_other.map.end()) {
+               delete_map[name_this][symmetry] = 0;
+            } else if (found->second != dimension) {
+               TAT_error("Different Dimension to Trace");
+            }
+         }
+      };
+      for (Rank i = 0; i < trace_1_names.size(); i++) {
+         delete_unused_dimension(trace_1_names[i], trace_2_names[i]);
+         delete_unused_dimension(trace_2_names[i], trace_1_names[i]);
+      }
       auto merged_tensor = edge_operator(
             {},
             {},
@@ -109,17 +131,24 @@ namespace TAT {
                   {InternalName<Name>::Trace_3, result_names}},
             pmr::vector<Name>{InternalName<Name>::Trace_1, InternalName<Name>::Trace_2, InternalName<Name>::Trace_3},
             false,
-            std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}});
+            std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}},
+            delete_map,
+            // Trace_1与Trace_2互为共轭, 需要使得merge后的排列一致
+            pmr::set<Name>{InternalName<Name>::Trace_2});
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
-      auto& destination_block = traced_tensor.core->blocks.begin()->second;
-      // 应该只有一个边, 所以也只有一个block
-      const Size line_size = destination_block.size();
+      // 应该只有一个边, 所以最多只有一个block, 如果没有block则结果为空
+      const bool has_block = traced_tensor.core->blocks.size() != 0;
 
       for (const auto& [symmetry_1, dimension] : merged_tensor.core->edges[0].map) {
          // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
          auto symmetry_2 = -symmetry_1;
-         auto source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
+         if (!has_block || merged_tensor.core->edges[1].map.find(symmetry_2) == merged_tensor.core->edges[1].map.end()) {
+            continue;
+         }
+         auto& destination_block = traced_tensor.core->blocks.begin()->second;
+         const Size line_size = destination_block.size();
+         const auto& source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
          auto dimension_plus_one = dimension + 1;
          for (Size i = 0; i < dimension; i++) {
             const ScalarType* __restrict source_data = source_block.data() + dimension_plus_one * i * line_size;
-- 
2.43.0


From cbfae321dee3fc6e3e0a4f1196c2ef5094562248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:59 +0000
Subject: [PATCH 06/45] fix: exponential over several pairs of U1-like edges

---
 include/TAT/exponential.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 606c54c..fd46756 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -230,14 +230,18 @@ namespace TAT {
             result_names.push_back(i);
          }
       }
-      auto tensor_merged = edge_operator({}, {}, reverse_set, merge_map, merged_names);
+      // Exp_1与Exp_2互为共轭, 需要使得merge后的排列一致
+      const auto conjugated_names = pmr::set<Name>{InternalName<Name>::Exp_2};
+      const auto no_parity = std::array<pmr::set<Name>, 4>{{{}, {}, {}, {}}};
+      const auto no_cut = pmr::map<Name, pmr::map<Symmetry, Size>>();
+      auto tensor_merged = edge_operator({}, {}, reverse_set, merge_map, merged_names, false, no_parity, no_cut, conjugated_names);
       auto result = tensor_merged.same_shape();
       for (auto& [symmetries, data_source] : tensor_merged.core->blocks) {
          auto& data_destination = result.core->blocks.at(symmetries);
          auto n = tensor_merged.core->edges[0].map.at(symmetries[0]);
          matrix_exponential(n, data_source.data(), data_destination.data(), step);
       }
-      return result.edge_operator({}, split_map_result, reverse_set, {}, result_names);
+      return result.edge_operator({}, split_map_result, reverse_set, {}, result_names, false, no_parity, no_cut, conjugated_names);
    }
 } // namespace TAT
 #endif
-- 
2.43.0


From 700c70acb2d9c3e745ace423fd309b54470d2a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:59 +0000
Subject: [PATCH 07/45] fix: identity wrote into blocks without diagonal
 elements

---
 include/TAT/tensor_miscellaneous.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..b1bb493 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -242,6 +242,16 @@ namespace TAT {
       auto result = same_shape().zero();
 
       for (auto& [symmetries, block] : result.core->blocks) {
+         // 每一对边上的symmetry都相反的block才含有对角元
+         bool diagonal = true;
+         for (const auto& [index_1, index_2] : ordered_pair_index) {
+            if (symmetries[index_1] + symmetries[index_2] != Symmetry()) {
+               diagonal = false;
+            }
+         }
+         if (!diagonal) {
+            continue;
+         }
          auto dimension = pmr::vector<Size>(rank);
          auto leading = pmr::vector<Size>(rank);
          for (Rank i = rank; i-- > 0;) {
-- 
2.43.0


From 5851326f34bf0bf8c616fe7cca581a6fe62bb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:14 +0000
Subject: [PATCH 08/45] fix: truncated svd when fewer singular values than
 requested are non-zero

---
 include/TAT/svd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index 3d0acb9..feb8039 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -366,7 +366,7 @@ namespace TAT {
          }
          for (Size i = 0; i < cut; i++) {
             Symmetry maximum_position;
-            real_base_t<ScalarType> maximum_singular = 0;
+            real_base_t<ScalarType> maximum_singular = -1; // 奇异值为零时也需要选出一个
             for (const auto& [symmetry, vector_s] : result_s) {
                if (auto& this_remain = remain_dimension_u.at(symmetry); this_remain != vector_s.size()) {
                   if (auto this_singular = vector_s[this_remain]; this_singular > maximum_singular) {
-- 
2.43.0


From 8052f42a91f635baaeeecb992b61ded3fb71c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 09/45] fix: reading back the colored text of symmetric tensors
 and singular values

---
 include/TAT/io.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..f68368a 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -440,6 +440,12 @@ namespace TAT {
       return out;
    }
 
+   inline void ignore_color_code(std::istream& in) {
+      if (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType, typename Symmetry, typename Name>
    std::ostream& operator<<(std::ostream& out, const TensorShape<ScalarType, Symmetry, Name>& shape) {
       const auto& tensor = *shape.owner;
@@ -492,6 +498,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color_code(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -536,6 +543,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color_code(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From 9e46ec9735f6ac892f87f5a8d3f466493f4d9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:16 +0000
Subject: [PATCH 10/45] fix: reading a long edge name from text overflowed a
 buffer on the stack

---
 include/TAT/io.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index f68368a..b7cf09f 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -121,13 +121,10 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      name.clear();
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         name.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
       return in;
    }
 
-- 
2.43.0


From d3381ffa9d03ec9539a92eed86adabfe3648856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:14 +0000
Subject: [PATCH 11/45] fix: loading incomplete data gave uninitialized tensors
 or never ended

---
 include/TAT/io.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index b7cf09f..040ecd9 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -142,7 +142,7 @@ namespace TAT {
       return out;
    }
    inline std::istream& operator>(std::istream& in, std::string& string) {
-      Size count;
+      Size count = 0;
       in > count;
       string.resize(count);
       in.read(string.data(), sizeof(char) * count);
@@ -186,7 +186,7 @@ namespace TAT {
    template<typename Key, typename Value, typename = std::enable_if_t<is_symmetry_v<Key> || is_symmetry_vector_v<Key>>>
    std::istream& operator>(std::istream& in, std::map<Key, Value>& map) {
       map.clear();
-      Size size;
+      Size size = 0;
       in > size;
       for (Size i = 0; i < size; i++) {
          Key key;
@@ -265,7 +265,7 @@ namespace TAT {
    template<typename T, typename A>
    std::istream& operator>(std::istream& in, std::vector<T, A>& list) {
       list.clear();
-      Size count;
+      Size count = 0;
       in > count;
       if constexpr (std::is_trivially_destructible_v<T>) {
          list.resize(count);
@@ -644,6 +644,9 @@ namespace TAT {
    Tensor<ScalarType, Symmetry, Name>& Tensor<ScalarType, Symmetry, Name>::load(const std::string& input) & {
       std::istringstream in(input);
       in > *this;
+      if (!in) {
+         TAT_error("Incomplete Data to Load");
+      }
       return *this;
    }
 
@@ -662,6 +665,9 @@ namespace TAT {
    Singular<ScalarType, Symmetry, Name>& Singular<ScalarType, Symmetry, Name>::load(const std::string& input) & {
       std::istringstream in(input);
       in > *this;
+      if (!in) {
+         TAT_error("Incomplete Data to Load");
+      }
       return *this;
    }
 
-- 
2.43.0


From 293d7d81acde323e8b77bf30b6b2083846cbb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:22 +0000
Subject: [PATCH 12/45] fix: expand ignored the charge of the new edges

---
 include/TAT/shrink_and_expand.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 0e0ef35..aa4a889 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -51,11 +51,13 @@ namespace TAT {
             new_edges.push_back({{{Symmetry(), dimension}}});
          } else if constexpr (is_fermi) {
             const auto& [arrow, symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
          } else {
             const auto& [symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
-- 
2.43.0


From a48e4f2fba94c8558087d3bbb088264a79afe78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:25 +0000
Subject: [PATCH 13/45] fix: identity of a tensor without edges

---
 include/TAT/tensor_miscellaneous.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index b1bb493..b26b5df 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -188,6 +188,9 @@ namespace TAT {
       auto current_index = VectorSize(rank, 0);
       while (true) {
          *pointer = 1;
+         if (rank == 0) {
+            return;
+         }
          Rank active_position = rank - 1;
 
          current_index[active_position]++;
-- 
2.43.0


From 705aea8c979e0d8ea7260fbe2f5285b725f44cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:38 +0000
Subject: [PATCH 14/45] fix: send_receive within one process could wait for
 itself forever

---
 include/TAT/mpi.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/mpi.hpp b/include/TAT/mpi.hpp
index ad5a521..f99cdff 100644
--- a/include/TAT/mpi.hpp
+++ b/include/TAT/mpi.hpp
@@ -167,6 +167,10 @@ namespace TAT {
 
       template<typename Type>
       Type send_receive(const Type& value, const int source, const int destination) const {
+         if (source == destination) {
+            // 阻塞地发送给自己可能会死锁
+            return rank == source ? value : Type();
+         }
          if (rank == source) {
             send(value, destination);
          }
-- 
2.43.0


From aee994232e2dcfa41cb231f1818dd5765ac3eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:01 +0000
Subject: [PATCH 15/45] fix: restoring a snapshot left nodes outside of it with
 values of other inputs

---
 include/lazy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lazy.hpp b/include/lazy.hpp
index 702c833..f1eb70d 100644
--- a/include/lazy.hpp
+++ b/include/lazy.hpp
@@ -127,6 +127,8 @@ namespace lazy {
       }
 
       void load(std::any v) override {
+         // 不在快照中的下游也需要重置
+         unset();
          value = std::any_cast<std::shared_ptr<const Type>>(v);
       }
 
@@ -188,6 +190,8 @@ namespace lazy {
       node& operator=(node<Type>&&) = delete;
 
       void load(std::any v) override {
+         // 不在快照中的下游也需要重置
+         unset();
          value = std::any_cast<std::shared_ptr<const RealType>>(v);
       }
 
-- 
2.43.0


From fe01fc350d194d74bb190e0dfed2c352d4639ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:01 +0000
Subject: [PATCH 16/45] fix: an empty allocation could move the scratch memory
 beyond its buffer

---
 include/TAT/pmr_resource.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 720134e..34242ff 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -150,6 +150,9 @@ namespace TAT {
 
          void* do_allocate(std::size_t bytes, std::size_t alignment) override {
             std::size_t aligner = 0u;
+            if (bytes == 0) {
+               bytes = 1; // 和std::pmr一致, 否则对齐时可能超出当前buffer
+            }
             if (remaining_storage(alignment, aligner) < bytes) {
                aligner = 0u;
                increase_next_size_to(bytes);
-- 
2.43.0


From a0ce8bb6eafd4ea89cd4b5ecac3431c22df988dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:57 +0000
Subject: [PATCH 17/45] fix: transpose took any name for the first edge

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index bcc47f3..e2f7ef6 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -34,7 +34,7 @@ namespace TAT {
       if (size1 != size2) {
          return false;
       }
-      for (auto i = 1; i < size1; i++) {
+      for (auto i = 0; i < size1; i++) {
          if (vector1[i] != vector2[i]) {
             return false;
          }
-- 
2.43.0


From face2bd2cf94ebfd40df3a5932db6ffc98c1a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:37 +0000
Subject: [PATCH 18/45] fix: merging one edge twice instead of another read
 undefined data

---
 include/TAT/edge_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index e2f7ef6..b8bd7ec 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -348,6 +348,7 @@ namespace TAT {
       if (rank_at_transpose != name_before_merge.size()) {
          TAT_error("Tensor to transpose with Different Rank");
       }
+      check_valid_name(name_before_merge, rank_at_transpose);
 
       // 1.5 转置方案
       // to be easy, create name_to_index for name_3
-- 
2.43.0


From 993d9be9ed5eb437421bbfcda72d61fb72d8d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:37 +0000
Subject: [PATCH 19/45] fix: contracting edges of different dimensions without
 symmetry read out of bounds

---
 include/TAT/contract.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index 3577441..e82098c 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -619,6 +619,13 @@ namespace TAT {
       if (contract_names_1.size() != common_rank || contract_names_2.size() != common_rank) {
          TAT_error("Duplicated Contract Name");
       }
+      for (const auto& [name_1, name_2] : contract_names) {
+         const auto& edge_1 = tensor_1.core->edges[tensor_1.name_to_index.at(name_1)];
+         const auto& edge_2 = tensor_2.core->edges[tensor_2.name_to_index.at(name_2)];
+         if (!(edge_1 == edge_2)) {
+            TAT_error("Different Dimension to Contract");
+         }
+      }
       // 确认fuse name即相同名称的边
       pmr::set<Name> fuse_names;
       for (const auto& name : tensor_1.names) {
-- 
2.43.0


From 4ca183a13d874eec47aea4d23938a5a5946c2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:57 +0000
Subject: [PATCH 20/45] fix: copying the auxiliaries of a square lattice did
 not compile

The copy constructor handed a pointer to a lazy node to the setter of a
tensor and the copy assignment returned a pointer. Copies now share the
values of the sites that are set.
---
 include/square/auxiliaries_system.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/square/auxiliaries_system.hpp b/include/square/auxiliaries_system.hpp
index a822c49..b8265d9 100644
--- a/include/square/auxiliaries_system.hpp
+++ b/include/square/auxiliaries_system.hpp
@@ -43,15 +43,15 @@ namespace square {
       SquareAuxiliariesSystem(const SquareAuxiliariesSystem<T>& other) : SquareAuxiliariesSystem(other.M, other.N, other.dimension_cut) {
          for (auto i = 0; i < M; i++) {
             for (auto j = 0; j < N; j++) {
-               lattice[i][j]->set(other.lattice[i][j].get());
+               lattice[i][j]->load(other.lattice[i][j]->dump());
             }
          }
       }
       SquareAuxiliariesSystem& operator=(const SquareAuxiliariesSystem& other) {
          if (this != &other) {
-            new (this) SquareAuxiliariesSystem(other);
+            *this = SquareAuxiliariesSystem(other);
          }
-         return this;
+         return *this;
       }
       SquareAuxiliariesSystem(SquareAuxiliariesSystem<T>&& other) = default;
       SquareAuxiliariesSystem& operator=(SquareAuxiliariesSystem&& other) = default;
-- 
2.43.0


From 12c46e6cd9ab84d8218ab658de47900a6ea313d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:07 +0000
Subject: [PATCH 21/45] fix: sampling ended in an exception for operators with
 an empty row

The element tables had no entry for a spin configuration whose row of the
operator is zero, so the lookup of the current spins threw.
---
 include/square/sampling_gradient_lattice.hpp | 46 ++++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 09111b4..512dbd9 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -481,16 +481,18 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
+            auto spins_in = std::vector<int>();
+            auto spins_out = std::vector<int>();
+            for (auto i = 0; i < body; i++) {
+               spins_in.push_back(index[i]);
+            }
+            for (auto i = body; i < 2 * body; i++) {
+               spins_out.push_back(index[i]);
+            }
+            // 即使某一行全为零, 也需要存在对应的项
+            auto& row = result[std::move(spins_in)];
             if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               result[std::move(spins_in)][std::move(spins_out)] = value;
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
@@ -530,20 +532,18 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
-            if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               if (spins_in != spins_out) {
-                  result[std::move(spins_in)][std::move(spins_out)] = value;
-               } else {
-                  result[std::move(spins_in)];
-               }
+            auto spins_in = std::vector<int>();
+            auto spins_out = std::vector<int>();
+            for (auto i = 0; i < body; i++) {
+               spins_in.push_back(index[i]);
+            }
+            for (auto i = body; i < 2 * body; i++) {
+               spins_out.push_back(index[i]);
+            }
+            // 即使某一行全为零, 也需要存在对应的项
+            auto& row = result[spins_in];
+            if (value != T(0) && spins_in != spins_out) {
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
-- 
2.43.0


From aa6c5e3755263cbb5a044c4f4a80355887f66039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:07 +0000
Subject: [PATCH 22/45] fix: sampling used the elements of an operator that no
 longer exists

The element tables were kept by the address of the tensor only; a tensor
that was changed, or another one created later at the same address, got
the elements of the old one.
---
 include/square/sampling_gradient_lattice.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 512dbd9..a17b67d 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -456,10 +456,13 @@ namespace square {
          return ws;
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
+      // 持有core使其地址不会被其他张量重复使用
+      using element_map_key = std::tuple<decltype(Tensor<T>::core), std::vector<Name>>;
+
+      inline static std::map<element_map_key, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const Tensor<T>& tensor) const {
-         auto tensor_id = &tensor;
+         auto tensor_id = element_map_key(tensor.core, tensor.names);
          if (auto found = tensor_element_map.find(tensor_id); found != tensor_element_map.end()) {
             return found->second;
          }
@@ -507,10 +510,10 @@ namespace square {
          }
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
+      inline static std::map<element_map_key, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const Tensor<T>& tensor) const {
-         auto tensor_id = &tensor;
+         auto tensor_id = element_map_key(tensor.core, tensor.names);
          if (auto found = tensor_hopping_element_map.find(tensor_id); found != tensor_hopping_element_map.end()) {
             return found->second;
          }
-- 
2.43.0


From 93574e3a5cd841a6cc945b1e1646b9b8e4ca5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:07 +0000
Subject: [PATCH 23/45] fix: conjugate of complex numbers in the square lattice
 did not compile

---
 include/square/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/square/basic.hpp b/include/square/basic.hpp
index 650db66..786495a 100644
--- a/include/square/basic.hpp
+++ b/include/square/basic.hpp
@@ -56,7 +56,7 @@ namespace square {
    template<typename T>
    T conj(T input) {
       if constexpr (TAT::is_complex_v<T>) {
-         return input.conj();
+         return std::conj(input);
       } else {
          return input;
       }
-- 
2.43.0


From 9763a92ae46c8852aae4d519584ca45c8c9f5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:07 +0000
Subject: [PATCH 24/45] fix: ergodic sampling gave nan when a configuration has
 amplitude zero

Its contribution was divided and multiplied by the amplitude.
---
 include/square/sampling_gradient_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index a17b67d..6dc2fa4 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -301,9 +301,9 @@ namespace square {
                         map[positions[i]] = spins_out[i];
                      }
                      T wss = spin(map, ws);
-                     value += scalar_to<real<T>>(element * wss / ws);
+                     value += scalar_to<real<T>>(element * wss * conj(ws));
                   }
-                  result[kind][positions] += value * std::norm(ws);
+                  result[kind][positions] += value;
                }
             }
             if (calculate_energy) {
-- 
2.43.0


From 3a3ac9c6c43572c9499f88718f6e63ed5ca2672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 25/45] fix: expectation values of a complex exact lattice
 lacked the conjugate

---
 include/square/exact_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/square/exact_lattice.hpp b/include/square/exact_lattice.hpp
index a5e7097..663686e 100644
--- a/include/square/exact_lattice.hpp
+++ b/include/square/exact_lattice.hpp
@@ -90,7 +90,7 @@ namespace square {
       }
 
       real<T> denominator() const {
-         return vector.contract_all_edge(vector).template to<real<T>>();
+         return vector.contract_all_edge(vector.conjugate()).template to<real<T>>();
       }
 
       template<typename C>
@@ -108,7 +108,7 @@ namespace square {
          }
          auto numerator = common_vector.contract_all_edge(common_observer.edge_rename(map_in))
                                 .edge_rename(map_out)
-                                .contract_all_edge(common_vector)
+                                .contract_all_edge(common_vector.conjugate())
                                 .template to<real<T>>();
          if (calculate_denominator) {
             return real<T>(numerator) / denominator();
-- 
2.43.0


From e6c7af4e36f7983554ee0fa2d9a17fe76e853bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:23 +0000
Subject: [PATCH 26/45] fix: simple update applied a term given from right to
 left to swapped sites

---
 include/square/simple_update_lattice.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 4120730..e50c684 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -206,7 +206,9 @@ namespace square {
             const auto& position_2 = positions[1];
             if (std::get<0>(position_1) == std::get<0>(position_2)) {
                if (std::get<1>(position_1) == std::get<1>(position_2) + 1) {
-                  _single_term_simple_update_horizontal_bond(position_2, updater);
+                  _single_term_simple_update_horizontal_bond(
+                        position_2,
+                        updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}}));
                   return;
                }
                if (std::get<1>(position_1) + 1 == std::get<1>(position_2)) {
@@ -216,7 +218,9 @@ namespace square {
             }
             if (std::get<1>(position_1) == std::get<1>(position_2)) {
                if (std::get<0>(position_1) == std::get<0>(position_2) + 1) {
-                  _single_term_simple_update_vertical_bond(position_2, updater);
+                  _single_term_simple_update_vertical_bond(
+                        position_2,
+                        updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}}));
                   return;
                }
                if (std::get<0>(position_1) + 1 == std::get<0>(position_2)) {
-- 
2.43.0


From d2ec1503074ec7ee177e9bd8842bdb88129cd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 27/45] fix: changing a site left lines computed from below it
 stale

---
 square/auxiliaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index dbe7ece..7651fc7 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -147,7 +147,7 @@ class SquareAuxiliariesSystem:
                     self._try_to_delete_auxiliaries("left-to-right-3-1", index - 1, j)
                     self._try_to_delete_auxiliaries("right-to-left-3-1", index - 1, j)
                 if flag:
-                    self._refresh_line(kind, index + 1)
+                    self._refresh_line(kind, index - 1)
         else:
             raise ValueError("Wrong Type in Refresh Line")
 
-- 
2.43.0


From aef2a53479be4585aa278f1850b34df61c2705ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 28/45] fix: combining two auxiliaries systems lost the tensors
 of the second

---
 square/auxiliaries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index 7651fc7..925a594 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -58,6 +58,10 @@ class SquareAuxiliariesSystem:
                     # 这里不比较是否值一样, 只要不是同一个id, 就会报错
                     if self._lattice[i][j] is not other._lattice[i][j]:
                         raise ValueError("Overlap tensor in lattice when combining two SquareAuxiliariesSystem")
+        for i in range(self._M):
+            for j in range(self._N):
+                if self._lattice[i][j] is None:
+                    self._lattice[i][j] = other._lattice[i][j]
         self._auxiliaries |= other._auxiliaries
         return self
 
-- 
2.43.0


From e36f9a096917fd87b96ee864444afec4786b3f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 29/45] fix: sum of two spin configurations ignored the first,
 and lost the spins of the second

---
 square/sampling_gradient_lattice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index e7a1703..40d2fad 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -55,10 +55,14 @@ class SpinConfiguration(SquareAuxiliariesSystem):
                     if self.configuration[i][j] != other.configuration[i][j]:
                         raise ValueError("Overlap configuration when combining two spin configuration")
         super().__iadd__(other)
+        for i in range(self._M):
+            for j in range(self._N):
+                if self.configuration[i][j] == -1:
+                    self.configuration[i][j] = other.configuration[i][j]
         return self
 
     def __add__(self, other: SpinConfiguration) -> SpinConfiguration:
-        result = SpinConfiguration(other)
+        result = SpinConfiguration(self)
         result += other
         return result
 
-- 
2.43.0


From 10aaf3a38f002b06f041f65e31098223761741ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 30/45] fix: a copy of an exact lattice shared its vector with
 the original

---
 square/exact_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/exact_lattice.py b/square/exact_lattice.py
index 5de43f8..dc46b56 100644
--- a/square/exact_lattice.py
+++ b/square/exact_lattice.py
@@ -40,7 +40,7 @@ class ExactLattice(AbstractLattice):
     @multimethod
     def __init__(self, other: ExactLattice) -> None:
         super().__init__(other)
-        self.vector: Tensor = other.vector
+        self.vector: Tensor = other.vector.copy()
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice) -> None:
-- 
2.43.0


From 8b04c904d9acfc6f04e53ba80b9c541ccd1d3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 31/45] fix: spins of a copied sampling lattice used the
 tensors of the original

---
 square/sampling_gradient_lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 40d2fad..fcb0247 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -110,6 +110,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
 
         self.dimension_cut: int = other.dimension_cut
         self.spin: SpinConfiguration = SpinConfiguration(other.spin)
+        self.spin.lattice = self
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice, *, Dc: int = 2) -> None:
-- 
2.43.0


From 095953b58374aa6dcb4335da0c472aca79c5e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 32/45] fix: asking for the energy changed the observers that
 were given, or the default ones

---
 square/sampling_gradient_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index fcb0247..c83585d 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -189,7 +189,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         if calculate_gradient:
             result["Delta"] = {}
@@ -237,7 +237,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         # ergodic sampling
         sum_of_ws_square: float = 0
-- 
2.43.0


From 0ea37c9a288d75e9d0dd7024a71e3589e644bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 33/45] fix: sampling ended in an exception for operators with
 an empty row (python)

---
 square/sampling_gradient_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index c83585d..e5f88e5 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -146,7 +146,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         body: int = len(positions)
         current_spins: Tuple[int, ...] = tuple(self.spin.configuration[positions[i][0]][positions[i][1]] for i in range(body))
         possible_hopping: List[Tuple[int, ...], float] = []
-        for spins_out, element in self._find_element(hamiltonian)[current_spins].items():
+        for spins_out, element in self._find_element(hamiltonian).get(current_spins, {}).items():
             if spins_out != current_spins:
                 possible_hopping.append((spins_out, element))
         if possible_hopping:
@@ -208,7 +208,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     body: int = len(positions)
                     current_spins: Tuple[int, ...] = tuple(self.spin.configuration[positions[i][0]][positions[i][1]] for i in range(body))
                     value = 0
-                    for spins_out, element in self._find_element(tensor)[current_spins].items():
+                    for spins_out, element in self._find_element(tensor).get(current_spins, {}).items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value
@@ -252,7 +252,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     body: int = len(positions)
                     current_spins: Tuple[int, ...] = tuple(self.spin.configuration[positions[i][0]][positions[i][1]] for i in range(body))
                     value = 0
-                    for spins_out, element in self._find_element(tensor)[current_spins].items():
+                    for spins_out, element in self._find_element(tensor).get(current_spins, {}).items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value * ws * ws
-- 
2.43.0


From f2667e0a5cac5bb9f128a264e2ba30590a88156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 34/45] fix: sampling used the elements of an operator that no
 longer exists (python)

---
 square/sampling_gradient_lattice.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index e5f88e5..4291565 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -275,18 +275,19 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                 self.spin[i, j] = step % self.dimension_physics
                 step //= self.dimension_physics
 
-    tensor_element_dict: Dict[int, Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]] = {}
+    # 同时保存张量自身, 避免其被回收后id被别的张量使用
+    tensor_element_dict: Dict[int, Tuple[Tensor, Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]]] = {}
 
     # TODO complex version
     # TODO 这个操作目前似乎很耗时
     def _find_element(self, tensor: Tensor) -> Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]:
         tensor_id = id(tensor)
         if tensor_id in self.tensor_element_dict:
-            return self.tensor_element_dict[tensor_id]
+            return self.tensor_element_dict[tensor_id][1]
         body = len(tensor.name) // 2
         self._check_hamiltonian_name(tensor, body)
-        self.tensor_element_dict[tensor_id] = {}
-        result: Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]] = self.tensor_element_dict[tensor_id]
+        result: Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]] = {}
+        self.tensor_element_dict[tensor_id] = (tensor, result)
         names = [f"I{i}" for i in range(body)] + [f"O{i}" for i in range(body)]
         index = [0 for _ in range(2 * body)]
         while True:
-- 
2.43.0


From 66d2adad87260ad2b4203f1f6eea6b80fb7d403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 35/45] fix: ergodic sampling divided by zero when a
 configuration has amplitude zero (python)

---
 square/sampling_gradient_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 4291565..83c637e 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -254,9 +254,9 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     value = 0
                     for spins_out, element in self._find_element(tensor).get(current_spins, {}).items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
-                        value += element * wss / ws
-                    result[kind][positions] += value * ws * ws
-            if "Energy" in result:
+                        value += element * wss
+                    result[kind][positions] += value * ws
+            if "Energy" in result and sum_of_ws_square != 0:
                 energy_result = result["Energy"]
                 print(f", Energy={sum(energy_result.values()) / (sum_of_ws_square * self.M * self.N)}", end="\r")
             else:
-- 
2.43.0


From 762a1e9263f2ff133e057dde59051ee9dccf8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 36/45] fix: gradient parts used the energy of all steps so far
 and lacked the amplitude

---
 square/sampling_gradient_lattice.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 83c637e..6809016 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -203,6 +203,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
             self._hopping_spin_single_step()
             print(f"Markov sampling, total_step={step}, dimension={self.dimension_virtual}, dimension_cut={self.dimension_cut}, step={t}", end="")
             ws = float(self.spin[None])
+            energy_of_this_step: Dict[Tuple[Tuple[int, int], ...], float] = {}
             for kind, group in observers.items():
                 for positions, tensor in group.items():
                     body: int = len(positions)
@@ -212,11 +213,13 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value
+                    if kind == "Energy":
+                        energy_of_this_step[positions] = value
             if calculate_gradient:
-                Es = sum(result["Energy"].values());
+                Es = sum(energy_of_this_step.values())
                 for i in range(self.M):
                     for j in range(self.N):
-                        this_delta = self.spin[((i, j),)]
+                        this_delta = self.spin[((i, j),)] / ws
                         result["Delta"][((i, j),)] += this_delta
                         result["EDelta"][((i, j),)] += Es * this_delta
             if "Energy" in result:
-- 
2.43.0


From 63772cc27247e9fdb247f7f150e431fe5777904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:21 +0000
Subject: [PATCH 37/45] fix: simple update applied a term given from right to
 left to swapped sites (python)

---
 square/simple_update_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/simple_update_lattice.py b/square/simple_update_lattice.py
index 98f7161..1d63e1e 100644
--- a/square/simple_update_lattice.py
+++ b/square/simple_update_lattice.py
@@ -93,12 +93,12 @@ class SimpleUpdateLattice(AbstractNetworkLattice):
             position_1, position_2 = positions
             if position_1[0] == position_2[0]:
                 if position_1[1] == position_2[1] + 1:
-                    return self._single_term_simple_update_double_site_nearest_horizontal(position_2, updater)
+                    return self._single_term_simple_update_double_site_nearest_horizontal(position_2, updater.edge_rename({"I0": "I1", "I1": "I0", "O0": "O1", "O1": "O0"}))
                 if position_2[1] == position_1[1] + 1:
                     return self._single_term_simple_update_double_site_nearest_horizontal(position_1, updater)
             if position_1[1] == position_2[1]:
                 if position_1[0] == position_2[0] + 1:
-                    return self._single_term_simple_update_double_site_nearest_vertical(position_2, updater)
+                    return self._single_term_simple_update_double_site_nearest_vertical(position_2, updater.edge_rename({"I0": "I1", "I1": "I0", "O0": "O1", "O1": "O0"}))
                 if position_2[0] == position_1[0] + 1:
                     return self._single_term_simple_update_double_site_nearest_vertical(position_1, updater)
         raise NotImplementedError("Unsupported simple update style")
-- 
2.43.0


From a56bf34db29a65728b7d08c047cf119649003e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:00 +0000
Subject: [PATCH 38/45] fix: random numbers of the python module were functions
 that cannot be returned

---
 PyTAT/PyTAT.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index cc2be5e..0b67273 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -752,7 +752,7 @@ namespace TAT {
       random_m.def(
             "uniform_int",
             [](int min, int max) {
-               return [distribution = std::uniform_int_distribution<int>(min, max)]() mutable { return distribution(random_engine); };
+               return std::uniform_int_distribution<int>(min, max)(random_engine);
             },
             py::arg("min") = 0,
             py::arg("max") = 1,
@@ -760,7 +760,7 @@ namespace TAT {
       random_m.def(
             "uniform_real",
             [](double min, double max) {
-               return [distribution = std::uniform_real_distribution<double>(min, max)]() mutable { return distribution(random_engine); };
+               return std::uniform_real_distribution<double>(min, max)(random_engine);
             },
             py::arg("min") = 0,
             py::arg("max") = 1,
@@ -768,7 +768,7 @@ namespace TAT {
       random_m.def(
             "normal",
             [](double mean, double stddev) {
-               return [distribution = std::normal_distribution<double>(mean, stddev)]() mutable { return distribution(random_engine); };
+               return std::normal_distribution<double>(mean, stddev)(random_engine);
             },
             py::arg("mean") = 0,
             py::arg("stddev") = 1,
-- 
2.43.0


From 8a81bae25575e6c73b25294d5f6b87c942c44b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:15 +0000
Subject: [PATCH 39/45] fix: a tensor of one element with missing charges or
 arrows, or charges that do not sum to zero, crashed

---
 include/TAT/edge.hpp   | 8 ++++++++
 include/TAT/tensor.hpp | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/include/TAT/edge.hpp b/include/TAT/edge.hpp
index e31a092..361ba3e 100644
--- a/include/TAT/edge.hpp
+++ b/include/TAT/edge.hpp
@@ -382,6 +382,14 @@ namespace TAT {
       if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {
          return pmr::vector<Edge<Symmetry>>(rank, {1});
       } else {
+         if (edge_symmetry.size() != rank) {
+            TAT_error("Number of symmetries differs from number of edges");
+         }
+         if constexpr (is_fermi_symmetry_v<Symmetry>) {
+            if (edge_arrow.size() != rank) {
+               TAT_error("Number of arrows differs from number of edges");
+            }
+         }
          auto result = pmr::vector<Edge<Symmetry>>();
          result.reserve(rank);
          for (auto i = 0; i < rank; i++) {
diff --git a/include/TAT/tensor.hpp b/include/TAT/tensor.hpp
index ad9267d..6936495 100644
--- a/include/TAT/tensor.hpp
+++ b/include/TAT/tensor.hpp
@@ -214,6 +214,9 @@ namespace TAT {
       one(ScalarType number, const VectorName& names_init, const VectorSymmetry& edge_symmetry = {}, const VectorArrow& edge_arrow = {}) {
          auto rank = names_init.size();
          auto result = Tensor(names_init, get_edge_from_edge_symmetry_and_arrow(edge_symmetry, edge_arrow, rank));
+         if (!result.is_scalar()) {
+            TAT_error("Symmetries of a tensor with only one element should sum to zero");
+         }
          result.core->blocks.begin()->second.front() = number;
          return result;
       }
-- 
2.43.0


From 7c661a741d5a8ba9d3dd78c5655af19047cc3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:42 +0000
Subject: [PATCH 40/45] fix: names and edges obtained from a python tensor
 dangled after the tensor was loaded again

---
 PyTAT/PyTAT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index 0b67273..c856012 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -265,9 +265,11 @@ namespace TAT {
             tensor_m,
             tensor_name.c_str(),
             ("Tensor with scalar type as " + scalar_name + " and symmetry type " + symmetry_short_name + "Symmetry").c_str())
-            .def_readonly("name", &T::names, "Names of all edge of the tensor")
+            // 返回副本, 否则张量被修改后列表中的元素会悬空
             .def_property_readonly(
-                  "edge", [](T& tensor) -> std::vector<E>& { return tensor.core->edges; }, "Edges of tensor")
+                  "name", [](const T& tensor) { return tensor.names; }, "Names of all edge of the tensor")
+            .def_property_readonly(
+                  "edge", [](const T& tensor) { return tensor.core->edges; }, "Edges of tensor")
             .def_property_readonly(
                   "data", [](T& tensor) -> auto& { return tensor.core->blocks; }, "All block data of the tensor")
             .def(py::self + py::self)
-- 
2.43.0


From 7cc73942a02264cde4193c4aa537b088418d4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:40 +0000
Subject: [PATCH 41/45] fix: in-place operators with an element of the tensor
 itself changed the number on the way

---
 include/TAT/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/TAT/scalar.hpp b/include/TAT/scalar.hpp
index 481aef5..4c37fde 100644
--- a/include/TAT/scalar.hpp
+++ b/include/TAT/scalar.hpp
@@ -165,7 +165,7 @@ namespace TAT {
          tensor_1.core = std::make_shared<Core<ScalarType1, Symmetry>>(*tensor_1.core);                                                          \
          TAT_warning_or_error_when_copy_shared("Inplace operator on tensor shared, copy happened here");                                         \
       }                                                                                                                                          \
-      const auto& y = number_2;                                                                                                                  \
+      const auto y = number_2;                                                                                                                   \
       for (auto& [symmetries, block] : tensor_1.core->blocks) {                                                                                  \
          ScalarType1* __restrict a = block.data();                                                                                               \
          for (Size j = 0; j < block.size(); j++) {                                                                                               \
@@ -177,7 +177,7 @@ namespace TAT {
    template<typename ScalarType1, typename ScalarType2, typename Symmetry, typename Name, typename = std::enable_if_t<is_scalar_v<ScalarType2>>> \
    Singular<ScalarType1, Symmetry, Name>& OP(Singular<ScalarType1, Symmetry, Name>& singular, const ScalarType2& number) {                       \
       auto timer_guard = scalar_inplace_guard();                                                                                                 \
-      const auto& y = number;                                                                                                                    \
+      const auto y = number;                                                                                                                     \
       for (auto& [symmetry, singulars] : singular.value) {                                                                                       \
          real_base_t<ScalarType1>* __restrict a = singulars.data();                                                                              \
          for (Size j = 0; j < singulars.size(); j++) {                                                                                           \
-- 
2.43.0


From 56be62b1c7551cac275afae25c4c936947c4a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 42/45] fix: simple update lost one of two terms on the same
 bond when run on several ranks

---
 include/square/simple_update_lattice.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index e50c684..4e5700d 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -185,6 +185,22 @@ namespace square {
                }
             }
          }
+         // 同一个键上两个方向的项作用于相同的格点, 并非无依赖, 需要分到不同的类
+         for (auto index = 1; index < 5; index++) {
+            auto forward = std::vector<std::vector<std::tuple<int, int>>>();
+            auto backward = std::vector<std::vector<std::tuple<int, int>>>();
+            for (const auto& positions : result[index]) {
+               if (positions[1] < positions[0] && hamiltonians.find({positions[1], positions[0]}) != hamiltonians.end()) {
+                  backward.push_back(positions);
+               } else {
+                  forward.push_back(positions);
+               }
+            }
+            if (!backward.empty()) {
+               result[index] = std::move(forward);
+               result.push_back(std::move(backward));
+            }
+         }
          // 其他类型和更多的格点暂时不支持
          auto total_size = 0;
          for (const auto& group : result) {
-- 
2.43.0


From 437d806e18ae0951658bada5a8cda46785010e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:19 +0000
Subject: [PATCH 43/45] fix: sampling used the elements an operator had before
 it was changed in place (python)

---
 square/sampling_gradient_lattice.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 6809016..7a0eb8d 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -278,19 +278,19 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                 self.spin[i, j] = step % self.dimension_physics
                 step //= self.dimension_physics
 
-    # 同时保存张量自身, 避免其被回收后id被别的张量使用
-    tensor_element_dict: Dict[int, Tuple[Tensor, Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]]] = {}
+    # 使用张量的内容而不是id作为键, 因为张量可能被修改, id可能在张量被回收后被别的张量使用
+    tensor_element_dict: Dict[bytes, Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]] = {}
 
     # TODO complex version
     # TODO 这个操作目前似乎很耗时
     def _find_element(self, tensor: Tensor) -> Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]:
-        tensor_id = id(tensor)
+        tensor_id = tensor.dump()
         if tensor_id in self.tensor_element_dict:
-            return self.tensor_element_dict[tensor_id][1]
+            return self.tensor_element_dict[tensor_id]
         body = len(tensor.name) // 2
         self._check_hamiltonian_name(tensor, body)
         result: Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]] = {}
-        self.tensor_element_dict[tensor_id] = (tensor, result)
+        self.tensor_element_dict[tensor_id] = result
         names = [f"I{i}" for i in range(body)] + [f"O{i}" for i in range(body)]
         index = [0 for _ in range(2 * body)]
         while True:
-- 
2.43.0


From 1ed1053235cb2bade3a733a5d7bb7f54edc970f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:19 +0000
Subject: [PATCH 44/45] fix: the blocks of a tensor could not be read by the
 python property data

---
 PyTAT/PyTAT.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index c856012..d611c8d 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -271,7 +271,17 @@ namespace TAT {
             .def_property_readonly(
                   "edge", [](const T& tensor) { return tensor.core->edges; }, "Edges of tensor")
             .def_property_readonly(
-                  "data", [](T& tensor) -> auto& { return tensor.core->blocks; }, "All block data of the tensor")
+                  "data",
+                  [](const T& tensor) {
+                     // list不能作为dict的键, 所以使用tuple
+                     auto result = py::dict();
+                     for (const auto& [symmetries, block] : tensor.core->blocks) {
+                        result[py::tuple(py::cast(std::vector<Symmetry>(symmetries.begin(), symmetries.end())))] =
+                              std::vector<ScalarType>(block.begin(), block.end());
+                     }
+                     return result;
+                  },
+                  "All block data of the tensor")
             .def(py::self + py::self)
             .def(ScalarType() + py::self)
             .def(py::self + ScalarType())
-- 
2.43.0


From 0699ef202b51242bdf55d6f73102b73200aefdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:19 +0000
Subject: [PATCH 45/45] fix: the dimension of an edge without symmetry could
 not be read in python

---
 PyTAT/PyTAT.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index d611c8d..2ab27eb 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -612,7 +612,16 @@ namespace TAT {
    template<typename Symmetry, typename Element, bool IsTuple, template<typename, bool = false> class EdgeType = Edge>
    auto declare_edge(py::module_& edge_m, const char* name) {
       auto result = py::class_<EdgeType<Symmetry>>(edge_m, name, ("Edge with symmetry type as " + std::string(name) + "Symmetry").c_str())
-                          .def_readonly("map", &EdgeType<Symmetry>::map)
+                          .def_property_readonly(
+                                "map",
+                                [](const EdgeType<Symmetry>& edge) {
+                                   // 无对称性时edge.map并不是真正的map
+                                   auto result = std::map<Symmetry, Size>();
+                                   for (const auto& [symmetry, dimension] : edge.map) {
+                                      result[symmetry] = dimension;
+                                   }
+                                   return result;
+                                })
                           .def(implicit_init<EdgeType<Symmetry>, Size>(), py::arg("dimension"), "Edge with only one symmetry")
                           .def(implicit_init<EdgeType<Symmetry>, std::map<Symmetry, Size>>(),
                                py::arg("dictionary_from_symmetry_to_dimension"),
-- 
2.43.0


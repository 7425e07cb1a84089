From 0cc9069124b54df6955ecb0325abb712318c9e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 01/19] fix: transpose to a name list with a wrong first name
 must not be accepted silently

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..02779cc 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -34,7 +34,7 @@ namespace TAT {
       if (size1 != size2) {
          return false;
       }
-      for (auto i = 1; i < size1; i++) {
+      for (auto i = 0; i < size1; i++) {
          if (vector1[i] != vector2[i]) {
             return false;
          }
-- 
2.43.0


From b9e1ab172f47fe78e8f166a98f4cf40eb7abc944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 02/19] fix: expand accumulates the total symmetry of the new
 edges

---
 include/TAT/shrink_and_expand.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 0e0ef35..124be26 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -53,11 +53,13 @@ namespace TAT {
             const auto& [arrow, symmetry, index, dimension] = information;
             total_offset *= dimension;
             total_offset += index;
+            total_symmetry += symmetry;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
          } else {
             const auto& [symmetry, index, dimension] = information;
             total_offset *= dimension;
             total_offset += index;
+            total_symmetry += symmetry;
             new_edges.push_back({{{symmetry, dimension}}});
          }
       }
-- 
2.43.0


From 17408e7a638f804e85d79dd2a3cb4aad3bca470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 03/19] fix: cutting edges without splitting must skip the
 blocks which have been cut away

---
 include/TAT/edge_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 02779cc..57e08d0 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -520,7 +520,8 @@ namespace TAT {
       using MapFromTransposeToSourceDestination = NormalMapFromTransposeToSourceDestination;
 #endif
       auto data_before_transpose_to_source = MapFromTransposeToSourceDestination();
-      if (!split_map.empty() || (is_fermi && !reversed_name.empty())) {
+      if (!split_map.empty() || !edge_and_symmetries_to_cut_before_all.empty() || (is_fermi && !reversed_name.empty())) {
+         // cut后core->blocks中的一部分分块不再存在, 所以有cut时也不可以直接使用core->blocks
          // 需要使用reversed前的symmetry，所以
          // 1. 上面判断了是否reversed为空，不然else中的edge不正确 2.下面使用edge_after_split而不是edge_before_transpose
          for (auto& [symmetries_before_transpose, size] : initialize_block_symmetries_with_check(edge_after_split)) {
-- 
2.43.0


From 63f55dfc071886ccd08c91b0fbcd68ad4a4455ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 04/19] fix: svd with cut chooses an existing singular value
 even if the remaining ones are zero

---
 include/TAT/svd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index 3d0acb9..a0951e7 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -366,7 +366,7 @@ namespace TAT {
          }
          for (Size i = 0; i < cut; i++) {
             Symmetry maximum_position;
-            real_base_t<ScalarType> maximum_singular = 0;
+            real_base_t<ScalarType> maximum_singular = -1; // 奇异值可能恰好为零
             for (const auto& [symmetry, vector_s] : result_s) {
                if (auto& this_remain = remain_dimension_u.at(symmetry); this_remain != vector_s.size()) {
                   if (auto this_singular = vector_s[this_remain]; this_singular > maximum_singular) {
-- 
2.43.0


From 518f731fb000efe90ea9663c3993127a8c95aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:09 +0000
Subject: [PATCH 05/19] fix: identity only fills the blocks in which every pair
 of edges has opposite symmetries

---
 include/TAT/tensor_miscellaneous.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..da9280b 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -242,6 +242,16 @@ namespace TAT {
       auto result = same_shape().zero();
 
       for (auto& [symmetries, block] : result.core->blocks) {
+         // 只有每一对边的对称性都相反的分块中才有非零元
+         bool symmetry_matched = true;
+         for (const auto& [index_1, index_2] : ordered_pair_index) {
+            if (symmetries[index_1] != -symmetries[index_2]) {
+               symmetry_matched = false;
+            }
+         }
+         if (!symmetry_matched) {
+            continue;
+         }
          auto dimension = pmr::vector<Size>(rank);
          auto leading = pmr::vector<Size>(rank);
          for (Rank i = rank; i-- > 0;) {
-- 
2.43.0


From 4500e37b7680534d7a6e83b5576881e5a9fa96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:43 +0000
Subject: [PATCH 06/19] fix: trace drops the symmetries which are not paired
 instead of looking up blocks that do not exist

---
 include/TAT/trace.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index f71b71c..ba90948 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -99,6 +99,23 @@ namespace TAT {
             }
          }
       }
+      // 一对边中没有配对的对称性对结果没有贡献, 在merge前删掉
+      auto delete_map = pmr::map<Name, pmr::map<Symmetry, Size>>();
+      for (Rank i = 0; i < trace_1_names.size(); i++) {
+         const auto& edge_1 = core->edges[name_to_index.at(trace_1_names[i])];
+         const auto& edge_2 = core->edges[name_to_index.at(trace_2_names[i])];
+         auto delete_unused_dimension = [&delete_map](const auto& edge_this, const auto& edge_other, const auto& name_this) {
+            for (const auto& [symmetry, dimension] : edge_this.map) {
+               if (auto found = edge_other.map.find(-symmetry); found == edge_other.map.end()) {
+                  delete_map[name_this][symmetry] = 0;
+               } else if (found->second != dimension) {
+                  TAT_error("Different Dimension to Trace");
+               }
+            }
+         };
+         delete_unused_dimension(edge_1, edge_2, trace_1_names[i]);
+         delete_unused_dimension(edge_2, edge_1, trace_2_names[i]);
+      }
       auto merged_tensor = edge_operator(
             {},
             {},
@@ -109,9 +126,15 @@ namespace TAT {
                   {InternalName<Name>::Trace_3, result_names}},
             pmr::vector<Name>{InternalName<Name>::Trace_1, InternalName<Name>::Trace_2, InternalName<Name>::Trace_3},
             false,
-            std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}});
+            std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}},
+            delete_map);
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
+      if (traced_tensor.core->blocks.begin() == traced_tensor.core->blocks.end()) {
+         // 自由边无法组合出零对称性, 没有任何block
+         return traced_tensor.edge_operator(
+               {}, pmr::map<Name, decltype(split_plan)>{{InternalName<Name>::Trace_3, std::move(split_plan)}}, reverse_names, {}, result_names);
+      }
       auto& destination_block = traced_tensor.core->blocks.begin()->second;
       // 应该只有一个边, 所以也只有一个block
       const Size line_size = destination_block.size();
-- 
2.43.0


From cb31ed74db39da51f7a9485e3b28e493d9438ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:54 +0000
Subject: [PATCH 07/19] fix: align the merged edges by opposite symmetries in
 trace and exponential

Two groups of edges whose symmetries are opposite were merged in the order
of their own symmetries, so for symmetries which are not self inverse (U1,
Fermi) the positions inside the two merged edges did not match.
---
 include/TAT/edge_operator.hpp | 45 +++++++++++++++++++++++++++++++----
 include/TAT/exponential.hpp   | 16 +++++++++++--
 include/TAT/tensor.hpp        |  7 ++++--
 include/TAT/trace.hpp         |  3 ++-
 4 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 57e08d0..63db60a 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -42,6 +42,27 @@ namespace TAT {
       return true;
    }
 
+   /// \private
+   /// 按照取反后的对称性的顺序枚举各个对称性组合, U1等对称性取反后大小关系会变化, 参见loop_edge
+   template<typename T, typename F1, typename F2, typename F3>
+   void loop_edge_conjugated(const T* edges, const Rank rank, F1&& rank0, F2&& dims0, F3&& operate) {
+      using Symmetry = typename T::symmetry_type;
+      auto conjugated_edges = pmr::vector<BoseEdge<Symmetry>>(rank);
+      for (Rank i = 0; i < rank; i++) {
+         for (const auto& [symmetry, dimension] : edges[i].map) {
+            conjugated_edges[i].map[-symmetry] = dimension;
+         }
+      }
+      loop_edge(conjugated_edges.data(), rank, rank0, dims0, [&](const auto& conjugated_iterator_list, const Rank minimum_changed) {
+         auto symmetry_iterator_list = pmr::vector<typename T::edge_map::const_iterator>();
+         symmetry_iterator_list.reserve(rank);
+         for (Rank i = 0; i < rank; i++) {
+            symmetry_iterator_list.push_back(edges[i].map.find(-conjugated_iterator_list[i]->first));
+         }
+         return operate(symmetry_iterator_list, minimum_changed);
+      });
+   }
+
    template<typename ScalarType, typename Symmetry, typename Name>
    template<
          typename MapNameName,
@@ -50,7 +71,8 @@ namespace TAT {
          typename MapNameVectorName,
          typename VectorName,
          typename SetName2,
-         typename MapNameMapSymmetrySize>
+         typename MapNameMapSymmetrySize,
+         typename SetName3>
    [[nodiscard]] Tensor<ScalarType, Symmetry, Name> Tensor<ScalarType, Symmetry, Name>::edge_operator(
          const MapNameName& rename_map,
          const MapNameVectorNameAndEdge& split_map,
@@ -59,7 +81,8 @@ namespace TAT {
          const VectorName& new_names,
          const bool apply_parity,
          const std::array<SetName2, 4>& parity_exclude_name,
-         const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all) const {
+         const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all,
+         const std::array<SetName3, 2>& conjugated_order_name) const {
       auto timer_guard = transpose_guard();
       auto pmr_guard = scope_resource<>();
       // step 1: rename and cut
@@ -206,7 +229,14 @@ namespace TAT {
                auto accumulated_symmetries = pmr::vector<Symmetry>(split_rank);
                auto accumulated_dimensions = pmr::vector<Size>(split_rank);
                auto current_symmetries = pmr::vector<Symmetry>(split_rank);
-               loop_edge(
+               const auto loop_split_edge = [&](auto&&... args) {
+                  if (conjugated_order_name[0].find(name_before_split[position_before_split]) != conjugated_order_name[0].end()) {
+                     loop_edge_conjugated(args...);
+                  } else {
+                     loop_edge(args...);
+                  }
+               };
+               loop_split_edge(
                      edge_list_after_split,
                      split_rank,
                      [&this_offset]() {
@@ -433,7 +463,14 @@ namespace TAT {
             auto current_symmetries = pmr::vector<Symmetry>(merge_rank);
 
             if (merge_rank != 1) {
-               loop_edge(
+               const auto loop_merge_edge = [&](auto&&... args) {
+                  if (conjugated_order_name[1].find(name_after_merge[position_after_merge]) != conjugated_order_name[1].end()) {
+                     loop_edge_conjugated(args...);
+                  } else {
+                     loop_edge(args...);
+                  }
+               };
+               loop_merge_edge(
                      edge_before_merge.data() + start_of_merge,
                      merge_rank,
                      [&merged_edge, &this_offset]() {
diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 606c54c..b78abed 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -230,14 +230,26 @@ namespace TAT {
             result_names.push_back(i);
          }
       }
-      auto tensor_merged = edge_operator({}, {}, reverse_set, merge_map, merged_names);
+      const auto no_exclude = std::array<pmr::set<Name>, 4>{{{}, {}, {}, {}}};
+      const auto no_cut = pmr::map<Name, pmr::map<Symmetry, Size>>();
+      auto tensor_merged = edge_operator(
+            {}, {}, reverse_set, merge_map, merged_names, false, no_exclude, no_cut, std::array<pmr::set<Name>, 2>{{{}, {InternalName<Name>::Exp_2}}});
       auto result = tensor_merged.same_shape();
       for (auto& [symmetries, data_source] : tensor_merged.core->blocks) {
          auto& data_destination = result.core->blocks.at(symmetries);
          auto n = tensor_merged.core->edges[0].map.at(symmetries[0]);
          matrix_exponential(n, data_source.data(), data_destination.data(), step);
       }
-      return result.edge_operator({}, split_map_result, reverse_set, {}, result_names);
+      return result.edge_operator(
+            {},
+            split_map_result,
+            reverse_set,
+            {},
+            result_names,
+            false,
+            no_exclude,
+            no_cut,
+            std::array<pmr::set<Name>, 2>{{{InternalName<Name>::Exp_2}, {}}});
    }
 } // namespace TAT
 #endif
diff --git a/include/TAT/tensor.hpp b/include/TAT/tensor.hpp
index 655411f..b1d07c4 100644
--- a/include/TAT/tensor.hpp
+++ b/include/TAT/tensor.hpp
@@ -458,6 +458,7 @@ namespace TAT {
        * \param new_names 最后进行的转置操作后的边的名称顺序列表
        * \param apply_parity 控制费米对称性中费米性质产生的符号是否应用在结果张量上的默认行为
        * \param parity_exclude_name 是否产生符号这个问题上行为与默认行为相反的操作的边的名称, 四部分分别是split, reverse, reverse_before_merge, merge
+       * \param conjugated_order_name split前和merge后的一些边的名称, 其中各个对称性组合的顺序由取反后的对称性决定, 这样才能与对称性相反的另一组边的合并结果对齐
        * \return 进行了一系列操作后的结果张量
        * \note 反转不满足和合并操作的条件时, 将在合并前再次反转需要反转的边, 方向对齐第一个有方向的边
        * \note 因为费米箭头在反转和合并分裂时会产生半个符号, 所以需要扔给一方张量, 另一方张量不变号
@@ -471,7 +472,8 @@ namespace TAT {
             typename MapNameVectorName = pmr::map<Name, std::vector<Name>>,
             typename VectorName = pmr::vector<Name>,
             typename SetName2 = pmr::set<Name>,
-            typename MapNameMapSymmetrySize = pmr::map<Name, std::map<Symmetry, Size>>>
+            typename MapNameMapSymmetrySize = pmr::map<Name, std::map<Symmetry, Size>>,
+            typename SetName3 = pmr::set<Name>>
       [[nodiscard]] Tensor<ScalarType, Symmetry, Name> edge_operator(
             const MapNameName& rename_map,
             const MapNameVectorNameAndEdge& split_map,
@@ -480,7 +482,8 @@ namespace TAT {
             const VectorName& new_names,
             bool apply_parity = false,
             const std::array<SetName2, 4>& parity_exclude_name = {{{}, {}, {}, {}}},
-            const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all = {}) const;
+            const MapNameMapSymmetrySize& edge_and_symmetries_to_cut_before_all = {},
+            const std::array<SetName3, 2>& conjugated_order_name = {{{}, {}}}) const;
 
       /**
        * 对张量边的名称进行重命名
diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index ba90948..bb751e2 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -127,7 +127,8 @@ namespace TAT {
             pmr::vector<Name>{InternalName<Name>::Trace_1, InternalName<Name>::Trace_2, InternalName<Name>::Trace_3},
             false,
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}},
-            delete_map);
+            delete_map,
+            std::array<pmr::set<Name>, 2>{{{}, {InternalName<Name>::Trace_2}}});
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
       if (traced_tensor.core->blocks.begin() == traced_tensor.core->blocks.end()) {
-- 
2.43.0


From d96f653eb36bf86d2a401593723f25e611718cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:20 +0000
Subject: [PATCH 08/19] fix: reading a name longer than 255 characters
 overflowed a stack buffer

---
 include/TAT/io.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..625ece5 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -121,13 +121,10 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      name.clear();
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         name.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
       return in;
    }
 
-- 
2.43.0


From 8b9d30453602689cad72403ed04460e1497d1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:20 +0000
Subject: [PATCH 09/19] fix: the arrow of a merged edge was uninitialized if
 none of its edges has a valid arrow

---
 include/TAT/edge_operator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 63db60a..ba9678f 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -429,9 +429,13 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
+               if (start_of_merge != end_of_merge) {
+                  // 没有任何一个边有有效的方向时, 使用第一个边的方向
+                  arrow = edge_before_merge[start_of_merge].arrow;
+               }
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
                   if (edge_before_merge[merge_group_position].arrow_valid()) {
                      if (arrow_fixed) {
-- 
2.43.0


From 7997d5f48829556b6b9ab3363371fb8a95437d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:20 +0000
Subject: [PATCH 10/19] fix: contracting two edges of different dimension
 without symmetry must be an error

---
 include/TAT/contract.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index fb83f36..47ab3af 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -616,6 +616,11 @@ namespace TAT {
       if (contract_names_1.size() != common_rank || contract_names_2.size() != common_rank) {
          TAT_error("Duplicated Contract Name");
       }
+      for (const auto& [name_1, name_2] : contract_names) {
+         if (!(tensor_1.core->edges[tensor_1.name_to_index.at(name_1)] == tensor_2.core->edges[tensor_2.name_to_index.at(name_2)])) {
+            TAT_error("Different Dimension to Contract");
+         }
+      }
       // 确认fuse name即相同名称的边
       pmr::set<Name> fuse_names;
       for (const auto& name : tensor_1.names) {
-- 
2.43.0


From d3ef1913c4b49fe081b19ca783a77894f95f199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:09 +0000
Subject: [PATCH 11/19] fix: splitting an edge whose symmetry has no block into
 one or no edges threw map::at

---
 include/TAT/edge_operator.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index ba9678f..f2127fd 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -239,8 +239,11 @@ namespace TAT {
                loop_split_edge(
                      edge_list_after_split,
                      split_rank,
-                     [&this_offset]() {
-                        this_offset[pmr::vector<Symmetry>{}] = {Symmetry(), 0};
+                     [&this_offset, &offset_bank]() {
+                        // 同下, 这也是可能不存在的
+                        if (offset_bank.find(Symmetry()) != offset_bank.end()) {
+                           this_offset[pmr::vector<Symmetry>{}] = {Symmetry(), 0};
+                        }
                      },
                      []() {},
                      [&](const auto& symmetry_iterator_list, Rank minimum_changed) {
@@ -592,6 +595,12 @@ namespace TAT {
                      break;
                   }
                } else {
+                  // 只split为一个edge时, 这个symmetry也可能在split前不存在
+                  const auto& this_map = edge_before_split[position_before_split].map;
+                  if (this_map.find(split_group_symmetries.front()) == this_map.end()) {
+                     success = false;
+                     break;
+                  }
                   symmetries.push_back(split_group_symmetries.front());
                   offsets.push_back(0);
                }
-- 
2.43.0


From 53f8fbd33d76322c90058d170e91e75109f25a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:11 +0000
Subject: [PATCH 12/19] fix: read the printed text of tensors and singular
 values with symmetry

The printed text has colour codes around the symmetries, on which the reader
failed and then looped forever.
---
 include/TAT/io.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 625ece5..ea0d9b3 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -63,6 +63,15 @@ namespace TAT {
       in.ignore(std::numeric_limits<std::streamsize>::max(), end);
    }
 
+   /**
+    * 跳过控制屏幕字体色彩的代码, 这样打印出来的张量才可以再读入
+    */
+   inline void ignore_color(std::istream& in) {
+      while (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType>
    std::istream& scan_complex(std::istream& in, std::complex<ScalarType>& value) {
       ScalarType part;
@@ -489,6 +498,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -533,6 +543,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From 0343a579075aa5c9ebc4d3197b643e3b17f68805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:21 +0000
Subject: [PATCH 13/19] fix: zero length allocation could run past the end of a
 scratch buffer

monotonic_buffer_resource::do_allocate(0, alignment) with an alignment gap larger
than the space left subtracted the gap from the remaining size, which wrapped
around, so that later allocations were handed memory outside of the buffer.
---
 include/TAT/pmr_resource.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 720134e..e8acdb1 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -149,6 +149,10 @@ namespace TAT {
          }
 
          void* do_allocate(std::size_t bytes, std::size_t alignment) override {
+            // 零长度的分配也至少占用一个字节, 否则对齐所需的空隙可能超出当前buffer
+            if (bytes == 0) {
+               bytes = 1;
+            }
             std::size_t aligner = 0u;
             if (remaining_storage(alignment, aligner) < bytes) {
                aligner = 0u;
-- 
2.43.0


From 44da8dfecc4be16b9fafdd56d51fce0637a49a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:49 +0000
Subject: [PATCH 14/19] fix: simple update applied a term with reversed site
 order to the exchanged sites

---
 include/square/simple_update_lattice.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 4120730..5c2b5c5 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -206,7 +206,7 @@ namespace square {
             const auto& position_2 = positions[1];
             if (std::get<0>(position_1) == std::get<0>(position_2)) {
                if (std::get<1>(position_1) == std::get<1>(position_2) + 1) {
-                  _single_term_simple_update_horizontal_bond(position_2, updater);
+                  _single_term_simple_update_horizontal_bond(position_2, _exchange_two_sites(updater));
                   return;
                }
                if (std::get<1>(position_1) + 1 == std::get<1>(position_2)) {
@@ -216,7 +216,7 @@ namespace square {
             }
             if (std::get<1>(position_1) == std::get<1>(position_2)) {
                if (std::get<0>(position_1) == std::get<0>(position_2) + 1) {
-                  _single_term_simple_update_vertical_bond(position_2, updater);
+                  _single_term_simple_update_vertical_bond(position_2, _exchange_two_sites(updater));
                   return;
                }
                if (std::get<0>(position_1) + 1 == std::get<0>(position_2)) {
@@ -228,6 +228,11 @@ namespace square {
          throw NotImplementedError("Unsupported simple update style");
       }
 
+      // 两个格点的顺序与键的方向相反时, 需要交换updater的两个格点
+      static Tensor<T> _exchange_two_sites(const Tensor<T>& updater) {
+         return updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}});
+      }
+
       void _single_term_simple_update_single_site(const std::tuple<int, int>& position, const Tensor<T>& updater) {
          auto [i, j] = position;
          lattice[i][j] = lattice[i][j].contract(updater, {{"P", "I0"}}).edge_rename({{"O0", "P"}});
-- 
2.43.0


From 9c556418a423ddda18d4903d040beeb43db78f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:52 +0000
Subject: [PATCH 15/19] fix: simple update divided by null singular values and
 filled the lattice with NaN

---
 include/square/simple_update_lattice.hpp | 41 +++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 5c2b5c5..e07a533 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -22,6 +22,7 @@
 #define SQUARE_SIMPLE_UPDATE_LATTICE_HPP
 
 #include <iostream>
+#include <limits>
 #include <map>
 #include <memory>
 #include <tuple>
@@ -233,6 +234,24 @@ namespace square {
          return updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}});
       }
 
+      // 环境之后会被用作除数, 所以去掉为零的奇异值
+      auto _svd_without_null(const Tensor<T>& tensor, const std::set<Name>& free_names, const Name& name_u, const Name& name_v) const {
+         auto result = tensor.svd(free_names, name_u, name_v, dimension_virtual);
+         Size total = 0;
+         Size rank = 0;
+         const auto limit = result.S.template norm<-1>() * std::numeric_limits<real<T>>::epsilon();
+         for (const auto& [symmetry, values] : result.S.value) {
+            for (const auto& value : values) {
+               total += 1;
+               rank += value > limit;
+            }
+         }
+         if (0 < rank && rank < total) {
+            result = tensor.svd(free_names, name_u, name_v, rank);
+         }
+         return result;
+      }
+
       void _single_term_simple_update_single_site(const std::tuple<int, int>& position, const Tensor<T>& updater) {
          auto [i, j] = position;
          lattice[i][j] = lattice[i][j].contract(updater, {{"P", "I0"}}).edge_rename({{"O0", "P"}});
@@ -251,10 +270,13 @@ namespace square {
          right = try_multiple(right, i, j + 1, 'R');
          auto [left_q, left_r] = left.qr('r', {"P", "R"}, "R", "L");
          auto [right_q, right_r] = right.qr('r', {"P", "L"}, "L", "R");
-         auto [u, s, v] = left_r.edge_rename({{"P", "P0"}})
-                                .contract(right_r.edge_rename({{"P", "P1"}}), {{"R", "L"}})
-                                .contract(updater, {{"P0", "I0"}, {"P1", "I1"}})
-                                .svd({"L", "O0"}, "R", "L", dimension_virtual);
+         auto [u, s, v] = _svd_without_null(
+               left_r.edge_rename({{"P", "P0"}})
+                     .contract(right_r.edge_rename({{"P", "P1"}}), {{"R", "L"}})
+                     .contract(updater, {{"P0", "I0"}, {"P1", "I1"}}),
+               {"L", "O0"},
+               "R",
+               "L");
          s /= s.template norm<-1>();
          environment[{'R', i, j}] = std::move(s);
          u = u.contract(left_q, {{"L", "R"}}).edge_rename({{"O0", "P"}});
@@ -284,10 +306,13 @@ namespace square {
          down = try_multiple(down, i + 1, j, 'R');
          auto [up_q, up_r] = up.qr('r', {"P", "D"}, "D", "U");
          auto [down_q, down_r] = down.qr('r', {"P", "U"}, "U", "D");
-         auto [u, s, v] = up_r.edge_rename({{"P", "P0"}})
-                                .contract(down_r.edge_rename({{"P", "P1"}}), {{"D", "U"}})
-                                .contract(updater, {{"P0", "I0"}, {"P1", "I1"}})
-                                .svd({"U", "O0"}, "D", "U", dimension_virtual);
+         auto [u, s, v] = _svd_without_null(
+               up_r.edge_rename({{"P", "P0"}})
+                     .contract(down_r.edge_rename({{"P", "P1"}}), {{"D", "U"}})
+                     .contract(updater, {{"P0", "I0"}, {"P1", "I1"}}),
+               {"U", "O0"},
+               "D",
+               "U");
          s /= s.template norm<-1>();
          environment[{'D', i, j}] = std::move(s);
          u = u.contract(up_q, {{"U", "D"}}).edge_rename({{"O0", "P"}});
-- 
2.43.0


From 7036aa189c46001c8bcd43a10166b86a2736e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:24 +0000
Subject: [PATCH 16/19] fix: sampling threw map::at when a row of an operator
 is zero

---
 include/square/sampling_gradient_lattice.hpp | 46 ++++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 09111b4..3e11183 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -481,16 +481,18 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
+            auto spins_in = std::vector<int>();
+            auto spins_out = std::vector<int>();
+            for (auto i = 0; i < body; i++) {
+               spins_in.push_back(index[i]);
+            }
+            for (auto i = body; i < 2 * body; i++) {
+               spins_out.push_back(index[i]);
+            }
+            // 即使这一行全为零, 也需要有对应的空项
+            auto& row = result[std::move(spins_in)];
             if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               result[std::move(spins_in)][std::move(spins_out)] = value;
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
@@ -530,20 +532,18 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
-            if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               if (spins_in != spins_out) {
-                  result[std::move(spins_in)][std::move(spins_out)] = value;
-               } else {
-                  result[std::move(spins_in)];
-               }
+            auto spins_in = std::vector<int>();
+            auto spins_out = std::vector<int>();
+            for (auto i = 0; i < body; i++) {
+               spins_in.push_back(index[i]);
+            }
+            for (auto i = body; i < 2 * body; i++) {
+               spins_out.push_back(index[i]);
+            }
+            // 即使这一行全为零, 也需要有对应的空项
+            auto& row = result[spins_in];
+            if (value != T(0) && spins_in != spins_out) {
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
-- 
2.43.0


From 3f4c0b37acdf3cdf3dfebe323f64e8bc3611ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:11 +0000
Subject: [PATCH 17/19] fix: sampling used the elements of an operator that had
 been freed

---
 include/square/sampling_gradient_lattice.hpp | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 3e11183..013de22 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -456,15 +456,21 @@ namespace square {
          return ws;
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
+      // 同时保存张量, 以防另一个张量之后占用同一个地址
+      inline static std::map<const Tensor<T>*, std::tuple<Tensor<T>, std::map<std::vector<int>, std::map<std::vector<int>, T>>>> tensor_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const Tensor<T>& tensor) const {
          auto tensor_id = &tensor;
          if (auto found = tensor_element_map.find(tensor_id); found != tensor_element_map.end()) {
-            return found->second;
+            const auto& [saved, elements] = found->second;
+            if (saved.core == tensor.core && saved.names == tensor.names) {
+               return elements;
+            }
          }
          int body = tensor.names.size() / 2;
-         auto& result = tensor_element_map[tensor_id];
+         auto& [saved, result] = tensor_element_map[tensor_id];
+         saved = tensor;
+         result.clear();
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
          for (auto i = 0; i < body; i++) {
@@ -507,15 +513,20 @@ namespace square {
          }
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
+      inline static std::map<const Tensor<T>*, std::tuple<Tensor<T>, std::map<std::vector<int>, std::map<std::vector<int>, T>>>> tensor_hopping_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const Tensor<T>& tensor) const {
          auto tensor_id = &tensor;
          if (auto found = tensor_hopping_element_map.find(tensor_id); found != tensor_hopping_element_map.end()) {
-            return found->second;
+            const auto& [saved, elements] = found->second;
+            if (saved.core == tensor.core && saved.names == tensor.names) {
+               return elements;
+            }
          }
          int body = tensor.names.size() / 2;
-         auto& result = tensor_hopping_element_map[tensor_id];
+         auto& [saved, result] = tensor_hopping_element_map[tensor_id];
+         saved = tensor;
+         result.clear();
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
          for (auto i = 0; i < body; i++) {
-- 
2.43.0


From 2f740214a07973e276571b658c7563a81434b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:31 +0000
Subject: [PATCH 18/19] fix: ergodic sampling gave NaN when a configuration has
 amplitude zero

---
 include/square/sampling_gradient_lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 013de22..b026daa 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -303,7 +303,8 @@ namespace square {
                      T wss = spin(map, ws);
                      value += scalar_to<real<T>>(element * wss / ws);
                   }
-                  result[kind][positions] += value * std::norm(ws);
+                  // ws为零的构型没有贡献, 此时value不是有限的数
+                  result[kind][positions] += ws == T(0) ? real<T>(0) : value * std::norm(ws);
                }
             }
             if (calculate_energy) {
-- 
2.43.0


From 49d77c0325da0827b59a84e5c1ae86d7820d7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:34 +0000
Subject: [PATCH 19/19] fix: simple update of a bond registered in both site
 orders with several processes

---
 include/square/simple_update_lattice.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index e07a533..1cf2c4b 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -21,6 +21,7 @@
 #ifndef SQUARE_SIMPLE_UPDATE_LATTICE_HPP
 #define SQUARE_SIMPLE_UPDATE_LATTICE_HPP
 
+#include <algorithm>
 #include <iostream>
 #include <limits>
 #include <map>
@@ -91,8 +92,15 @@ namespace square {
       void _single_group_simple_update(
             const std::vector<std::vector<std::tuple<int, int>>>& group,
             const std::map<std::vector<std::tuple<int, int>>, std::shared_ptr<const Tensor<T>>>& updater) {
+         // 同一个键可能以两种格点顺序出现, 它们有依赖, 所以需要在同一个进程内依次作用
+         auto get_root = [&group](int i) {
+            auto same_bond = [&](const auto& positions) {
+               return std::is_permutation(positions.begin(), positions.end(), group[i].begin(), group[i].end());
+            };
+            return int(std::find_if(group.begin(), group.end(), same_bond) - group.begin()) % TAT::mpi.size;
+         };
          for (auto i = 0; i < group.size(); i++) {
-            if (i % TAT::mpi.size == TAT::mpi.rank) {
+            if (get_root(i) == TAT::mpi.rank) {
                const auto& positions = group[i];
                const auto& tensor = *updater.at(positions);
                _single_term_simple_update(positions, tensor);
@@ -101,7 +109,7 @@ namespace square {
          MPI_Barrier(MPI_COMM_WORLD);
          for (auto i = 0; i < group.size(); i++) {
             const auto& positions = group[i];
-            auto root = i % TAT::mpi.size;
+            auto root = get_root(i);
             for (const auto& [x, y] : positions) {
                lattice[x][y] = TAT::mpi.broadcast(lattice[x][y], root);
             }
-- 
2.43.0


From c5b003ab46b68fcc3714fb5bf660d32d6be91064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 01/50] fix: report the accessed cell's Z index to
 OnMutableAccess

---
 include/common_robotics_utilities/voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 2606ac1..7752a26 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -661,7 +661,7 @@ private:
 
   bool OnMutableAccess(const GridIndex& index)
   {
-    return OnMutableAccess(index.X(), index.Y(), index.Y());
+    return OnMutableAccess(index.X(), index.Y(), index.Z());
   }
 
 protected:
-- 
2.43.0


From fbc43a46eb1d11b09964f89f56ef7b15da61c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 02/50] fix: make mutable accessors of the dynamic spatial
 hashed voxel grid non-const so they compile

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 72c56bb..620ef6c 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -417,7 +417,7 @@ public:
   }
 
   DynamicSpatialHashedGridQuery<T> GetIndexMutable(
-      const GridIndex& internal_cell_index) const
+      const GridIndex& internal_cell_index)
   {
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -1058,7 +1058,7 @@ public:
     return chunks_;
   }
 
-  ChunkMap& GetMutableInternalChunks() const
+  ChunkMap& GetMutableInternalChunks()
   {
     if (OnMutableRawAccess())
     {
-- 
2.43.0


From 6f3b4a791766719dffffd521c641dd29a0a6605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 03/50] fix: accept locations within rounding error of the
 bounds of their chunk

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 59 +++++++++++--------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 620ef6c..c761403 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <string>
@@ -176,37 +178,48 @@ private:
   GridSizes sizes_;
   DSHVGFillStatus fill_status_ = DSHVGFillStatus::NOT_FILLED;
 
+  /// Get the cell index along a single axis for a location @param offset from
+  /// the base of the chunk, or -1 if the location is outside the chunk. The grid
+  /// selects the chunk containing a location by rounding, so a location on (or
+  /// very close to) a chunk boundary can be outside the nominal bounds of its
+  /// chunk by rounding error. Such locations belong to the closest cell.
+  static int64_t GetAxisCellIndex(
+      const double offset, const double base, const double chunk_size,
+      const double cell_size, const int64_t num_cells)
+  {
+    const double tolerance = 4.0 * std::numeric_limits<double>::epsilon()
+        * (std::abs(base) + chunk_size);
+    if (offset >= -tolerance && offset <= (chunk_size + tolerance))
+    {
+      const int64_t cell = static_cast<int64_t>(std::floor(offset / cell_size));
+      return std::min(std::max(cell, static_cast<int64_t>(0)), num_cells - 1);
+    }
+    else
+    {
+      return -1;
+    }
+  }
+
   int64_t GetLocationDataIndex(const Eigen::Vector4d& location) const
   {
     const Eigen::Vector4d location_wrt_chunk = location - region_.Base();
-    // First, make sure the location is in the range this chunk covers
-    if (location_wrt_chunk(0) < 0.0
-        || location_wrt_chunk(1) < 0.0
-        || location_wrt_chunk(2) < 0.0
-        || location_wrt_chunk(0) >= sizes_.XSize()
-        || location_wrt_chunk(1) >= sizes_.YSize()
-        || location_wrt_chunk(2) >= sizes_.ZSize())
+    const int64_t x_cell = GetAxisCellIndex(
+        location_wrt_chunk(0), region_.Base()(0), sizes_.XSize(),
+        sizes_.CellXSize(), sizes_.NumXCells());
+    const int64_t y_cell = GetAxisCellIndex(
+        location_wrt_chunk(1), region_.Base()(1), sizes_.YSize(),
+        sizes_.CellYSize(), sizes_.NumYCells());
+    const int64_t z_cell = GetAxisCellIndex(
+        location_wrt_chunk(2), region_.Base()(2), sizes_.ZSize(),
+        sizes_.CellZSize(), sizes_.NumZCells());
+    // Make sure the location is in the range this chunk covers
+    if (x_cell < 0 || y_cell < 0 || z_cell < 0)
     {
       return -1;
     }
-    // Ok, we're inside the chunk
     else
     {
-      const int64_t x_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(0) / sizes_.CellXSize()));
-      const int64_t y_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(1) / sizes_.CellYSize()));
-      const int64_t z_cell = static_cast<int64_t>(
-          std::floor(location_wrt_chunk(2) / sizes_.CellZSize()));
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= sizes_.NumXCells()
-          || y_cell >= sizes_.NumYCells() || z_cell >= sizes_.NumZCells())
-      {
-        return -1;
-      }
-      else
-      {
-        return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      return sizes_.GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0


From 9563c139f3b66da386b79d27a936914667580e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 04/50] fix: make OwningGraphOverlay usable by inheriting its
 interface publicly

---
 include/common_robotics_utilities/simple_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 11a8c9d..8cc47c5 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -946,7 +946,8 @@ public:
 };
 
 template<typename NodeValueType, typename GraphType>
-class OwningGraphOverlay : NonOwningGraphOverlay<NodeValueType, GraphType>
+class OwningGraphOverlay
+    : public NonOwningGraphOverlay<NodeValueType, GraphType>
 {
 private:
   std::shared_ptr<const GraphType> owned_base_graph_;
-- 
2.43.0


From 5dca4a494c5ad90c7c45085f2e2ecf54924003d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 05/50] fix: make A* account for start costs and for cheaper
 starts than one already at the goal

---
 .../common_robotics_utilities/simple_astar_search.hpp | 10 +++++++---
 .../common_robotics_utilities/simple_graph_search.hpp | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_astar_search.hpp b/include/common_robotics_utilities/simple_astar_search.hpp
index 644c608..bb1ba83 100644
--- a/include/common_robotics_utilities/simple_astar_search.hpp
+++ b/include/common_robotics_utilities/simple_astar_search.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -243,11 +244,13 @@ inline AstarResult<T, Container> PerformAstarSearch(
   // Check if a provided start state meets goal conditions
   int64_t best_start_meeting_goal_index = -1;
   double best_start_meeting_goal_cost = std::numeric_limits<double>::infinity();
+  double best_start_cost = std::numeric_limits<double>::infinity();
 
   for (size_t idx = 0; idx < start_states.size(); idx++)
   {
     const T& start_state = start_states.at(idx).State();
     const double start_cost = start_states.at(idx).Cost();
+    best_start_cost = std::min(best_start_cost, start_cost);
     if (goal_check_fn(start_state))
     {
       if (start_cost < best_start_meeting_goal_cost)
@@ -258,8 +261,9 @@ inline AstarResult<T, Container> PerformAstarSearch(
     }
   }
 
-  // Return early if we already have a solution
-  if (best_start_meeting_goal_index >= 0)
+  // Return early if we already have a solution that no other start can improve
+  if (best_start_meeting_goal_index >= 0 &&
+      best_start_meeting_goal_cost <= best_start_cost)
   {
     const auto& best_start_meeting_goal =
         start_states.at(static_cast<size_t>(best_start_meeting_goal_index));
@@ -338,7 +342,7 @@ inline AstarResult<T, Container> PerformAstarSearch(
     if (!is_queue_better(start_state, start_cost))
     {
       queue.push(AstarPQueueElement<T>(
-          start_state, start_cost, heuristic_fn(start_state)));
+          start_state, start_cost, start_cost + heuristic_fn(start_state)));
 
       if (limit_pqueue_duplicates)
       {
diff --git a/include/common_robotics_utilities/simple_graph_search.hpp b/include/common_robotics_utilities/simple_graph_search.hpp
index 8b57e50..67772ff 100644
--- a/include/common_robotics_utilities/simple_graph_search.hpp
+++ b/include/common_robotics_utilities/simple_graph_search.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -252,11 +253,13 @@ inline AstarIndexResult PerformLazyAstarSearch(
   // Check if a provided start state meets goal conditions
   int64_t best_start_index_meeting_goal = -1;
   double best_start_meeting_goal_cost = std::numeric_limits<double>::infinity();
+  double best_start_cost = std::numeric_limits<double>::infinity();
 
   for (const auto& start_index_and_cost : start_indices)
   {
     const int64_t start_index = start_index_and_cost.State();
     const double start_cost = start_index_and_cost.Cost();
+    best_start_cost = std::min(best_start_cost, start_cost);
 
     if (goal_check_fn(graph, start_index))
     {
@@ -268,8 +271,9 @@ inline AstarIndexResult PerformLazyAstarSearch(
     }
   }
 
-  // Return early if we already have a solution
-  if (best_start_index_meeting_goal >= 0)
+  // Return early if we already have a solution that no other start can improve
+  if (best_start_index_meeting_goal >= 0 &&
+      best_start_meeting_goal_cost <= best_start_cost)
   {
     return AstarIndexResult(
         {best_start_index_meeting_goal}, best_start_meeting_goal_cost);
@@ -338,7 +342,8 @@ inline AstarIndexResult PerformLazyAstarSearch(
     if (!is_queue_better(start_index, start_cost))
     {
       queue.push(AstarIndexPQueueElement(
-          start_index, start_cost, heuristic_fn(graph, start_index)));
+          start_index, start_cost,
+          start_cost + heuristic_fn(graph, start_index)));
 
       if (limit_pqueue_duplicates)
       {
-- 
2.43.0


From 251ed3132662eaab6900a66774c96369b97722c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 06/50] fix: do not destroy the old value of an OwningMaybe
 again when assignment throws

---
 include/common_robotics_utilities/maybe.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/maybe.hpp b/include/common_robotics_utilities/maybe.hpp
index a3e8248..b8a5f3a 100644
--- a/include/common_robotics_utilities/maybe.hpp
+++ b/include/common_robotics_utilities/maybe.hpp
@@ -33,6 +33,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -52,6 +57,11 @@ private:
         type_ = TYPE_B;
         break;
       }
+      case TYPE_NONE:
+      {
+        type_ = TYPE_NONE;
+        break;
+      }
     }
   }
 
@@ -69,7 +79,12 @@ private:
         value_b_.~B();
         break;
       }
+      case TYPE_NONE:
+      {
+        break;
+      }
     }
+    type_ = TYPE_NONE;
   }
 
 public:
@@ -79,7 +94,9 @@ public:
     B value_b_;
   };
 
-  enum {TYPE_A, TYPE_B} type_{};
+  // TYPE_NONE is used when neither value is present, which only happens if
+  // copying or moving a value into this throws.
+  enum {TYPE_A, TYPE_B, TYPE_NONE} type_{};
 
   explicit TaggedUnion(const A& value_a)
       : value_a_(value_a), type_(TYPE_A) {}
-- 
2.43.0


From 3665c3390a439892b0566d19b5013ca4448204d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 07/50] fix: check sizes claimed by serialized data before
 allocating or reading

---
 .../serialization.hpp                         | 35 ++++++++++++++++---
 .../serialization.cpp                         | 35 ++++++++++++++++---
 2 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index ffc28b6..b68d546 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -302,6 +302,25 @@ inline Deserialized<SetLike> DeserializeNetworkSetLike(
 /////                   IMPLEMENTATIONS ONLY                    /////
 /////////////////////////////////////////////////////////////////////
 
+namespace internal
+{
+/// Check that @param num_items items, as claimed by a size header, of at least
+/// @param min_item_size bytes each can be present in the part of @param buffer
+/// starting at @param current_position. Performed before allocating memory for
+/// the items, since the size header cannot be trusted.
+inline void EnforceItemsFitInBuffer(
+    const std::vector<uint8_t>& buffer, const uint64_t current_position,
+    const uint64_t num_items, const uint64_t min_item_size)
+{
+  const uint64_t remaining_size = (current_position < buffer.size())
+      ? static_cast<uint64_t>(buffer.size()) - current_position : 0;
+  if (num_items > (remaining_size / min_item_size))
+  {
+    throw std::invalid_argument("Not enough room in the provided buffer");
+  }
+}
+}  // namespace internal
+
 template<typename T>
 inline uint64_t SerializeMemcpyable(const T& item_to_serialize,
                                     std::vector<uint8_t>& buffer)
@@ -369,6 +388,8 @@ inline Deserialized<std::basic_string<CharType>> DeserializeString(
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
   std::basic_string<CharType> deserialized;
+  internal::EnforceItemsFitInBuffer(
+      buffer, current_position, size, sizeof(CharType));
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
   {
@@ -419,6 +440,8 @@ inline Deserialized<VectorLike> DeserializeVectorLike(
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
   VectorLike deserialized;
+  // Every item takes at least one byte.
+  internal::EnforceItemsFitInBuffer(buffer, current_position, size, 1);
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
   {
@@ -473,11 +496,9 @@ DeserializeMemcpyableVectorLike(
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  internal::EnforceItemsFitInBuffer(
+      buffer, current_position, size, sizeof(T));
   const size_t serialized_length = sizeof(T) * size;
-  if ((current_position + serialized_length) > buffer.size())
-  {
-    throw std::invalid_argument("Not enough room in the provided buffer");
-  }
   VectorLike deserialized(size);
   // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
   // nullptr dst/src (encountered if a vector is empty) is undefined behavior.
@@ -900,6 +921,8 @@ DeserializeNetworkString(
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
   std::basic_string<CharType> deserialized;
+  internal::EnforceItemsFitInBuffer(
+      buffer, current_position, size, sizeof(CharType));
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
   {
@@ -951,6 +974,8 @@ DeserializeNetworkVectorLike(
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
   VectorLike deserialized;
+  // Every item takes at least one byte.
+  internal::EnforceItemsFitInBuffer(buffer, current_position, size, 1);
   deserialized.reserve(size);
   for (uint64_t idx = 0; idx < size; idx++)
   {
@@ -1004,6 +1029,8 @@ DeserializeNetworkMemcpyableVectorLike(const std::vector<uint8_t>& buffer,
   const uint64_t size = deserialized_size.Value();
   current_position += deserialized_size.BytesRead();
   // Deserialize the items
+  internal::EnforceItemsFitInBuffer(
+      buffer, current_position, size, sizeof(T));
   VectorLike deserialized(size);
   for (size_t idx = 0; idx < deserialized.size(); idx++)
   {
diff --git a/src/common_robotics_utilities/serialization.cpp b/src/common_robotics_utilities/serialization.cpp
index 9153c73..8823a8e 100644
--- a/src/common_robotics_utilities/serialization.cpp
+++ b/src/common_robotics_utilities/serialization.cpp
@@ -1,6 +1,8 @@
 #include <common_robotics_utilities/serialization.hpp>
 
 #include <cstdint>
+#include <limits>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -50,7 +52,12 @@ uint64_t SerializeMatrixXd(
   const size_t previous_buffer_size = buffer.size();
   buffer.resize(previous_buffer_size + serialized_length, 0x00);
   // Serialize the contained items
-  memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src (encountered if a matrix is empty) is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(&buffer[previous_buffer_size], value.data(), serialized_length);
+  }
   // Figure out how many bytes were written
   const uint64_t end_buffer_size = buffer.size();
   const uint64_t bytes_written = end_buffer_size - start_buffer_size;
@@ -136,14 +143,32 @@ Deserialized<Eigen::MatrixXd> DeserializeMatrixXd(
   const uint64_t cols = deserialized_cols.Value();
   current_position += deserialized_cols.BytesRead();
   // Deserialize the items
-  const size_t serialized_length = sizeof(double) * rows * cols;
-  if ((current_position + serialized_length) > buffer.size())
+  constexpr uint64_t max_dimension =
+      static_cast<uint64_t>(std::numeric_limits<ssize_t>::max());
+  if (rows > max_dimension || cols > max_dimension)
   {
-    throw std::invalid_argument("Not enough room in the provided buffer");
+    throw std::invalid_argument("Invalid matrix dimensions");
   }
+  if (rows > 0)
+  {
+    // By checking a row of items at a time, we avoid overflow of rows * cols.
+    internal::EnforceItemsFitInBuffer(
+        buffer, current_position, cols, sizeof(double));
+    if (cols > 0)
+    {
+      internal::EnforceItemsFitInBuffer(
+          buffer, current_position, rows, sizeof(double) * cols);
+    }
+  }
+  const size_t serialized_length = sizeof(double) * rows * cols;
   Eigen::MatrixXd deserialized = Eigen::MatrixXd::Zero(
       static_cast<ssize_t>(rows), static_cast<ssize_t>(cols));
-  memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  // Only memcpy if a non-zero number of bytes will be copied, since memcpy on
+  // nullptr dst/src (encountered if a matrix is empty) is undefined behavior.
+  if (serialized_length > 0)
+  {
+    memcpy(deserialized.data(), &buffer[current_position], serialized_length);
+  }
   current_position += serialized_length;
   // Figure out how many bytes were read
   const uint64_t bytes_read = current_position - starting_offset;
-- 
2.43.0


From 835295c9f1fe9958e0b016236c435b4bf35ceafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 08/50] fix: allow char, so that network strings can be
 serialized

---
 include/common_robotics_utilities/serialization.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/serialization.hpp b/include/common_robotics_utilities/serialization.hpp
index b68d546..17f999f 100644
--- a/include/common_robotics_utilities/serialization.hpp
+++ b/include/common_robotics_utilities/serialization.hpp
@@ -729,7 +729,8 @@ inline uint64_t SerializeNetworkMemcpyableInPlace(
     std::vector<uint8_t>& buffer,
     const uint64_t buffer_position)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
@@ -786,7 +787,8 @@ template<typename T>
 inline uint64_t SerializeNetworkMemcpyable(const T& item_to_serialize,
                                            std::vector<uint8_t>& buffer)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
@@ -837,7 +839,8 @@ template<typename T>
 inline Deserialized<T> DeserializeNetworkMemcpyable(
     const std::vector<uint8_t>& buffer, const uint64_t starting_offset)
 {
-  static_assert((std::is_same<T, uint8_t>::value
+  static_assert((std::is_same<T, char>::value
+           || std::is_same<T, uint8_t>::value
            || std::is_same<T, uint16_t>::value
            || std::is_same<T, uint32_t>::value
            || std::is_same<T, uint64_t>::value
-- 
2.43.0


From 633c15c4e44bcea497dfc5c681528e5d51eb372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 09/50] fix: index the base64 tables with unsigned characters

---
 src/common_robotics_utilities/base64_helpers.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common_robotics_utilities/base64_helpers.cpp b/src/common_robotics_utilities/base64_helpers.cpp
index 9fe6585..aa3d3e6 100644
--- a/src/common_robotics_utilities/base64_helpers.cpp
+++ b/src/common_robotics_utilities/base64_helpers.cpp
@@ -36,10 +36,10 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   for (size_t i = 0, j = 0; i < L; i += 4)
   {
     const int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[i])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[i + 1])] << 12
-        | B64IndexTable[static_cast<size_t>(encoded[i + 2])] << 6
-        | B64IndexTable[static_cast<size_t>(encoded[i + 3])];
+        B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6
+        | B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = static_cast<uint8_t>(n >> 16);
     buffer[j++] = static_cast<uint8_t>(n >> 8 & 0xFF);
     buffer[j++] = static_cast<uint8_t>(n & 0xFF);
@@ -47,12 +47,12 @@ std::vector<uint8_t> Decode(const std::string& encoded)
   if (pad > 0)
   {
     int32_t n =
-        B64IndexTable[static_cast<size_t>(encoded[L])] << 18
-        | B64IndexTable[static_cast<size_t>(encoded[L + 1])] << 12;
+        B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18
+        | B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = static_cast<uint8_t>(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=')
     {
-      n |= B64IndexTable[static_cast<size_t>(encoded[L + 2])] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back(static_cast<uint8_t>(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From 8f2becfa0c3235d038d60deb3d14a2d91d318ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 10/50] fix: report failures to write a compressed file

---
 src/common_robotics_utilities/zlib_helpers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common_robotics_utilities/zlib_helpers.cpp b/src/common_robotics_utilities/zlib_helpers.cpp
index 4ea45b5..21c76a3 100644
--- a/src/common_robotics_utilities/zlib_helpers.cpp
+++ b/src/common_robotics_utilities/zlib_helpers.cpp
@@ -156,9 +156,17 @@ void CompressAndWriteToFile(
 {
   const auto compressed = CompressBytes(uncompressed);
   std::ofstream output_file(filename, std::ios::out | std::ios::binary);
+  if (!output_file.is_open())
+  {
+    throw std::runtime_error("Failed to open file [" + filename + "]");
+  }
   output_file.write(reinterpret_cast<const char*>(compressed.data()),
                     static_cast<std::streamsize>(compressed.size()));
   output_file.close();
+  if (!output_file)
+  {
+    throw std::runtime_error("Failed to write entire contents of file");
+  }
 }
 } // namespace zlib_helpers
 CRU_NAMESPACE_END
-- 
2.43.0


From 56bdfbd4090ed1229df67bf543257a3e2b47a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 11/50] fix: start dynamic async loops at the start of the
 range

---
 include/common_robotics_utilities/parallelism.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/parallelism.hpp b/include/common_robotics_utilities/parallelism.hpp
index 1b3b4ed..d8e02bc 100644
--- a/include/common_robotics_utilities/parallelism.hpp
+++ b/include/common_robotics_utilities/parallelism.hpp
@@ -398,7 +398,7 @@ void DynamicParallelForRangeLoop(
               functor(work_range);
               return thread_number;
             },
-            workers_dispatched,
+            range_start + workers_dispatched,
             thread_number_keeper.CheckoutThreadNumber()));
         workers_dispatched++;
       }
-- 
2.43.0


From 7f08d598185306d3dda50c7d5700224d05de3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 12/50] fix: restore the OpenMP thread setting, not the
 delivered count, and query it without a race

---
 include/common_robotics_utilities/openmp_helpers.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/openmp_helpers.hpp b/include/common_robotics_utilities/openmp_helpers.hpp
index f10557c..21b36ec 100644
--- a/include/common_robotics_utilities/openmp_helpers.hpp
+++ b/include/common_robotics_utilities/openmp_helpers.hpp
@@ -97,6 +97,7 @@ inline int32_t GetMaxNumOmpThreads()
 #if defined(_OPENMP)
   int32_t max_num_threads = 0;
 #pragma omp parallel
+#pragma omp single
   {
     max_num_threads = GetContextMaxNumOmpThreads();
   }
@@ -115,6 +116,7 @@ inline int32_t GetNumOmpThreads()
 #if defined(_OPENMP)
   int32_t num_threads = 0;
 #pragma omp parallel
+#pragma omp single
   {
     num_threads = GetContextNumOmpThreads();
   }
@@ -162,7 +164,9 @@ public:
     {
       throw std::invalid_argument("num_threads must be greater than zero");
     }
-    starting_num_omp_threads_ = GetNumOmpThreads();
+    // Note that the number of threads OpenMP delivers may be lower than the
+    // current setting, which is what must be restored.
+    starting_num_omp_threads_ = GetContextMaxNumOmpThreads();
 #if defined(_OPENMP)
     omp_set_num_threads(num_threads);
 #endif
-- 
2.43.0


From dfbfa9e0b400b83b33f6197a02d22a4a783e426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 13/50] fix: keep all neighbors when a thread is assigned
 several ranges

---
 .../simple_knearest_neighbors.hpp                        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_knearest_neighbors.hpp b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
index 3e2cec3..c5a3916 100644
--- a/include/common_robotics_utilities/simple_knearest_neighbors.hpp
+++ b/include/common_robotics_utilities/simple_knearest_neighbors.hpp
@@ -196,11 +196,18 @@ inline std::vector<IndexAndDistance> GetKNearestNeighborsInRangeParallel(
       const auto per_range_work = [&](
           const parallelism::ThreadWorkRange& work_range)
       {
-        per_thread_nearests[work_range.GetThreadNum()] =
+        const std::vector<IndexAndDistance> range_nearests =
             GetKNearestNeighborsInRangeSerial<Item, Value, Container>(
                 items, static_cast<size_t>(work_range.GetRangeStart()),
                 static_cast<size_t>(work_range.GetRangeEnd()), current,
                 distance_fn, K);
+        // If fewer threads are available than requested, a single thread may be
+        // assigned multiple ranges.
+        std::vector<IndexAndDistance>& thread_nearests =
+            per_thread_nearests[work_range.GetThreadNum()];
+        thread_nearests.insert(
+            thread_nearests.end(), range_nearests.begin(),
+            range_nearests.end());
       };
 
       // Dispatch, preferably using OpenMP if available, std::async otherwise.
-- 
2.43.0


From f670076b119fc6e190c2bee06c566c88976ad14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 14/50] fix: refuse more k-means clusters than datapoints
 instead of looping forever

---
 .../common_robotics_utilities/simple_kmeans_clustering.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index eb05d11..f1f5eff 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -169,6 +169,10 @@ std::vector<int32_t> ClusterWeighted(
   {
     throw std::invalid_argument("num_clusters == 0");
   }
+  else if (num_clusters > static_cast<int64_t>(data.size()))
+  {
+    throw std::invalid_argument("num_clusters > data.size()");
+  }
   // Make sure we have enough datapoints to do meaningful preliminary clustering
   bool enable_preliminary_clustering = do_preliminary_clustering;
   if (enable_preliminary_clustering)
-- 
2.43.0


From 56236bcc7fe2a65242805f271539d4e6dbc2324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 15/50] fix: pair each direction's distance with that
 direction's validity when adding to a roadmap

---
 .../simple_prm_planner.hpp                    | 32 +++++++------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 3efe403..1d4fc13 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -273,7 +273,7 @@ int64_t AddNodeToRoadmap(
     const size_t idx = static_cast<size_t>(index);
     const auto& nearest_neighbor = nearest_neighbors.at(idx);
     const int64_t nearest_neighbor_index = nearest_neighbor.Index();
-    const double graph_to_node_distance = nearest_neighbor.Distance();
+    const double knn_distance = nearest_neighbor.Distance();
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
@@ -282,35 +282,27 @@ int64_t AddNodeToRoadmap(
     {
       // Distance is symmetric and the edge is valid
       nearest_neighbors_distances.at(idx)
-          = std::make_pair(graph_to_node_distance,
-                           graph_to_node_distance);
+          = std::make_pair(knn_distance, knn_distance);
     }
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
           edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
-      const double node_to_graph_distance
-          = distance_fn(state,
-                        roadmap.GetNodeImmutable(nearest_neighbor_index)
-                            .GetValueImmutable());
+      // KNN only provides the distance in one direction, compute the other
+      const bool knn_is_graph_to_node =
+          nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE;
+      const double graph_to_node_distance = (knn_is_graph_to_node)
+          ? knn_distance : distance_fn(nearest_neighbor_state, state);
+      const double node_to_graph_distance = (knn_is_graph_to_node)
+          ? distance_fn(state, nearest_neighbor_state) : knn_distance;
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
       const double real_node_to_graph_distance
           = (node_to_graph_edge_validity) ? node_to_graph_distance : -1.0;
-      // Set the distance values depending on direction
-      if (nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE)
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_graph_to_node_distance,
-                             real_node_to_graph_distance);
-      }
-      else
-      {
-        nearest_neighbors_distances.at(idx)
-            = std::make_pair(real_node_to_graph_distance,
-                             real_graph_to_node_distance);
-      }
+      nearest_neighbors_distances.at(idx)
+          = std::make_pair(real_graph_to_node_distance,
+                           real_node_to_graph_distance);
     }
     else
     {
-- 
2.43.0


From ca0594f2fdc9a7933a6993da5b006b0504eb351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 16/50] fix: do not call absent goal callbacks in the RRT and
 BiRRT initial checks

---
 .../simple_rrt_planner.hpp                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 979e893..235d3d4 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -705,7 +705,10 @@ MultipleSolutionPlanningResults<StateType, Container> RRTPlanMultiPath(
     if (check_goal_reached_fn(tree.GetNodeImmutable(idx).GetValueImmutable()))
     {
       goal_state_indices.push_back(idx);
-      goal_reached_callback_fn(tree, idx);
+      if (goal_reached_callback_fn)
+      {
+        goal_reached_callback_fn(tree, idx);
+      }
     }
   }
 
@@ -958,10 +961,13 @@ MultipleSolutionPlanningResults<StateType, Container> BiRRTPlanMultiPath(
               active_tree_type))
       {
         goal_bridges.emplace_back(start_tree_idx, goal_tree_idx);
-        goal_bridge_callback_fn(
-            start_tree, start_tree_idx,
-            goal_tree, goal_tree_idx,
-            active_tree_type);
+        if (goal_bridge_callback_fn)
+        {
+          goal_bridge_callback_fn(
+              start_tree, start_tree_idx,
+              goal_tree, goal_tree_idx,
+              active_tree_type);
+        }
       }
     }
   }
-- 
2.43.0


From 96d0adafd81e259e96d83ef1df2fa9f6dd4fceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 17/50] fix: never take the biased choice of planner samplers
 with probability zero

The draws are from [0, 1), so a draw of exactly 0 took the biased choice even
with a bias of zero.
---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 235d3d4..068fd50 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1470,7 +1470,7 @@ MakeUniformRandomBiRRTSelectSampleTypeFunction(
                 const TreeType&, const TreeType&, const BiRRTActiveTreeType)
     {
       const bool sample_from_tree =
-          uniform_unit_real_fn() <= tree_sampling_bias;
+          uniform_unit_real_fn() < tree_sampling_bias;
       return (sample_from_tree)
           ? BiRRTSampleType::TREE_SAMPLE : BiRRTSampleType::STATE_SAMPLE;
     };
@@ -1497,7 +1497,7 @@ MakeUniformRandomBiRRTSelectActiveTreeFunction(
             const TreeType&, const TreeType&,
             const BiRRTActiveTreeType active_tree_type)
     {
-      const bool switch_tree = uniform_unit_real_fn() <= p_switch_tree;
+      const bool switch_tree = uniform_unit_real_fn() < p_switch_tree;
       if (switch_tree)
       {
         return (active_tree_type == BiRRTActiveTreeType::START_TREE)
@@ -1562,7 +1562,7 @@ SamplingFunction<SampleType> MakeStateAndGoalsSamplingFunction(
 
     SampleType Sample()
     {
-      if (uniform_unit_real_fn_() > goal_bias_)
+      if (uniform_unit_real_fn_() >= goal_bias_)
       {
         return state_sampling_fn_();
       }
-- 
2.43.0


From 0e8873c24e185ba1cfdedd8577839701e13c45e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 18/50] fix: refuse NaN step sizes, goal biases and timeouts of
 planner helpers

---
 .../common_robotics_utilities/simple_rrt_planner.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 068fd50..7c294cd 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -1373,7 +1373,7 @@ private:
 public:
   explicit TimeoutCheckHelper(const double timeout)
   {
-    if (timeout <= 0.0)
+    if (!(timeout > 0.0))
     {
       throw std::runtime_error("timeout <= 0.0");
     }
@@ -1549,7 +1549,7 @@ SamplingFunction<SampleType> MakeStateAndGoalsSamplingFunction(
           uniform_unit_real_fn_(uniform_unit_real_fn),
           state_sampling_fn_(state_sampling_fn)
     {
-      if ((goal_bias_ < 0.0) || (goal_bias_ > 1.0))
+      if (!((goal_bias_ >= 0.0) && (goal_bias_ <= 1.0)))
       {
         throw std::invalid_argument(
             "goal_bias is not a valid probability");
@@ -1727,7 +1727,7 @@ MakeKinematicRRTExtendPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1771,7 +1771,7 @@ MakeKinematicBiRRTExtendPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1817,7 +1817,7 @@ MakeKinematicRRTConnectPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
@@ -1897,7 +1897,7 @@ MakeKinematicBiRRTConnectPropagationFunction(
                              const StateType&)>& edge_validity_check_fn,
     const double step_size)
 {
-  if (step_size <= 0.0)
+  if (!(step_size > 0.0))
   {
     throw std::invalid_argument("step_size <= 0.0");
   }
-- 
2.43.0


From f28fd4ba7e1729cde844cd83ab4e738d9e0aebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 19/50] fix: keep all states when resampling a path with an
 infinite or NaN distance

An infinite distance dropped every state but the first, since the number of
segments came out as zero. NaN is refused like other invalid distances.
---
 include/common_robotics_utilities/path_processing.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/path_processing.hpp b/include/common_robotics_utilities/path_processing.hpp
index 4d787cd..c164986 100644
--- a/include/common_robotics_utilities/path_processing.hpp
+++ b/include/common_robotics_utilities/path_processing.hpp
@@ -290,7 +290,7 @@ inline Container ResamplePath(
   {
     return path;
   }
-  if (resampled_state_distance <= 0.0)
+  if (!(resampled_state_distance > 0.0))
   {
     throw std::invalid_argument("resampled_state_distance must be > 0");
   }
@@ -309,11 +309,11 @@ inline Container ResamplePath(
     const uint32_t num_segments
         = static_cast<uint32_t>(std::ceil(raw_num_intervals));
     // If there's only one segment, we just add the end state of the window
-    if (num_segments == 0u)
+    if (distance == 0.0)
     {
-      // Do nothing because this means distance was exactly 0
+      // Do nothing because the state is the same as the previous one
     }
-    else if (num_segments == 1u)
+    else if (num_segments <= 1u)
     {
       // Add a single point for the other end of the segment
       resampled_path.push_back(current_state);
-- 
2.43.0


From 3c40e32913bf8ff9183275d907c3648426e6bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 20/50] fix: take the cheapest predecessor in dynamic time
 warping also when two tie

---
 include/common_robotics_utilities/simple_dtw.hpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/include/common_robotics_utilities/simple_dtw.hpp b/include/common_robotics_utilities/simple_dtw.hpp
index b8d3be8..3aceb6c 100644
--- a/include/common_robotics_utilities/simple_dtw.hpp
+++ b/include/common_robotics_utilities/simple_dtw.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <functional>
 #include <limits>
@@ -85,24 +86,12 @@ public:
         const SecondDatatype& second_item
             = second_sequence[static_cast<size_t>(j - 1)];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the next neighboring values from the matrix to use for the update
         const double im1j = dtw_matrix_(i - 1, j);
         const double im1jm1 = dtw_matrix_(i - 1, j - 1);
         const double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1)
-        {
-          prev_cost = im1j;
-        }
-        else if (ijm1 < im1j && ijm1 < im1jm1)
-        {
-          prev_cost = ijm1;
-        }
-        else
-        {
-          prev_cost = im1jm1;
-        }
+        const double prev_cost = std::min({im1j, im1jm1, ijm1});
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 2871e1eb4f3458bd17337b2aea4f45d31f7de796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:02 +0000
Subject: [PATCH 21/50] fix: keep the center of a k-means cluster that has lost
 all its datapoints

---
 .../simple_kmeans_clustering.hpp              | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/include/common_robotics_utilities/simple_kmeans_clustering.hpp b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
index f1f5eff..d0ea672 100644
--- a/include/common_robotics_utilities/simple_kmeans_clustering.hpp
+++ b/include/common_robotics_utilities/simple_kmeans_clustering.hpp
@@ -59,6 +59,8 @@ std::vector<int32_t> PerformSingleClusteringIteration(
 /// used to preallocate storage. @return the new cluster centers.
 /// @param parallelism selects if/how cluster centers should be computed in
 /// parallel.
+/// @param previous_cluster_centers If provided, a cluster that contains no data
+/// keeps its previous center, as there is nothing to average.
 template<typename DataType, typename Container=std::vector<DataType>>
 Container ComputeClusterCentersWeighted(
     const Container& data,  const std::vector<double>& data_weights,
@@ -66,8 +68,15 @@ Container ComputeClusterCentersWeighted(
     const std::function<DataType(
         const Container&, const std::vector<double>&)>& weighted_average_fn,
     const int32_t num_clusters,
-    const parallelism::DegreeOfParallelism& parallelism)
+    const parallelism::DegreeOfParallelism& parallelism,
+    const Container& previous_cluster_centers = Container())
 {
+  if (!previous_cluster_centers.empty()
+      && static_cast<int64_t>(previous_cluster_centers.size()) != num_clusters)
+  {
+    throw std::invalid_argument(
+        "previous_cluster_centers.size() != num_clusters");
+  }
   if (data.size() == cluster_labels.size())
   {
     // TODO: improve this to avoid copies. It's possible right now, but it would
@@ -94,8 +103,16 @@ Container ComputeClusterCentersWeighted(
           = clustered_data.at(static_cast<size_t>(cluster));
       const std::vector<double>& cluster_data_weights
           = clustered_data_weights.at(static_cast<size_t>(cluster));
-      cluster_centers.at(static_cast<size_t>(cluster))
-          = weighted_average_fn(cluster_data, cluster_data_weights);
+      if (cluster_data.empty() && !previous_cluster_centers.empty())
+      {
+        cluster_centers.at(static_cast<size_t>(cluster))
+            = previous_cluster_centers.at(static_cast<size_t>(cluster));
+      }
+      else
+      {
+        cluster_centers.at(static_cast<size_t>(cluster))
+            = weighted_average_fn(cluster_data, cluster_data_weights);
+      }
     };
 
     parallelism::StaticParallelForIndexLoop(
@@ -243,11 +260,15 @@ std::vector<int32_t> ClusterWeighted(
         = ClusterWeighted<DataType, Container>(
             random_subset, random_subset_weights, distance_fn,
             weighted_average_fn, num_clusters, prng_seed, false, parallelism);
-    // Now we use the centers of the clusters to form the cluster centers
+    // Now we use the centers of the clusters to form the cluster centers, with
+    // elements of the subset to stand in for the centers of empty clusters
+    const Container subset_centers(
+        random_subset.begin(),
+        random_subset.begin() + static_cast<ptrdiff_t>(num_clusters));
     cluster_centers
-        = ComputeClusterCentersWeighted(
+        = ComputeClusterCentersWeighted<DataType, Container>(
             random_subset, random_subset_weights, random_subset_labels,
-            weighted_average_fn, num_clusters, parallelism);
+            weighted_average_fn, num_clusters, parallelism, subset_centers);
   }
   else
   {
@@ -286,9 +307,9 @@ std::vector<int32_t> ClusterWeighted(
     iteration++;
     // Update cluster centers
     cluster_centers
-        = ComputeClusterCentersWeighted(
+        = ComputeClusterCentersWeighted<DataType, Container>(
             data, data_weights, cluster_labels, weighted_average_fn,
-            num_clusters, parallelism);
+            num_clusters, parallelism, cluster_centers);
     // Cluster with the new centers
     const std::vector<int32_t> new_cluster_labels
         = PerformSingleClusteringIteration(
-- 
2.43.0


From 60c62c23a3ef516e472d7a5afee4f3fa0f9016d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 22/50] fix: do not copy the cached iterator into another TOTP
 trajectory when cloning

---
 .../time_optimal_trajectory_parametrization.cpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 0e78e75..8b8c4a7 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -273,6 +273,10 @@ public:
              const Eigen::VectorXd& max_acceleration,
              const double timestep = 0.001);
 
+  // Copies everything but the cached segment, which refers to the trajectory
+  // steps of the copied trajectory
+  Trajectory(const Trajectory& other);
+
   // Returns the optimal duration of the trajectory
   double Duration() const;
 
@@ -578,6 +582,15 @@ Trajectory::Trajectory(const Path& path,
   }
 }
 
+Trajectory::Trajectory(const Trajectory& other)
+  : path_(other.path_),
+    max_velocity_(other.max_velocity_),
+    max_acceleration_(other.max_acceleration_),
+    n_(other.n_),
+    trajectory_(other.trajectory_),
+    time_step_(other.time_step_),
+    cached_time_(std::numeric_limits<double>::max()) {}
+
 /* Part of the original TOTP implementation, disabled here since it is unused.
 void Trajectory::OutputPhasePlaneTrajectory() const
 {
-- 
2.43.0


From 53aa9a935339f28324690f936ccafacabfeef99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 23/50] fix: do not dereference the end of the TOTP switching
 points

---
 .../time_optimal_trajectory_parametrization.cpp                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 8b8c4a7..8808b14 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -899,7 +899,8 @@ bool Trajectory::IntegrateForward(std::list<TrajectoryStep>& trajectory,
       if (GetAccelerationMaxPathVelocity(after)
           < GetVelocityMaxPathVelocity(after))
       {
-        if (after > next_discontinuity->first)
+        if (next_discontinuity != switching_points.end()
+            && after > next_discontinuity->first)
         {
           return false;
         }
-- 
2.43.0


From 76b88abfec0cb979202dffd29948297f6d91ed7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 24/50] fix: refuse TOTP queries before the start and stay at
 the goal after the end

---
 .../time_optimal_trajectory_parametrization.cpp      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 8808b14..dc6329a 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1134,6 +1134,18 @@ Trajectory::GetTrajectorySegment(double time) const
 std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(
     const double time) const
 {
+  if (!(time >= 0.0))
+  {
+    throw std::invalid_argument("time must be >= 0");
+  }
+  if (time >= Duration())
+  {
+    // The trajectory ends at rest at the end of the path
+    const double path_pos = trajectory_.back().path_pos_;
+    return std::make_pair(
+        path_.GetConfig(path_pos),
+        path_.GetTangent(path_pos) * trajectory_.back().path_vel_);
+  }
   std::list<TrajectoryStep>::const_iterator it = GetTrajectorySegment(time);
   std::list<TrajectoryStep>::const_iterator previous = it;
   previous--;
-- 
2.43.0


From 8113c155ceeea9d63619f6e636953ba7bb8f70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 25/50] fix: skip TOTP path segments without length

---
 ...ime_optimal_trajectory_parametrization.cpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index dc6329a..11052c0 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -396,17 +396,32 @@ Path::Path(const std::list<Eigen::VectorXd>& path, const double max_deviation)
         path_segments_.push_back(
               new LinearPathSegment(start_config, end_config));
       }
-      path_segments_.push_back(blend_segment);
       start_config = blend_segment->GetConfig(blend_segment->Length());
+      // A path segment without length has no tangent
+      if (blend_segment->Length() > 0.0)
+      {
+        path_segments_.push_back(blend_segment);
+      }
+      else
+      {
+        delete blend_segment;
+      }
     }
     else
     {
-      path_segments_.push_back(new LinearPathSegment(start_config, *config2));
-      start_config = *config2;
+      if ((*config2 - start_config).norm() > 0.000001)
+      {
+        path_segments_.push_back(new LinearPathSegment(start_config, *config2));
+        start_config = *config2;
+      }
     }
     config1 = config2;
     config2++;
   }
+  if (path_segments_.empty())
+  {
+    throw std::invalid_argument("TOTP for paths without length is ill-defined");
+  }
   // Create std::list of switching point candidates,
   // calculate total path length and absolute positions of path segments
   for (std::list<PathSegment*>::iterator segment = path_segments_.begin();
-- 
2.43.0


From 9597a13ceb4aeb20f0f63fed9f1fc4a4e60cc12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 26/50] fix: refuse TOTP paths and limits for which no
 trajectory exists

---
 ...ime_optimal_trajectory_parametrization.cpp | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 11052c0..8c2c4e9 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1179,6 +1179,42 @@ std::pair<Eigen::VectorXd, Eigen::VectorXd> Trajectory::GetPositionVelocity(
                         path_.GetTangent(path_pos) * path_vel);
 }
 
+/// Refuse paths and limits for which no trajectory exists.
+void ValidatePathAndLimits(
+    const std::vector<Eigen::VectorXd>& path,
+    const Eigen::VectorXd& max_velocity,
+    const Eigen::VectorXd& max_acceleration,
+    const double timestep)
+{
+  for (const Eigen::VectorXd& waypoint : path)
+  {
+    if (waypoint.size() != max_velocity.size()
+        || waypoint.size() != max_acceleration.size())
+    {
+      throw std::invalid_argument(
+          "Waypoints, max_velocity, and max_acceleration must be the same size");
+    }
+    if (!waypoint.array().isFinite().all())
+    {
+      throw std::invalid_argument("waypoints must be finite");
+    }
+    for (ssize_t i = 0; i < waypoint.size(); i++)
+    {
+      const bool moves = waypoint[i] != path.front()[i];
+      if (max_velocity[i] < 0.0 || max_acceleration[i] < 0.0
+          || (moves && (max_velocity[i] == 0.0 || max_acceleration[i] == 0.0)))
+      {
+        throw std::invalid_argument(
+            "max_velocity and max_acceleration must be > 0 where the path moves");
+      }
+    }
+  }
+  if (!(timestep > 0.0))
+  {
+    throw std::invalid_argument("timestep must be > 0");
+  }
+}
+
 std::list<Eigen::VectorXd> MakeWaypointListFromWaypointVector(
     const std::vector<Eigen::VectorXd>& path)
 {
@@ -1227,6 +1263,7 @@ std::unique_ptr<PositionVelocityTrajectoryInterface> ParametrizePathTOTP(
     const Eigen::VectorXd& max_acceleration,
     const double max_deviation, const double timestep)
 {
+  ValidatePathAndLimits(path, max_velocity, max_acceleration, timestep);
   return std::unique_ptr<PositionVelocityTrajectoryInterface>(
       new TOTPTrajectoryImpl(
           path, max_velocity, max_acceleration, max_deviation, timestep));
-- 
2.43.0


From 9fcccf3608de6a75ea12e417896bded561d3a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 27/50] fix: blend TOTP paths at repeated waypoints

---
 .../time_optimal_trajectory_parametrization.cpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
index 8c2c4e9..5604d6b 100644
--- a/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/common_robotics_utilities/time_optimal_trajectory_parametrization.cpp
@@ -1219,7 +1219,15 @@ std::list<Eigen::VectorXd> MakeWaypointListFromWaypointVector(
     const std::vector<Eigen::VectorXd>& path)
 {
   std::list<Eigen::VectorXd> waypoint_list;
-  waypoint_list.insert(waypoint_list.end(), path.begin(), path.end());
+  for (const Eigen::VectorXd& waypoint : path)
+  {
+    // Repeated waypoints have no direction, so they would prevent blending
+    if (waypoint_list.empty()
+        || (waypoint - waypoint_list.back()).norm() > 0.000001)
+    {
+      waypoint_list.push_back(waypoint);
+    }
+  }
   return waypoint_list;
 }
 
-- 
2.43.0


From 5137a5ce7a558520c14dd98b2eeb8e1350eaf688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 28/50] fix: accept the limits of continuous revolute bounds
 regardless of rounding

---
 src/common_robotics_utilities/math.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 108a219..e6b9499 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -636,9 +636,8 @@ bool CheckInContinuousRevoluteRange(const double start,
                                     const double range,
                                     const double val)
 {
-  const double real_val = EnforceContinuousRevoluteBounds(val);
-  const double real_start = EnforceContinuousRevoluteBounds(start);
-  const double delta = ContinuousRevoluteSignedDistance(real_start, real_val);
+  // Note that this takes care of wrapping args to [-pi,pi) range.
+  const double delta = ContinuousRevoluteSignedDistance(start, val);
   if (delta >= 0.0)
   {
     if (delta <= range)
-- 
2.43.0


From 871ca153c9cb6019d70bc74680387007127a4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:02 +0000
Subject: [PATCH 29/50] fix: compute the twist between transforms also around
 half a turn

---
 src/common_robotics_utilities/math.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index e6b9499..5730872 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -1,5 +1,4 @@
 #include <Eigen/Eigenvalues>
-#include <unsupported/Eigen/MatrixFunctions>
 #include <common_robotics_utilities/math.hpp>
 #include <common_robotics_utilities/utility.hpp>
 
@@ -303,8 +302,22 @@ Eigen::Matrix<double, 6, 1> TwistBetweenTransforms(
     const Eigen::Isometry3d& start,
     const Eigen::Isometry3d& end)
 {
+  // Closed form of the matrix logarithm, which unlike the general algorithm is
+  // accurate for very small rotations and for rotations around half a turn.
   const Eigen::Isometry3d t_diff = start.inverse() * end;
-  return TwistUnhat(t_diff.matrix().log());
+  const Eigen::Vector3d translation = t_diff.translation();
+  const Eigen::AngleAxisd rotation(t_diff.rotation());
+  const Eigen::Vector3d axis_cross_translation
+      = rotation.axis().cross(translation);
+  const double half_angle = 0.5 * rotation.angle();
+  const double axial_factor
+      = (half_angle > 0.0) ? (1.0 - half_angle / std::tan(half_angle)) : 0.0;
+  Eigen::Matrix<double, 6, 1> twist;
+  twist.segment<3>(0)
+      = translation - (half_angle * axis_cross_translation)
+        + (axial_factor * rotation.axis().cross(axis_cross_translation));
+  twist.segment<3>(3) = rotation.angle() * rotation.axis();
+  return twist;
 }
 
 Eigen::Matrix3d ExpMatrixExact(const Eigen::Matrix3d& hatted_rot_velocity,
-- 
2.43.0


From 337e4eeb44888be4d872b3c3920d663a2ef449ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 30/50] fix: do not return rounding error as an arbitrary
 orthogonal vector

---
 include/common_robotics_utilities/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 5e885d5..6e85ba0 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -459,7 +459,9 @@ GetArbitraryOrthogonalVector(const Eigen::MatrixBase<DerivedV>& vector)
       const auto rejected_vector = VectorRejection(vector, test_vector);
       const typename DerivedV::Scalar rejected_vector_squared_norm
           = rejected_vector.squaredNorm();
-      if (rejected_vector_squared_norm > 0)
+      // Anything much smaller may be nothing but rounding error. Since at least
+      // half of one of any two axes is orthogonal, this refuses only 1d vectors
+      if (rejected_vector_squared_norm > 0.25)
       {
         return rejected_vector;
       }
-- 
2.43.0


From 15cfa9c71f9f96358442b776a6eedb0f81ba0085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 31/50] fix: refuse to average rotations whose weights are all
 zero

---
 src/common_robotics_utilities/math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common_robotics_utilities/math.cpp b/src/common_robotics_utilities/math.cpp
index 5730872..8bec51b 100644
--- a/src/common_robotics_utilities/math.cpp
+++ b/src/common_robotics_utilities/math.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include <Eigen/Eigenvalues>
 #include <common_robotics_utilities/math.hpp>
 #include <common_robotics_utilities/utility.hpp>
@@ -811,6 +813,13 @@ Eigen::Quaterniond AverageEigenQuaterniond(const VectorQuaterniond& quaternions,
     }
     return quaternions[0];
   }
+  // If all weights are zero, result is undefined
+  if (use_weights
+      && std::all_of(weights.begin(), weights.end(),
+                     [] (const double weight) { return weight == 0.0; }))
+  {
+    throw std::invalid_argument("Provided weights are all zero");
+  }
   // Build the averaging matrix
   Eigen::MatrixXd q_matrix(4, quaternions.size());
   for (size_t idx = 0; idx < quaternions.size(); idx++)
-- 
2.43.0


From 03e3381db21f85a1e3d0628e71f4019ba12e11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:42 +0000
Subject: [PATCH 32/50] fix: make GetArbitraryOrthogonalVectorToPlane compile
 and ignore rounding error

---
 include/common_robotics_utilities/math.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/common_robotics_utilities/math.hpp b/include/common_robotics_utilities/math.hpp
index 6e85ba0..5198ced 100644
--- a/include/common_robotics_utilities/math.hpp
+++ b/include/common_robotics_utilities/math.hpp
@@ -487,10 +487,10 @@ GetArbitraryOrthogonalVectorToPlane(
       && (vector_size == plane_vector1.size())
       && (vector_size == plane_vector2.size()))
   {
-    const Eigen::MatrixBase<DerivedV> unit_plane_vector1
-        = plane_vector1 / plane_vector1.norm();
-    const Eigen::MatrixBase<DerivedV> unit_plane_vector2
-        = plane_vector2 / plane_vector2.norm();
+    const Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
+        unit_plane_vector1 = plane_vector1 / plane_vector1.norm();
+    const Eigen::Matrix<typename DerivedV::Scalar, Eigen::Dynamic, 1>
+        unit_plane_vector2 = plane_vector2 / plane_vector2.norm();
     const typename DerivedV::Scalar plane_vector_dot_product_mag
         = std::abs(unit_plane_vector1.dot(unit_plane_vector2));
     if (plane_vector_dot_product_mag == 1.0)
@@ -501,18 +501,22 @@ GetArbitraryOrthogonalVectorToPlane(
     {
       // Try both plane vectors
       // (by definition, one of the two MUST have an orthogonal component!)
-      const auto rejected_vector1 = VectorRejection(vector, plane_vector1);
+      const auto rejected_vector1
+          = VectorRejection(vector, unit_plane_vector1);
       const typename DerivedV::Scalar rejected_vector1_squared_norm
           = rejected_vector1.squaredNorm();
-      if (rejected_vector1_squared_norm > 0)
+      const auto rejected_vector2
+          = VectorRejection(vector, unit_plane_vector2);
+      const typename DerivedV::Scalar rejected_vector2_squared_norm
+          = rejected_vector2.squaredNorm();
+      // The smaller one may be nothing but rounding error
+      if (rejected_vector1_squared_norm >= rejected_vector2_squared_norm
+          && rejected_vector1_squared_norm > 0)
       {
         return rejected_vector1;
       }
       else
       {
-        const auto rejected_vector2 = VectorRejection(vector, plane_vector2);
-        const typename DerivedV::Scalar rejected_vector2_squared_norm
-            = rejected_vector2.squaredNorm();
         if (rejected_vector2_squared_norm > 0)
         {
           return rejected_vector2;
-- 
2.43.0


From e481d86bedaa43e6dcf236bce3ef65fe2c5144b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 33/50] fix: re-seeding XorShift1024StarPRNG restarts its
 sequence from the beginning

---
 include/common_robotics_utilities/simple_prngs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/simple_prngs.hpp b/include/common_robotics_utilities/simple_prngs.hpp
index 6928675..6715263 100644
--- a/include/common_robotics_utilities/simple_prngs.hpp
+++ b/include/common_robotics_utilities/simple_prngs.hpp
@@ -153,7 +153,6 @@ public:
   explicit XorShift1024StarPRNG(const uint64_t seed_val)
   {
     seed(seed_val);
-    p_ = 0;
   }
 
   static constexpr uint64_t min(void)
@@ -173,6 +172,7 @@ public:
     {
       state_[idx] = temp_seed_gen();
     }
+    p_ = 0;
   }
 
   void discard(const uint64_t z)
-- 
2.43.0


From 0e1ff813243b2a329488f09e56122c53858f103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 34/50] fix: GetUniformRandomInRange works for ranges wider
 than the largest value of their type

---
 include/common_robotics_utilities/utility.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/utility.hpp b/include/common_robotics_utilities/utility.hpp
index 72d9a62..a560a94 100644
--- a/include/common_robotics_utilities/utility.hpp
+++ b/include/common_robotics_utilities/utility.hpp
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
+#include <cmath>
+#include <cstdint>
 #include <cstdlib>
 #include <functional>
 #include <future>
@@ -261,10 +264,14 @@ SizeType GetUniformRandomInRange(
   {
     throw std::invalid_argument("start must be <= end");
   }
-  const SizeType range = end - start;
-  const SizeType offset =
-      GetUniformRandomIndex<SizeType>(uniform_unit_real_fn, range + 1);
-  return start + offset;
+  // The number of values may not be representable as SizeType, so use unsigned
+  // arithmetic (which is well-defined on wraparound) and real values instead.
+  const uint64_t range =
+      static_cast<uint64_t>(end) - static_cast<uint64_t>(start);
+  const uint64_t offset = static_cast<uint64_t>(std::floor(
+      uniform_unit_real_fn() * (static_cast<double>(range) + 1.0)));
+  return static_cast<SizeType>(
+      static_cast<uint64_t>(start) + std::min(offset, range));
 }
 
 template <class T>
-- 
2.43.0


From a3e7ad0758aec17143e0996f513c504a558b8422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 35/50] fix: InterpolateHotToCold does not return NaN channels
 if min_value equals max_value

---
 include/common_robotics_utilities/color_builder.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/color_builder.hpp b/include/common_robotics_utilities/color_builder.hpp
index 03b993d..cc9d369 100644
--- a/include/common_robotics_utilities/color_builder.hpp
+++ b/include/common_robotics_utilities/color_builder.hpp
@@ -146,7 +146,13 @@ inline ColorType InterpolateHotToCold(
   double g = 1.0;
   double b = 1.0;
   // Interpolate
-  if (real_value < (min_value + (0.25 * range)))
+  if (range <= 0.0)
+  {
+    // All values are at the hot end if the range is empty
+    g = 0.0;
+    b = 0.0;
+  }
+  else if (real_value < (min_value + (0.25 * range)))
   {
     r = 0.0;
     g = 4.0 * (real_value - min_value) / range;
-- 
2.43.0


From 3099b238ca124aa0adbf66500ccfa28a6469015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 36/50] fix: gaussian_distributions.hpp does not compile
 (unqualified NONE, missing includes)

---
 .../common_robotics_utilities/gaussian_distributions.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index b7c0aa2..92ab954 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -2,8 +2,12 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <random>
+#include <stdexcept>
 
+#include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
 #include <Eigen/Geometry>
 #include <common_robotics_utilities/cru_namespace.hpp>
 
@@ -152,7 +156,7 @@ private:
   double std_upper_bound_ = 0.0;
 
   enum class DrawCases {TYPE_1, TYPE_2, TYPE_3, TYPE_4, NONE};
-  DrawCases case_ = NONE;
+  DrawCases case_ = DrawCases::NONE;
   std::uniform_real_distribution<double> uniform_unit_dist_;
   std::uniform_real_distribution<double> uniform_range_dist_;
   std::exponential_distribution<double> exponential_dist_;
-- 
2.43.0


From 2c9e764b6355a363789095a995d5b6760a623b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 37/50] fix: truncated Gaussian sampling drew from the bounds
 before standardizing them

---
 include/common_robotics_utilities/gaussian_distributions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 92ab954..74702c8 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -306,7 +306,6 @@ public:
       const double mean, const double stddev, const double lower_bound,
       const double upper_bound)
     : uniform_unit_dist_(0.0, 1.0),
-      uniform_range_dist_(lower_bound, upper_bound),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
     // Set operating parameters
@@ -351,6 +350,8 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
+          uniform_range_dist_ = std::uniform_real_distribution<double>(
+              std_lower_bound_, std_upper_bound_);
         }
       }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
-- 
2.43.0


From 174bd6f21d6105e1faaaeb751c4b17a22ae5e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 38/50] fix: truncated Gaussian sampling practically never
 ended for narrow bounds around the mean and wide bounds below it

---
 .../gaussian_distributions.hpp                | 53 ++++++++++---------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 74702c8..cf0f341 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -225,8 +225,7 @@ private:
 
   // Accept-Reject Algorithm
   template<typename Generator>
-  double ComplexAcceptReject(
-      const double lower_bound, const double upper_bound, Generator& prng)
+  double ComplexAcceptReject(const double lower_bound, Generator& prng)
   {
     while (true)
     {
@@ -238,11 +237,7 @@ private:
       {
         rho = std::exp((std::pow(lower_bound, 2) - std::pow(z, 2)) / 2);
       }
-      else if (upper_bound < 0)
-      {
-        rho = std::exp((std::pow(upper_bound, 2) - std::pow(z, 2)) / 2);
-      }
-      else if (0 < upper_bound && lower_bound < 0)
+      else
       {
         rho = std::exp(-std::pow(z, 2) / 2);
       }
@@ -283,8 +278,7 @@ private:
     }
     else if (case_ == DrawCases::TYPE_4)
     {
-      const double draw
-          = ComplexAcceptReject(std_lower_bound_, std_upper_bound_, prng);
+      const double draw = ComplexAcceptReject(std_lower_bound_, prng);
       return mean_ + stddev_ * draw;
     }
     else
@@ -320,28 +314,34 @@ public:
       // Standardize the lower and upper bounds
       std_lower_bound_ = (lower_bound - mean_) / stddev_;
       std_upper_bound_ = (upper_bound - mean_) / stddev_;
+      // If the bounds are below the mean, sample from the mirror image instead
+      if (0.0 > std_upper_bound_)
+      {
+        const double mirrored_lower_bound = -1 * std_upper_bound_;
+        std_upper_bound_ = -1 * std_lower_bound_;
+        std_lower_bound_ = mirrored_lower_bound;
+        stddev_ = -1 * stddev_;
+      }
       // Set the operating case - i.e. which sampling method we will use
       case_ = DrawCases::NONE;
       if (0.0 <= std_upper_bound_ && 0.0 >= std_lower_bound_)
       {
-        case_ = DrawCases::TYPE_1;
-      }
-      if (0.0 < std_lower_bound_
-          && std_upper_bound_ == std::numeric_limits<double>::infinity())
-      {
-        case_ = DrawCases::TYPE_2;
+        // Naive sampling would rarely hit narrow bounds
+        if (std_upper_bound_ - std_lower_bound_ >= std::sqrt(2.0 * M_PI))
+        {
+          case_ = DrawCases::TYPE_1;
+        }
+        else
+        {
+          case_ = DrawCases::TYPE_4;
+        }
       }
-      if (0.0 > std_upper_bound_
-          && std_lower_bound_ == -std::numeric_limits<double>::infinity())
+      else if (0.0 < std_lower_bound_
+               && std_upper_bound_ == std::numeric_limits<double>::infinity())
       {
-        std_lower_bound_ = -1 * std_upper_bound_;
-        std_upper_bound_ = std::numeric_limits<double>::infinity();
-        stddev_ = -1 * stddev_;
         case_ = DrawCases::TYPE_2;
       }
-      if ((0.0 > std_upper_bound_ || 0.0 < std_lower_bound_)
-          && !(std_upper_bound_ == std::numeric_limits<double>::infinity()
-               || std_lower_bound_ == -std::numeric_limits<double>::infinity()))
+      else if (0.0 < std_lower_bound_)
       {
         if (CheckSimple(std_lower_bound_, std_upper_bound_))
         {
@@ -350,10 +350,13 @@ public:
         else
         {
           case_ = DrawCases::TYPE_4;
-          uniform_range_dist_ = std::uniform_real_distribution<double>(
-              std_lower_bound_, std_upper_bound_);
         }
       }
+      if (case_ == DrawCases::TYPE_4)
+      {
+        uniform_range_dist_ = std::uniform_real_distribution<double>(
+            std_lower_bound_, std_upper_bound_);
+      }
       if ((case_ != DrawCases::TYPE_1) && (case_ != DrawCases::TYPE_2)
           && (case_ != DrawCases::TYPE_3) && (case_ != DrawCases::TYPE_4))
       {
-- 
2.43.0


From 25267ea21baf966a6f045f03922544f4d0a55f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 39/50] fix: truncated Gaussian samples stay within the bounds
 despite rounding; invalid parameters are refused

---
 .../gaussian_distributions.hpp                | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index cf0f341..ad440f8 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <limits>
@@ -152,6 +153,8 @@ private:
 
   double mean_ = 0.0;
   double stddev_ = 0.0;
+  double lower_bound_ = 0.0;
+  double upper_bound_ = 0.0;
   double std_lower_bound_ = 0.0;
   double std_upper_bound_ = 0.0;
 
@@ -302,9 +305,22 @@ public:
     : uniform_unit_dist_(0.0, 1.0),
       exponential_dist_(1.0), normal_dist_(0.0, 1.0)
   {
+    if (!std::isfinite(mean) || !std::isfinite(stddev) || stddev < 0.0)
+    {
+      throw std::invalid_argument(
+          "mean and stddev must be finite, and stddev >= 0");
+    }
+    if (!(lower_bound <= upper_bound)
+        || lower_bound == std::numeric_limits<double>::infinity()
+        || upper_bound == -std::numeric_limits<double>::infinity())
+    {
+      throw std::invalid_argument("bounds must contain at least one value");
+    }
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
+    lower_bound_ = lower_bound;
+    upper_bound_ = upper_bound;
     if (std::abs(stddev_) == 0.0)
     {
       case_ = DrawCases::NONE;
@@ -368,7 +384,8 @@ public:
   template<typename Generator>
   double operator()(Generator& prng)
   {
-    return Sample(prng);
+    // Rounding can take samples at the bounds slightly outside of them
+    return std::min(std::max(Sample(prng), lower_bound_), upper_bound_);
   }
 };
 
-- 
2.43.0


From 482134b30f7a9ee46609a265eb8e129212e39737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 40/50] fix: multivariate Gaussian distributions of more than
 one dimension were refused

---
 .../gaussian_distributions.hpp                       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index ad440f8..6aeae12 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -411,8 +411,12 @@ private:
   }
 
   static Eigen::MatrixXd CalculateNormTransform(
-      const Eigen::MatrixXd& covariance)
+      const Eigen::VectorXd& mean, const Eigen::MatrixXd& covariance)
   {
+    if (mean.rows() != covariance.rows() || mean.rows() != covariance.cols())
+    {
+      throw std::invalid_argument("mean and covariance are different sizes");
+    }
     Eigen::MatrixXd norm_transform;
     Eigen::LLT<Eigen::MatrixXd> chol_solver(covariance);
     if (chol_solver.info() == Eigen::Success)
@@ -434,13 +438,9 @@ private:
 public:
   MultivariteGaussianDistribution(
       const Eigen::VectorXd& mean, const Eigen::MatrixXd& covariance)
-      : mean_(mean), norm_transform_(CalculateNormTransform(covariance)),
+      : mean_(mean), norm_transform_(CalculateNormTransform(mean, covariance)),
         unit_gaussian_dist_(0.0, 1.0)
   {
-    if (mean_.rows() != covariance.rows() || mean_.cols() != covariance.cols())
-    {
-      throw std::invalid_argument("mean and covariance are different sizes");
-    }
     const auto nan_check = [] (const double& val) { return std::isnan(val); };
     if ((norm_transform_.unaryExpr(nan_check)).any())
     {
-- 
2.43.0


From 11ec52b966b970297ebc9bfc5693c9916ccb1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 41/50] fix: Gaussian probabilities far from the mean lost all
 digits, giving NaN or infinite truncated densities

---
 .../gaussian_distributions.hpp                | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/include/common_robotics_utilities/gaussian_distributions.hpp b/include/common_robotics_utilities/gaussian_distributions.hpp
index 6aeae12..ea874c5 100644
--- a/include/common_robotics_utilities/gaussian_distributions.hpp
+++ b/include/common_robotics_utilities/gaussian_distributions.hpp
@@ -25,7 +25,27 @@ namespace gaussian_distributions
 inline double EvaluateGaussianCDF(
     const double mean, const double std_dev, const double val)
 {
-  return 0.5 * (1.0 + std::erf(((val - mean) / std_dev) / std::sqrt(2.0)));
+  return 0.5 * std::erfc(-((val - mean) / std_dev) / std::sqrt(2.0));
+}
+
+/// Evaluate the probability between @param lower_limit and @param upper_limit
+/// of the gaussian distribution specified by @param mean and @param std_dev.
+/// Above the mean, the difference of the upper tails is used, as the CDF is too
+/// close to one there.
+inline double EvaluateGaussianIntervalProbability(
+    const double mean, const double std_dev, const double lower_limit,
+    const double upper_limit)
+{
+  if (lower_limit > mean)
+  {
+    return EvaluateGaussianCDF(-mean, std_dev, -lower_limit)
+           - EvaluateGaussianCDF(-mean, std_dev, -upper_limit);
+  }
+  else
+  {
+    return EvaluateGaussianCDF(mean, std_dev, upper_limit)
+           - EvaluateGaussianCDF(mean, std_dev, lower_limit);
+  }
 }
 
 /// Evaluate the value of the PDF of the gaussian distribution specified by
@@ -61,12 +81,10 @@ inline double EvaluateTruncatedGaussianCDF(
   }
   else
   {
-    const double cdf_lower_bound
-        = EvaluateGaussianCDF(mean, std_dev, lower_bound);
-    const double numerator
-        = EvaluateGaussianCDF(mean, std_dev, val) - cdf_lower_bound;
-    const double denominator
-        = EvaluateGaussianCDF(mean, std_dev, upper_bound) - cdf_lower_bound;
+    const double numerator = EvaluateGaussianIntervalProbability(
+        mean, std_dev, lower_bound, val);
+    const double denominator = EvaluateGaussianIntervalProbability(
+        mean, std_dev, lower_bound, upper_bound);
     return numerator / denominator;
   }
 }
@@ -92,9 +110,8 @@ inline double EvaluateTruncatedGaussianPDF(
   }
   else
   {
-    const double cdf_upper = EvaluateGaussianCDF(mean, std_dev, upper_bound);
-    const double cdf_lower = EvaluateGaussianCDF(mean, std_dev, lower_bound);
-    const double probability_enclosed = cdf_upper - cdf_lower;
+    const double probability_enclosed = EvaluateGaussianIntervalProbability(
+        mean, std_dev, lower_bound, upper_bound);
     const double gaussian_pdf = EvaluateGaussianPDF(mean, std_dev, val);
     const double pdf = gaussian_pdf / probability_enclosed;
     return pdf;
@@ -112,12 +129,8 @@ inline double IntegrateGaussian(
   {
     throw std::invalid_argument("lower_limit > upper_limit");
   }
-  const double upper_limit_cdf
-      = EvaluateGaussianCDF(mean, std_dev, upper_limit);
-  const double lower_limit_cdf
-      = EvaluateGaussianCDF(mean, std_dev, lower_limit);
-  const double probability = upper_limit_cdf - lower_limit_cdf;
-  return probability;
+  return EvaluateGaussianIntervalProbability(
+      mean, std_dev, lower_limit, upper_limit);
 }
 
 /// Integrate the probability contained between @param lower_limit and @param
-- 
2.43.0


From d0293c1f0398fdfee784b01c875e1e259360ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 42/50] fix: printing a std::forward_list does not compile, as
 it has no size()

---
 include/common_robotics_utilities/print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common_robotics_utilities/print.hpp b/include/common_robotics_utilities/print.hpp
index f844797..9897c90 100644
--- a/include/common_robotics_utilities/print.hpp
+++ b/include/common_robotics_utilities/print.hpp
@@ -507,7 +507,7 @@ inline std::string Print(const std::forward_list<T, Allocator>& listtoprint,
                          const std::string& separator)
 {
   std::ostringstream strm;
-  if (listtoprint.size() > 0)
+  if (!listtoprint.empty())
   {
     if (add_delimiters)
     {
-- 
2.43.0


From ae7b7c7b19b54425b34a0b09300a672a9c685e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 43/50] fix: reject grid sizes whose number of cells is not
 representable

---
 .../common_robotics_utilities/voxel_grid.hpp  | 51 +++++++++++--------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index 7752a26..bcf10ba 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <stdexcept>
@@ -84,6 +85,23 @@ private:
     return (param > 0);
   }
 
+  // The number of cells along an axis must be representable.
+  static bool CheckNumCellsValid(const double size, const double cell_size)
+  {
+    return std::ceil(size / cell_size)
+        < static_cast<double>(std::numeric_limits<int64_t>::max());
+  }
+
+  // The total number of cells must be representable.
+  static bool CheckTotalCellsValid(
+      const int64_t num_x_cells, const int64_t num_y_cells,
+      const int64_t num_z_cells)
+  {
+    const int64_t max_cells = std::numeric_limits<int64_t>::max();
+    return (num_x_cells <= max_cells / num_y_cells)
+        && (num_x_cells * num_y_cells <= max_cells / num_z_cells);
+  }
+
   bool Initialize(
       const double cell_x_size,
       const double cell_y_size,
@@ -95,29 +113,17 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(x_size) &&
-        CheckPositiveValid(y_size) && CheckPositiveValid(z_size))
+        CheckPositiveValid(y_size) && CheckPositiveValid(z_size) &&
+        CheckNumCellsValid(x_size, cell_x_size) &&
+        CheckNumCellsValid(y_size, cell_y_size) &&
+        CheckNumCellsValid(z_size, cell_z_size))
     {
       // Set
-      cell_x_size_ = cell_x_size;
-      cell_y_size_ = cell_y_size;
-      cell_z_size_ = cell_z_size;
-      inv_cell_x_size_ = 1.0 / cell_x_size_;
-      inv_cell_y_size_ = 1.0 / cell_y_size_;
-      inv_cell_z_size_ = 1.0 / cell_z_size_;
-      num_x_cells_
-          = static_cast<int64_t>(std::ceil(x_size / cell_x_size));
-      num_y_cells_
-          = static_cast<int64_t>(std::ceil(y_size / cell_y_size));
-      num_z_cells_
-          = static_cast<int64_t>(std::ceil(z_size / cell_z_size));
-      x_size_ = static_cast<double>(num_x_cells_) * cell_x_size_;
-      y_size_ = static_cast<double>(num_y_cells_) * cell_y_size_;
-      z_size_ = static_cast<double>(num_z_cells_) * cell_z_size_;
-      stride1_ = num_y_cells_ * num_z_cells_;
-      stride2_ = num_z_cells_;
-      valid_ = true;
-
-      return true;
+      return Initialize(
+          cell_x_size, cell_y_size, cell_z_size,
+          static_cast<int64_t>(std::ceil(x_size / cell_x_size)),
+          static_cast<int64_t>(std::ceil(y_size / cell_y_size)),
+          static_cast<int64_t>(std::ceil(z_size / cell_z_size)));
     }
     else
     {
@@ -136,7 +142,8 @@ private:
     // Safety check
     if (CheckPositiveValid(cell_x_size) && CheckPositiveValid(cell_y_size) &&
         CheckPositiveValid(cell_z_size) && CheckPositiveValid(num_x_cells) &&
-        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells))
+        CheckPositiveValid(num_y_cells) && CheckPositiveValid(num_z_cells) &&
+        CheckTotalCellsValid(num_x_cells, num_y_cells, num_z_cells))
     {
       // Set
       cell_x_size_ = cell_x_size;
-- 
2.43.0


From c1f6503d470d6a6ded2d64b9738f1d46d5629efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:18 +0000
Subject: [PATCH 44/50] fix: adding a tree node below a parent outside of the
 tree left a broken node behind, or one that was its own parent

---
 include/common_robotics_utilities/simple_rrt_planner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/common_robotics_utilities/simple_rrt_planner.hpp b/include/common_robotics_utilities/simple_rrt_planner.hpp
index 7c294cd..dde8a0c 100644
--- a/include/common_robotics_utilities/simple_rrt_planner.hpp
+++ b/include/common_robotics_utilities/simple_rrt_planner.hpp
@@ -246,6 +246,9 @@ public:
 
   int64_t AddNodeAndConnect(const StateType& value, const int64_t parent_index)
   {
+    // We retrieve the parent first, since retrieval performs bounds checks, but
+    // adding the new node invalidates references to existing nodes.
+    GetNodeImmutable(parent_index);
     nodes_.emplace_back(value, parent_index);
     const int64_t new_node_index = static_cast<int64_t>(nodes_.size() - 1);
     GetNodeMutable(parent_index).AddChildIndex(new_node_index);
-- 
2.43.0


From f184c3a535b61c00a8737deea2dcb1ef470b7ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 45/50] fix: writing to a new chunk told the watcher twice, and
 left the chunk behind when the second call was refused

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 50 ++++++++-----------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index c761403..de80389 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -950,25 +950,22 @@ public:
     {
       const ChunkRegion region = GetContainingChunkRegion(grid_frame_location);
       auto found_chunk_itr = chunks_.find(region);
-      if (found_chunk_itr != chunks_.end())
-      {
-        if (set_type == DSHVGSetType::SET_CELL)
-        {
-          return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
-        }
-        else
-        {
-          return found_chunk_itr->second.SetChunkValue(value);
-        }
-      }
-      else
+      if (found_chunk_itr == chunks_.end())
       {
         const DSHVGFillType fill_type
             = (set_type == DSHVGSetType::SET_CELL)
                 ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK;
         AllocateChunkAt(region, fill_type);
-        return SetLocation4d(location, set_type, value);
+        found_chunk_itr = chunks_.find(region);
+      }
+      if (set_type == DSHVGSetType::SET_CELL)
+      {
+        return found_chunk_itr->second.SetCellLocation4d(
+            grid_frame_location, value);
+      }
+      else
+      {
+        return found_chunk_itr->second.SetChunkValue(value);
       }
     }
     else
@@ -1003,25 +1000,22 @@ public:
     {
       const ChunkRegion region = GetContainingChunkRegion(grid_frame_location);
       auto found_chunk_itr = chunks_.find(region);
-      if (found_chunk_itr != chunks_.end())
-      {
-        if (set_type == DSHVGSetType::SET_CELL)
-        {
-          return found_chunk_itr->second.SetCellLocation4d(
-              grid_frame_location, value);
-        }
-        else
-        {
-          return found_chunk_itr->second.SetChunkValue(value);
-        }
-      }
-      else
+      if (found_chunk_itr == chunks_.end())
       {
         const DSHVGFillType fill_type
             = (set_type == DSHVGSetType::SET_CELL)
                 ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK;
         AllocateChunkAt(region, fill_type);
-        return SetLocation4d(location, set_type, value);
+        found_chunk_itr = chunks_.find(region);
+      }
+      if (set_type == DSHVGSetType::SET_CELL)
+      {
+        return found_chunk_itr->second.SetCellLocation4d(
+            grid_frame_location, value);
+      }
+      else
+      {
+        return found_chunk_itr->second.SetChunkValue(value);
       }
     }
     else
-- 
2.43.0


From 2f657e00e8ff2bc4af01d716deeaed4c33c7c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 46/50] fix: writing to a position that is not finite never
 ended (endless recursion allocating chunks)

---
 .../dynamic_spatial_hashed_voxel_grid.hpp                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index de80389..292f3c1 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -752,6 +752,11 @@ private:
   void AllocateChunkAt(
       const ChunkRegion& chunk_region, const DSHVGFillType fill_type)
   {
+    // A region that is not finite cannot be found again.
+    if (!chunk_region.Base().allFinite())
+    {
+      throw std::invalid_argument("Cannot set location that is not finite");
+    }
     const auto result = chunks_.emplace(
         chunk_region,
         GridChunk(chunk_region, chunk_sizes_, fill_type, default_value_));
-- 
2.43.0


From 3224459970d30458b65cc976187a2feca2f57abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 47/50] fix: pruning indices that are not in the graph threw or
 shifted the indices of kept nodes

---
 .../common_robotics_utilities/simple_graph.hpp    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/simple_graph.hpp b/include/common_robotics_utilities/simple_graph.hpp
index 8cc47c5..7b0c5e7 100644
--- a/include/common_robotics_utilities/simple_graph.hpp
+++ b/include/common_robotics_utilities/simple_graph.hpp
@@ -430,13 +430,22 @@ OutputGraphType PruneGraph(
   // By making a sorted copy of the indices in nodes_to_prune, the two
   // for-loops that update edge to/from indices can terminate early once the
   // node_to_prune is greater than the original to/from index.
-  std::vector<int64_t> vector_nodes_to_prune
-      = utility::GetKeysFromSetLike<int64_t>(nodes_to_prune);
+  // Indices that are not in the graph are left out, since there is nothing to
+  // prune and they must not affect the indices of the kept nodes.
+  std::vector<int64_t> vector_nodes_to_prune;
+  vector_nodes_to_prune.reserve(nodes_to_prune.size());
+  for (const int64_t node_to_prune : nodes_to_prune)
+  {
+    if (graph.IndexInRange(node_to_prune))
+    {
+      vector_nodes_to_prune.push_back(node_to_prune);
+    }
+  }
   std::sort(vector_nodes_to_prune.begin(), vector_nodes_to_prune.end());
   // Make the pruned graph, initialized with the number of nodes we expect it
   // to contain.
   OutputGraphType pruned_graph(
-      graph.Size() - static_cast<int64_t>(nodes_to_prune.size()));
+      graph.Size() - static_cast<int64_t>(vector_nodes_to_prune.size()));
 
   // First, serial pass through to copy nodes to be kept
   for (int64_t node_index = 0; node_index < graph.Size(); node_index++)
-- 
2.43.0


From 4e70fb205ecbbddc9a21ee55892e9efb8046f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 48/50] fix: resetting or initializing a voxel grid with one of
 its own values used the value after it was destroyed

---
 include/common_robotics_utilities/voxel_grid.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/common_robotics_utilities/voxel_grid.hpp b/include/common_robotics_utilities/voxel_grid.hpp
index bcf10ba..8fac617 100644
--- a/include/common_robotics_utilities/voxel_grid.hpp
+++ b/include/common_robotics_utilities/voxel_grid.hpp
@@ -7,6 +7,7 @@
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include <Eigen/Geometry>
@@ -585,9 +586,11 @@ private:
 
   void SetContents(const T& value)
   {
+    // The provided value may refer to a cell of this grid.
+    const T contents = value;
     data_.clear();
     data_.resize(static_cast<typename BackingStore::size_type>(
-        sizes_.TotalCells()), value);
+        sizes_.TotalCells()), contents);
   }
 
   uint64_t BaseSerializeSelf(
@@ -732,10 +735,13 @@ public:
   {
     if (sizes.Valid())
     {
+      // The provided values may refer to values stored in this grid.
+      T new_default_value = default_value;
+      T new_oob_value = oob_value;
       origin_transform_ = origin_transform;
       inverse_origin_transform_ = origin_transform_.inverse();
-      default_value_ = default_value;
-      oob_value_ = oob_value;
+      default_value_ = std::move(new_default_value);
+      oob_value_ = std::move(new_oob_value);
       sizes_ = sizes;
       SetContents(default_value_);
       initialized_ = true;
-- 
2.43.0


From d241cb30f2ebb2a6d2f7387198c2ac1ec880797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 49/50] fix: writing one of the values of a chunk to that chunk
 used the value after it was destroyed

---
 .../dynamic_spatial_hashed_voxel_grid.hpp         | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 292f3c1..1335992 100644
--- a/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -8,6 +8,7 @@
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include <Eigen/Geometry>
@@ -253,16 +254,20 @@ private:
 
   void SetCellFilledContents(const T& value)
   {
+    // The provided value may refer to a value stored in this chunk.
+    const T contents = value;
     data_.clear();
     data_.resize(static_cast<typename BackingStore::size_type>(
-        sizes_.TotalCells()), value);
+        sizes_.TotalCells()), contents);
     fill_status_ = DSHVGFillStatus::CELL_FILLED;
   }
 
   void SetChunkFilledContents(const T& value)
   {
+    // The provided value may refer to a value stored in this chunk.
+    const T contents = value;
     data_.clear();
-    data_.resize(1, value);
+    data_.resize(1, contents);
     fill_status_ = DSHVGFillStatus::CHUNK_FILLED;
   }
 
@@ -519,9 +524,12 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // The provided value may refer to the value stored in this chunk.
+      T new_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
       fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, std::move(new_value));
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
@@ -547,9 +555,12 @@ public:
   {
     if (fill_status_ == DSHVGFillStatus::CHUNK_FILLED)
     {
+      // The provided value may refer to the value stored in this chunk.
+      T new_value = value;
       const T initial_value = AccessIndex(0);
       SetCellFilledContents(initial_value);
       fill_status_ = DSHVGFillStatus::CELL_FILLED;
+      return SetCellLocation4d(location, std::move(new_value));
     }
     if (fill_status_ == DSHVGFillStatus::CELL_FILLED)
     {
-- 
2.43.0


From 4b53ec0e110590d61a6c779928c4e62161b1008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 50/50] fix: adding a state of a roadmap to that roadmap again
 used the state after it was freed

---
 .../simple_prm_planner.hpp                          | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/common_robotics_utilities/simple_prm_planner.hpp b/include/common_robotics_utilities/simple_prm_planner.hpp
index 1d4fc13..a80e2d2 100644
--- a/include/common_robotics_utilities/simple_prm_planner.hpp
+++ b/include/common_robotics_utilities/simple_prm_planner.hpp
@@ -264,6 +264,11 @@ int64_t AddNodeToRoadmap(
   // Add the new node AFTER KNN is performed
   const int64_t new_node_index = roadmap.AddNode(state);
 
+  // The provided state may belong to a node of the roadmap, which can have been
+  // moved by adding the new node, so we use the state of the new node instead.
+  const T& new_state =
+      roadmap.GetNodeImmutable(new_node_index).GetValueImmutable();
+
   // Parallelize the collision-checking and distance computation
   std::vector<std::pair<double, double>> nearest_neighbors_distances(
       nearest_neighbors.size());
@@ -277,7 +282,7 @@ int64_t AddNodeToRoadmap(
     const T& nearest_neighbor_state = roadmap.GetNodeImmutable(
         nearest_neighbor_index).GetValueImmutable();
     const bool graph_to_node_edge_validity =
-        edge_validity_check_fn(thread_num, nearest_neighbor_state, state);
+        edge_validity_check_fn(thread_num, nearest_neighbor_state, new_state);
     if (graph_to_node_edge_validity && connection_is_symmetric)
     {
       // Distance is symmetric and the edge is valid
@@ -287,14 +292,14 @@ int64_t AddNodeToRoadmap(
     else if (!connection_is_symmetric)
     {
       const bool node_to_graph_edge_validity =
-          edge_validity_check_fn(thread_num, state, nearest_neighbor_state);
+          edge_validity_check_fn(thread_num, new_state, nearest_neighbor_state);
       // KNN only provides the distance in one direction, compute the other
       const bool knn_is_graph_to_node =
           nn_distance_direction == NNDistanceDirection::ROADMAP_TO_NEW_STATE;
       const double graph_to_node_distance = (knn_is_graph_to_node)
-          ? knn_distance : distance_fn(nearest_neighbor_state, state);
+          ? knn_distance : distance_fn(nearest_neighbor_state, new_state);
       const double node_to_graph_distance = (knn_is_graph_to_node)
-          ? distance_fn(state, nearest_neighbor_state) : knn_distance;
+          ? distance_fn(new_state, nearest_neighbor_state) : knn_distance;
       // We use -1 as a signaling value of an infeasible edge
       const double real_graph_to_node_distance
           = (graph_to_node_edge_validity) ? graph_to_node_distance : -1.0;
-- 
2.43.0


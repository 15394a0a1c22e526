From 37e1ab3159ca411c0d31bc0621a6b17a95fd2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 01/36] fix: clear the result of pruning when there are no
 candidates

heuristic_prune_neighbors returned early on an empty pool without clearing
the caller's (reused) result vector, so consolidation could give a node
whose neighbourhood was completely deleted the neighbours of the node
processed before it.
---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From 2edc54ef606268a794530cb4a840115b8fe312b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 02/36] fix: mark missing neighbors when a graph search finds
 fewer than requested

The batch search copied num_neighbors entries out of the search buffer even
when it held fewer, returning stale entries (of earlier queries, or deleted
ones, which made the translation to external ids throw). Missing results are
now marked with the sentinel that the flat index uses.
---
 include/svs/index/vamana/dynamic_index.h | 4 ++++
 include/svs/index/vamana/extensions.h    | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..c49bc01 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -381,6 +381,10 @@ class MutableVamanaIndex {
             [&](const auto is, uint64_t /*tid*/) {
                 for (auto i : is) {
                     for (size_t j = 0, jmax = getsize<1>(ids); j < jmax; ++j) {
+                        // Leave missing neighbors as they are.
+                        if (ids.at(i, j) == std::numeric_limits<size_t>::max()) {
+                            continue;
+                        }
                         auto internal = lib::narrow_cast<Idx>(ids.at(i, j));
                         ids.at(i, j) = translate_internal_id(internal);
                     }
diff --git a/include/svs/index/vamana/extensions.h b/include/svs/index/vamana/extensions.h
index 647458e..593e284 100644
--- a/include/svs/index/vamana/extensions.h
+++ b/include/svs/index/vamana/extensions.h
@@ -518,9 +518,15 @@ void svs_invoke(
         single_search(dataset, search_buffer, distance, queries.get_datum(i), search);
 
         // Copy back results.
-        for (size_t j = 0; j < num_neighbors; ++j) {
+        // If fewer candidates than requested were found, mark the rest as missing.
+        using compare = typename SearchBuffer::compare_type;
+        size_t num_valid = std::min(num_neighbors, search_buffer.size());
+        for (size_t j = 0; j < num_valid; ++j) {
             result.set(search_buffer[j], i, j);
         }
+        for (size_t j = num_valid; j < num_neighbors; ++j) {
+            result.set(type_traits::sentinel_v<Neighbor<I>, compare>, i, j);
+        }
     }
 }
 
-- 
2.43.0


From 6cca013f5d16f9af8bd4b98a7d83768bc11e2a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 03/36] fix: make MutableVamanaIndex::exhaustive_search
 instantiable

It called FlatIndex::search with an argument list that does not exist and
an unqualified factory function, so no caller could compile.
---
 include/svs/index/vamana/dynamic_index.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index c49bc01..9fa6d22 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -481,8 +481,15 @@ class MutableVamanaIndex {
         size_t num_neighbors,
         QueryResultView<I> result
     ) {
-        auto temp_index = temporary_flat_index(data_, distance_, threadpool_);
-        temp_index.search(queries, num_neighbors, result, [&](size_t i) {
+        auto temp_index = flat::temporary_flat_index(data_, distance_, threadpool_);
+        if (result.n_neighbors() != num_neighbors) {
+            throw ANNEXCEPTION(
+                "Requested {} neighbors but the result has space for {}!",
+                num_neighbors,
+                result.n_neighbors()
+            );
+        }
+        temp_index.search(result, queries, temp_index.get_search_parameters(), [&](size_t i) {
             return getindex(status_, i) == SlotMetadata::Valid;
         });
 
-- 
2.43.0


From 9e050f53d9e0beaed58f91e6b7850aa8a67936ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 04/36] fix: initialise all construction parameters of an
 assembled MutableVamanaIndex

The constructor taking a graph and a dataset left max_candidates_ and
prune_to_ uninitialised and read the degree of the moved-from graph, so
later additions and consolidations ran with indeterminate limits.
---
 include/svs/index/vamana/dynamic_index.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 9fa6d22..91b2d31 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -165,7 +165,9 @@ class MutableVamanaIndex {
         , distance_{std::move(distance_function)}
         , threadpool_{std::move(threadpool)}
         , search_parameters_{vamana::construct_default_search_parameters(data_)}
-        , construction_window_size_{2 * graph.max_degree()} {
+        , construction_window_size_{2 * graph_.max_degree()}
+        , max_candidates_{2 * graph_.max_degree()}
+        , prune_to_{graph_.max_degree()} {
         translator_.insert(external_ids, threads::UnitRange<Idx>(0, external_ids.size()));
     }
 
-- 
2.43.0


From 9cc7f45ba68ec6d0e36bb4cae1333876e2c3bae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 05/36] fix: return from ReadWriteProtected's copy assignment

Flowing off the end of a value-returning function is undefined behaviour.
---
 include/svs/lib/concurrency/readwrite_protected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/svs/lib/concurrency/readwrite_protected.h b/include/svs/lib/concurrency/readwrite_protected.h
index 01c0423..5b3f56b 100644
--- a/include/svs/lib/concurrency/readwrite_protected.h
+++ b/include/svs/lib/concurrency/readwrite_protected.h
@@ -56,6 +56,7 @@ template <typename T> class ReadWriteProtected {
             return *this;
         }
         set(other.get());
+        return *this;
     }
 
     /// @brief Move construction by move-assigning the shared object.
-- 
2.43.0


From 12f6c1725589be26df115095f6777d720006a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 06/36] fix: accept an empty batch in
 MutableVamanaIndex::add_points

With an empty first slot, the gathering loop never saw zero slots, and the
number of slots still needed underflowed: the dataset was shrunk under the
graph and the metadata.
---
 include/svs/index/vamana/dynamic_index.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 91b2d31..fb3247b 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -559,6 +559,11 @@ class MutableVamanaIndex {
             );
         }
 
+        // Nothing to add.
+        if (num_points == 0) {
+            return {};
+        }
+
         // Gather all empty slots.
         std::vector<size_t> slots{};
         slots.reserve(num_points);
-- 
2.43.0


From 6197d215a09947d555b052f9958eee1da3457141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 07/36] fix: sample initial k-means centroids within the
 dataset

uniform_int_distribution is inclusive on both ends, so the index of one past
the last vector could be drawn.
---
 include/svs/core/kmeans.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/kmeans.h b/include/svs/core/kmeans.h
index cfe02f5..b94c766 100644
--- a/include/svs/core/kmeans.h
+++ b/include/svs/core/kmeans.h
@@ -151,7 +151,7 @@ data::SimpleData<float> train_impl(
     // The cluster centroids
     auto centroids = data::SimpleData<float>{num_clusters, ndims};
     auto rng = std::mt19937_64(parameters.seed);
-    auto distribution = std::uniform_int_distribution<size_t>(0, data.size());
+    auto distribution = std::uniform_int_distribution<size_t>(0, data.size() - 1);
     std::unordered_set<size_t> seen{};
     for (size_t i = 0; i < num_clusters; ++i) {
         // Pick a vector a random.
-- 
2.43.0


From e8097c428b9fca51635d589df6d278357579d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:52 +0000
Subject: [PATCH 08/36] fix: wait for every worker when a job throws something
 else than std::exception

A job throwing a type not derived from std::exception escaped from run()
while workers were still executing the (dangling) job, or without restarting
the crashed worker.
---
 include/svs/lib/threads/threadpool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/threadpool.h b/include/svs/lib/threads/threadpool.h
index 05399b8..f532b88 100644
--- a/include/svs/lib/threads/threadpool.h
+++ b/include/svs/lib/threads/threadpool.h
@@ -162,7 +162,9 @@ template <typename Builder> class NativeThreadPoolBase {
         // Run on the main function.
         try {
             f(0);
-        } catch (const std::exception& error) { manage_exception_during_run(error.what()); }
+        } catch (const std::exception& error) {
+            manage_exception_during_run(error.what());
+        } catch (...) { manage_exception_during_run("Unknown exception"); }
 
         // Wait until all threads are done.
         // If any thread fails, then we're throwing.
@@ -192,6 +194,8 @@ template <typename Builder> class NativeThreadPoolBase {
                     thread.unsafe_get_exception();
                 } catch (const std::exception& error) {
                     fmt::format_to(inserter, "Thread {}: {}\n", i + 1, error.what());
+                } catch (...) {
+                    fmt::format_to(inserter, "Thread {}: Unknown exception\n", i + 1);
                 }
                 // Restart the thread.
                 threads_[i].shutdown();
-- 
2.43.0


From 5272b0447cb5b9dddf78ce3ec0f97cac615abbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 09/36] fix: check that a search buffer is full before reading
 its last element

can_skip() on an empty buffer read one element before the backing storage.
---
 include/svs/index/vamana/search_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..50f0bd7 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -296,7 +296,7 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From ea41cc6e800c6bb1a71989d11275d9dc03be4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 10/36] fix: honour the primary search parameters passed to an
 inverted search

InvertedIndex::search used the parameters stored in the primary index instead.
---
 include/svs/index/inverted/memory_based.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 6e5cf39..679d5d0 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -385,7 +385,8 @@ template <typename Index, typename Cluster> class InvertedIndex {
                 size_t num_neighbors = results.n_neighbors();
 
                 // Allocate scratch space to use the externally threaded
-                auto scratch = index_.scratchspace();
+                auto scratch =
+                    index_.scratchspace(search_parameters.primary_parameters_);
                 if (scratch.buffer.capacity() == 0) {
                     scratch.buffer.change_maxsize(1);
                 }
-- 
2.43.0


From 2f3254da61d01c3a7d808b903aff6926179fd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 11/36] fix: always search the closest cluster in an inverted
 search

The cutoff was exclusive, so no cluster at all was searched when the query
was equal to a centroid or epsilon was zero. With the inner product, a
non-positive best match failed an assertion (or excluded every cluster).
---
 include/svs/index/inverted/common.h       | 5 ++---
 include/svs/index/inverted/memory_based.h | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/inverted/common.h b/include/svs/index/inverted/common.h
index 2e64dde..25a745d 100644
--- a/include/svs/index/inverted/common.h
+++ b/include/svs/index/inverted/common.h
@@ -35,9 +35,8 @@ template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceL2)
 }
 
 template <typename T> inline T bound_with(T nearest, T epsilon, svs::DistanceIP) {
-    // TODO: What do we do if the best match is simply bad?
-    assert(nearest > 0.0f);
-    return nearest / (1 + epsilon);
+    // When the best match is bad (negative), dividing would tighten the bound instead.
+    return nearest > 0 ? nearest / (1 + epsilon) : nearest * (1 + epsilon);
 }
 
 } // namespace svs::index::inverted
diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 679d5d0..0cdf5e6 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -413,7 +413,7 @@ template <typename Index, typename Cluster> class InvertedIndex {
 
                     for (size_t j = 0, jmax = scratch_buffer.size(); j < jmax; ++j) {
                         auto candidate = scratch_buffer[j];
-                        if (!compare(candidate.distance(), cutoff_distance)) {
+                        if (compare(cutoff_distance, candidate.distance())) {
                             break;
                         }
 
-- 
2.43.0


From 1c56cccf73bdb20db31175987e6b02b04814dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 12/36] fix: mark missing neighbors of an inverted search

Entries past the end of the search buffer were copied into the results.
---
 include/svs/index/inverted/memory_based.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/memory_based.h b/include/svs/index/inverted/memory_based.h
index 0cdf5e6..25f7c8e 100644
--- a/include/svs/index/inverted/memory_based.h
+++ b/include/svs/index/inverted/memory_based.h
@@ -438,9 +438,18 @@ template <typename Index, typename Cluster> class InvertedIndex {
                     }
 
                     // Store results
-                    for (size_t j = 0; j < num_neighbors; ++j) {
+                    // If fewer than requested were found, mark the rest as missing.
+                    using buffer_type = std::remove_cvref_t<decltype(buffer)>;
+                    using sentinel_compare = typename buffer_type::compare_type;
+                    size_t num_valid = std::min(num_neighbors, buffer.size());
+                    for (size_t j = 0; j < num_valid; ++j) {
                         results.set(buffer[j], i, j);
                     }
+                    for (size_t j = num_valid; j < num_neighbors; ++j) {
+                        results.set(
+                            type_traits::sentinel_v<Neighbor<Idx>, sentinel_compare>, i, j
+                        );
+                    }
                 }
             }
         );
-- 
2.43.0


From 2e672241987d55a4aa53eae3c9bb746ee93f74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:43 +0000
Subject: [PATCH 13/36] fix: keep soft-deleted entries when compacting a
 dynamic index

Compaction with pending soft deletions moved the data, then threw because
adjacency lists still referred to the dropped entries. As documented,
nonmissing_indices() now includes soft-deleted entries (the rest of compact()
already handled them).
---
 include/svs/index/vamana/dynamic_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index fb3247b..9226a64 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -680,7 +680,7 @@ class MutableVamanaIndex {
         auto indices = std::vector<Idx>();
         indices.reserve(size());
         for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
-            if (!is_deleted(i)) {
+            if (status_[i] != SlotMetadata::Empty) {
                 indices.push_back(i);
             }
         }
-- 
2.43.0


From 373acf7361f156b9c29c1f68fce44b47839bccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 14/36] fix: survive the deletion of every vector of a dynamic
 index

Consolidation had no replacement for a deleted entry point when nothing valid
was left (failed assertion, or an out-of-range entry point). The deleted entry
point is now kept until a replacement exists; saving such an index is refused.
---
 include/svs/index/vamana/dynamic_index.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index 9226a64..a4c415f 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -837,7 +837,10 @@ class MutableVamanaIndex {
         // If so - we need to pick a new one.
         assert(entry_point_.size() == 1);
         auto entry_point = entry_point_[0];
-        if (status_.at(entry_point) == SlotMetadata::Deleted) {
+        // If nothing valid is left, no replacement exists. Keep the deleted entry point
+        // around (without neighbors) so later insertions have somewhere to start from.
+        const bool keep_entry_point = (size() == 0);
+        if (status_.at(entry_point) == SlotMetadata::Deleted && !keep_entry_point) {
             auto logger = svs::logging::get();
             svs::logging::debug(logger, "Replacing entry point.");
             auto new_entry_point =
@@ -865,6 +868,10 @@ class MutableVamanaIndex {
                 status = SlotMetadata::Empty;
             }
         }
+        if (keep_entry_point) {
+            graph_.clear_node(entry_point_[0]);
+            status_.at(entry_point_[0]) = SlotMetadata::Deleted;
+        }
     }
 
     ///// Saving
@@ -875,6 +882,10 @@ class MutableVamanaIndex {
         const std::filesystem::path& graph_directory,
         const std::filesystem::path& data_directory
     ) {
+        if (size() == 0) {
+            throw ANNEXCEPTION("Cannot save an index without any valid entries!");
+        }
+
         // Post-consolidation, all entries should be "valid".
         // Therefore, we don't need to save the slot metadata.
         consolidate();
-- 
2.43.0


From 513dbfab17bcc6a5e3258144393e009fe10b4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 15/36] fix: make io::save_vecs instantiable

It named a misspelled member, did not name the element type to write, and
VecsFile::writer's construction was ambiguous.
---
 include/svs/core/data/io.h | 3 ++-
 include/svs/core/io/vecs.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..7aad632 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -124,7 +124,8 @@ void save(const Dataset& data, const File& file, const lib::UUID& uuid = lib::Ze
 template <data::ImmutableMemoryDataset Dataset>
 void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     auto file = vecs::VecsFile{path};
-    auto writer = file.writer(data.dimensionsions());
+    auto writer =
+        file.writer<typename Dataset::element_type>(data.dimensions());
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..39c846f 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -245,7 +245,7 @@ class VecsFile {
     /// @param dimensions The number of dimensions in each vector being written.
     ///
     template <typename T> VecsWriter<T> writer(size_t dimensions) const {
-        return VecsWriter<T>(path_, dimensions);
+        return VecsWriter<T>(path_.string(), dimensions);
     }
 
     ///
-- 
2.43.0


From cb11a4adfb9a84c082c10a6d21481a2d9fc49915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 16/36] fix: keep search positions beyond 65535 in the dynamic
 search buffer

---
 include/svs/index/vamana/dynamic_search_buffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_search_buffer.h b/include/svs/index/vamana/dynamic_search_buffer.h
index 9b179bb..dfe6895 100644
--- a/include/svs/index/vamana/dynamic_search_buffer.h
+++ b/include/svs/index/vamana/dynamic_search_buffer.h
@@ -75,11 +75,11 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
     // Equivalent to the `search_buffer_capacity_` in the traditional search buffer.
     uint16_t valid_capacity_ = 0;
     // Index of the best unvisited candidate.
-    uint16_t best_unvisited_ = 0;
+    size_t best_unvisited_ = 0;
     // One past the "target_valid_"th entry.
-    uint16_t roi_end_ = 0;
+    size_t roi_end_ = 0;
     // number of valid neighbors.
-    uint16_t valid_ = 0;
+    size_t valid_ = 0;
     // A buffer of candidates.
     // Unlike the static buffer, this container *does* dynamically change size and does not
     // reserve one-past-the-end for copying neighbors.
@@ -426,7 +426,7 @@ template <typename Idx, typename Cmp = std::less<>> class MutableBuffer {
         size_t i = pos - start;
         valid_ += static_cast<size_t>(neighbor.valid());
         unsafe_insert(neighbor, pos, i);
-        best_unvisited_ = std::min(best_unvisited_, lib::narrow_cast<uint16_t>(i));
+        best_unvisited_ = std::min(best_unvisited_, i);
         return i;
     }
 
-- 
2.43.0


From 6c6e38d73d1169875d216846ade9514ba246843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:24 +0000
Subject: [PATCH 17/36] fix: keep a huge grain size from overflowing in dynamic
 partitioning

---
 include/svs/lib/threads/thunks.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/thunks.h b/include/svs/lib/threads/thunks.h
index f3b94a5..f467039 100644
--- a/include/svs/lib/threads/thunks.h
+++ b/include/svs/lib/threads/thunks.h
@@ -101,8 +101,9 @@ template <typename F, typename I> struct Thunk<F, StaticPartition<I>> {
 template <typename F, typename I> struct Thunk<F, DynamicPartition<I>> {
     static auto wrap(ThreadCount SVS_UNUSED(nthreads), F& f, DynamicPartition<I> space) {
         return [&f, space, count = std::atomic<uint64_t>(0)](uint64_t tid) mutable {
-            size_t grainsize = space.grainsize;
             size_t iterator_size = space.size();
+            // A grain larger than the whole space would only overflow below.
+            size_t grainsize = std::min<size_t>(space.grainsize, iterator_size);
             for (;;) {
                 uint64_t i = count.fetch_add(1, std::memory_order_relaxed);
                 auto start = grainsize * i;
-- 
2.43.0


From 4f8c4febc3d35896426089833c35a75a929c3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 18/36] fix: load a saved id translation that is empty

---
 include/svs/core/translation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..2c115f8 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -357,6 +357,10 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        if (num_points == 0) {
+            // The file holds nothing, and empty files are refused for reading.
+            return translator;
+        }
         auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
-- 
2.43.0


From b30a784cf17860546f92df920cb9c0438ac2882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 19/36] fix: let graphs be compared

---
 include/svs/concepts/graph.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/svs/concepts/graph.h b/include/svs/concepts/graph.h
index a139ce3..222e0b2 100644
--- a/include/svs/concepts/graph.h
+++ b/include/svs/concepts/graph.h
@@ -35,6 +35,7 @@
 /// @defgroup graph_concept_public Graph Concept Helpers.
 ///
 
+#include <algorithm>
 #include <cassert>
 #include <concepts>
 #include <cstddef>
@@ -190,14 +191,14 @@ concept MemoryGraph = requires(T& g, const T& const_g) {
 ///
 template <ImmutableMemoryGraph Graph1, ImmutableMemoryGraph Graph2>
 bool graphs_equal(const Graph1& x, const Graph2& y) {
-    if (x.num_nodes() != y.num_nodes()) {
+    if (x.n_nodes() != y.n_nodes()) {
         return false;
     }
 
-    for (size_t i = 0, imax = x.num_nodes(); i < imax; ++i) {
+    for (size_t i = 0, imax = x.n_nodes(); i < imax; ++i) {
         const auto& xa = x.get_node(i);
         const auto& ya = y.get_node(i);
-        if (!std::equal(xa.begin(), xa.end(), ya.begin())) {
+        if (!std::equal(xa.begin(), xa.end(), ya.begin(), ya.end())) {
             return false;
         }
     }
-- 
2.43.0


From 1fdd3fb742302d9d08a6d6311b0d3261f46c5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 20/36] fix: choose the entry point by exact distances

---
 include/svs/core/medioid.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/svs/core/medioid.h b/include/svs/core/medioid.h
index 279aa29..362451e 100644
--- a/include/svs/core/medioid.h
+++ b/include/svs/core/medioid.h
@@ -18,7 +18,10 @@
 #include "svs/lib/threads.h"
 
 // stl
+#include <algorithm>
+#include <limits>
 #include <tuple>
+#include <utility>
 #include <vector>
 
 namespace svs::utils {
@@ -297,9 +300,13 @@ size_t find_medioid(
 
     // Find the closest element to the medioid that satisfies the predicate.
     // Thread local nearest neighbors.
-    threads::SequentialTLS<Neighbor<size_t>> closest_neighbors(
-        type_traits::sentinel_v<Neighbor<size_t>, std::less<>>, threadpool.size()
-    );
+    //
+    // The distances are kept in double precision and ties go to the lowest index, otherwise
+    // the outcome would depend on rounding and on the number of threads.
+    using Candidate = std::pair<double, size_t>;
+    constexpr auto sentinel = Candidate{
+        std::numeric_limits<double>::infinity(), std::numeric_limits<size_t>::max()};
+    threads::SequentialTLS<Candidate> closest_neighbors(sentinel, threadpool.size());
 
     threads::run(
         threadpool,
@@ -321,21 +328,17 @@ size_t find_medioid(
                     distance += diff * diff;
                 }
 
-                if (distance < best.distance()) {
-                    best = {i, lib::narrow_cast<float>(distance)};
-                }
+                best = std::min(best, Candidate{distance, i});
             }
         }
     );
 
     // Return the minimum index.
-    auto global_min = type_traits::sentinel_v<Neighbor<size_t>, std::less<>>;
-    closest_neighbors.visit([&](const auto& neighbor) {
-        if (neighbor < global_min) {
-            global_min = neighbor;
-        }
+    auto global_min = sentinel;
+    closest_neighbors.visit([&](const auto& candidate) {
+        global_min = std::min(global_min, candidate);
     });
-    return global_min.id();
+    return global_min.second;
 }
 
 ///
-- 
2.43.0


From 6b9cffa361ba11a3f601435859bd0e6e895c4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 21/36] fix: keep calibration within the allowed search window
 capacity

---
 include/svs/index/vamana/calibrate.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/svs/index/vamana/calibrate.h b/include/svs/index/vamana/calibrate.h
index b4f9e32..22c4ffd 100644
--- a/include/svs/index/vamana/calibrate.h
+++ b/include/svs/index/vamana/calibrate.h
@@ -194,6 +194,8 @@ VamanaSearchParameters optimize_split_buffer(
     size_t search_window_capacity_upper =
         calibration_parameters.search_window_capacity_upper_;
     auto sp = current;
+    // Search windows larger than the largest allowed capacity cannot be tried.
+    sws = std::min(sws, search_window_capacity_upper + 1);
     while (sws > 1) {
         --sws;
         // First, try using the largest search window capacity.
-- 
2.43.0


From 245b2382697058cfefd9a97d46c919ac6b8b4073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 22/36] fix: let the hugepage allocator allocate nothing

---
 include/svs/core/allocator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/allocator.h b/include/svs/core/allocator.h
index d97dbbe..fd614d7 100644
--- a/include/svs/core/allocator.h
+++ b/include/svs/core/allocator.h
@@ -87,7 +87,10 @@ struct HugepageAllocation {
 };
 
 [[nodiscard]] inline HugepageAllocation hugepage_mmap(size_t bytes, bool force = false) {
-    assert(bytes != 0);
+    // Allocating nothing is allowed, but there are no empty mappings.
+    if (bytes == 0) {
+        bytes = 1;
+    }
     void* ptr = MAP_FAILED;
     size_t sz = 0;
     for (auto params : hugepage_x86_options) {
-- 
2.43.0


From 118f79003882193a810f95dc6790aa4369197d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 23/36] fix: look for a file by UUID past files too small to
 have one

---
 include/svs/core/io/native.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index 230593b..e7041e2 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -611,6 +611,25 @@ template <> struct FileType<FileSchema::Database> {
 };
 } // namespace detail
 
+namespace detail {
+/// @brief The number of bytes in the header of files with the given schema.
+inline size_t header_size(FileSchema schema) {
+    switch (schema) {
+        using enum FileSchema;
+        case Vtest: {
+            return sizeof(vtest::Header);
+        }
+        case V1: {
+            return sizeof(v1::Header);
+        }
+        case Database: {
+            return sizeof(database::Header);
+        }
+    }
+    throw ANNEXCEPTION("Unhandled case!");
+}
+} // namespace detail
+
 /// @brief Convert a schema enum to a file type class.
 template <FileSchema Schema> using file_type_t = typename detail::FileType<Schema>::type;
 
@@ -660,14 +679,19 @@ auto visit_file_type(FileSchema schema, const std::filesystem::path& path, F&& f
 /// @param path The file path to inspect.
 ///
 /// @returns The UUID of the file. If the file type is not recognized, the optional will
-///          be empty.
+///          be empty. This includes files too small for the header of their type.
 ///
 /// Throws an exception if ``path`` cannot be opened for reading.
 ///
 inline std::optional<lib::UUID> get_uuid(const std::filesystem::path& path) {
     // Step 1: Get the schema for the provided file.
+    auto filesize = std::filesystem::file_size(path);
+    if (filesize < sizeof(uint64_t)) {
+        return std::optional<lib::UUID>();
+    }
+
     auto schema = classify(path);
-    if (!schema) {
+    if (!schema || filesize < detail::header_size(schema.value())) {
         return std::optional<lib::UUID>();
     }
 
-- 
2.43.0


From 34dfa7b6726f7be59630d65cc8dd8e2756700239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 24/36] fix: make the DiskANN binary file writer compile

---
 include/svs/core/io/binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..579bd2f 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -189,7 +189,7 @@ class BinaryFile {
     ///
     template <typename T>
     BinaryWriter<T> writer(size_t n_vectors, size_t dimensions) const {
-        return BinaryWriter<T>(path_, n_vectors, dimensions);
+        return BinaryWriter<T>(path_.string(), n_vectors, dimensions);
     }
 
     ///
-- 
2.43.0


From 981341e54547d8c1e99d4f5464385f8c419997c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 25/36] fix: read empty DiskANN binary files without dividing
 by zero

---
 include/svs/core/io/binary.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index 579bd2f..0e04c71 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -51,8 +51,10 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
-    size_t remainder = filesize_minus_header % n_vec_elements;
-    size_t deduced_elsize = filesize_minus_header / n_vec_elements;
+    // An empty dataset may have elements of any size.
+    bool empty = n_vec_elements == 0;
+    size_t remainder = empty ? filesize_minus_header : filesize_minus_header % n_vec_elements;
+    size_t deduced_elsize = empty ? elsize_hint : filesize_minus_header / n_vec_elements;
 
     bool elsize_match = elsize_hint == 0 ? true : elsize_hint == deduced_elsize;
 
-- 
2.43.0


From 6768bed7edd43a6b53292fb53be190d7336af132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 26/36] fix: load vecs files by the element type asked for

---
 include/svs/core/data/io.h | 8 +++++++-
 include/svs/core/io/vecs.h | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 7aad632..be18a8b 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -196,7 +196,13 @@ auto_load(const std::filesystem::path& filename, const F& construct) {
         return load_dataset(io::NativeFile(filename), construct);
     }
     if (sv.ends_with("vecs")) {
-        return load_dataset(io::vecs::VecsFile(filename), construct);
+        // The file does not tell the size of its elements, but here it is known.
+        auto file = io::vecs::VecsFile(filename);
+        auto accessor = DefaultWriteAccessor();
+        auto [vectors_to_read, ndims] = file.get_dims(sizeof(T));
+        auto data = construct(vectors_to_read, ndims);
+        populate(data, accessor, file);
+        return data;
     }
     if (sv.ends_with("bin")) {
         return load_dataset(io::binary::BinaryFile(filename), construct);
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 39c846f..5ab9703 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -56,7 +56,10 @@ inline size_t deduce_element_size(std::ifstream& stream, size_t dims, size_t fil
     for (size_t elsize : ALLOWED_ELEMENT_SIZES) {
         size_t offset = sizeof(length_t) + elsize * dims;
         if (is_last_vec(offset)) {
-            return offset == filesize ? elsize : 0;
+            if (offset == filesize) {
+                return elsize;
+            }
+            continue;
         }
 
         if (dims == next_dims(offset)) {
-- 
2.43.0


From cfc083afb45b5d2295c308690eaa08cd6771ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 27/36] fix: report what could not be written to a file

---
 include/svs/core/data/io.h              |  2 ++
 include/svs/core/io/binary.h            |  7 +++++++
 include/svs/core/io/native.h            | 17 +++++++++++++++--
 include/svs/core/io/vecs.h              |  7 +++++++
 include/svs/core/translation.h          |  1 +
 include/svs/index/inverted/clustering.h |  1 +
 include/svs/lib/file.h                  | 18 +++++++++++++++++-
 include/svs/lib/saveload/bootstrap.h    |  1 +
 include/svs/lib/saveload/save.h         |  1 +
 9 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index be18a8b..06743eb 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -107,6 +107,7 @@ void save(
     for (size_t i = 0; i < data.size(); ++i) {
         writer << accessor.get(data, i);
     }
+    writer.close();
 }
 
 template <data::ImmutableMemoryDataset Dataset, typename File>
@@ -129,6 +130,7 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
+    writer.close();
 }
 
 /////
diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index 0e04c71..0670f4e 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -155,6 +155,13 @@ template <typename T = void> class BinaryWriter {
 
     void flush() { stream_.flush(); }
 
+    ///
+    /// @brief Finish writing the file.
+    ///
+    /// Throws an ``ANNException`` if anything could not be written.
+    ///
+    void close() { lib::close_write(stream_); }
+
   private:
     Header header_;
     std::ofstream stream_;
diff --git a/include/svs/core/io/native.h b/include/svs/core/io/native.h
index e7041e2..f73e972 100644
--- a/include/svs/core/io/native.h
+++ b/include/svs/core/io/native.h
@@ -382,13 +382,22 @@ template <typename T = void> class Writer {
         auto position = stream_.tellp();
         // Write to the header the number of vectors actually written.
         stream_.seekp(0);
-        assert(stream_.good());
         lib::write_binary(stream_, Header(vectors_written_, dimension_, uuid_));
         if (resume) {
             stream_.seekp(position, std::ofstream::beg);
         }
     }
 
+    ///
+    /// @brief Finish writing the file.
+    ///
+    /// Throws an ``ANNException`` if anything could not be written.
+    ///
+    void close() {
+        writeheader();
+        lib::close_write(stream_);
+    }
+
     // We want a custom destructor in order to write the header with the correct
     // number of vectors.
     //
@@ -403,7 +412,11 @@ template <typename T = void> class Writer {
     Writer& operator=(Writer&&) = delete;
 
     // Write the header for the file.
-    ~Writer() noexcept { writeheader(); }
+    ~Writer() noexcept {
+        if (stream_.is_open()) {
+            writeheader();
+        }
+    }
 
   private:
     size_t dimension_;
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 5ab9703..0b321bb 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -215,6 +215,13 @@ template <typename T = void> class VecsWriter {
 
     void flush() { stream_.flush(); }
 
+    ///
+    /// @brief Finish writing the file.
+    ///
+    /// Throws an ``ANNException`` if anything could not be written.
+    ///
+    void close() { lib::close_write(stream_); }
+
   private:
     size_t dimension_;
     std::ofstream stream_;
diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index 2c115f8..d6da004 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -328,6 +328,7 @@ class IDTranslator {
             lib::write_binary(stream, i->first);
             lib::write_binary(stream, i->second);
         }
+        lib::close_write(stream);
         return lib::SaveTable(
             serialization_schema,
             save_version,
diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index d8b9018..da70d40 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -575,6 +575,7 @@ template <std::integral I> class Clustering {
             for (auto& cluster : *this) {
                 filesize += cluster.second.serialize(io);
             }
+            lib::close_write(io);
         }
 
         return lib::SaveTable(
diff --git a/include/svs/lib/file.h b/include/svs/lib/file.h
index f267f7c..a0d530d 100644
--- a/include/svs/lib/file.h
+++ b/include/svs/lib/file.h
@@ -95,7 +95,23 @@ inline std::ofstream open_write(
     const std::filesystem::path& path, std::ios_base::openmode mode = file_flags::open_write
 ) {
     check_file(path, mode);
-    return std::ofstream(path, mode);
+    auto stream = std::ofstream(path, mode);
+    if (!stream.is_open()) {
+        throw ANNEXCEPTION("Could not open file {} for writing!", path);
+    }
+    return stream;
+}
+
+///
+/// @brief Close a stream opened for writing.
+///
+/// Throws an ``ANNException`` if anything written to the stream did not reach its file.
+///
+inline void close_write(std::ofstream& stream) {
+    stream.close();
+    if (stream.fail()) {
+        throw ANNEXCEPTION("Could not write all data to a file!");
+    }
 }
 
 inline std::ifstream open_read(
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index 5a065a1..acba470 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -252,6 +252,7 @@ class BinaryBlobSaver : private BinaryBlobSerializer {
         {
             auto ostream = lib::open_write(path);
             bytes_written += lib::write_binary(ostream, data_);
+            lib::close_write(ostream);
         }
 
         return SaveTable(
diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index ada8024..9e802db 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -312,6 +312,7 @@ void save_node_to_file(
     );
     auto file = svs::lib::open_write(path, std::ios_base::out);
     file << top_table << "\n";
+    lib::close_write(file);
 }
 } // namespace detail
 
-- 
2.43.0


From c33457323ae3f281247a6e47dae8ec840ba91f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 28/36] fix: raise an error when a file ends too early

---
 include/svs/lib/readwrite.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/svs/lib/readwrite.h b/include/svs/lib/readwrite.h
index 320535c..d8b2eda 100644
--- a/include/svs/lib/readwrite.h
+++ b/include/svs/lib/readwrite.h
@@ -11,6 +11,8 @@
 
 #pragma once
 
+#include "svs/lib/exception.h"
+
 #include <span>
 #include <type_traits>
 #include <vector>
@@ -57,8 +59,13 @@ struct BinaryReader<Stream, std::vector<T, Alloc>> {
 ///   Each element of the vector will be populated as if by recursively calling
 ///   ``svs::lib::read_binary`` on each element beginning from the beginning.
 ///
+/// Throws an ``ANNException`` if the stream ends too early.
+///
 template <typename T, typename Stream> void read_binary(Stream& stream, T& x) {
     BinaryReader<Stream, T>::call(stream, x);
+    if (stream.fail()) {
+        throw ANNEXCEPTION("Trying to read past the end of a file!");
+    }
 }
 
 ///
-- 
2.43.0


From c4e37d2bbad3f991345ba6e6b47ff5f24047ae1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 29/36] fix: never leave a mixture of old and new files after
 an incomplete save

---
 include/svs/lib/saveload/save.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/svs/lib/saveload/save.h b/include/svs/lib/saveload/save.h
index 9e802db..3dc87a7 100644
--- a/include/svs/lib/saveload/save.h
+++ b/include/svs/lib/saveload/save.h
@@ -310,9 +310,15 @@ void save_node_to_file(
     auto top_table = toml::table(
         {{config_version_key, version.str()}, {config_object_key, SVS_FWD(node)}}
     );
-    auto file = svs::lib::open_write(path, std::ios_base::out);
+
+    // Write to a temporary file first, so a save that does not complete never leaves a
+    // part of the configuration behind.
+    auto temporary = path;
+    temporary += ".tmp";
+    auto file = svs::lib::open_write(temporary, std::ios_base::out);
     file << top_table << "\n";
     lib::close_write(file);
+    std::filesystem::rename(temporary, path);
 }
 } // namespace detail
 
@@ -338,6 +344,13 @@ template <typename T> void save_to_disk(const T& x, const std::filesystem::path&
     // Otherwise, the parent directory must exist.
     std::filesystem::create_directory(dir);
 
+    // Auxiliary files of an object already in the directory are about to be overwritten.
+    // Remove its configuration first so that if this save does not complete, it cannot be
+    // loaded together with files belonging to the new object.
+    if constexpr (!SaveableContextFree<T>) {
+        std::filesystem::remove(dir / config_file_name);
+    }
+
     // Assume the saving context is in the same directory as the path.
     auto ctx = SaveContext(dir);
     detail::save_node_to_file(lib::save(x, ctx), dir / config_file_name, ctx.version());
-- 
2.43.0


From c348237572e1b55b7f8ff57aed937b6cd485c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 30/36] fix: save the parts of an index in an order that never
 mixes two of them

---
 include/svs/index/vamana/dynamic_index.h | 14 +++++++++-----
 include/svs/index/vamana/index.h         |  8 ++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index a4c415f..44ec82b 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -891,6 +891,15 @@ class MutableVamanaIndex {
         consolidate();
         compact();
 
+        // The parts only belong together when all of them have been saved.
+        // Invalidate an index that is already there and save its config last.
+        std::filesystem::remove(config_directory / lib::config_file_name);
+
+        // Save the dataset.
+        lib::save_to_disk(data_, data_directory);
+        // Save the graph.
+        lib::save_to_disk(graph_, graph_directory);
+
         // Save auxiliary data structures.
         lib::save_to_disk(
             lib::SaveOverride([&](const lib::SaveContext& ctx) {
@@ -917,11 +926,6 @@ class MutableVamanaIndex {
             }),
             config_directory
         );
-
-        // Save the dataset.
-        lib::save_to_disk(data_, data_directory);
-        // Save the graph.
-        lib::save_to_disk(graph_, graph_directory);
     }
 
     /////
diff --git a/include/svs/index/vamana/index.h b/include/svs/index/vamana/index.h
index 4ef1850..c622649 100644
--- a/include/svs/index/vamana/index.h
+++ b/include/svs/index/vamana/index.h
@@ -725,12 +725,16 @@ class VamanaIndex {
         auto parameters = VamanaIndexParameters{
             entry_point_.front(), build_parameters_, get_search_parameters()};
 
-        // Config
-        lib::save_to_disk(parameters, config_directory);
+        // The parts only belong together when all of them have been saved.
+        // Invalidate an index that is already there and save its config last.
+        std::filesystem::remove(config_directory / lib::config_file_name);
+
         // Data
         lib::save_to_disk(data_, data_directory);
         // Graph
         lib::save_to_disk(graph_, graph_directory);
+        // Config
+        lib::save_to_disk(parameters, config_directory);
     }
 
     ///// Calibration
-- 
2.43.0


From c7d140e997b7e1ef3740c5d7c7554522bbb6d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 31/36] fix: name the directories of an inverted index in the
 order they are used

---
 include/svs/orchestrators/inverted.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/svs/orchestrators/inverted.h b/include/svs/orchestrators/inverted.h
index 7acc427..0b7015f 100644
--- a/include/svs/orchestrators/inverted.h
+++ b/include/svs/orchestrators/inverted.h
@@ -26,8 +26,8 @@ class InvertedInterface {
     ///// Saving
     virtual void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) = 0;
 };
 
@@ -62,10 +62,10 @@ class InvertedImpl : public manager::ManagerImpl<QueryTypes, Impl, IFace> {
     ///// Saving
     void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) override {
-        impl().save_primary_index(primary_config, primary_data, primary_graph);
+        impl().save_primary_index(primary_config, primary_graph, primary_data);
     }
 };
 
@@ -95,10 +95,10 @@ class Inverted : public manager::IndexManager<InvertedInterface> {
     ///// Saving
     void save_primary_index(
         const std::filesystem::path& primary_config,
-        const std::filesystem::path& primary_data,
-        const std::filesystem::path& primary_graph
+        const std::filesystem::path& primary_graph,
+        const std::filesystem::path& primary_data
     ) {
-        impl_->save_primary_index(primary_config, primary_data, primary_graph);
+        impl_->save_primary_index(primary_config, primary_graph, primary_data);
     }
 
     ///// Building
-- 
2.43.0


From 69eea95163a0ec97482aeb39f8b32eafdc611e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 32/36] fix: load clusterings and binary blobs that hold
 nothing

---
 include/svs/index/inverted/clustering.h | 5 +++++
 include/svs/lib/saveload/bootstrap.h    | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/inverted/clustering.h b/include/svs/index/inverted/clustering.h
index da70d40..cbd37f7 100644
--- a/include/svs/index/inverted/clustering.h
+++ b/include/svs/index/inverted/clustering.h
@@ -614,6 +614,11 @@ template <std::integral I> class Clustering {
                 );
             }
 
+            if (num_clusters == 0) {
+                // The file holds nothing, and empty files are refused for reading.
+                return clustering;
+            }
+
             auto io = lib::open_read(file);
             for (size_t i = 0; i < num_clusters; ++i) {
                 clustering.insert(Cluster<I>::deserialize(io));
diff --git a/include/svs/lib/saveload/bootstrap.h b/include/svs/lib/saveload/bootstrap.h
index acba470..935a6ba 100644
--- a/include/svs/lib/saveload/bootstrap.h
+++ b/include/svs/lib/saveload/bootstrap.h
@@ -312,7 +312,8 @@ class BinaryBlobLoader : private BinaryBlobSerializer {
             table.context().resolve(load_at<std::filesystem::path>(table, "filename"));
 
         auto loader = BinaryBlobLoader(num_elements, allocator);
-        {
+        // When there are no elements, the file is empty and refused for reading.
+        if (num_elements != 0) {
             auto istream = lib::open_read(filename);
             lib::read_binary(istream, loader.data_);
         }
-- 
2.43.0


From ecd75a69c54cb3ee3ba0c2bbe285c9b42f509949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 33/36] fix: keep the fraction of alpha given to a type-erased
 dynamic index

---
 include/svs/orchestrators/dynamic_vamana.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/orchestrators/dynamic_vamana.h b/include/svs/orchestrators/dynamic_vamana.h
index daba2a5..f69d625 100644
--- a/include/svs/orchestrators/dynamic_vamana.h
+++ b/include/svs/orchestrators/dynamic_vamana.h
@@ -156,7 +156,7 @@ class DynamicVamana : public manager::IndexManager<DynamicVamanaInterface> {
 
     // Accessors
     float get_alpha() const { return impl_->get_alpha(); }
-    void set_alpha(size_t alpha) { impl_->set_alpha(alpha); }
+    void set_alpha(float alpha) { impl_->set_alpha(alpha); }
     size_t get_construction_window_size() const {
         return impl_->get_construction_window_size();
     }
-- 
2.43.0


From 6885bab4999e1bb25093ce1629c5238acabbf4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 34/36] fix: convert half precision in software as IEEE 754
 says

Without F16C, subnormal numbers were read as zero, infinity and NaN as numbers,
and ties were rounded away from zero and overflow to NaN.
---
 include/svs/lib/float16.h | 44 ++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/svs/lib/float16.h b/include/svs/lib/float16.h
index 31bfd9a..a11af18 100644
--- a/include/svs/lib/float16.h
+++ b/include/svs/lib/float16.h
@@ -43,28 +43,42 @@ inline float bitcast_uint32_to_float(const uint32_t x) {
     return f;
 }
 
-// reference:
-// https://stackoverflow.com/questions/1659440/32-bit-to-16-bit-floating-point-conversion
 inline float float16_to_float_untyped_slow(const uint16_t x) {
-    // without norm/denorm (it makes code slow)
+    const uint32_t sign = (x & 0x8000) << 16;
     const uint32_t e = (x & 0x7C00) >> 10; // exponent
-    const uint32_t m = (x & 0x03FF) << 13; // mantissa
-    return bitcast_uint32_to_float(
-        (x & 0x8000) << 16 | static_cast<uint32_t>(e != 0) * ((e + 112) << 23 | m)
-    );
+    const uint32_t m = x & 0x03FF;         // mantissa
+    if (e == 0) {
+        // Zero and the subnormal numbers: a multiple of 2^-24.
+        return bitcast_uint32_to_float(
+            sign | bitcast_float_to_uint32(static_cast<float>(m) / 16777216.0F)
+        );
+    }
+    // The largest exponent belongs to infinity and NaN.
+    const uint32_t e32 = (e == 31) ? 255 : e + 112;
+    return bitcast_uint32_to_float(sign | e32 << 23 | m << 13);
 }
 
 inline uint16_t float_to_float16_untyped_slow(const float x) {
-    // round-to-nearest-even: add last bit after truncated mantissa
-    const uint32_t b = bitcast_float_to_uint32(x) + 0x00001000;
+    const uint32_t b = bitcast_float_to_uint32(x);
+    const uint32_t sign = (b & 0x80000000) >> 16;
     const uint32_t e = (b & 0x7F800000) >> 23; // exponent
     const uint32_t m = b & 0x007FFFFF;         // mantissa
-    return (b & 0x80000000) >> 16 |
-           static_cast<uint32_t>(e > 112) * ((((e - 112) << 10) & 0x7C00) | m >> 13) |
-           static_cast<uint32_t>((e < 113) && (e > 101)) *
-               ((((0x007FF000 + m) >> (125 - e)) + 1) >> 1) |
-           static_cast<uint32_t>(e > 143) *
-               0x7FFF; // sign : normalized : denormalized : saturate
+    if (e == 255) {
+        // Infinity and (quiet) NaN.
+        return sign | 0x7C00 | (m == 0 ? 0 : (0x0200 | m >> 13));
+    }
+    if (e < 102) {
+        // Less than half of the smallest number.
+        return sign;
+    }
+    // Round to nearest, ties to even. The result of rounding up may carry into the exponent.
+    const bool subnormal = e < 113;
+    const uint32_t shift = subnormal ? 126 - e : 13;
+    const uint32_t full = m | 0x00800000;
+    const uint32_t rounded =
+        (full + (1U << (shift - 1)) - 1 + ((full >> shift) & 1)) >> shift;
+    const uint32_t magnitude = (subnormal ? 0 : (e - 113) << 10) + rounded;
+    return sign | (magnitude < 0x7C00 ? magnitude : 0x7C00);
 }
 
 // If the processor is new enough, we can use hardware intrinsics to perform the conversion
-- 
2.43.0


From 9dd2b5492b61a49ae971379880a7d59d013ac506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 35/36] fix: refuse version strings with characters after a
 number

---
 include/svs/lib/version.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/version.h b/include/svs/lib/version.h
index 5da723f..e233648 100644
--- a/include/svs/lib/version.h
+++ b/include/svs/lib/version.h
@@ -52,7 +52,7 @@ namespace svs::lib {
 template <std::integral T> [[nodiscard]] T parse_int(std::string_view view) {
     auto value = T{0};
     auto result = std::from_chars(view.begin(), view.end(), value);
-    if (result.ec != std::errc()) {
+    if (result.ec != std::errc() || result.ptr != view.end()) {
         throw ANNEXCEPTION("Something went wrong with number parsing!");
     }
     return value;
-- 
2.43.0


From 834cba8b7a99c50332a3a32c12ed6d4926d3c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 36/36] fix: narrow no longer accepts numbers at the limit of
 an integer's range

The largest value of an integer type was converted to the power of two above it
without an error, and 2^32 and 2^64 in floating point to the largest integer
(the conversion is undefined, and saturates on CPUs with AVX-512).
---
 include/svs/lib/narrow.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/svs/lib/narrow.h b/include/svs/lib/narrow.h
index e0b81e0..0adeae9 100644
--- a/include/svs/lib/narrow.h
+++ b/include/svs/lib/narrow.h
@@ -38,6 +38,8 @@
 
 #include <exception> // for std::exception
 #include <iostream>
+#include <limits>
+#include <type_traits>
 
 #include "svs/lib/preprocessor.h"
 #include "svs/lib/type_traits.h"
@@ -70,7 +72,21 @@ template <class T, class U>
 SVS_CLANG_NOINLINE constexpr T narrow_impl(U u) noexcept(false) {
     static_assert(!std::is_same_v<T, std::remove_cv_t<U>>);
     constexpr bool is_different_signedness = (svs::is_signed_v<T> != svs::is_signed_v<U>);
+    // A floating point number beyond the range of an integer has no defined conversion to it.
+    if constexpr (std::is_floating_point_v<U> && std::is_integral_v<T>) {
+        using limits = std::numeric_limits<T>;
+        constexpr U limit = 2 * static_cast<U>(limits::max() / 2 + 1);
+        if (!(u < limit) || u < static_cast<U>(limits::min())) {
+            throw narrowing_error{};
+        }
+    }
     const T t = narrow_cast<T>(u);
+    if constexpr (std::is_integral_v<U> && std::is_floating_point_v<T>) {
+        constexpr T limit = 2 * static_cast<T>(std::numeric_limits<U>::max() / 2 + 1);
+        if (!(t < limit)) {
+            throw narrowing_error{};
+        }
+    }
 
     if (static_cast<U>(t) != u || (is_different_signedness && ((t < T{}) != (u < U{})))) {
         throw narrowing_error{};
-- 
2.43.0


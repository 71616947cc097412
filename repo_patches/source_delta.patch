From c43626a968778b8e50f2d7415d56a9f4bfa994ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 01/58] fix: wait in a loop for the pipeline's workers, so that
 a spurious wake-up does not end it early

---
 include/utils/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index ed8db06..1e81159 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -296,7 +296,7 @@ public:
         // Run a worker on the main thread
         worker(lock);
         // Wait for completion of all workers
-        if (workers_count_ > 0)
+        while (workers_count_ > 0)
         {
             work_done_cond_.wait(lock);
         }
-- 
2.43.0


From d1d49495eb63bf35035980c44891e94f7a422de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 02/58] fix: keep the pipeline's ring buffer index in range for
 indices below minus the buffer size

---
 include/utils/ThreadPool.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index 1e81159..be35c66 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -303,6 +303,12 @@ public:
     }
 
 protected:
+    //! Slot of the ring buffer for an index, which may be any negative number (e.g. layers of a raft).
+    item_t* slotAt(ptrdiff_t idx) const
+    {
+        return &queue_[((idx % max_pending_) + max_pending_) % max_pending_];
+    }
+
     //! Waits for free space in the ring. Returns false when work is completed.
     bool wait(lock_t& lock)
     {
@@ -327,7 +333,7 @@ protected:
     ptrdiff_t produce(lock_t& lock)
     {
         ptrdiff_t produced_idx = write_idx_++;
-        item_t* slot = &queue_[(produced_idx + max_pending_) % max_pending_];
+        item_t* slot = slotAt(produced_idx);
         assert(produced_idx < last_idx_);
 
         // Unlocks global mutex while producing an item
@@ -346,7 +352,7 @@ protected:
     void consume_many(lock_t& lock)
     {
         assert(read_idx_ < write_idx_);
-        for (item_t* slot = &queue_[(read_idx_ + max_pending_) % max_pending_]; *slot; slot = &queue_[(read_idx_ + max_pending_) % max_pending_])
+        for (item_t* slot = slotAt(read_idx_); *slot; slot = slotAt(read_idx_))
         {
             // Unlocks global mutex while consuming an item
             lock.unlock();
-- 
2.43.0


From 6010af2d1e162aa836ac253891d025168f907754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 03/58] fix: measure a vertex's deviation to the line segment
 that replaces it, so that simplifying does not cut off the tips of spikes

---
 src/utils/Simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Simplify.cpp b/src/utils/Simplify.cpp
index ce8f526..c265443 100644
--- a/src/utils/Simplify.cpp
+++ b/src/utils/Simplify.cpp
@@ -326,7 +326,7 @@ coord_t Simplify::importance(const Polygonal& polygon, const std::vector<bool>&
 
     const Point2LL& before = getPosition(polygon[before_index]);
     const Point2LL& after = getPosition(polygon[after_index]);
-    const coord_t deviation2 = LinearAlg2D::getDist2FromLine(vertex, before, after);
+    const coord_t deviation2 = LinearAlg2D::getDist2FromLineSegment(before, vertex, after);
     if (deviation2 <= min_resolution * min_resolution) // Deviation so small that it's always desired to remove them.
     {
         return deviation2;
-- 
2.43.0


From 8a57f806dca499d6ab6d955a678407d058884dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 04/58] fix: getClosestConnection projects the second end of
 the first segment too

a2_on_b was computed from a1, so a connection that starts at a2 was not found.
---
 src/utils/linearAlg2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/linearAlg2D.cpp b/src/utils/linearAlg2D.cpp
index ef1a8be..f122764 100644
--- a/src/utils/linearAlg2D.cpp
+++ b/src/utils/linearAlg2D.cpp
@@ -135,7 +135,7 @@ std::pair<Point2LL, Point2LL> LinearAlg2D::getClosestConnection(Point2LL a1, Poi
     coord_t b2_on_a_dist2 = vSize2(b2_on_a - b2);
     Point2LL a1_on_b = getClosestOnLineSegment(a1, b1, b2);
     coord_t a1_on_b_dist2 = vSize2(a1_on_b - a1);
-    Point2LL a2_on_b = getClosestOnLineSegment(a1, b1, b2);
+    Point2LL a2_on_b = getClosestOnLineSegment(a2, b1, b2);
     coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);
     if (b1_on_a_dist2 < b2_on_a_dist2 && b1_on_a_dist2 < a1_on_b_dist2 && b1_on_a_dist2 < a2_on_b_dist2)
     {
-- 
2.43.0


From c5c41d995ae3331e0630dd11c7a846a32e316fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:20 +0000
Subject: [PATCH 05/58] fix: the end of a diagonal segment does not lie beyond
 that segment

The length of the segment was rounded down before comparing, so that a point equal to c was reported to be beyond ac.
---
 include/utils/linearAlg2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/linearAlg2D.h b/include/utils/linearAlg2D.h
index 19e7671..856be6b 100644
--- a/include/utils/linearAlg2D.h
+++ b/include/utils/linearAlg2D.h
@@ -249,7 +249,7 @@ public:
             }
             return vSize2(ab);
         }
-        if (ax_size > ac_size)
+        if (projected_x > vSize2(ac))
         { // b is 'after' segment ac
             if (b_is_beyond_ac)
             {
@@ -262,7 +262,7 @@ public:
         {
             *b_is_beyond_ac = 0;
         }
-        const Point2LL ax = ac * ax_size / ac_size;
+        const Point2LL ax = ac * std::min(ax_size, ac_size) / ac_size;
         const Point2LL bx = ab - ax;
         return vSize2(bx);
         //         return vSize2(ab) - ax_size*ax_size; // less accurate
-- 
2.43.0


From 5c0a5855a7e95deda34111f469fb196789c9c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 06/58] fix: isInsideCorner compares directions exactly for
 corners with short edges

The vectors were normalized with a rounded-down length, an error of up to 1/length, which decided wrongly about queries next to short edges.
---
 src/utils/linearAlg2D.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/linearAlg2D.cpp b/src/utils/linearAlg2D.cpp
index f122764..b258bb4 100644
--- a/src/utils/linearAlg2D.cpp
+++ b/src/utils/linearAlg2D.cpp
@@ -229,8 +229,9 @@ bool LinearAlg2D::isInsideCorner(const Point2LL a, const Point2LL b, const Point
     }
     else // Beyond either A or C, but it could still be inside of the polygon.
     {
-        const coord_t project_a_parallel = dot(ba, bq); // Project not on the perpendicular, but on the original.
-        const coord_t project_c_parallel = dot(bc, bq);
+        // Project not on the perpendicular, but on the original. Normalized in floating point, since the length of a short vector is rounded too much.
+        const double project_a_parallel = dot(a - b, bq) / std::sqrt(vSize2(a - b));
+        const double project_c_parallel = dot(c - b, bq) / std::sqrt(vSize2(c - b));
 
         // Either:
         //  * A is to the right of B (project_a_perpendicular > 0) and C is below A (project_c_parallel < project_a_parallel), or
-- 
2.43.0


From e30d16762e156ce2e048ff0b66be36bb78efdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 07/58] fix: uniting by handles that are not the representative
 unites the whole sets

unite computed the representatives and then ignored them: the rest of a set was left behind, and uniting two elements of one set could tie a cycle.
---
 include/utils/UnionFind.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/UnionFind.h b/include/utils/UnionFind.h
index e2d42cc..08bac6c 100644
--- a/include/utils/UnionFind.h
+++ b/include/utils/UnionFind.h
@@ -100,19 +100,23 @@ public:
     {
         const size_t first_root = findByHandle(first);
         const size_t second_root = findByHandle(second);
+        if (first_root == second_root) //Already in the same set.
+        {
+            return first_root;
+        }
 
         //The tree with the greatest rank becomes the parent. This creates shallower trees.
         if (rank[first_root] < rank[second_root])
         {
-            parent_index[first] = second;
+            parent_index[first_root] = second_root;
             rank[second_root] += rank[first_root];
-            return second;
+            return second_root;
         }
         else
         {
-            parent_index[second] = first;
+            parent_index[second_root] = first_root;
             rank[first_root] += rank[second_root];
-            return first;
+            return first_root;
         }
     }
 
-- 
2.43.0


From 24b236ca0bf54a653cb62d2927cf254e1bced27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 08/58] fix: keep comparing with the best seam candidate while
 discarding the others

---
 src/utils/scoring/BestElementFinder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/scoring/BestElementFinder.cpp b/src/utils/scoring/BestElementFinder.cpp
index c0f79cd..0fa61b6 100644
--- a/src/utils/scoring/BestElementFinder.cpp
+++ b/src/utils/scoring/BestElementFinder.cpp
@@ -69,12 +69,13 @@ std::optional<size_t> cura::BestElementFinder::findBestElement(const size_t cand
 
         // Skip candidates that have a score too far from the actual best one
         const double delta_threshold = criteria_pass.outsider_delta_threshold + std::numeric_limits<double>::epsilon();
+        const double best_score = best_candidate_iterator->score; // Removing elements moves the other ones, so the iterator will be invalidated
         end = std::remove_if(
             begin,
             end,
-            [&best_candidate_iterator, &delta_threshold](const Candidate& candidate)
+            [&best_score, &delta_threshold](const Candidate& candidate)
             {
-                return best_candidate_iterator->score - candidate.score > delta_threshold;
+                return best_score - candidate.score > delta_threshold;
             });
 
         if (std::distance(begin, end) == 1)
-- 
2.43.0


From 71cd7e1d04233e04a53d7c02c7b1982b973c8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:37 +0000
Subject: [PATCH 09/58] fix: make the order of equivalent constrained paths
 independent of memory addresses

---
 include/PathOrderOptimizer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/PathOrderOptimizer.h b/include/PathOrderOptimizer.h
index 055aec6..449a9a6 100644
--- a/include/PathOrderOptimizer.h
+++ b/include/PathOrderOptimizer.h
@@ -4,6 +4,7 @@
 #ifndef PATHORDEROPTIMIZER_H
 #define PATHORDEROPTIMIZER_H
 
+#include <algorithm>
 #include <numbers>
 #include <unordered_set>
 
@@ -618,6 +619,8 @@ protected:
         {
             orderable_paths.push_back(vertices_to_paths_.at(path));
         }
+        // The iteration order of the set depends on memory addresses. Use the input order, so that equivalent candidates are always chosen the same.
+        std::sort(orderable_paths.begin(), orderable_paths.end());
 
         OrderablePath* best_candidate = findBestPath(start_position, orderable_paths);
         return best_candidate->vertices_;
-- 
2.43.0


From 535ad02da278283c1b40683981233ccd0b5db3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 10/58] fix: don't put a line twice in a closed string of lines

---
 src/PathOrderMonotonic.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PathOrderMonotonic.cpp b/src/PathOrderMonotonic.cpp
index 64ac702..fa04f62 100644
--- a/src/PathOrderMonotonic.cpp
+++ b/src/PathOrderMonotonic.cpp
@@ -128,14 +128,6 @@ std::deque<typename PathOrderMonotonic<PathType>::Path*> PathOrderMonotonic<Path
         {
             return canConnectToPolyline(first_endpoint, found_path);
         });
-    std::vector<SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*>> lines_after = line_bucket_grid.getNearby(last_endpoint, coincident_point_distance_);
-    auto close_line_after = std::find_if(
-        lines_after.begin(),
-        lines_after.end(),
-        [last_endpoint](SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
-        {
-            return canConnectToPolyline(last_endpoint, found_path);
-        });
 
     while (close_line_before != lines_before.end())
     {
@@ -154,6 +146,16 @@ std::deque<typename PathOrderMonotonic<PathType>::Path*> PathOrderMonotonic<Path
                 return canConnectToPolyline(first_endpoint, found_path);
             });
     }
+
+    // Only look for lines after this one now, since the lines that are in the string before it may not be used again.
+    std::vector<SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*>> lines_after = line_bucket_grid.getNearby(last_endpoint, coincident_point_distance_);
+    auto close_line_after = std::find_if(
+        lines_after.begin(),
+        lines_after.end(),
+        [last_endpoint](SparsePointGridInclusiveImpl::SparsePointGridInclusiveElem<Path*> found_path)
+        {
+            return canConnectToPolyline(last_endpoint, found_path);
+        });
     while (close_line_after != lines_after.end())
     {
         Path* last = close_line_after->val;
-- 
2.43.0


From 858d24a745bf8a609d252a72c72320607781ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:41 +0000
Subject: [PATCH 11/58] fix: don't print a line twice that is connected from a
 string and from a loose line

---
 src/PathOrderMonotonic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PathOrderMonotonic.cpp b/src/PathOrderMonotonic.cpp
index fa04f62..96d575b 100644
--- a/src/PathOrderMonotonic.cpp
+++ b/src/PathOrderMonotonic.cpp
@@ -303,7 +303,10 @@ std::vector<typename PathOrderMonotonic<PathType>::Path> PathOrderMonotonic<Path
             for (size_t i = 0; i < polystring.size() - 1; ++i) // Iterate over every pair of adjacent polylines in the string (so skip the last one)!
             {
                 connections[polystring[i]] = polystring[i + 1];
-                connected_lines.insert(polystring[i + 1]);
+                if (! connected_lines.insert(polystring[i + 1]).second) // This line was already connected to by a line that's not part of the string.
+                {
+                    starting_lines.insert(polystring[i + 1]); // Multiple lines connect to it, so we must be able to start there.
+                }
 
                 // Even though we chain polylines, we still want to find lines that they overlap with.
                 // The strings of polylines may still have weird shapes which interweave with other strings of polylines or loose lines.
-- 
2.43.0


From 75fba6f830e4e13ee3bff1363e83963aeaf4ec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 12/58] fix: a widened thin wall leaves nothing over

---
 src/BeadingStrategy/WideningBeadingStrategy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BeadingStrategy/WideningBeadingStrategy.cpp b/src/BeadingStrategy/WideningBeadingStrategy.cpp
index fbabea5..5e26c46 100644
--- a/src/BeadingStrategy/WideningBeadingStrategy.cpp
+++ b/src/BeadingStrategy/WideningBeadingStrategy.cpp
@@ -29,6 +29,7 @@ WideningBeadingStrategy::Beading WideningBeadingStrategy::compute(coord_t thickn
         {
             ret.bead_widths.emplace_back(std::max(thickness, min_output_width_));
             ret.toolpath_locations.emplace_back(thickness / 2);
+            ret.left_over = 0;
         }
         else
         {
-- 
2.43.0


From 9e8ddb0a770ea2e6bf14b0577c2179cfbc70aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 13/58] fix: print thin features that are wider than an inner
 but not an outer wall

---
 src/BeadingStrategy/WideningBeadingStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BeadingStrategy/WideningBeadingStrategy.cpp b/src/BeadingStrategy/WideningBeadingStrategy.cpp
index 5e26c46..b91a505 100644
--- a/src/BeadingStrategy/WideningBeadingStrategy.cpp
+++ b/src/BeadingStrategy/WideningBeadingStrategy.cpp
@@ -21,7 +21,7 @@ std::string WideningBeadingStrategy::toString() const
 
 WideningBeadingStrategy::Beading WideningBeadingStrategy::compute(coord_t thickness, coord_t bead_count) const
 {
-    if (thickness < optimal_width_)
+    if (thickness < parent_->getOptimalThickness(1)) // Narrower than a single (outer) wall.
     {
         Beading ret;
         ret.total_thickness = thickness;
-- 
2.43.0


From c5e6c21c95588e7634111c39924ababe824a4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 14/58] fix: limit a setting to an extruder only once

---
 src/settings/Settings.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index 0ddf81b..970a699 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -880,7 +880,15 @@ bool Settings::has(const std::string& key, const bool parent_lookup) const
     const std::unordered_map<std::string, ExtruderTrain*>& limit_to_extruder = Application::getInstance().current_slice_->scene.limit_to_extruder;
     if (limit_to_extruder.find(key) != limit_to_extruder.end())
     {
-        return limit_to_extruder.at(key)->settings_.has(key, parent_lookup);
+        // Only limit once, as the get() would.
+        for (const Settings* container = &limit_to_extruder.at(key)->settings_; container; container = container->parent)
+        {
+            if (container->settings.contains(key))
+            {
+                return true;
+            }
+        }
+        return false;
     }
 
     if (parent)
@@ -904,7 +912,7 @@ std::string Settings::getWithoutLimiting(const std::string& key) const
     }
     else if (parent)
     {
-        return parent->get<std::string>(key);
+        return parent->getWithoutLimiting(key);
     }
     else
     {
-- 
2.43.0


From 52293f8f21b118ea1f35dab0c3b2d9e706df4592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 15/58] fix: read numbers with an exponent in lists

---
 src/settings/Settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index 970a699..e29fd3d 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -801,7 +801,7 @@ std::vector<double> Settings::get<std::vector<double>>(const std::string& key) c
     if (std::regex_search(value_string, list_contents_match, list_contents_regex) && list_contents_match.size() > 1)
     {
         std::string elements = list_contents_match.str(1);
-        std::regex element_regex(R"(\s*([+-]?[0-9]*\.?[0-9]+)\s*,?)");
+        std::regex element_regex(R"(\s*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)\s*,?)");
         std::regex_token_iterator<std::string::iterator> rend; // Default constructor gets the end-of-sequence iterator.
 
         std::regex_token_iterator<std::string::iterator> match_iter(elements.begin(), elements.end(), element_regex, 0);
-- 
2.43.0


From 0583318b87ce20d0327ecc66713b9f6824ecaa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 16/58] fix: list settings completely and escaped

---
 src/settings/Settings.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index e29fd3d..85edb61 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -862,9 +862,7 @@ const std::string Settings::getAllSettingsString() const
     std::stringstream sstream;
     for (const std::pair<std::string, std::string> pair : settings)
     {
-        char buffer[4096];
-        snprintf(buffer, 4096, " -s %s=\"%s\"", pair.first.c_str(), Escaped{ pair.second.c_str() }.str);
-        sstream << buffer;
+        sstream << " -s " << pair.first << "=\"" << Escaped{ pair.second.c_str() } << "\"";
     }
     return sstream.str();
 }
-- 
2.43.0


From 71f42363bc612ce6934ffd6b1a3b366fd6eb50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 17/58] fix: a condition that is not a boolean counts as true
 in start/end g-code

---
 src/gcode_export/GcodeTemplateResolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gcode_export/GcodeTemplateResolver.cpp b/src/gcode_export/GcodeTemplateResolver.cpp
index 2e0ebe9..ff63ffe 100644
--- a/src/gcode_export/GcodeTemplateResolver.cpp
+++ b/src/gcode_export/GcodeTemplateResolver.cpp
@@ -222,6 +222,7 @@ bool GcodeTemplateResolver::processExpression(
         else
         {
             spdlog::warn("Condition [{}] does not evaluate to boolean, considering true", match_expression.str());
+            condition_state = GcodeConditionState::ConditionTrue;
         }
 
         return true;
-- 
2.43.0


From e0062e4ff092baf00bc2cd8d14dac6dc5001c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 18/58] fix: write a length of zero as 0

---
 include/utils/string.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/utils/string.h b/include/utils/string.h
index c26b55c..5ea1fc9 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -66,6 +66,11 @@ static inline int stringcasecompare(const char* a, const char* b)
  */
 static inline void writeInt2mm(const int32_t coord, std::ostream& ss)
 {
+    if (coord == 0)
+    { // there is no non-zero digit to stop the search for trailing zeros
+        ss << '0';
+        return;
+    }
     constexpr size_t buffer_size = 24;
     char buffer[buffer_size];
     int char_count
-- 
2.43.0


From d8fdf8cb5e9c66377d5acf81a9fa6b613e054de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 19/58] fix: a number that rounds up to the last digit isn't
 written as zero

---
 include/utils/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/string.h b/include/utils/string.h
index 5ea1fc9..a12484c 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -205,7 +205,7 @@ struct PrecisionedDouble
 
     bool wouldWriteZero() const
     {
-        return (std::abs(value) * std::pow(10.0, precision)) < 1.0;
+        return (std::abs(value) * std::pow(10.0, precision)) < 0.5;
     }
 
     friend inline std::ostream& operator<<(std::ostream& out, const PrecisionedDouble precision_and_input)
-- 
2.43.0


From 2c58cf713ab705bf8c79943ace7e7b229d3b951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 20/58] fix: bridge between outlines only over the allowed gap

---
 include/utils/PolygonConnector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/PolygonConnector.h b/include/utils/PolygonConnector.h
index 38a3c1f..0c8615e 100644
--- a/include/utils/PolygonConnector.h
+++ b/include/utils/PolygonConnector.h
@@ -446,7 +446,7 @@ protected:
 
                     // Try a naive distance first. Faster to compute, but it may estimate the distance too small.
                     coord_t naive_dist = LinearAlg2D::getDistFromLine(from_pos1, to_pos1, to_pos2);
-                    if (naive_dist - from_width1 - smallest_to_width < line_width_ * max_gap_)
+                    if (naive_dist - from_width1 / 2 - smallest_to_width / 2 < line_width_ * max_gap_)
                     {
                         const Point2LL closest_point = LinearAlg2D::getClosestOnLineSegment(from_pos1, to_pos1, to_pos2);
                         if (closest_point == to_pos2) // The last endpoint of a vertex is considered to be part of the next segment. Let that one handle it.
@@ -455,7 +455,7 @@ protected:
                         }
                         const coord_t width_at_closest
                             = interpolateWidth(closest_point, to_polygons[poly_index][to_index], to_polygons[poly_index][(to_index + 1) % to_polygons[poly_index].size()]);
-                        const coord_t distance = vSize(closest_point - from_pos1) - from_width1 - width_at_closest; // Actual, accurate distance to the other polygon.
+                        const coord_t distance = vSize(closest_point - from_pos1) - from_width1 / 2 - width_at_closest / 2; // Actual, accurate distance to the other polygon.
                         if (distance < best_distance)
                         {
                             PolygonConnection<Polygonal> first_connection
@@ -472,7 +472,7 @@ protected:
 
                     // Also try the other way around: From the line segment of the from_poly to a vertex in the to_polygons.
                     naive_dist = LinearAlg2D::getDistFromLine(to_pos1, from_pos1, from_pos2);
-                    if (naive_dist - smallest_from_width - to_width1 < line_width_ * max_gap_)
+                    if (naive_dist - smallest_from_width / 2 - to_width1 / 2 < line_width_ * max_gap_)
                     {
                         const Point2LL closest_point = LinearAlg2D::getClosestOnLineSegment(to_pos1, from_pos1, from_pos2);
                         if (closest_point == from_pos2) // The last endpoint of a vertex is considered to be part of the next segment. Let that one handle it.
@@ -480,7 +480,7 @@ protected:
                             continue;
                         }
                         const coord_t width_at_closest = interpolateWidth(closest_point, from_poly[from_index], from_poly[(from_index + 1) % from_poly.size()]);
-                        const coord_t distance = vSize(closest_point - to_pos1) - width_at_closest - to_width1; // Actual, accurate distance.
+                        const coord_t distance = vSize(closest_point - to_pos1) - width_at_closest / 2 - to_width1 / 2; // Actual, accurate distance.
                         if (distance < best_distance)
                         {
                             PolygonConnection<Polygonal> first_connection
-- 
2.43.0


From 3298a540816c43f314175c18078647201f77ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 21/58] fix: look for the second half of a bridge from the
 first half on

---
 include/utils/PolygonConnector.h | 53 +++++++++++++++-----------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/include/utils/PolygonConnector.h b/include/utils/PolygonConnector.h
index 0c8615e..cad452e 100644
--- a/include/utils/PolygonConnector.h
+++ b/include/utils/PolygonConnector.h
@@ -546,8 +546,10 @@ protected:
      * The resulting point does not have to be exactly on a vertex. Most likely
      * it will be on a line segment.
      * \param poly The polygonal shape along which to walk.
-     * \param start_index The vertex at which to start looking. This vertex
-     * should be on the wrong side of the line.
+     * \param start_index The index of the line segment at which to start
+     * looking.
+     * \param start_point The location on that line segment from which to start
+     * walking. This should be on the line.
      * \param distance The distance from the line at which the resulting point
      * should be.
      * \param line_a The line passes through this point.
@@ -560,8 +562,14 @@ protected:
      * ``std::nullopt``.
      */
     template<typename Polygonal>
-    std::optional<std::pair<Point2LL, size_t>>
-        walkUntilDistanceFromLine(const Polygonal& poly, const size_t start_index, const coord_t distance, const Point2LL& line_a, const Point2LL& line_b, const short direction)
+    std::optional<std::pair<Point2LL, size_t>> walkUntilDistanceFromLine(
+        const Polygonal& poly,
+        const size_t start_index,
+        const Point2LL& start_point,
+        const coord_t distance,
+        const Point2LL& line_a,
+        const Point2LL& line_b,
+        const short direction)
     {
         const size_t poly_size = poly.size();
         const coord_t line_magnitude = vSize(line_b - line_a); // Pre-compute, used for line distance calculation.
@@ -570,38 +578,27 @@ protected:
             return std::nullopt; // Line doesn't have a direction, so we can't be on any one side of it.
         }
 
-        for (size_t index = (start_index + direction + poly_size) % poly_size; index != start_index; index = (index + direction + poly_size) % poly_size)
+        Point2LL previous_pos = start_point;
+        size_t index = (direction == +1) ? (start_index + 1) % poly_size : start_index; // The first vertex that we encounter from the starting point.
+        for (size_t i = 0; i < poly_size; ++i)
         {
             const Point2LL vertex_pos = getPosition(poly[index]);
             const coord_t vertex_distance = cross(line_a - line_b, line_a - vertex_pos) / line_magnitude; // Signed distance!
             if (std::abs(vertex_distance) >= distance) // Further away from the line than the threshold.
             {
                 // Interpolate over that last line segment to find the point at exactly the right distance.
-                const size_t previous_index = (index - direction + poly_size) % poly_size;
-                const Point2LL previous_pos = getPosition(poly[previous_index]);
                 const coord_t previous_distance = cross(line_a - line_b, line_a - previous_pos) / line_magnitude;
+                const coord_t signed_distance = (vertex_distance > 0) ? distance : -distance;
                 if (previous_distance == vertex_distance) // 0-length line segment, or parallel to line.
                 {
-                    continue;
-                }
-                const double interpolation_pos = double(distance - previous_distance) / (vertex_distance - previous_distance);
-                const double interpolation_neg = double(-distance - previous_distance) / (vertex_distance - previous_distance);
-                double interpolation;
-                if (interpolation_pos >= 0 && interpolation_pos < 1)
-                {
-                    interpolation = interpolation_pos;
-                }
-                else if (interpolation_neg >= 0 && interpolation_neg < 1)
-                {
-                    interpolation = interpolation_neg;
-                }
-                else
-                {
-                    continue;
+                    return std::make_pair(vertex_pos, (direction == +1) ? (index + poly_size - 1) % poly_size : index);
                 }
+                const double interpolation = std::clamp(double(signed_distance - previous_distance) / (vertex_distance - previous_distance), 0.0, 1.0);
                 const Point2LL interpolated_point = previous_pos + (vertex_pos - previous_pos) * interpolation;
-                return std::make_pair(interpolated_point, (direction == +1) ? previous_index : index); // Choose the "earlier" index of the two, regardless of direction.
+                return std::make_pair(interpolated_point, (direction == +1) ? (index + poly_size - 1) % poly_size : index); // Choose the "earlier" index of the two, regardless of direction.
             }
+            previous_pos = vertex_pos;
+            index = (index + direction + poly_size) % poly_size;
         }
         return std::nullopt; // None of the vertices were far enough away from the line.
     }
@@ -625,13 +622,13 @@ protected:
 
         // Find the four intersections, on both sides of the initial connection, and on both polygons.
         std::optional<std::pair<Point2LL, size_t>> from_forward_intersection
-            = walkUntilDistanceFromLine(*first.from_poly_, first.from_segment_, adjacent_distance, first.from_point_, first.to_point_, +1);
+            = walkUntilDistanceFromLine(*first.from_poly_, first.from_segment_, first.from_point_, adjacent_distance, first.from_point_, first.to_point_, +1);
         std::optional<std::pair<Point2LL, size_t>> from_backward_intersection
-            = walkUntilDistanceFromLine(*first.from_poly_, first.from_segment_, adjacent_distance, first.from_point_, first.to_point_, -1);
+            = walkUntilDistanceFromLine(*first.from_poly_, first.from_segment_, first.from_point_, adjacent_distance, first.from_point_, first.to_point_, -1);
         std::optional<std::pair<Point2LL, size_t>> to_forward_intersection
-            = walkUntilDistanceFromLine(*first.to_poly_, first.to_segment_, adjacent_distance, first.from_point_, first.to_point_, +1);
+            = walkUntilDistanceFromLine(*first.to_poly_, first.to_segment_, first.to_point_, adjacent_distance, first.from_point_, first.to_point_, +1);
         std::optional<std::pair<Point2LL, size_t>> to_backward_intersection
-            = walkUntilDistanceFromLine(*first.to_poly_, first.to_segment_, adjacent_distance, first.from_point_, first.to_point_, -1);
+            = walkUntilDistanceFromLine(*first.to_poly_, first.to_segment_, first.to_point_, adjacent_distance, first.from_point_, first.to_point_, -1);
 
         for (const std::optional<std::pair<Point2LL, size_t>>& from_intersection : { from_forward_intersection, from_backward_intersection })
         {
-- 
2.43.0


From 0f1fc603c72df62ba252b31cd306ff39eb5b5bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 22/58] fix: keep the long way around when connecting outlines

---
 include/utils/PolygonConnector.h | 109 ++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 45 deletions(-)

diff --git a/include/utils/PolygonConnector.h b/include/utils/PolygonConnector.h
index cad452e..a87e694 100644
--- a/include/utils/PolygonConnector.h
+++ b/include/utils/PolygonConnector.h
@@ -662,6 +662,68 @@ protected:
         return result;
     }
 
+    /*!
+     * Add the vertices of a polygonal object that are between two points on it,
+     * going from one to the other the long way around.
+     *
+     * \param result The polygonal object to add the vertices to.
+     * \param poly The polygonal object to take the vertices of.
+     * \param start The point on the polygonal object to start from.
+     * \param start_segment The segment that the start point is on.
+     * \param end The point on the polygonal object to end at.
+     * \param end_segment The segment that the end point is on.
+     */
+    template<typename Polygonal>
+    void addLongWayAround(Polygonal& result, const Polygonal& poly, const Point2LL& start, const size_t start_segment, const Point2LL& end, const size_t end_segment) const
+    {
+        const size_t size = poly.size();
+        coord_t perimeter = 0;
+        coord_t start_position = 0; // Distance along the perimeter, starting from the first vertex.
+        coord_t end_position = 0;
+        for (size_t i = 0; i < size; ++i)
+        {
+            if (i == start_segment)
+            {
+                start_position = perimeter + vSize(start - getPosition(poly[i]));
+            }
+            if (i == end_segment)
+            {
+                end_position = perimeter + vSize(end - getPosition(poly[i]));
+            }
+            perimeter += vSize(getPosition(poly[(i + 1) % size]) - getPosition(poly[i]));
+        }
+
+        bool forwards;
+        if (start_segment == end_segment) // On the same segment, don't take the direct way.
+        {
+            forwards = end_position < start_position;
+        }
+        else
+        {
+            const coord_t forwards_length = (end_position >= start_position) ? end_position - start_position : end_position - start_position + perimeter;
+            forwards = forwards_length * 2 > perimeter;
+        }
+
+        if (forwards)
+        {
+            size_t i = start_segment;
+            do
+            {
+                i = (i + 1) % size;
+                addVertex(result, poly[i]);
+            } while (i != end_segment);
+        }
+        else
+        {
+            size_t i = (start_segment + 1) % size;
+            do
+            {
+                i = (i + size - 1) % size;
+                addVertex(result, poly[i]);
+            } while (i != (end_segment + 1) % size);
+        }
+    }
+
     template<typename Polygonal>
     void connectPolygonsAlongBridge(const PolygonBridge<Polygonal>& bridge, Polygonal& result)
     {
@@ -685,31 +747,7 @@ protected:
         addVertex(ret, bridge.b_.from_point_, b_from_width);
 
         // Add the from-polygonal from B to A.
-        short forwards;
-        if (bridge.a_.from_segment_ == bridge.b_.from_segment_) // If we start and end on the same segment, iterate in the direction from A to B.
-        {
-            const Point2LL vertex = getPosition((*bridge.b_.from_poly_)[bridge.b_.from_segment_]); // Same vertex for A and B.
-            const Point2LL next_vertex = getPosition((*bridge.b_.from_poly_)[(bridge.b_.from_segment_ + 1) % from_size]);
-            const Point2LL direction = next_vertex - vertex; // Direction we'd go into when forward iterating.
-            const Point2LL a_to_b = bridge.b_.from_point_ - bridge.a_.from_point_;
-            forwards = vSize2(direction - a_to_b) < vSize2(-direction - a_to_b);
-        }
-        else
-        {
-            // If not the same segment, traverse in whichever direction is the long way around.
-            forwards
-                = ((bridge.b_.from_segment_ + from_size - bridge.a_.from_segment_) % from_size) < ((bridge.a_.from_segment_ + from_size - bridge.b_.from_segment_) % from_size);
-        }
-        size_t first_segment = forwards ? (bridge.b_.from_segment_ + 1) % from_size : (bridge.b_.from_segment_ + from_size) % from_size;
-        size_t last_segment = forwards ? bridge.a_.from_segment_ : bridge.a_.from_segment_;
-        if (first_segment == last_segment)
-            last_segment = (last_segment + from_size - 2 * forwards + 1) % from_size;
-        size_t i = first_segment;
-        do // Since we might start and end on the same segment, do a do_while loop to iterate at least once.
-        {
-            addVertex(ret, (*bridge.b_.from_poly_)[i]);
-            i = (i + 2 * forwards - 1 + from_size) % from_size;
-        } while (i != (last_segment + from_size + 2 * forwards - 1) % from_size);
+        addLongWayAround(ret, *bridge.b_.from_poly_, bridge.b_.from_point_, bridge.b_.from_segment_, bridge.a_.from_point_, bridge.a_.from_segment_);
 
         // Add the from-endpoint of A.
         const coord_t a_from_width
@@ -723,26 +761,7 @@ protected:
         addVertex(ret, bridge.a_.to_point_, a_to_width);
 
         // Add the to_polygonal from A to B.
-        if (bridge.a_.to_segment_ == bridge.b_.to_segment_)
-        {
-            const Point2LL vertex = getPosition((*bridge.b_.to_poly_)[bridge.b_.to_segment_]); // Same vertex for A and B.
-            const Point2LL next_vertex = getPosition((*bridge.b_.to_poly_)[(bridge.b_.to_segment_ + 1) % to_size]);
-            const Point2LL direction = next_vertex - vertex;
-            const Point2LL a_to_b = bridge.b_.to_point_ - bridge.a_.to_point_;
-            forwards = vSize2(direction - a_to_b) > vSize2(-direction - a_to_b);
-        }
-        else
-        {
-            forwards = ((bridge.a_.to_segment_ + to_size - bridge.b_.to_segment_) % to_size) < ((bridge.b_.to_segment_ + to_size - bridge.a_.to_segment_) % to_size);
-        }
-        first_segment = forwards ? (bridge.a_.to_segment_ + 1) % to_size : bridge.a_.to_segment_;
-        size_t end_segment = forwards ? (bridge.b_.to_segment_ + 1) % to_size : bridge.b_.to_segment_;
-        i = first_segment;
-        do
-        {
-            addVertex(ret, (*bridge.b_.to_poly_)[i]);
-            i = (i + 2 * forwards - 1 + to_size) % to_size;
-        } while (i != end_segment);
+        addLongWayAround(ret, *bridge.a_.to_poly_, bridge.a_.to_point_, bridge.a_.to_segment_, bridge.b_.to_point_, bridge.b_.to_segment_);
 
         // Add the to-endpoint of B.
         const coord_t b_to_width
-- 
2.43.0


From 5d272b12c8441894e4078b5a721fd511c43781ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 23/58] fix: add the overlap between meshes regardless of their
 fill type

---
 src/multiVolumes.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multiVolumes.cpp b/src/multiVolumes.cpp
index 3fcb46e..a9325af 100644
--- a/src/multiVolumes.cpp
+++ b/src/multiVolumes.cpp
@@ -98,11 +98,13 @@ void generateMultipleVolumesOverlap(std::vector<Slicer*>& volumes)
                     continue;
                 }
                 SlicerLayer& other_volume_layer = other_volume->layers[layer_nr];
-                all_other_volumes = all_other_volumes.unionPolygons(other_volume_layer.polygons_.offset(offset_to_merge_other_merged_volumes), fill_type);
+                all_other_volumes = all_other_volumes.unionPolygons(other_volume_layer.polygons_.offset(offset_to_merge_other_merged_volumes));
             }
 
             SlicerLayer& volume_layer = volume->layers[layer_nr];
-            volume_layer.polygons_ = volume_layer.polygons_.unionPolygons(all_other_volumes.intersection(volume_layer.polygons_.offset(overlap / 2)), fill_type);
+            // The fill type is about the mesh's own overlapping volumes, not about the area it shares with other meshes.
+            const Shape overlap_area = all_other_volumes.intersection(volume_layer.polygons_.offset(overlap / 2));
+            volume_layer.polygons_ = volume_layer.polygons_.unionPolygons(Shape(), fill_type).unionPolygons(overlap_area);
         }
     }
 }
-- 
2.43.0


From 2990fcbe55c47b93a8cf56d232905fa2baacb87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 24/58] fix: keep the lines of a cutting surface once where
 meshes overlap

---
 src/multiVolumes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multiVolumes.cpp b/src/multiVolumes.cpp
index a9325af..13b9334 100644
--- a/src/multiVolumes.cpp
+++ b/src/multiVolumes.cpp
@@ -206,7 +206,7 @@ void MultiVolumes::carveCuttingMeshes(std::vector<Slicer*>& volumes, std::vector
             }
 
             Shape new_outlines;
-            OpenLinesSet new_polylines;
+            Shape polylines_area; // where to keep the polylines; the union, so that places in several meshes don't get them several times
             for (unsigned int carved_mesh_idx = 0; carved_mesh_idx < volumes.size(); carved_mesh_idx++)
             {
                 const Mesh& carved_mesh = meshes[carved_mesh_idx];
@@ -222,7 +222,7 @@ void MultiVolumes::carveCuttingMeshes(std::vector<Slicer*>& volumes, std::vector
                 new_outlines.push_back(intersection);
                 if (cutting_mesh.settings_.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL) // niet te geleuven
                 {
-                    new_polylines.push_back(carved_mesh_layer.intersection(cutting_mesh_polylines));
+                    polylines_area = polylines_area.unionPolygons(carved_mesh_layer);
                 }
 
                 carved_mesh_layer = carved_mesh_layer.difference(*cutting_mesh_area);
@@ -230,6 +230,7 @@ void MultiVolumes::carveCuttingMeshes(std::vector<Slicer*>& volumes, std::vector
             cutting_mesh_polygons = new_outlines.unionPolygons();
             if (cutting_mesh.settings_.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL)
             {
+                const OpenLinesSet new_polylines = polylines_area.intersection(cutting_mesh_polylines);
                 cutting_mesh_polylines.clear();
                 OpenPolylineStitcher::stitch(new_polylines, cutting_mesh_polylines, cutting_mesh_polygons, surface_line_width);
             }
-- 
2.43.0


From e3ec45f366d17e2ff396a3d146d5ba2424d0541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 25/58] fix: keep the bottom distance to the lowest layer too

---
 src/TreeModelVolumes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 920ef52..ea43976 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -668,7 +668,7 @@ void TreeModelVolumes::calculateCollision(const std::deque<RadiusLayerPair>& key
                 for (const auto layer_idx : ranges::views::iota(min_layer_bottom, max_required_layer + 1) | ranges::views::reverse)
                 {
                     key.second = layer_idx;
-                    for (size_t layer_offset = 1; layer_offset <= z_distance_bottom_layers && layer_idx - coord_t(layer_offset) > min_layer_bottom; layer_offset++)
+                    for (size_t layer_offset = 1; layer_offset <= z_distance_bottom_layers && layer_idx - coord_t(layer_offset) >= min_layer_bottom; layer_offset++)
                     {
                         data[key].push_back(data[RadiusLayerPair(radius, layer_idx - layer_offset)]);
                     }
-- 
2.43.0


From 736d84e781feb567cf8173eabb04ea284c24a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 26/58] fix: shrink avoidance areas in steps of the right sign

---
 src/TreeModelVolumes.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index ea43976..3d6bad4 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -911,8 +911,12 @@ void TreeModelVolumes::calculateCollisionAvoidance(const std::deque<RadiusLayerP
 Shape TreeModelVolumes::safeOffset(const Shape& me, coord_t distance, ClipperLib::JoinType jt, coord_t max_safe_step_distance, const Shape& collision) const
 {
     assert(distance * max_safe_step_distance >= 0); // Make sure they are the same sign (or one of them is null)
-    const uint8_t offset_sign = sign(distance);
-    const coord_t step_distance = offset_sign * std::max(min_offset_per_step_, std::abs(max_safe_step_distance));
+    if (distance == 0)
+    {
+        return me.unionPolygons(collision);
+    }
+    const coord_t offset_sign = distance < 0 ? -1 : 1;
+    const coord_t step_distance = offset_sign * std::max({ coord_t(1), min_offset_per_step_, std::abs(max_safe_step_distance) });
     const size_t steps = std::abs(distance / step_distance);
     Shape ret = me;
 
-- 
2.43.0


From 8ab96cf6a6a885dd3f50007c45c41f57945cfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 27/58] fix: guard the collision cache with its own lock

---
 src/TreeModelVolumes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index 3d6bad4..da51740 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -346,7 +346,7 @@ const Shape& TreeModelVolumes::getCollision(coord_t radius, LayerIndex layer_idx
     RadiusLayerPair key{ radius, layer_idx };
 
     {
-        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_avoidance_cache_);
+        std::lock_guard<std::mutex> critical_section_support_max_layer_nr(*critical_collision_cache_);
         result = getArea(collision_cache_, key);
     }
     if (result)
-- 
2.43.0


From 6a10d58bcf2900aabb22bc50fa92dbbfb82499ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 28/58] fix: always accumulate where branches may rest from the
 first layer up

---
 src/TreeModelVolumes.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/TreeModelVolumes.cpp b/src/TreeModelVolumes.cpp
index da51740..3029c9a 100644
--- a/src/TreeModelVolumes.cpp
+++ b/src/TreeModelVolumes.cpp
@@ -803,8 +803,6 @@ void TreeModelVolumes::calculateCollisionHolefree(const std::deque<RadiusLayerPa
 
 void TreeModelVolumes::calculateAccumulatedPlaceable0(const LayerIndex max_layer)
 {
-    LayerIndex start_layer = -1;
-
     if (max_layer <= 0)
     {
         // the placeable on model areas do not exist on layer 0, as there can not be model below it. As such it may be possible that layer 1 is available, but layer 0 does not
@@ -816,21 +814,16 @@ void TreeModelVolumes::calculateAccumulatedPlaceable0(const LayerIndex max_layer
 
     {
         std::lock_guard<std::mutex> critical_section(*critical_accumulated_placeables_cache_radius_0_);
-        while (accumulated_placeables_cache_radius_0_.contains(start_layer + 1))
+        if (accumulated_placeables_cache_radius_0_.contains(max_layer))
         {
-            ++start_layer;
+            spdlog::warn("Requested calculation for value already calculated ?");
+            return;
         }
-        start_layer = std::max(LayerIndex{ start_layer + 1 }, LayerIndex{ 1 });
-    }
-    if (start_layer > max_layer)
-    {
-        spdlog::warn("Requested calculation for value already calculated ?");
-        return;
     }
-    Shape accumulated_placeable_0
-        = start_layer == 1 ? machine_area_ : getAccumulatedPlaceable0(start_layer - 1).offset(FUDGE_LENGTH + (current_min_xy_dist_ + current_min_xy_dist_delta_));
-    // ^^^ The calculation here is done on the areas that are increased by xy_distance, but the result is saved without xy_distance,
-    // so here it "restores" the previous state to continue calculating from about where it ended.
+    // Always accumulate from the first layer up: The areas are saved without xy_distance, so what was saved before is not exactly what has to be continued from.
+    const LayerIndex start_layer{ 1 };
+    Shape accumulated_placeable_0 = machine_area_;
+    // The calculation here is done on the areas that are increased by xy_distance, but the result is saved without xy_distance.
     // It would be better to ensure placeable areas of radius 0 do not include the xy distance, and removing the code compensating for it here and in calculatePlaceables.
     std::vector<std::pair<LayerIndex, Shape>> data(max_layer + 1, std::pair<LayerIndex, Shape>(-1, Shape()));
 
-- 
2.43.0


From 0037bcf3fff77112248356623e9d8ce60b706e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 29/58] fix: count the width of a line in its flow when
 limiting flow changes

---
 include/gradual_flow/FlowLimitedPath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gradual_flow/FlowLimitedPath.h b/include/gradual_flow/FlowLimitedPath.h
index 49b2489..ffb3cf8 100644
--- a/include/gradual_flow/FlowLimitedPath.h
+++ b/include/gradual_flow/FlowLimitedPath.h
@@ -67,8 +67,8 @@ struct FlowLimitedPath
      */
     double extrusionVolumePerMm() const // um^3/um
     {
-        return original_gcode_path_data->flow * original_gcode_path_data->config.line_width * original_gcode_path_data->config.layer_thickness
-             * original_gcode_path_data->config.getFlowRatio();
+        return original_gcode_path_data->flow * original_gcode_path_data->width_factor * original_gcode_path_data->config.line_width
+             * original_gcode_path_data->config.layer_thickness * original_gcode_path_data->config.getFlowRatio();
     }
 
     /*
-- 
2.43.0


From 431e72d904899fc07c6e5a175a04375d9c660744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 30/58] fix: count back pressure compensation in the flow when
 limiting flow changes

---
 include/gradual_flow/FlowLimitedPath.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/gradual_flow/FlowLimitedPath.h b/include/gradual_flow/FlowLimitedPath.h
index ffb3cf8..e7b2d75 100644
--- a/include/gradual_flow/FlowLimitedPath.h
+++ b/include/gradual_flow/FlowLimitedPath.h
@@ -37,7 +37,17 @@ struct FlowLimitedPath
 
     double targetSpeed() const // um/s
     {
-        return original_gcode_path_data->config.speed_derivatives.speed * original_gcode_path_data->speed_factor * 1e3;
+        return original_gcode_path_data->config.speed_derivatives.speed * speedFactor() * 1e3;
+    }
+
+    /*
+     * Returns the factor between the configured speed and the actual speed of the path.
+     */
+    double speedFactor() const
+    {
+        // Back pressure compensation is applied to extruding paths only
+        const double back_pressure_factor = original_gcode_path_data->isTravelPath() ? 1.0 : double(original_gcode_path_data->speed_back_pressure_factor);
+        return original_gcode_path_data->speed_factor * back_pressure_factor;
     }
 
     /*
@@ -292,7 +302,7 @@ struct FlowLimitedPath
             output_path.points.push_back(point);
         }
 
-        output_path.config.speed_derivatives.speed = (speed / 1e3) / output_path.speed_factor;
+        output_path.config.speed_derivatives.speed = (speed / 1e3) / speedFactor();
 
         return output_path;
     }
-- 
2.43.0


From cc950e8b5827132a0d95ea7309d49fef2790a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 31/58] fix: don't run past the end of a path when cutting it

---
 include/gradual_flow/FlowLimitedPath.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gradual_flow/FlowLimitedPath.h b/include/gradual_flow/FlowLimitedPath.h
index e7b2d75..5fd0055 100644
--- a/include/gradual_flow/FlowLimitedPath.h
+++ b/include/gradual_flow/FlowLimitedPath.h
@@ -4,6 +4,7 @@
 #ifndef GRADUAL_FLOW_GCODE_PATH_H
 #define GRADUAL_FLOW_GCODE_PATH_H
 
+#include <algorithm>
 #include <optional>
 #include <vector>
 
@@ -201,7 +202,10 @@ struct FlowLimitedPath
             const auto segment_length = std::hypot(next_point.x_ - prev_point.x_, next_point.y_ - prev_point.y_);
             const auto segment_duration = segment_length / partition_speed;
 
-            if (current_partition_duration + segment_duration < partition_duration)
+            // Durations are summed up with rounding errors, so make sure to never run past the last segment
+            const bool is_last_segment = partition_index + iteration_direction == (direction == utils::Direction::Forward ? points.size() - 1 : 0);
+
+            if (! is_last_segment && current_partition_duration + segment_duration < partition_duration)
             {
                 prev_point = next_point;
                 current_partition_duration += segment_duration;
@@ -210,8 +214,7 @@ struct FlowLimitedPath
             else
             {
                 const auto duration_left = partition_duration - current_partition_duration;
-                auto segment_ratio = duration_left / segment_duration;
-                assert(segment_ratio >= -1e-6 && segment_ratio <= 1. + 1e-6);
+                const auto segment_ratio = segment_duration > 0. ? std::clamp(duration_left / segment_duration, 0., 1.) : 1.;
                 const auto partition_x = prev_point.x_ + static_cast<long long>(static_cast<double>(next_point.x_ - prev_point.x_) * segment_ratio);
                 const auto partition_y = prev_point.y_ + static_cast<long long>(static_cast<double>(next_point.y_ - prev_point.y_) * segment_ratio);
                 const auto partition_z = prev_point.z_ + static_cast<long long>(static_cast<double>(next_point.z_ - prev_point.z_) * segment_ratio);
-- 
2.43.0


From 872f45514b0f8b5e4ec2f35864b0acb702d4e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 32/58] fix: hold a flow for what is left of its step

---
 include/gradual_flow/FlowLimitedPath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gradual_flow/FlowLimitedPath.h b/include/gradual_flow/FlowLimitedPath.h
index 5fd0055..1c5fd4f 100644
--- a/include/gradual_flow/FlowLimitedPath.h
+++ b/include/gradual_flow/FlowLimitedPath.h
@@ -403,7 +403,7 @@ struct GCodeState
             const auto discretized_segment_speed = current_flow / extrusion_volume_per_mm; // um^3/s / um^3/um = um/s
             const auto [partitioned_gcode_path, new_remaining_path, remaining_partition_duration]
                 = path.partition(discretized_duration_remaining, discretized_segment_speed, direction);
-            discretized_duration_remaining = std::max(.0, discretized_duration_remaining - remaining_partition_duration);
+            discretized_duration_remaining = remaining_partition_duration;
             if (new_remaining_path.has_value())
             {
                 remaining_path = new_remaining_path.value();
-- 
2.43.0


From 498a12816474a94460ccdb4d43213ba01edeb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 33/58] fix: a flow reached within a step holds for the rest of
 it too

---
 include/gradual_flow/FlowLimitedPath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gradual_flow/FlowLimitedPath.h b/include/gradual_flow/FlowLimitedPath.h
index 1c5fd4f..e4f9161 100644
--- a/include/gradual_flow/FlowLimitedPath.h
+++ b/include/gradual_flow/FlowLimitedPath.h
@@ -429,7 +429,7 @@ struct GCodeState
             if (current_flow == target_flow)
             {
                 remaining_path.speed = segment_speed;
-                discretized_duration_remaining = std::max(discretized_duration_remaining - remaining_path.totalDuration(), .0);
+                discretized_duration_remaining = std::max(discretized_duration - remaining_path.totalDuration(), .0);
                 flow_state = discretized_duration_remaining > 0. ? FlowState::TRANSITION : FlowState::STABLE;
                 discretized_paths.emplace_back(remaining_path);
                 return discretized_paths;
-- 
2.43.0


From c0f9446fdee64eeafe42a3856575d8132cfdd8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 34/58] fix: look for the bottommost surface on the layer below

---
 src/skin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 2cdc020..913629b 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -507,7 +507,7 @@ void SkinInfillAreaComputation::generateTopAndBottomMostSurfaces(SliceLayerPart&
 
     if (layer_nr_ > 0)
     {
-        const Shape outline_below = getOutlineOnLayer(part, layer_nr_ + 1);
+        const Shape outline_below = getOutlineOnLayer(part, layer_nr_ - 1);
         part.bottom_most_surface = part.outline.difference(outline_below);
     }
     else
-- 
2.43.0


From 5bb56cd3b6d24ff0be2145c30a0cd67f8fa27791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 35/58] fix: print thin parts with air both above and below as
 flooring

---
 src/skin.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 913629b..96fefa7 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -476,8 +476,8 @@ void SkinInfillAreaComputation::generateSkinRoofingFlooringFill(SliceLayerPart&
 
         if (has_flooring)
         {
-            const Shape above_inside = skin_part.outline.intersection(filled_area_above);
-            skin_part.flooring_fill = above_inside.difference(filled_area_below);
+            // The roofing stays away from anything that has air below it, so all of that must be flooring
+            skin_part.flooring_fill = skin_part.outline.difference(filled_area_below);
         }
 
         skin_part.skin_fill = skin_part.outline.difference(skin_part.roofing_fill).intersection(filled_area_below);
-- 
2.43.0


From dcbd31d765003facb9bf1039226e32ffa7631375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 36/58] fix: cut lines without losing or mixing up their points

---
 src/geometry/ClosedLinesSet.cpp | 32 ++----------------------
 src/geometry/MixedLinesSet.cpp  | 43 ++++++++++++++++++++++++---------
 src/geometry/OpenLinesSet.cpp   | 17 ++++++-------
 3 files changed, 40 insertions(+), 52 deletions(-)

diff --git a/src/geometry/ClosedLinesSet.cpp b/src/geometry/ClosedLinesSet.cpp
index 5c0c544..2d8fd7f 100644
--- a/src/geometry/ClosedLinesSet.cpp
+++ b/src/geometry/ClosedLinesSet.cpp
@@ -12,40 +12,12 @@ namespace cura
 
 MixedLinesSet ClosedLinesSet::intersection(const Shape& shape) const
 {
-    if (empty() || shape.empty())
-    {
-        return {};
-    }
-
-    ClipperLib::PolyTree result;
-    ClipperLib::Clipper clipper(clipper_init);
-    shape.addPaths(clipper, ClipperLib::ptSubject);
-    addPaths(clipper, ClipperLib::ptClip);
-    clipper.Execute(ClipperLib::ctIntersection, result);
-    ClipperLib::Paths result_paths;
-    ClipperLib::OpenPathsFromPolyTree(result, result_paths);
-
-    return MixedLinesSet(std::move(result));
+    return MixedLinesSet(*this).intersection(shape);
 }
 
 [[nodiscard]] MixedLinesSet ClosedLinesSet::difference(const Shape& shape) const
 {
-    if (empty())
-    {
-        return {};
-    }
-    if (shape.empty())
-    {
-        return MixedLinesSet(*this);
-    }
-
-    ClipperLib::PolyTree ret;
-    ClipperLib::Clipper clipper(clipper_init);
-    addPaths(clipper, ClipperLib::ptSubject);
-    shape.addPaths(clipper, ClipperLib::ptClip);
-    clipper.Execute(ClipperLib::ctDifference, ret);
-
-    return MixedLinesSet(std::move(ret));
+    return MixedLinesSet(*this).difference(shape);
 }
 
 } // namespace cura
diff --git a/src/geometry/MixedLinesSet.cpp b/src/geometry/MixedLinesSet.cpp
index 2a68eb9..cd71493 100644
--- a/src/geometry/MixedLinesSet.cpp
+++ b/src/geometry/MixedLinesSet.cpp
@@ -9,6 +9,8 @@
 #include "geometry/OpenLinesSet.h"
 #include "geometry/Polygon.h"
 #include "geometry/Shape.h"
+#include "utils/AABB.h"
+#include "utils/MixedPolylineStitcher.h"
 
 
 namespace cura
@@ -123,15 +125,28 @@ MixedLinesSet MixedLinesSet::intersection(const Shape& shape) const
         return {};
     }
 
-    ClipperLib::PolyTree ret;
-    ClipperLib::Clipper clipper(clipper_init);
+    Shape polygons;
+    OpenLinesSet segments;
     for (const PolylinePtr& line : (*this))
     {
-        line->addPath(clipper, ClipperLib::ptSubject);
+        if (const std::shared_ptr<const Polygon> polygon = dynamic_pointer_cast<const Polygon>(line))
+        {
+            polygons.push_back(*polygon);
+        }
+        else
+        {
+            // Cut polylines segment by segment and stitch them again, since Clipper mixes up the points of some polylines with horizontal segments.
+            line->splitIntoSegments(segments);
+        }
     }
-    shape.addPaths(clipper, ClipperLib::ptClip);
-    clipper.Execute(ClipperLib::ctIntersection, ret);
-    return MixedLinesSet(std::move(ret));
+    constexpr bool restitch = false;
+    constexpr coord_t max_stitch_distance = 10;
+    constexpr bool split_into_segments = false; // Already done
+
+    MixedLinesSet result;
+    result.push_back(polygons.intersection(shape));
+    MixedPolylineStitcher::stitch(shape.intersection(segments, restitch, max_stitch_distance, split_into_segments), result, max_stitch_distance);
+    return result;
 }
 
 MixedLinesSet MixedLinesSet::difference(const Shape& shape) const
@@ -145,15 +160,19 @@ MixedLinesSet MixedLinesSet::difference(const Shape& shape) const
         return *this;
     }
 
-    ClipperLib::PolyTree ret;
-    ClipperLib::Clipper clipper(clipper_init);
+    // Everything around the shape. Clipper loses some horizontal lines when subtracting from them.
+    AABB box;
     for (const PolylinePtr& line : (*this))
     {
-        line->addPath(clipper, ClipperLib::ptSubject);
+        for (const Point2LL& point : *line)
+        {
+            box.include(point);
+        }
     }
-    shape.addPaths(clipper, ClipperLib::ptClip);
-    clipper.Execute(ClipperLib::ctDifference, ret);
-    return MixedLinesSet(std::move(ret));
+    box.expand(MM2INT(1));
+    Shape outside;
+    outside.push_back(box.toPolygon());
+    return intersection(outside.difference(shape));
 }
 
 void MixedLinesSet::push_back(const OpenPolyline& line)
diff --git a/src/geometry/OpenLinesSet.cpp b/src/geometry/OpenLinesSet.cpp
index 5043a59..7cd0111 100644
--- a/src/geometry/OpenLinesSet.cpp
+++ b/src/geometry/OpenLinesSet.cpp
@@ -4,6 +4,7 @@
 #include "geometry/OpenLinesSet.h"
 
 #include "geometry/Shape.h"
+#include "utils/AABB.h"
 
 namespace cura
 {
@@ -52,16 +53,12 @@ void OpenLinesSet::split(const size_t line_index, const size_t point_index)
         return *this;
     }
 
-    ClipperLib::PolyTree ret;
-    ClipperLib::Clipper clipper(clipper_init);
-    addPaths(clipper, ClipperLib::ptSubject);
-    other.addPaths(clipper, ClipperLib::ptClip);
-    clipper.Execute(ClipperLib::ctDifference, ret);
-
-    ClipperLib::Paths result_paths;
-    ClipperLib::OpenPathsFromPolyTree(ret, result_paths);
-
-    return OpenLinesSet(std::move(result_paths));
+    // Everything around the shape. Clipper loses some horizontal lines when subtracting from them.
+    AABB box(*this);
+    box.expand(MM2INT(1));
+    Shape outside;
+    outside.push_back(box.toPolygon());
+    return outside.difference(other).intersection(*this);
 }
 
 } // namespace cura
-- 
2.43.0


From 846b39a8f6aa94f7282f0ddf21bbcbf4eee95cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 37/58] fix: don't use a support part after it has moved

---
 src/sliceDataStorage.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sliceDataStorage.cpp b/src/sliceDataStorage.cpp
index e2f57a3..7315c08 100644
--- a/src/sliceDataStorage.cpp
+++ b/src/sliceDataStorage.cpp
@@ -797,11 +797,15 @@ void SupportLayer::excludeAreasFromSupportInfillAreas(const Shape& exclude_polyg
         // the rest we add to the support_infill_parts (but after part_count_to_check)
         support_infill_part.outline_ = smaller_support_islands[0];
 
+        // take copies, because adding parts may move support_infill_part
+        const coord_t support_line_width = support_infill_part.support_line_width_;
+        const bool use_fractional_config = support_infill_part.use_fractional_config_;
+        const coord_t inset_width_to_generate = support_infill_part.inset_width_to_generate_;
+
         for (size_t support_island_idx = 1; support_island_idx < smaller_support_islands.size(); ++support_island_idx)
         {
             const SingleShape& smaller_island = smaller_support_islands[support_island_idx];
-            support_infill_parts
-                .emplace_back(smaller_island, support_infill_part.support_line_width_, support_infill_part.use_fractional_config_, support_infill_part.inset_width_to_generate_);
+            support_infill_parts.emplace_back(smaller_island, support_line_width, use_fractional_config, inset_width_to_generate);
         }
     }
 
-- 
2.43.0


From 651a312d9c58ab46883f463ca952701eb277ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:55 +0000
Subject: [PATCH 38/58] fix: keep brims off models within the holes of others

---
 src/SkirtBrim.cpp | 53 ++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/SkirtBrim.cpp b/src/SkirtBrim.cpp
index 411066e..0e5f99d 100644
--- a/src/SkirtBrim.cpp
+++ b/src/SkirtBrim.cpp
@@ -632,33 +632,38 @@ std::vector<Shape> SkirtBrim::generateAllowedAreas(const std::vector<Outline>& s
                 const ExtruderOutlines& extruder_outlines = covered_area_by_extruder[other_extruder_nr];
                 const coord_t base_offset = extruder_config.line_width_ / 2;
 
-                // Remove areas covered by models
-                for (const Polygon& covered_surface : extruder_outlines.models_outlines)
+                // Remove areas covered by models, part by part so that parts within the holes of others are removed whatever the order
+                for (const SingleShape& part : extruder_outlines.models_outlines.unionPolygons().splitIntoParts())
                 {
-                    coord_t offset = base_offset;
-                    const double covered_area = covered_surface.area();
-
-                    if ((other_extruder_nr == extruder_nr || extruder_nr == skirt_brim_extruder_nr_)
-                        && ((covered_area > 0 && extruder_config.outside_polys_) || (covered_area < 0 && extruder_config.inside_polys_)))
-                    {
-                        // This is an area we are gonna intentionally print brim in, use the actual gap
-                        offset += extruder_config.gap_ - 50; // Lower margin a bit to avoid discarding legitimate lines
-                    }
-                    else
-                    {
-                        // This is an area we do not expect brim to be printed in, use a larger gap to keep the printed surface clean
-                        offset += hole_brim_distance;
-                    }
-
-                    if (covered_area < 0)
-                    {
-                        // Invert offset to make holes grow inside
-                        allowed_areas.push_back(covered_surface.offset(-offset, ClipperLib::jtRound));
-                    }
-                    else
+                    Shape covered_part;
+                    for (const Polygon& covered_surface : part)
                     {
-                        allowed_areas = allowed_areas.difference(covered_surface.offset(offset, ClipperLib::jtRound));
+                        coord_t offset = base_offset;
+                        const double covered_area = covered_surface.area();
+
+                        if ((other_extruder_nr == extruder_nr || extruder_nr == skirt_brim_extruder_nr_)
+                            && ((covered_area > 0 && extruder_config.outside_polys_) || (covered_area < 0 && extruder_config.inside_polys_)))
+                        {
+                            // This is an area we are gonna intentionally print brim in, use the actual gap
+                            offset += extruder_config.gap_ - 50; // Lower margin a bit to avoid discarding legitimate lines
+                        }
+                        else
+                        {
+                            // This is an area we do not expect brim to be printed in, use a larger gap to keep the printed surface clean
+                            offset += hole_brim_distance;
+                        }
+
+                        if (covered_area < 0)
+                        {
+                            // Invert offset to make holes grow inside
+                            covered_part = covered_part.difference(covered_surface.offset(-offset, ClipperLib::jtRound));
+                        }
+                        else
+                        {
+                            covered_part = covered_part.unionPolygons(covered_surface.offset(offset, ClipperLib::jtRound));
+                        }
                     }
+                    allowed_areas = allowed_areas.difference(covered_part);
                 }
 
                 // Remove areas covered by support, with a low margin because we don't care if the brim touches it
-- 
2.43.0


From 75c3a37d17a704e8b9db6c79ce91945e5f5beab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 39/58] =?UTF-8?q?fix:=20read=20the=20minimum=20hole=20area?=
 =?UTF-8?q?=20of=20the=20support=20brim=20in=20mm=C2=B2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/SkirtBrim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SkirtBrim.cpp b/src/SkirtBrim.cpp
index 0e5f99d..6ace3a6 100644
--- a/src/SkirtBrim.cpp
+++ b/src/SkirtBrim.cpp
@@ -681,7 +681,7 @@ std::vector<Shape> SkirtBrim::generateAllowedAreas(const std::vector<Outline>& s
 
 void SkirtBrim::generateSupportInsideBrim(const Settings& settings, const Shape& support_outline, const coord_t width, const coord_t line_width)
 {
-    const coord_t support_brim_minimum_hole_area = MM2_2INT(settings.get<coord_t>("support_brim_minimum_hole_area"));
+    const coord_t support_brim_minimum_hole_area = MM2_2INT(settings.get<double>("support_brim_minimum_hole_area"));
 
     PolygonUtils::InsetOutset base_insets = PolygonUtils::generateInsetOutset(support_outline, -width, line_width);
     for (Shape& base_inset : base_insets.walls)
-- 
2.43.0


From b118df73a6778b9e85380aa2f9494b7eea00df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 40/58] fix: print the first layer at its height after removing
 empty layers

---
 src/FffPolygonGenerator.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/FffPolygonGenerator.cpp b/src/FffPolygonGenerator.cpp
index 78c73a1..c2064a6 100644
--- a/src/FffPolygonGenerator.cpp
+++ b/src/FffPolygonGenerator.cpp
@@ -785,20 +785,11 @@ bool FffPolygonGenerator::isEmptyLayer(SliceDataStorage& storage, const LayerInd
 void FffPolygonGenerator::removeEmptyFirstLayers(SliceDataStorage& storage, size_t& total_layers)
 {
     size_t n_empty_first_layers = 0;
-    coord_t hightest_empty_layer = 0;
     for (size_t layer_idx = 0; layer_idx < total_layers; layer_idx++)
     {
         if (isEmptyLayer(storage, layer_idx))
         {
             n_empty_first_layers++;
-
-            coord_t layer_highest_z = 0;
-            for (const std::shared_ptr<SliceMeshStorage>& mesh_ptr : storage.meshes)
-            {
-                const auto& mesh = *mesh_ptr;
-                layer_highest_z = layer_idx >= mesh.layers.size() ? layer_highest_z : std::max(layer_highest_z, mesh.layers[layer_idx].printZ);
-            }
-            hightest_empty_layer = std::max(hightest_empty_layer, layer_highest_z);
         }
         else
         {
@@ -809,20 +800,27 @@ void FffPolygonGenerator::removeEmptyFirstLayers(SliceDataStorage& storage, size
     if (n_empty_first_layers > 0)
     {
         spdlog::info("Removing {} layers because they are empty", n_empty_first_layers);
-        const coord_t layer_height = Application::getInstance().current_slice_->scene.current_mesh_group->settings.get<coord_t>("layer_height");
         for (auto& mesh_ptr : storage.meshes)
         {
             auto& mesh = *mesh_ptr;
             std::vector<SliceLayer>& layers = mesh.layers;
-            if (layers.size() > n_empty_first_layers)
+            // The new initial layer takes the place of the old one, the layers above it move down with it.
+            const coord_t initial_layer_thickness = layers[0].thickness;
+            const coord_t initial_layer_z = layers[0].printZ;
+            coord_t removed_height = 0;
+            for (size_t layer_idx = 1; layer_idx < layers.size() && layer_idx <= n_empty_first_layers; layer_idx++)
             {
-                // transfer initial layer thickness to new initial layer
-                layers[n_empty_first_layers].thickness = layers[0].thickness;
+                removed_height += layers[layer_idx].thickness;
             }
             layers.erase(layers.begin(), layers.begin() + n_empty_first_layers);
             for (SliceLayer& layer : layers)
             {
-                layer.printZ -= hightest_empty_layer;
+                layer.printZ -= removed_height;
+            }
+            if (! layers.empty())
+            {
+                layers[0].thickness = initial_layer_thickness;
+                layers[0].printZ = initial_layer_z;
             }
             mesh.layer_nr_max_filled_layer -= n_empty_first_layers;
         }
-- 
2.43.0


From 55c871863e6ac2daf49ccfea509677cfcd6958c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 41/58] fix: keep to the step size where adaptive layers become
 thinner

---
 src/settings/AdaptiveLayerHeights.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/settings/AdaptiveLayerHeights.cpp b/src/settings/AdaptiveLayerHeights.cpp
index fd77285..09e7032 100644
--- a/src/settings/AdaptiveLayerHeights.cpp
+++ b/src/settings/AdaptiveLayerHeights.cpp
@@ -144,8 +144,9 @@ void AdaptiveLayerHeights::calculateLayers()
             }
 
             // check if the maximum step size has been exceeded depending on layer height direction
+            // (any layer height that is even thinner would differ from the previous one by more than a step)
             bool has_exceeded_step_size = false;
-            if (previous_layer_height > layer_height && previous_layer_height - layer_height > step_size_)
+            if (previous_layer_height > layer_height)
             {
                 has_exceeded_step_size = true;
             }
-- 
2.43.0


From 0b3617539e7b7ae98c6c211ac741594825dd0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 42/58] fix: pass the inset of the inner walls when spiralizing

---
 src/WallsComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WallsComputation.cpp b/src/WallsComputation.cpp
index 40f65fd..cc10cb9 100644
--- a/src/WallsComputation.cpp
+++ b/src/WallsComputation.cpp
@@ -75,7 +75,7 @@ void WallsComputation::generateWalls(SliceLayerPart* part, SectionType section_t
         generateSpiralInsets(part, line_width_0, wall_0_inset, recompute_outline_based_on_outer_wall);
         if (layer_nr_ <= static_cast<LayerIndex>(settings_.get<size_t>("initial_bottom_layers")))
         {
-            WallToolPaths wall_tool_paths(part->outline, line_width_0, line_width_x, wall_count, wall_0_inset, settings_, layer_nr_, section_type);
+            WallToolPaths wall_tool_paths(part->outline, line_width_0, line_width_x, wall_count, wall_0_inset, wall_x_inset, settings_, layer_nr_, section_type);
             part->wall_toolpaths = wall_tool_paths.getToolPaths();
             part->inner_area = wall_tool_paths.getInnerContour();
         }
-- 
2.43.0


From a466ca9810597c6a72253325a124a0c2069347af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 43/58] fix: connect the walls in the order of the graph
 instead of that of a set of pointers

---
 src/arachne/SkeletalTrapezoidation.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arachne/SkeletalTrapezoidation.cpp b/src/arachne/SkeletalTrapezoidation.cpp
index e734daf..f646bbb 100644
--- a/src/arachne/SkeletalTrapezoidation.cpp
+++ b/src/arachne/SkeletalTrapezoidation.cpp
@@ -2074,9 +2074,14 @@ void SkeletalTrapezoidation::connectJunctions(ptr_vector_t<LineJunctions>& edge_
 
     std::unordered_set<edge_t*> passed_odd_edges;
 
-    while (! unprocessed_quad_starts.empty())
+    // Go through the edges in the order of the graph: the order within the set depends on where the edges happen to be in memory.
+    for (edge_t& edge : graph_.edges_)
     {
-        edge_t* poly_domain_start = *unprocessed_quad_starts.begin();
+        if (! unprocessed_quad_starts.contains(&edge))
+        {
+            continue;
+        }
+        edge_t* poly_domain_start = &edge;
         edge_t* quad_start = poly_domain_start;
         bool new_domain_start = true;
         do
-- 
2.43.0


From 25e2cd068d98e0e92338cfc825eed6831a0e2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 44/58] fix: forget the bends of infill lines that turn out not
 to cross

---
 src/infill.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/infill.cpp b/src/infill.cpp
index 8608112..3d443fd 100644
--- a/src/infill.cpp
+++ b/src/infill.cpp
@@ -886,6 +886,8 @@ void Infill::resolveIntersection(const coord_t at_distance, const Point2LL& inte
     assert(! bend_b.has_value());
     bend_a.emplace(0, 0);
     bend_b.emplace(0, 0);
+    const Point2LL original_end_a = end_a;
+    const Point2LL original_end_b = end_b;
 
     // Find a bisector of the intersection; specifically, the one that crosses the connection & offset it by 1/2 distance to each side.
     constexpr auto large_enough_vec_len = 0xFFFFFFFF;
@@ -918,6 +920,8 @@ void Infill::resolveIntersection(const coord_t at_distance, const Point2LL& inte
         // Put everything that has now potentially become messed up, back.
         bend_a.reset();
         bend_b.reset();
+        end_a = original_end_a;
+        end_b = original_end_b;
     }
 }
 
-- 
2.43.0


From d6294aeb0a72d9f97ef282ec8eae15e1a695296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 45/58] fix: give each cubic subdivision octree its own
 properties

---
 include/infill/SubDivCube.h | 26 +++++++++++++++++-------
 src/infill/SubDivCube.cpp   | 40 +++++++++++++++++--------------------
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/include/infill/SubDivCube.h b/include/infill/SubDivCube.h
index fb84622..a91079f 100644
--- a/include/infill/SubDivCube.h
+++ b/include/infill/SubDivCube.h
@@ -21,13 +21,16 @@ class SliceMeshStorage;
 class SubDivCube
 {
 public:
+    struct OctreeProperties;
+
     /*!
      * Constructor for SubDivCube. Recursively calls itself eight times to flesh out the octree.
      * \param mesh contains infill layer data and settings
      * \param my_center the center of the cube
      * \param depth the recursion depth of the cube (0 is most recursed)
+     * \param properties the properties shared by all cubes of the octree
      */
-    SubDivCube(SliceMeshStorage& mesh, Point3LL& center, size_t depth);
+    SubDivCube(SliceMeshStorage& mesh, Point3LL& center, size_t depth, const std::shared_ptr<const OctreeProperties>& properties);
 
     /*!
      * Precompute the octree of subdivided cubes
@@ -60,6 +63,19 @@ private:
         coord_t max_line_offset; //!< maximum line offsets. This is the maximum distance at which subdivision lines should be drawn from the 2d cube center.
     };
 
+public:
+    /*!
+     * Properties that are the same for all cubes of one octree. Each mesh has its own.
+     */
+    struct OctreeProperties
+    {
+        std::vector<CubeProperties> cube_properties_per_recursion_step; //!< precomputed array of basic properties of cubes based on recursion depth.
+        Point3Matrix rotation_matrix; //!< The rotation matrix to get from axis aligned cubes to cubes standing on a corner point aligned with the infill_angle
+        PointMatrix infill_rotation_matrix; //!< Horizontal rotation applied to infill
+        coord_t radius_addition{ 0 }; //!< addition to the bounding radius when determining if a cube should be subdivided
+    };
+
+private:
     /*!
      * Rotates a point 120 degrees about the origin.
      * \param target the point to rotate.
@@ -70,7 +86,7 @@ private:
      * Rotates a point to align it with the orientation of the infill.
      * \param target the point to rotate.
      */
-    static void rotatePointInitial(Point2LL& target);
+    void rotatePointInitial(Point2LL& target) const;
 
     /*!
      * Determines if a described theoretical cube should be subdivided based on if a sphere that encloses the cube touches the infill mesh.
@@ -100,11 +116,7 @@ private:
     size_t depth_; //!< the recursion depth of the cube (0 is most recursed)
     Point3LL center_; //!< center location of the cube in absolute coordinates
     std::array<std::shared_ptr<SubDivCube>, 8> children_; //!< pointers to this cube's eight octree children
-    static std::vector<CubeProperties> cube_properties_per_recursion_step_; //!< precomputed array of basic properties of cubes based on recursion depth.
-    static Ratio radius_multiplier_; //!< multiplier for the bounding radius when determining if a cube should be subdivided
-    static Point3Matrix rotation_matrix_; //!< The rotation matrix to get from axis aligned cubes to cubes standing on a corner point aligned with the infill_angle
-    static PointMatrix infill_rotation_matrix_; //!< Horizontal rotation applied to infill
-    static coord_t radius_addition_; //!< addition to the bounding radius when determining if a cube should be subdivided
+    std::shared_ptr<const OctreeProperties> properties_; //!< properties shared by all cubes of this octree
 };
 
 } // namespace cura
diff --git a/src/infill/SubDivCube.cpp b/src/infill/SubDivCube.cpp
index a3490a9..93cd9c2 100644
--- a/src/infill/SubDivCube.cpp
+++ b/src/infill/SubDivCube.cpp
@@ -21,14 +21,10 @@
 namespace cura
 {
 
-std::vector<SubDivCube::CubeProperties> SubDivCube::cube_properties_per_recursion_step_;
-coord_t SubDivCube::radius_addition_ = 0;
-Point3Matrix SubDivCube::rotation_matrix_;
-PointMatrix SubDivCube::infill_rotation_matrix_;
-
 void SubDivCube::precomputeOctree(SliceMeshStorage& mesh, const Point2LL& infill_origin)
 {
-    radius_addition_ = mesh.settings.get<coord_t>("sub_div_rad_add");
+    auto properties = std::make_shared<OctreeProperties>();
+    properties->radius_addition = mesh.settings.get<coord_t>("sub_div_rad_add");
 
     // if infill_angles is not empty use the first value, otherwise use 0
     const std::vector<AngleDegrees> infill_angles = mesh.settings.get<std::vector<AngleDegrees>>("infill_angles");
@@ -44,8 +40,7 @@ void SubDivCube::precomputeOctree(SliceMeshStorage& mesh, const Point2LL& infill
     {
         for (coord_t curr_side_length = infill_line_distance * 2; curr_side_length < max_side_length * 2; curr_side_length *= 2)
         {
-            cube_properties_per_recursion_step_.emplace_back();
-            CubeProperties& cube_properties_here = cube_properties_per_recursion_step_.back();
+            CubeProperties& cube_properties_here = properties->cube_properties_per_recursion_step.emplace_back();
             cube_properties_here.side_length = curr_side_length;
             cube_properties_here.height = sqrt(3) * curr_side_length;
             cube_properties_here.square_height = sqrt(2) * curr_side_length;
@@ -78,17 +73,17 @@ void SubDivCube::precomputeOctree(SliceMeshStorage& mesh, const Point2LL& infill
     tilt.matrix[7] = ONE_OVER_SQRT_3;
     tilt.matrix[8] = ONE_OVER_SQRT_3;
 
-    infill_rotation_matrix_ = PointMatrix(infill_angle);
-    Point3Matrix infill_angle_mat(infill_rotation_matrix_);
+    properties->infill_rotation_matrix = PointMatrix(infill_angle);
+    Point3Matrix infill_angle_mat(properties->infill_rotation_matrix);
 
-    rotation_matrix_ = infill_angle_mat.compose(tilt);
+    properties->rotation_matrix = infill_angle_mat.compose(tilt);
 
-    mesh.base_subdiv_cube = std::make_shared<SubDivCube>(mesh, center, curr_recursion_depth - 1);
+    mesh.base_subdiv_cube = std::make_shared<SubDivCube>(mesh, center, curr_recursion_depth - 1, properties);
 }
 
 void SubDivCube::generateSubdivisionLines(const coord_t z, OpenLinesSet& result)
 {
-    if (cube_properties_per_recursion_step_.empty()) // Infill is set to 0%.
+    if (properties_->cube_properties_per_recursion_step.empty()) // Infill is set to 0%.
     {
         return;
     }
@@ -108,7 +103,7 @@ void SubDivCube::generateSubdivisionLines(const coord_t z, OpenLinesSet& result)
 
 void SubDivCube::generateSubdivisionLines(const coord_t z, OpenLinesSet (&directional_line_groups)[3])
 {
-    CubeProperties cube_properties = cube_properties_per_recursion_step_[depth_];
+    CubeProperties cube_properties = properties_->cube_properties_per_recursion_step[depth_];
 
     const coord_t z_diff = std::abs(z - center_.z_); //!< the difference between the cube center and the target layer.
     if (z_diff > cube_properties.height / 2) //!< this cube does not touch the target layer. Early exit.
@@ -148,22 +143,23 @@ void SubDivCube::generateSubdivisionLines(const coord_t z, OpenLinesSet (&direct
     }
 }
 
-SubDivCube::SubDivCube(SliceMeshStorage& mesh, Point3LL& center, size_t depth)
+SubDivCube::SubDivCube(SliceMeshStorage& mesh, Point3LL& center, size_t depth, const std::shared_ptr<const OctreeProperties>& properties)
     : depth_(depth)
     , center_(center)
+    , properties_(properties)
 {
     if (depth_ == 0) // lowest layer, no need for subdivision, exit.
     {
         return;
     }
-    if (depth_ >= cube_properties_per_recursion_step_.size()) // Depth is out of bounds of what we pre-computed.
+    if (depth_ >= properties_->cube_properties_per_recursion_step.size()) // Depth is out of bounds of what we pre-computed.
     {
         return;
     }
 
-    CubeProperties cube_properties = cube_properties_per_recursion_step_[depth];
+    CubeProperties cube_properties = properties_->cube_properties_per_recursion_step[depth];
     Point3LL child_center;
-    coord_t radius = double(cube_properties.height) / 4.0 + radius_addition_;
+    coord_t radius = double(cube_properties.height) / 4.0 + properties_->radius_addition;
 
     int child_nr = 0;
     std::vector<Point3LL> rel_child_centers;
@@ -177,10 +173,10 @@ SubDivCube::SubDivCube(SliceMeshStorage& mesh, Point3LL& center, size_t depth)
     rel_child_centers.emplace_back(-1, -1, 1);
     for (Point3LL rel_child_center : rel_child_centers)
     {
-        child_center = center + rotation_matrix_.apply(rel_child_center * int32_t(cube_properties.side_length / 4));
+        child_center = center + properties_->rotation_matrix.apply(rel_child_center * int32_t(cube_properties.side_length / 4));
         if (isValidSubdivision(mesh, child_center, radius))
         {
-            children_[child_nr] = std::make_shared<SubDivCube>(mesh, child_center, depth - 1);
+            children_[child_nr] = std::make_shared<SubDivCube>(mesh, child_center, depth - 1, properties_);
             child_nr++;
         }
     }
@@ -250,9 +246,9 @@ coord_t SubDivCube::distanceFromPointToMesh(SliceMeshStorage& mesh, const LayerI
 }
 
 
-void SubDivCube::rotatePointInitial(Point2LL& target)
+void SubDivCube::rotatePointInitial(Point2LL& target) const
 {
-    target = infill_rotation_matrix_.apply(target);
+    target = properties_->infill_rotation_matrix.apply(target);
 }
 
 void SubDivCube::rotatePoint120(Point2LL& target)
-- 
2.43.0


From 91624006e9b574d7577e101fa4413cebbb4aca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:46 +0000
Subject: [PATCH 46/58] fix: do not choose lightning branches at random

---
 src/infill/LightningTreeNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infill/LightningTreeNode.cpp b/src/infill/LightningTreeNode.cpp
index 9a7a814..b06a842 100644
--- a/src/infill/LightningTreeNode.cpp
+++ b/src/infill/LightningTreeNode.cpp
@@ -371,7 +371,7 @@ void LightningTreeNode::convertToPolylines(size_t long_line_idx, OpenLinesSet& o
         output[long_line_idx].push_back(p_);
         return;
     }
-    size_t first_child_idx = rand() % children_.size();
+    const size_t first_child_idx = std::hash<Point2LL>{}(p_) % children_.size(); // Arbitrary, but always the same for the same tree.
     children_[first_child_idx]->convertToPolylines(long_line_idx, output);
     output[long_line_idx].push_back(p_);
 
-- 
2.43.0


From 49a9265e62aae46932330d23dbe45edd0d7ac86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:20 +0000
Subject: [PATCH 47/58] fix: keep interlocking cells below the build plate out
 of the layers

---
 src/InterlockingGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InterlockingGenerator.cpp b/src/InterlockingGenerator.cpp
index 4b085c7..6a9fe1a 100644
--- a/src/InterlockingGenerator.cpp
+++ b/src/InterlockingGenerator.cpp
@@ -110,7 +110,7 @@ void InterlockingGenerator::handleThinAreas(const std::unordered_set<GridPoint3>
     for (const auto& cell : has_all_meshes)
     {
         const Point3LL bottom_corner = vu_.toLowerCorner(cell);
-        for (coord_t layer_nr = bottom_corner.z_; layer_nr < bottom_corner.z_ + cell_size_.z_ && layer_nr < static_cast<coord_t>(near_interlock_per_layer.size()); ++layer_nr)
+        for (coord_t layer_nr = std::max(bottom_corner.z_, coord_t(0)); layer_nr < bottom_corner.z_ + cell_size_.z_ && layer_nr < static_cast<coord_t>(near_interlock_per_layer.size()); ++layer_nr)
         {
             near_interlock_per_layer[static_cast<size_t>(layer_nr)].push_back(vu_.toPolygon(cell));
         }
@@ -298,7 +298,7 @@ void InterlockingGenerator::applyMicrostructureToOutlines(const std::unordered_s
         Point3LL bottom_corner = vu_.toLowerCorner(grid_loc);
         for (size_t mesh_idx = 0; mesh_idx < 2; mesh_idx++)
         {
-            for (LayerIndex layer_nr = bottom_corner.z_; layer_nr < bottom_corner.z_ + cell_size_.z_ && layer_nr < max_layer_count; layer_nr += beam_layer_count_)
+            for (LayerIndex layer_nr = std::max(bottom_corner.z_, coord_t(0)); layer_nr < bottom_corner.z_ + cell_size_.z_ && layer_nr < max_layer_count; layer_nr += beam_layer_count_)
             {
                 Shape areas_here = cell_area_per_mesh_per_layer[static_cast<size_t>(layer_nr / beam_layer_count_) % cell_area_per_mesh_per_layer.size()][mesh_idx];
                 areas_here.translate(Point2LL(bottom_corner.x_, bottom_corner.y_));
-- 
2.43.0


From 95134f7cab0aeb17c25113427118d66517dd3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 48/58] fix: Come down all the way from a Z hop that is ended
 in two moves

---
 src/gcode_export/gcodeExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index d82113d..a40f083 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1371,7 +1371,7 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         }
 
         writeZhop(speed, height, prime_distance);
-        current_position_.z_ = current_layer_z_;
+        current_position_.z_ = current_layer_z_ + height;
     }
 }
 
-- 
2.43.0


From 317f13da88953b66ec625b0bf9401a4ded4b9282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 49/58] fix: Don't move the filament in the first part of the
 end of a Z hop

---
 src/gcode_export/gcodeExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index a40f083..447354f 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1365,7 +1365,7 @@ void GCodeExport::writeZhopEnd(Velocity speed /*= 0*/, const coord_t height, con
         if (prime_distance.has_value() && prime_ratio > 0.0 && prime_ratio < 1.0)
         {
             // We have to split the z-hop move in two sub-moves, one without prime and one with
-            writeZhopEnd(speed, is_z_hopped_ * prime_ratio, extruder_attr_[current_extruder_].retraction_e_amount_current_, 0.0);
+            writeZhopEnd(speed, is_z_hopped_ * prime_ratio, std::nullopt, 0.0);
             writeZhopEnd(speed, 0, prime_distance, 0.0);
             return;
         }
-- 
2.43.0


From 6f33422230fc6798d312bf943f89ca04096ca157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 50/58] fix: Don't unretract by E values on machines that have
 none

---
 src/gcode_export/gcodeExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 447354f..734f36b 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1184,6 +1184,11 @@ void GCodeExport::writeFXYZE(
 
 void GCodeExport::writeUnretractionAndPrime()
 {
+    if (flavor_ == EGCodeFlavor::BFB)
+    {
+        return; // These machines don't use E values; the extruder is started again by the next extrusion move.
+    }
+
     const double prime_volume = extruder_attr_[current_extruder_].prime_volume_;
     const double prime_volume_e = mm3ToE(prime_volume);
     current_e_value_ += prime_volume_e;
-- 
2.43.0


From b676de2c25cbcebc3434d83c0a3d64801079a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 51/58] fix: Move the filament by the change of the flow rate
 offset only

---
 include/gcode_export/gcodeExport.h | 2 ++
 src/gcode_export/gcodeExport.cpp   | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/gcode_export/gcodeExport.h b/include/gcode_export/gcodeExport.h
index 6a5d660..5aec061 100644
--- a/include/gcode_export/gcodeExport.h
+++ b/include/gcode_export/gcodeExport.h
@@ -96,6 +96,8 @@ private:
         double prime_volume_; //!< Amount of material (in mm^3) to be primed after an unretration (due to oozing and/or coasting)
         Velocity last_retraction_prime_speed_; //!< The last prime speed (in mm/s) of the to-be-primed amount
 
+        double filament_offset_{ 0.0 }; //!< How far the filament is currently moved ahead to compensate for the flow rate (mm or mm^3)
+
         double last_e_value_after_wipe_; //!< The current material amount extruded since last wipe
 
         size_t fan_number_; // nozzle print cooling fan number
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index 734f36b..b90d4c4 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1113,7 +1113,9 @@ void GCodeExport::writeExtrusion(
     }
 
     extruder_attr_[current_extruder_].last_e_value_after_wipe_ += extrusion_per_mm * diff_length;
-    const double new_e_value = current_e_value_ + extrusion_per_mm * diff_length;
+    double& filament_offset = extruder_attr_[current_extruder_].filament_offset_;
+    const double new_e_value = current_e_value_ + extrusion_per_mm * diff_length + current_e_offset_ - filament_offset;
+    filament_offset = current_e_offset_;
 
     *output_stream_ << "G1";
     writeFXYZE(speed, x, y, z, new_e_value, feature);
@@ -1162,10 +1164,10 @@ void GCodeExport::writeFXYZE(
             writeRawRetract(retraction_amounts.value());
         }
     }
-    else if (e + current_e_offset_ != current_e_value_)
+    else if (e != current_e_value_)
     {
         any_written = true;
-        const double output_e = (relative_extrusion_) ? e + current_e_offset_ - current_e_value_ : e + current_e_offset_;
+        const double output_e = (relative_extrusion_) ? e - current_e_value_ : e;
         *output_stream_ << " " << extruder_attr_[current_extruder_].extruder_character_ << PrecisionedDouble{ 5, output_e };
         current_e_value_ = e;
     }
-- 
2.43.0


From dab061761cddedbfd58238359e10eaf3a59c5e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:14 +0000
Subject: [PATCH 52/58] fix: a request to wait for the bed isn't dropped
 because the same temperature was set before without waiting

---
 include/gcode_export/gcodeExport.h | 1 +
 src/gcode_export/gcodeExport.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcode_export/gcodeExport.h b/include/gcode_export/gcodeExport.h
index 5aec061..b5dcf61 100644
--- a/include/gcode_export/gcodeExport.h
+++ b/include/gcode_export/gcodeExport.h
@@ -194,6 +194,7 @@ private:
 
     Temperature initial_bed_temp_; //!< bed temperature at the beginning of the print.
     Temperature bed_temperature_; //!< Current build plate temperature.
+    bool bed_waited_for_temperature_{ true }; //!< Whether the print has waited (or the start G-code is trusted to have waited) until the bed was at its current temperature.
     Temperature build_volume_temperature_; //!< build volume temperature
     bool machine_heated_build_volume_; //!< does the machine have the ability to control/stabilize build-volume-temperature
     bool ppr_enable_; //!< if the print process reporting is enabled
diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index b90d4c4..2893428 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1830,7 +1830,7 @@ void GCodeExport::writeBedTemperatureCommand(const Temperature& temperature, con
         return;
     }
 
-    if (bed_temperature_ != temperature) // Not already at the desired temperature.
+    if (bed_temperature_ != temperature || (wait && ! bed_waited_for_temperature_)) // Not already at the desired temperature.
     {
         if (wait)
         {
@@ -1850,6 +1850,7 @@ void GCodeExport::writeBedTemperatureCommand(const Temperature& temperature, con
         *output_stream_ << PrecisionedDouble{ 1, temperature } << new_line_;
 
         bed_temperature_ = temperature;
+        bed_waited_for_temperature_ = wait;
     }
 }
 
-- 
2.43.0


From a08a27ee77b53597456f0a948381788dfd987bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:06 +0000
Subject: [PATCH 53/58] fix: recognise the first layer of the spiral

---
 src/FffGcodeWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index cbb065a..c521d2f 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -2557,7 +2557,7 @@ void FffGcodeWriter::processSpiralizedWall(
             last_seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr - 1];
         }
     }
-    const bool is_bottom_layer = (layer_nr == mesh.settings.get<LayerIndex>("initial_bottom_layers"));
+    const bool is_bottom_layer = (layer_nr == LayerIndex(mesh.settings.get<size_t>("initial_bottom_layers")));
     const bool is_top_layer = ((size_t)layer_nr == (storage.spiralize_wall_outlines.size() - 1) || storage.spiralize_wall_outlines[layer_nr + 1] == nullptr);
     const int seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr]; // use pre-computed seam vertex index for current layer
     // output a wall slice that is interpolated between the last and current walls
-- 
2.43.0


From 52c36d3065a3b98479dad9a1500dc36506b7e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:30 +0000
Subject: [PATCH 54/58] fix: keep the target of a distance criterion instead of
 a reference to it

---
 include/utils/scoring/DistanceScoringCriterion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/scoring/DistanceScoringCriterion.h b/include/utils/scoring/DistanceScoringCriterion.h
index 71911c6..3df9963 100644
--- a/include/utils/scoring/DistanceScoringCriterion.h
+++ b/include/utils/scoring/DistanceScoringCriterion.h
@@ -25,7 +25,7 @@ public:
     };
 
 private:
-    const Point2LL& target_pos_;
+    const Point2LL target_pos_;
     const DistanceType distance_type_;
 
     /*!
-- 
2.43.0


From 1547a4929ab241c58a704b893d19b3ce10cc8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 55/58] fix: remove the command to go to the printing
 temperature only once

---
 src/LayerPlanBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index 5bf6bb5..f807ca9 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -527,6 +527,7 @@ void LayerPlanBuffer::insertFinalPrintTempCommand(std::vector<ExtruderPlan*>& ex
             if (precool_extruder_plan->extrusion_temperature_command_)
             { // the precool command ends up before the command to go to the print temperature of the next extruder plan, so remove that print temp command
                 precool_extruder_plan->inserts_.erase(*precool_extruder_plan->extrusion_temperature_command_);
+                precool_extruder_plan->extrusion_temperature_command_.reset();
             }
             double time_here = precool_extruder_plan->estimates_.getTotalTime();
             if (cool_down_time < time_here)
-- 
2.43.0


From 749f5de368570fff78dd1e0dab58f1e6f1b39c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:34 +0000
Subject: [PATCH 56/58] fix: choose random places independent of the threads

---
 include/utils/math.h         | 14 +++++++++++++-
 src/FffGcodeWriter.cpp       |  6 ++++--
 src/InfillOrderOptimizer.cpp | 12 +++++++-----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/utils/math.h b/include/utils/math.h
index f7e4a11..b173def 100644
--- a/include/utils/math.h
+++ b/include/utils/math.h
@@ -6,6 +6,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <random>
 
 #include "utils/types/generic.h"
 
@@ -127,13 +128,24 @@ template<utils::numeric T>
     return static_cast<double>(value - range_min) / (range_max - range_min);
 }
 
+/*!
+ * \brief The generator of random numbers of this thread.
+ *
+ * Seed it at the start of a task, so that its outcome doesn't depend on which other tasks were run before, or meanwhile by other threads.
+ */
+[[nodiscard]] inline std::mt19937& randomGenerator()
+{
+    thread_local std::mt19937 generator;
+    return generator;
+}
+
 /*!
  * \brief Get a random floating point number in the range [0.0, 1.0]
  */
 template<utils::floating_point T>
 [[nodiscard]] inline T randf()
 {
-    return static_cast<T>(std::rand()) / static_cast<T>(RAND_MAX);
+    return static_cast<T>(randomGenerator()()) / static_cast<T>(std::mt19937::max());
 }
 
 /*! \brief Check if a value is very close to 0 */
diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index c521d2f..cd0565c 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -563,6 +563,7 @@ void FffGcodeWriter::processNextMeshGroupCode(const SliceDataStorage& storage)
 
 void FffGcodeWriter::processRaft(const SliceDataStorage& storage)
 {
+    randomGenerator().seed(0);
     Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
     const size_t base_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_base_extruder_nr").extruder_nr_;
     const size_t interface_extruder_nr = mesh_group_settings.get<ExtruderTrain&>("raft_interface_extruder_nr").extruder_nr_;
@@ -1131,6 +1132,7 @@ FffGcodeWriter::ProcessLayerResult FffGcodeWriter::processLayer(const SliceDataS
     spdlog::debug("GcodeWriter processing layer {} of {}", layer_nr, total_layers);
     TimeKeeper time_keeper;
     spdlog::stopwatch timer_total;
+    randomGenerator().seed(static_cast<unsigned int>(layer_nr)); // The layer shall not depend on which layers this thread has processed before.
 
     const Settings& mesh_group_settings = Application::getInstance().current_slice_->scene.current_mesh_group->settings;
     coord_t layer_thickness = mesh_group_settings.get<coord_t>("layer_height");
@@ -2050,8 +2052,8 @@ bool FffGcodeWriter::processMultiLayerInfill(
                 bool reverse_print_direction = false;
                 if (mesh.settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::START_RANDOM)
                 {
-                    srand(gcode_layer.getLayerNr());
-                    near_start_location = infill_lines[rand() % infill_lines.size()][0];
+                    std::mt19937 random(static_cast<unsigned int>(gcode_layer.getLayerNr()));
+                    near_start_location = infill_lines[random() % infill_lines.size()][0];
                 }
                 else if (near_end_location.has_value()) // Handles InfillStartEndPreference::END_CLOSE_TO_SEAM which is calculated earlier
                 {
diff --git a/src/InfillOrderOptimizer.cpp b/src/InfillOrderOptimizer.cpp
index 62bb725..b8b81bf 100644
--- a/src/InfillOrderOptimizer.cpp
+++ b/src/InfillOrderOptimizer.cpp
@@ -3,6 +3,8 @@
 
 #include "InfillOrderOptimizer.h"
 
+#include <random>
+
 #include <range/v3/algorithm/all_of.hpp>
 #include <range/v3/algorithm/any_of.hpp>
 #include <range/v3/algorithm/find_if.hpp>
@@ -170,19 +172,19 @@ bool InfillOrderOptimizer::addToLayer(
     std::optional<Point2LL> near_start_location;
     if (settings.get<InfillStartEndPreference>("infill_start_end_preference") == InfillStartEndPreference::START_RANDOM)
     {
-        srand(layer_plan.getLayerNr());
+        std::mt19937 random(static_cast<unsigned int>(layer_plan.getLayerNr()));
         const InfillPart& first_part = infill_parts_.front();
         if (first_part.area == InfillPartArea::Infill)
         {
             switch (first_part.type)
             {
             case InfillPartType::Lines:
-                near_start_location = first_part.paths.lines->at(rand() % first_part.paths.lines->size())[0];
+                near_start_location = first_part.paths.lines->at(random() % first_part.paths.lines->size())[0];
                 break;
             case InfillPartType::Polygons:
             {
-                const Polygon& start_poly = first_part.paths.polygons->at(rand() % first_part.paths.polygons->size());
-                near_start_location = start_poly[rand() % start_poly.size()];
+                const Polygon& start_poly = first_part.paths.polygons->at(random() % first_part.paths.polygons->size());
+                near_start_location = start_poly[random() % start_poly.size()];
                 break;
             }
             case InfillPartType::ExtrusionLines:
@@ -190,7 +192,7 @@ bool InfillOrderOptimizer::addToLayer(
                 const std::vector<VariableWidthLines>* start_paths;
                 do
                 {
-                    start_paths = &first_part.paths.extrusion_lines->at(rand() % first_part.paths.extrusion_lines->size());
+                    start_paths = &first_part.paths.extrusion_lines->at(random() % first_part.paths.extrusion_lines->size());
                 } while (start_paths->empty() || start_paths->front().empty()); // We know for sure that one of them is not empty. So randomise until we hit
                                                                                 // it. Should almost always be very quick.
                 near_start_location = (*start_paths)[0][0].junctions_[0].p_;
-- 
2.43.0


From 2f1193f87184e71b8b3d2d883059d8cc89bfc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:46 +0000
Subject: [PATCH 57/58] fix: reach the minimum layer time with lines of
 different speeds

---
 src/LayerPlan.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index a717a5f..5695e2c 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3146,8 +3146,21 @@ bool ExtruderPlan::forceMinimalLayerTime(double minTime, double time_other_extr_
         else
         {
             // Slowing down to the slowest_speed is sufficient to respect the minimum layer time.
-            // Linear interpolate between extrudeTime and total_extrude_time_at_slowest_speed
-            const double factor = (1 / total_extrude_time_at_slowest_speed - 1 / minExtrudeTime) / (1 / total_extrude_time_at_slowest_speed - 1 / extrudeTime);
+            // Interpolate the speed of each path between the slowest speed and its own. As paths may have different speeds, the total time isn't linear in that factor.
+            double factor = 0.0;
+            for (double step = 0.5; step > 1e-6; step /= 2)
+            {
+                double extrude_time_at_factor = 0.0;
+                for (const GCodePath& path : paths_)
+                {
+                    const double path_speed = path.config.getSpeed() * path.speed_factor;
+                    extrude_time_at_factor += path.estimates.extrude_time * path_speed / std::lerp(slowest_path_speed_, path_speed, factor + step);
+                }
+                if (extrude_time_at_factor >= minExtrudeTime)
+                {
+                    factor += step;
+                }
+            }
             slow_down_func = [&slowest_path_speed = slowest_path_speed_, factor](const GCodePath& path)
             {
                 const double actual_target_speed = slowest_path_speed * (1.0 - factor) + (path.config.getSpeed() * path.speed_factor) * factor;
-- 
2.43.0


From 2c11f2dd652408f58f307d188cbc2ec55b43a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:12 +0000
Subject: [PATCH 58/58] fix: infill walls are generated with their width, not
 with their number as the width

---
 src/skin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 96fefa7..6ce79ea 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -656,7 +656,7 @@ void SkinInfillAreaComputation::generateGradualInfill(SliceMeshStorage& mesh)
             const Shape& infill_area = Infill::generateWallToolPaths(
                 part.infill_wall_toolpaths,
                 part.getOwnInfillArea(),
-                infill_wall_count,
+                infill_wall_count * infill_wall_width,
                 infill_wall_width,
                 mesh.settings,
                 layer_idx,
-- 
2.43.0


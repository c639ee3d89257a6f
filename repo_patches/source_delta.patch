From 85b93af942d00236d9d8a6729346103d105f9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 01/31] fix: only compare a point with the previous point of
 the same loop when dropping duplicates

A loop whose first point was equal to the last point of the loop added before
it lost its first point, and a loop ending with a repeated closing point
(A B C A A) kept a line of zero length.
---
 include/poly_ops/clip.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 299a75d..03ed9b2 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2027,8 +2027,6 @@ public:
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::finalize_prev() {
-    if(!n.lpoints.empty() && prev == n.lpoints.back().data) return;
-
     if(pt) {
         switch(n.lpoints.size() - std::size_t(first_i)) {
         case 0:
@@ -2051,10 +2049,16 @@ void clipper<Coord,Index>::point_sink::finalize_prev() {
 
 template<coordinate Coord,std::integral Index>
 void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index orig_i) {
-    if(started) finalize_prev();
+    n._next_orig_i = orig_i + 1;
+    if(started) {
+        /* consecutive duplicate points are ignored (this must not be compared
+        against "n.lpoints.back()", because that might be part of another loop)
+        */
+        if(p == prev) return;
+        finalize_prev();
+    }
     prev = p;
     prev_orig_i = orig_i;
-    n._next_orig_i = orig_i + 1;
     started = true;
 }
 template<coordinate Coord,std::integral Index>
-- 
2.43.0


From f7498456c8943e914d153b6ce3d09ae6c290e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 02/31] fix: out-of-bounds read when a loop has only one unique
 point

---
 include/poly_ops/clip.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 03ed9b2..d1f6081 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2068,7 +2068,8 @@ clipper<Coord,Index>::point_sink::~point_sink() {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+        if(n.lpoints.size() == std::size_t(first_i)
+            || prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-- 
2.43.0


From 0db3a6ca6090f8ba1181e8c3bfdfe91b40feeb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:02 +0000
Subject: [PATCH 03/31] fix: loops left out of the tree output when overlapping
 lines make containment ambiguous

If two loops shared overlapping lines, each could appear to contain the other
and neither was reachable from the result (and the assertion failed in debug
builds).
---
 include/poly_ops/clip.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index d1f6081..e2bf912 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1414,14 +1414,21 @@ std::pmr::vector<temp_polygon<Index>*> arrange_loops(
     for(const auto& item : ordered_loops) {
         if(item.hits.empty()) top.push_back(&loops[item.p]);
         else {
+            /* The parent is normally the loop with exactly one less container.
+            When lines of different loops overlap, there might not be such a
+            loop (two loops may even appear to contain each other), but a loop
+            must never be left out. */
+            temp_polygon<Index> *parent = nullptr;
+            std::size_t parent_depth = 0;
             for(Index outer_i : item.hits) {
-                if(ordered_loops[outer_i].hits.size() == (item.hits.size() - 1)) {
-                    loops[outer_i].children.push_back(&loops[item.p]);
-                    goto next;
+                std::size_t depth = ordered_loops[outer_i].hits.size();
+                if(depth < item.hits.size() && (!parent || depth > parent_depth)) {
+                    parent = &loops[outer_i];
+                    parent_depth = depth;
                 }
             }
-            POLY_OPS_ASSERT(false);
-          next: ;
+            if(parent) parent->children.push_back(&loops[item.p]);
+            else top.push_back(&loops[item.p]);
         }
     }
 
-- 
2.43.0


From 8f451ab0d7037f373abe9788ffb3d7ed720111d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 04/31] hook: let an external explorer decide the rounding
 choices (POLY_OPS_VERIF_RAND_BOOL)

---
 include/poly_ops/clip.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index e2bf912..ff4a4b6 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -435,6 +435,11 @@ using rand_generator = std::minstd_rand;
 /* std::uniform_int_distribution(0,1) appears to behave differently between
 GCC's and MSVC's libraries, so it isn't used */
 bool rand_bool(rand_generator &rgen) {
+#ifdef POLY_OPS_VERIF_RAND_BOOL
+    /* lets an external explorer decide every rounding choice */
+    (void)rgen;
+    return POLY_OPS_VERIF_RAND_BOOL();
+#endif
     constexpr auto mid = rand_generator::min() + (rand_generator::max() - rand_generator::min()) / 2;
     return rgen() > mid;
 }
-- 
2.43.0


From dbe2bd4492f53e47f276a8fb7d325cb390507aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 05/31] fix: report every discarded point to the tracker once
 and in order

Points were merged chain by chain in sweep order, so a chain could be merged
into a point that had already been discarded, reversed chains were never
linked to a kept point, and with hierarchical output the tracker was given the
indices of internal anchor points it had never heard of.
---
 include/poly_ops/clip.hpp | 70 +++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 11 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index ff4a4b6..ef0fc69 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1194,9 +1194,7 @@ template<typename Index,typename Coord> struct breaks_t {
 
 /* Follow the points connected to the point at "intr" until another intersection
 is reached or we wrapped around. Along the way, update the "state()" value to
-the value at "intr", and if "state()" at "intr" is not "line_state::keep" or
-"line_state::keep_rev", merge all the point values into "intr" via the point
-tracker.
+the value at "intr".
 
 If "state()" at "intr" is one of the "keep" values and the "state" of the next
 intersection is not, add the point before the intersection to "broken_ends. If
@@ -1205,8 +1203,7 @@ template<typename Index,typename Coord>
 void follow_balance(
     std::pmr::vector<loop_point<Index,Coord>> &points,
     Index intr,
-    breaks_t<Index,Coord> &breaks,
-    i_point_tracker<Index> *pt)
+    breaks_t<Index,Coord> &breaks)
 {
     POLY_OPS_ASSERT(points[intr].has_line_bal());
     POLY_OPS_ASSERT(!(points[intr].state() & line_state::anchor));
@@ -1216,9 +1213,7 @@ void follow_balance(
         Index real_next_next = points[next].next;
 
         points[next].state() = points[intr].state() | (points[next].state() & line_state::anchor);
-        if(!(points[intr].state() & line_state::keep)) {
-            if(pt) pt->point_merge(prev,next);
-        } else if(points[intr].state() & line_state::reverse) {
+        if(points[intr].state() & line_state::reverse) {
             /* the actual points should not be moved, to make point-tracking
             simpler, except for the temporary anchor points, which must have the
             same coordinates as the (new) previous point */
@@ -1234,7 +1229,6 @@ void follow_balance(
 
     switch(points[intr].state()) {
     case line_state::discard:
-        if(pt) pt->point_merge(prev,next);
         break;
     case line_state::keep:
         breaks.broken_starts[points[intr].data].push_back(intr);
@@ -1267,6 +1261,56 @@ void follow_balance(
     }
 }
 
+/* Tell "pt" about every discarded point, by following the links that are left
+after all lines have been rejoined. A point is not reported until every
+discarded point that leads to it has been, so that nothing is merged into a
+point that is already gone. The only exception is when every point that can be
+reached was discarded. In that case, we stop after circling around.
+
+Points at "count" and above are "anchor" points, which the point tracker doesn't
+know about. */
+template<typename Index,typename Coord>
+void report_discarded(
+    std::pmr::vector<loop_point<Index,Coord>> &points,
+    Index count,
+    i_point_tracker<Index> &pt,
+    std::pmr::memory_resource *contig_mem)
+{
+    auto discarded = [&](Index i) { return !(points[i].state() & line_state::keep); };
+    auto following = [&](Index i) {
+        do { i = points[i].next; } while(i >= count);
+        return i;
+    };
+
+    /* how many discarded and not yet reported points lead to each point */
+    std::pmr::vector<Index> leading(std::size_t(count),Index(0),contig_mem);
+    std::pmr::vector<bool> reported(std::size_t(count),false,contig_mem);
+
+    for(Index i=0; i<count; ++i) {
+        if(discarded(i)) ++leading[following(i)];
+    }
+
+    auto report_from = [&](Index i) {
+        while(discarded(i) && !reported[i] && leading[i] == 0) {
+            Index next = following(i);
+            reported[i] = true;
+            --leading[next];
+            pt.point_merge(i,next);
+            i = next;
+        }
+    };
+
+    for(Index i=0; i<count; ++i) report_from(i);
+
+    // only points that lead back to themselves are left
+    for(Index i=0; i<count; ++i) {
+        if(discarded(i) && !reported[i]) {
+            leading[i] = 0;
+            report_from(i);
+        }
+    }
+}
+
 template<typename Index> struct loop_location {
     Index start;
     Index size;
@@ -2359,6 +2403,8 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
     self_intersection(pt);
     calc_line_bal(op);
 
+    const Index real_points = static_cast<Index>(lpoints.size());
+
     if(tree_out) {
         for(auto &intr : samples) {
             for(Index &i : intr.hits) i = insert_anchor_point(i);
@@ -2367,11 +2413,11 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
             follow_balance<Index,Coord>(
                 lpoints,
                 std::exchange(intr.p,insert_anchor_point(intr.p)),
-                breaks,pt);
+                breaks);
         }
     } else {
         for(auto &intr : samples) {
-            follow_balance<Index,Coord>(lpoints,intr.p,breaks,pt);
+            follow_balance<Index,Coord>(lpoints,intr.p,breaks);
         }
     }
 
@@ -2441,6 +2487,8 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
         breaks.broken_starts.end(),
         [](const auto &v) { return v.second.empty(); }));
 
+    if(pt) report_discarded<Index,Coord>(lpoints,real_points,*pt,contig_mem);
+
     for(auto &lp : lpoints) {
         if(lp.state() & line_state::keep) {
             lp.aux.loop_index = (lp.state() & line_state::anchor) ? L_INDEX_ANCHOR : L_INDEX_UNSET;
-- 
2.43.0


From 31090a952150cd7a61d9bc7c3df31aad93a143f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 06/31] fix: number offset points correctly and close the
 circle around lone points

Duplicate input points shifted the original indices given to the tracker, and
the numbering of later loops. A lone point was surrounded by one point less than
intended, at the wrong angles when few points were needed.
---
 include/poly_ops/offset.hpp | 166 ++++++++++++++++++------------------
 1 file changed, 82 insertions(+), 84 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index e62d629..b35a043 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -134,16 +134,16 @@ void add_offset_point(
 }
 
 template<typename Index,typename Coord>
-Index offset_lone_point(
+void offset_lone_point(
     typename clipper<Coord,Index>::point_sink &sink,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index next_orig_i,
+    Index orig_i,
     point_t<Coord> p)
 {
     using real_t = real_coord_t<Coord>;
 
-    if(magnitude <= 0) return next_orig_i;
+    if(magnitude <= 0) return;
 
     // we need to approximate a circle
 
@@ -153,55 +153,58 @@ Index offset_lone_point(
     // use at least 3 points to make a circle
     long lsteps = std::max(static_cast<long>(steps),3L);
 
-    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(steps));
-    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(steps));
+    real_t s = coord_ops<Coord>::sin(angle / static_cast<real_t>(lsteps));
+    real_t c = coord_ops<Coord>::cos(angle / static_cast<real_t>(lsteps));
 
     point_t<real_t> offset{magnitude,0};
 
-    for(long i=1; i<lsteps; ++i) {
+    for(long i=0; i<lsteps; ++i) {
+        sink(p + vround<Coord>(offset),orig_i);
         offset = {c*offset[0] - s*offset[1],s*offset[0] + c*offset[1]};
-        sink(p + vround<Coord>(offset),next_orig_i);
     }
-
-    return next_orig_i + 1;
-}
-
-/* add a signed int to a possibly unsigned integer */
-template<typename T> auto signed_add(T a,int b) {
-    return T(std::make_signed_t<T>(a) + b);
 }
 
-template<typename Coord,typename Index> struct offset_tail_end {
-    Index orig_i;
-    point_t<Coord> prev1;
-    point_t<Coord> prev2;
-};
+/* Add the points of one side of an open line, including the points around the
+end of the line. "input" must have at least two unique points.
 
+"orig_i" is the index of the first point of "input" and "i_step" is 1 or -1,
+depending on whether "input" is in the original order. */
 template<typename Coord,typename Index,typename Input>
-offset_tail_end<Coord,Index> _add_offset_tail_open(
+void _add_offset_open_side(
     typename clipper<Coord,Index>::point_sink &sink,
     Input &&input,
     real_coord_t<Coord> magnitude,
     Coord arc_step_size,
-    Index first_orig_i,
-    int i_step,
-    point_t<Coord> prev2,
-    point_t<Coord> prev1)
+    Index orig_i,
+    int i_step)
 {
-    Index next_orig_i = first_orig_i;
+    auto next_i = [i_step](Index i) { return i_step > 0 ? Index(i + 1) : Index(i - 1); };
 
-    for(point_t<Coord> p : input) {
+    auto itr = std::ranges::begin(input);
+    auto end = std::ranges::end(input);
+
+    point_t<Coord> prev2(*itr);
+    Index prev2_i = orig_i;
+    point_t<Coord> prev1;
+    do {
+        prev1 = *++itr;
+        orig_i = next_i(orig_i);
+    } while(prev1 == prev2);
+    Index prev1_i = orig_i;
+
+    for(++itr; itr != end; ++itr) {
+        point_t<Coord> p(*itr);
+        orig_i = next_i(orig_i);
         if(p != prev1) {
-            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,p);
+            add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_i,prev1_i,prev2,prev1,p);
             prev2 = prev1;
+            prev2_i = prev1_i;
             prev1 = p;
+            prev1_i = orig_i;
         }
-        next_orig_i = signed_add(next_orig_i,i_step);
     }
 
-    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,next_orig_i,signed_add(next_orig_i,i_step),prev2,prev1,prev2);
-
-    return {signed_add(next_orig_i,i_step),prev1,prev2};
+    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_i,prev1_i,prev2,prev1,prev2);
 }
 
 template<typename Coord,typename Index,typename Input>
@@ -224,45 +227,36 @@ void _add_offset_open(
         auto end = std::ranges::end(input);
         if(itr == end) return;
 
-        point_t<Coord> prev2(*itr);
-        ++itr;
-
-        point_t<Coord> prev1;
+        point_t<Coord> first(*itr);
 
         auto sink = n.add_loop(set,pt);
-        
-        for(;;) {
-            if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
-                break;
-            }
-
-            prev1 = *itr;
-            ++itr;
+        Index first_orig_i = sink.next_orig_i();
 
-            if(prev1 != prev2) {
-                auto [orig_i,prev1b,prev2b] = _add_offset_tail_open<Coord,Index>(
-                    sink,
-                    std::ranges::subrange{itr,std::ranges::end(input)},
-                    magnitude,
-                    arc_step_size,
-                    sink.next_orig_i(),
-                    1,
-                    prev2,
-                    prev1);
-                end_orig_i = orig_i;
+        bool lone = true;
+        end_orig_i = first_orig_i;
+        for(; itr != end; ++itr) {
+            if(point_t<Coord>(*itr) != first) lone = false;
+            ++end_orig_i;
+        }
 
-                _add_offset_tail_open<Coord,Index>(
-                    sink,
-                    std::ranges::subrange{std::next(std::ranges::rbegin(input),2),std::ranges::rend(input)},
-                    magnitude,
-                    arc_step_size,
-                    end_orig_i,
-                    -1,
-                    prev1b,
-                    prev2b);
-                break;
-            }
+        if(lone) {
+            offset_lone_point<Index,Coord>(sink,magnitude,arc_step_size,first_orig_i,first);
+        } else {
+            _add_offset_open_side<Coord,Index>(
+                sink,
+                std::ranges::subrange{std::ranges::begin(input),end},
+                magnitude,
+                arc_step_size,
+                first_orig_i,
+                1);
+
+            _add_offset_open_side<Coord,Index>(
+                sink,
+                std::ranges::subrange{std::ranges::rbegin(input),std::ranges::rend(input)},
+                magnitude,
+                arc_step_size,
+                Index(end_orig_i - 1),
+                -1);
         }
     }
     n.next_orig_i() = end_orig_i;
@@ -299,46 +293,50 @@ void _add_offset_closed(
         point_t<Coord> second;
 
         auto sink = n.add_loop(set,pt);
+
+        /* the original indices of "first", "prev2" and "prev1" */
+        Index first_orig_i = sink.next_orig_i();
+        Index prev2_orig_i = first_orig_i;
+        Index prev1_orig_i;
+
+        end_orig_i = first_orig_i + 1;
         
         for(;;) {
             if(itr == end) {
-                end_orig_i = offset_lone_point(sink,magnitude,arc_step_size,sink.next_orig_i(),prev2);
+                offset_lone_point<Index,Coord>(sink,magnitude,arc_step_size,first_orig_i,first);
                 break;
             }
 
             prev1 = second = *itr;
+            prev1_orig_i = end_orig_i++;
             ++itr;
 
             if(prev1 != prev2) {
-                Index first_orig_i = sink.next_orig_i();
-                end_orig_i = first_orig_i;
                 for(point_t<Coord> p : std::ranges::subrange{itr,end}) {
                     if(p != prev1) {
-                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,end_orig_i+1,prev2,prev1,p);
+                        add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev2_orig_i,prev1_orig_i,prev2,prev1,p);
                         prev2 = prev1;
+                        prev2_orig_i = prev1_orig_i;
                         prev1 = p;
+                        prev1_orig_i = end_orig_i;
                     }
                     ++end_orig_i;
                 }
 
-                if(prev2 != prev1) {
-                    add_offset_point<Index,Coord>(
-                        sink,
-                        magnitude,
-                        arc_step_size,
-                        end_orig_i,
-                        end_orig_i+1,
-                        prev2,
-                        prev1,
-                        prev1 == first ? second : first);
-                }
-                ++end_orig_i;
+                add_offset_point<Index,Coord>(
+                    sink,
+                    magnitude,
+                    arc_step_size,
+                    prev2_orig_i,
+                    prev1_orig_i,
+                    prev2,
+                    prev1,
+                    prev1 == first ? second : first);
 
                 /* if "prev1" is equal to "first", we are already done */
                 if(prev1 != first) {
-                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,end_orig_i,first_orig_i,prev1,first,second);
+                    add_offset_point<Index,Coord>(sink,magnitude,arc_step_size,prev1_orig_i,first_orig_i,prev1,first,second);
                 }
-                ++end_orig_i;
                 break;
             }
         }
-- 
2.43.0


From b202a7c332acd92664061796990f453fc349f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 07/31] fix: post-increment of loop iterators did not compile

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index ef0fc69..7ba03f6 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1667,7 +1667,7 @@ public:
     }
 
     proto_loop_iterator operator++(int) noexcept {
-        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--};
+        return {lpoints,std::exchange(i,lpoints[i].next),dist_from_end--,tracker};
     }
 
     value_type operator*() const noexcept(std::is_nothrow_copy_constructible_v<Coord>) {
-- 
2.43.0


From 4a89e207f2dcfec065f1464a498fc05e66f907e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 08/31] fix: tclipper::add_loops_subject and add_loops_clip did
 not compile

---
 include/poly_ops/clip.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 7ba03f6..5ae5e10 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2585,19 +2585,19 @@ public:
     }
 
     /**
-     * Calls `add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks())`
+     * Calls `add_loops(std::forward<R>(loops),bool_set::subject)`
      */
     template<typename R> void add_loops_subject(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::subject,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::subject);
     }
 
     /**
-     * Calls `add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks())`
+     * Calls `add_loops(std::forward<R>(loops),bool_set::clip)`
      */
     template<typename R> void add_loops_clip(R &&loops) {
         static_assert(point_range_or_range_range<R,Coord>);
-        add_loops(std::forward<R>(loops),bool_set::clip,tracker.callbacks());
+        add_loops(std::forward<R>(loops),bool_set::clip);
     }
 
     /**
-- 
2.43.0


From 5ae068a024e18372c4bdedafb9dd032586765fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:48 +0000
Subject: [PATCH 09/31] fix: offset boundaries through the original points at
 inner corners and around points where a line turns back

The two ends of adjacent offset edges were joined directly at corners that need
no arc. When the edges are short compared to the magnitude this raised the
winding number outside of the result (inset shapes smaller than the magnitude
came out inverted instead of vanishing) or lowered it inside. A line turning
back onto itself at a point other than its previous one got no cap.
---
 include/poly_ops/offset.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/offset.hpp b/include/poly_ops/offset.hpp
index b35a043..585e295 100644
--- a/include/poly_ops/offset.hpp
+++ b/include/poly_ops/offset.hpp
@@ -89,8 +89,8 @@ template<typename Index> using original_sets_t = mini_set_proxy_vector<Index,std
 template<typename Index> using original_set_replacements_t = indexed_mini_set_proxy_vector<Index,std::pmr::polymorphic_allocator<Index>>;
 template<typename Index> using original_set_t = mini_flat_set<Index,std::pmr::polymorphic_allocator<Index>>;
 
-/* When p1 == p3, the angle p1-p2-p3 is assumed to be concave, so that the
-offset goes around the end-points of an open line */
+/* When the line turns back onto itself at p2, the angle p1-p2-p3 is assumed to be
+concave, so that the offset goes around the end-points of an open line */
 template<typename Index,typename Coord>
 void add_offset_point(
     typename clipper<Coord,Index>::point_sink &sink,
@@ -113,7 +113,13 @@ void add_offset_point(
 
     sink(p2 + vround<Coord>(offset),orig_i2);
 
-    bool concave = p1 == p3 || triangle_winding(p1,p2,p3) > 0;
+    auto winding = triangle_winding(p1,p2,p3);
+    bool concave = winding > 0;
+    if(winding == 0) {
+        /* either the line goes straight on, or it turns back, in which case the
+        offset needs to go around p2 */
+        concave = (p1.x() < p2.x()) == (p3.x() < p2.x()) && (p1.y() < p2.y()) == (p3.y() < p2.y());
+    }
     if(magnitude < real_t(0)) concave = !concave;
     if(concave) {
         // we need to approximate an arc
@@ -130,6 +136,12 @@ void add_offset_point(
                 sink(p2 + vround<Coord>(offset),orig_i2);
             }
         }
+    } else {
+        /* going through the original point makes sure the winding number is
+        not raised in a place that is too far from the line, or lowered in a
+        place that isn't, when the line segments are short compared to the
+        magnitude */
+        sink(p2,orig_i2);
     }
 }
 
-- 
2.43.0


From 17e4a6edb4d83d892316cb34aa924d6ea5fe253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 10/31] fix: mini_flat_set did not count the second inserted
 value and empty() was inverted

---
 include/poly_ops/mini_flat_set.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 849928c..981194b 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -156,7 +156,7 @@ public:
     }
 
     std::size_t size() const noexcept { return _size; }
-    bool empty() const noexcept { return _size != 0; }
+    bool empty() const noexcept { return _size == 0; }
     T *begin() noexcept { return _size > 1 ? u.data->items : &u.item; }
     const T *begin() const noexcept { return _size > 1 ? u.data->items : &u.item; }
     T *end() noexcept { return begin() + _size; }
@@ -178,6 +178,7 @@ public:
 
             u.data->items[i1] = tmp;
             u.data->items[i2] = value;
+            _size = 2;
             return {u.data->items + i2,true};
         } else {
             T* pos = std::upper_bound(u.data->items,u.data->items+_size,value);
-- 
2.43.0


From 287953a96d99675064b2444b3cbccb4ea61a5e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 11/31] fix: mini_flat_set did not align its storage and
 assigning to its proxy did not compile

---
 include/poly_ops/mini_flat_set.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/mini_flat_set.hpp b/include/poly_ops/mini_flat_set.hpp
index 981194b..83f51ee 100644
--- a/include/poly_ops/mini_flat_set.hpp
+++ b/include/poly_ops/mini_flat_set.hpp
@@ -31,17 +31,22 @@ class mini_flat_set {
         data_t *data;
     } u;
 
+    using data_alloc_traits = typename alloc_traits::template rebind_traits<data_t>;
+
+    /* the number of instances of data_t that have enough space for n items */
     static std::size_t alloc_size(std::size_t n) {
-        return n + (offsetof(data_t,items) + sizeof(T) - 1) / sizeof(T);
+        return (offsetof(data_t,items) + n*sizeof(T) + sizeof(data_t) - 1) / sizeof(data_t);
     }
 
     static data_t *alloc_data(Allocator &alloc,std::size_t n) {
-        data_t *r = reinterpret_cast<data_t*>(alloc_traits::allocate(alloc,alloc_size(n)));
+        typename data_alloc_traits::allocator_type data_alloc(alloc);
+        data_t *r = data_alloc_traits::allocate(data_alloc,alloc_size(n));
         r->capacity = n;
         return r;
     }
     static void dealloc_data(Allocator &alloc,data_t *d) {
-        alloc_traits::deallocate(alloc,reinterpret_cast<T*>(d),alloc_size(d->capacity));
+        typename data_alloc_traits::allocator_type data_alloc(alloc);
+        data_alloc_traits::deallocate(data_alloc,d,alloc_size(d->capacity));
     }
 
     template<std::input_iterator InputIt>
@@ -249,16 +254,16 @@ public:
     mini_flat_set_alloc_proxy(mini_flat_set<T,Allocator> &data,Allocator alloc)
         : data(data), alloc(alloc) {}
 
-    mini_flat_set_alloc_proxy &operator=(const mini_flat_set<T,Allocator> &b) const {
+    const mini_flat_set_alloc_proxy &operator=(const mini_flat_set<T,Allocator> &b) const {
         data.assign(alloc,b);
         return *this;
     }
-    mini_flat_set_alloc_proxy &operator=(mini_flat_set<T,Allocator> &&b) const {
+    const mini_flat_set_alloc_proxy &operator=(mini_flat_set<T,Allocator> &&b) const {
         data.assign(alloc,std::move(b));
         return *this;
     }
 
-    mini_flat_set_alloc_proxy &operator=(const mini_flat_set_alloc_proxy &b) const {
+    const mini_flat_set_alloc_proxy &operator=(const mini_flat_set_alloc_proxy &b) const {
         assert(alloc == b.alloc);
         data.assign(alloc,b.data);
         return *this;
-- 
2.43.0


From a94a7bc2fe19a5f05e66e54f0bf4653adc6f9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 12/31] fix: strided iterators told distance in bytes and order
 by address, so views with zero or negative strides were empty or misordered

---
 include/poly_ops/strided_itr.hpp | 59 +++++++++++---------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/include/poly_ops/strided_itr.hpp b/include/poly_ops/strided_itr.hpp
index 950bf17..36174e6 100644
--- a/include/poly_ops/strided_itr.hpp
+++ b/include/poly_ops/strided_itr.hpp
@@ -5,6 +5,7 @@
 #include <concepts>
 #include <ranges>
 #include <type_traits>
+#include <utility>
 
 #include "base.hpp"
 
@@ -19,8 +20,12 @@ struct strided_itr {
     T *ptr;
     std::ptrdiff_t stride;
 
+    /* the number of steps from the first element, because pointers cannot tell
+    the position of the iterator when the stride is zero or negative */
+    std::ptrdiff_t index;
+
     strided_itr() = default;
-    strided_itr(T *ptr,std::ptrdiff_t stride) : ptr(ptr), stride(stride) {}
+    strided_itr(T *ptr,std::ptrdiff_t stride,std::ptrdiff_t index=0) : ptr(ptr), stride(stride), index(index) {}
     strided_itr(const strided_itr&) = default;
 
     strided_itr &operator=(const strided_itr&) = default;
@@ -31,59 +36,35 @@ struct strided_itr {
         return ptr+i*stride;
     }
 
-    strided_itr new_ptr(T *x) const {
-        return {x,stride};
-    }
+    strided_itr &operator++() { return *this += 1; }
+    strided_itr &operator--() { return *this -= 1; }
 
-    strided_itr &operator++() {
-        ptr += stride;
-        return *this;
-    }
-    strided_itr &operator--() {
-        ptr -= stride;
-        return *this;
-    }
-
-    strided_itr operator++(int) {
-        return new_ptr(std::exchange(ptr,ptr+stride));
-    }
-    strided_itr operator--(int) {
-        return new_ptr(std::exchange(ptr,ptr-stride));
-    }
+    strided_itr operator++(int) { return std::exchange(*this,*this + 1); }
+    strided_itr operator--(int) { return std::exchange(*this,*this - 1); }
 
     strided_itr &operator+=(std::ptrdiff_t n) {
         ptr += n * stride;
+        index += n;
         return *this;
     }
     strided_itr &operator-=(std::ptrdiff_t n) {
-        ptr -= n * stride;
-        return *this;
+        return *this += -n;
     }
 
-    friend strided_itr operator+(const strided_itr &a,std::ptrdiff_t b) {
-        return a.new_ptr(a.ptr + b*a.stride);
-    }
-    friend strided_itr operator+(std::ptrdiff_t a,const strided_itr &b) {
-        return b.new_ptr(b.ptr + a*b.stride);
-    }
-
-    friend strided_itr operator-(const strided_itr &a,std::ptrdiff_t b) {
-        return a.new_ptr(a.ptr - b*a.stride);
-    }
-    friend strided_itr operator-(std::ptrdiff_t a,const strided_itr &b) {
-        return b.new_ptr(b.ptr - a*b.stride);
-    }
+    friend strided_itr operator+(strided_itr a,std::ptrdiff_t b) { return a += b; }
+    friend strided_itr operator+(std::ptrdiff_t a,strided_itr b) { return b += a; }
+    friend strided_itr operator-(strided_itr a,std::ptrdiff_t b) { return a -= b; }
 
     friend std::ptrdiff_t operator-(const strided_itr &a,const strided_itr &b) {
-        return a.ptr - b.ptr;
+        return a.index - b.index;
     }
 
     friend auto operator<=>(const strided_itr &a,const strided_itr &b) {
-        return a.ptr <=> b.ptr;
+        return a.index <=> b.index;
     }
 
-    friend auto operator==(const strided_itr &a,const strided_itr &b) {
-        return a.ptr == b.ptr;
+    friend bool operator==(const strided_itr &a,const strided_itr &b) {
+        return a.index == b.index;
     }
 };
 
@@ -91,7 +72,7 @@ template<typename T,typename F>
 auto _make_strided_range(T *start,std::size_t length,std::ptrdiff_t stride,F &&f) {
     return std::ranges::subrange(
         strided_itr<T>{start,stride},
-        strided_itr<T>{start,stride}+length) | std::views::transform(std::forward<F>(f));
+        strided_itr<T>{start,stride}+static_cast<std::ptrdiff_t>(length)) | std::views::transform(std::forward<F>(f));
 }
 } // namespace detail
 
-- 
2.43.0


From 23b13648398702c85f68fa0e52fe36f1d3257245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 13/31] fix: loops of results could not be used as views
 (front(), conversion to bool and adaptors did not compile)

---
 include/poly_ops/clip.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 5ae5e10..fb16f6a 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -1707,31 +1707,32 @@ public:
 
 private:
     const detail::loop_point<Index,Coord> *lpoints;
-    const detail::temp_polygon<Index> &data;
+    /* a pointer instead of a reference because views need to be assignable */
+    const detail::temp_polygon<Index> *data;
     [[no_unique_address]] tracker_ptr tracker;
 public:
     temp_polygon_proxy(
         const detail::loop_point<Index,Coord> *lpoints,
         const detail::temp_polygon<Index> &data,
         tracker_ptr tracker)
-        : lpoints{lpoints}, data{data}, tracker{tracker} {}
+        : lpoints{lpoints}, data{&data}, tracker{tracker} {}
 
     /** Get the iterator to the first element. */
     proto_loop_iterator<Coord,Index,Tracker> begin() const noexcept {
-        return {lpoints,data.loop_loc.start,data.loop_loc.size,tracker};
+        return {lpoints,data->loop_loc.start,data->loop_loc.size,tracker};
     }
 
     /** Get the end iterator */
     proto_loop_iterator<Coord,Index,Tracker> end() const noexcept {
-        return {lpoints,data.loop_loc.start,0,tracker};
+        return {lpoints,data->loop_loc.start,0,tracker};
     }
 
     /** Return the number of elements in this range. */
-    Index size() const noexcept { return data.loop_loc.size; }
+    Index size() const noexcept { return data->loop_loc.size; }
 
     /** Return a range representing the children of this polygon. */
     auto inner_loops() const noexcept {
-        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data.children,*tracker);
+        return detail::make_temp_polygon_tree_range<Index,Coord>(lpoints,data->children,*tracker);
     }
 };
 
-- 
2.43.0


From 65a5db80f157ec7917203ef79b6dfb4f33842337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 14/31] fix: clipper::execute on an r-value returned a range
 that referred to the clipper

---
 include/poly_ops/clip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index fb16f6a..083bc22 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2073,7 +2073,7 @@ public:
      * Perform a boolean operation and return the result.
      */
     template<bool TreeOut=false> auto execute(bool_op op) && {
-        return execute<TreeOut,null_tracker<Coord,Index>>(op,{});
+        return std::move(*this).template execute<TreeOut,null_tracker<Coord,Index>>(op,{});
     }
 
     Index &next_orig_i() noexcept { return _next_orig_i; }
-- 
2.43.0


From 4ade5688c8a8670583cb54ac237b91798d3fa83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 15/31] fix: wide additions and subtractions lost carries
 without compiler extensions

---
 include/poly_ops/large_ints.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index ac8cf60..0072a75 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -569,26 +569,25 @@ namespace detail {
         out = a + b;
         carry_t cr = out < a;
         out += carry;
-        return (out < a) | cr;
+        return (out < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _addcarry_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
         a = a + b;
         carry_t cr = a < b;
         a += carry;
-        return (a < b) | cr;
+        return (a < carry) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow(full_uint a,full_uint b,full_uint &out,carry_t carry=0) noexcept {
-        out = a - b;
-        carry_t cr = out > a;
-        out -= carry;
-        return (out > a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = diff > a;
+        out = diff - carry;
+        return (out > diff) | cr;
     }
     _POLY_OPS_FORCE_INLINE carry_t _subborrow_to(full_uint &a,full_uint b,carry_t carry=0) noexcept {
-        full_uint prev_a = a;
-        a = a - b;
-        carry_t cr = a > prev_a;
-        a -= carry;
-        return (a > prev_a) | cr;
+        full_uint diff = a - b;
+        carry_t cr = diff > a;
+        a = diff - carry;
+        return (a > diff) | cr;
     }
 #endif
 
-- 
2.43.0


From 000dc48322bbe64c68ee007fcd6db81dc5a13d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 16/31] fix: comparisons, products and assignments of mixed
 wide integers did not compile

---
 include/poly_ops/large_ints.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 0072a75..7e7b58a 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -397,7 +397,7 @@ public:
 
     template<safe_comp_or_single_i<N,Signed> T> compound_xint &operator=(const T &b) noexcept {
         if constexpr(N > 1) {
-            lo() = detail::compi_lo<N>(b);
+            lo().set(detail::compi_lo<N>(b));
         }
         hi() = detail::compi_hi<N>(b);
         return *this;
@@ -908,7 +908,9 @@ template<typename T> auto shift_left(const T &a,unsigned char amount) noexcept {
 template<typename T,typename U,unsigned int N = detail::max_int_count<detail::signed_type<T> || detail::signed_type<U>,T,U>>
 bool eq(const T &a,const U &b) noexcept {
     if constexpr(N > 1) {
-        if(!eq<T,U,N-1>(detail::compi_lo<N>(a),detail::compi_lo<N>(b))) return false;
+        auto &&a_lo = detail::compi_lo<N>(a);
+        auto &&b_lo = detail::compi_lo<N>(b);
+        if(!eq<std::remove_cvref_t<decltype(a_lo)>,std::remove_cvref_t<decltype(b_lo)>,N-1>(a_lo,b_lo)) return false;
     }
     return detail::compi_hi<N>(a) == detail::compi_hi<N>(b);
 }
@@ -1087,11 +1089,15 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
             return mul(b,a);
         } else if constexpr(Na == 1) {
             return mul1x1<Signed>(compi_hi<1,Signed,T>(a),compi_hi<1,Signed>(b));
+        } else if constexpr(Nb == 1 && integral<T>) {
+            return mul(compound_xint<Na,Signed>{a},b);
         } else if constexpr(Nb == 1) {
             auto r = add(umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<1>(b)),shift<Na-1>(mul1x1<Signed>(compi_hi<Na,Signed>(a),compi_hi<1,Signed>(b))));
             if constexpr(Signed) {
                 offset_add<Na+1,1>(r,umulnx1<Na-1>(compi_lo<Na>(a),compi_hi<Nb+1>(b)));
                 return compound_int<Na+1>{r};
+            } else {
+                return r;
             }
         } else {
             compound_uint<Na+Nb> a_tmp{a};
-- 
2.43.0


From 59c5910f5e16b96b505e72ae58e3bb44b4c7ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 17/31] fix: products of small unsigned integers were computed
 as signed

---
 include/poly_ops/large_ints.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index 7e7b58a..d4aab4b 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -193,7 +193,7 @@ namespace detail {
     template<typename T> struct type_val { using type=T; };
     template<std::size_t Size> auto _bltin_sized_int() noexcept {
         if constexpr(Size <= 1) { return type_val<std::int8_t>{}; }
-        if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
+        else if constexpr(Size == 2) { return type_val<std::int16_t>{}; }
         else if constexpr(Size <= 4) { return type_val<std::int32_t>{}; }
         else if constexpr(Size <= 8) { return type_val<std::int64_t>{}; }
         else { return type_val<void>{}; }
@@ -1080,7 +1080,12 @@ template<typename T,typename U> auto mul(const T &a,const U &b) noexcept {
     using namespace detail;
 
     if constexpr(small_xints<T> && small_xints<U>) {
-        return static_cast<detail::bltin_sized_int<sizeof(T) + sizeof(U)>>(a) * b;
+        using r_t = bltin_sized_int<sizeof(T) + sizeof(U)>;
+        if constexpr(signed_type<T> || signed_type<U>) {
+            return static_cast<r_t>(a) * b;
+        } else {
+            return static_cast<std::make_unsigned_t<r_t>>(a) * b;
+        }
     } else {
         constexpr bool Signed = signed_type<T> || signed_type<U>;
         constexpr unsigned int Na = int_count<Signed,T>;
-- 
2.43.0


From acd990777e75ef05db873c1b1a7633409e683e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 18/31] fix: floor division was off by one when exact, and
 remainders of unsigned divisors were truncated

---
 include/poly_ops/large_ints.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index d4aab4b..b7661ce 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -1191,9 +1191,9 @@ auto unmul(const T &a,const U &b,modulo_t::type<Mod> = {}) noexcept {
 #  endif
         if constexpr(Signed && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if(compi_hi<3>(a) ^ compi_hi<2>(b)) {
+            if((compi_hi<3>(a) ^ compi_hi<2>(b)) && r.rem) {
                 r.quot -= 1;
-                r.rem = abs(b) - r.rem;
+                r.rem = abs(compound_int<Nb>{b}) - r.rem;
             }
         }
     } else
@@ -1321,7 +1321,7 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
 
         if constexpr(signed_ && Mod == modulo_t::euclid_v) {
             r.rem = abs(r.rem);
-            if((sign(a_tmp) ^ sign(b_tmp))) {
+            if((sign(a_tmp) ^ sign(b_tmp)) && r.rem) {
                 r.rem = abs(b_tmp) - r.rem;
                 r.quot -= 1;
             }
@@ -1345,15 +1345,18 @@ auto divmod(const T &a,const U &b,modulo_t::type<Mod>) noexcept {
             udivmod_shift_sub<N>(a_tmp.data(),b_tmp.data(),r.quot.data());
         }
 
-        r.rem = compound_int<int_count<false,U>>(a_tmp);
+        r.rem = compound_int<int_count<true,U>>(a_tmp);
 
         if constexpr(Mod == modulo_t::truncate_v) {
             if(sa ^ sb) r.quot = -r.quot;
             if(sa) r.rem = -r.rem;
         } else if constexpr(Mod == modulo_t::euclid_v) {
             if(sa ^ sb) {
-                r.rem = abs(b) - r.rem;
-                r.quot = -1 - r.quot;
+                r.quot = -r.quot;
+                if(r.rem) {
+                    r.rem = abs(compound_int<int_count<true,U>>{b}) - r.rem;
+                    r.quot -= 1;
+                }
             }
         }
     } else {
-- 
2.43.0


From 911f94e89c125f32bad014393b2950a1b4ed97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:05 +0000
Subject: [PATCH 19/31] fix: conversions of wide integers to 128-bit integers
 and floating point used wrong shifts

---
 include/poly_ops/large_ints.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/poly_ops/large_ints.hpp b/include/poly_ops/large_ints.hpp
index b7661ce..50a126c 100644
--- a/include/poly_ops/large_ints.hpp
+++ b/include/poly_ops/large_ints.hpp
@@ -283,9 +283,9 @@ namespace detail {
     template<integral T,typename U> T cast(const U &x) noexcept {
         constexpr unsigned int N = int_count<false,U>;
         if constexpr(N == 1) {
-            return static_cast<T>(compi_hi<1>(x));
+            return static_cast<T>(compi_hi<1,signed_type<U>>(x));
         } else if constexpr(int_count<false,T> >= N) {
-            return (static_cast<T>(compi_hi<N>(x)) << ((N-1) * sizeof(full_int))) | cast<T>(compi_lo<N>(x));
+            return (static_cast<T>(compi_hi<N,signed_type<U>>(x)) << ((N-1) * sizeof(full_int) * 8)) | cast<T>(compi_lo<N>(x));
         } else {
             return cast<T>(compi_lo<N>(x));
         }
@@ -347,7 +347,7 @@ template<unsigned int N> using const_compound_xint_ref = _compound_xint_ref<N,tr
 namespace detail {
     template<std::floating_point T,unsigned int N> T unsigned_to_float(const_compound_xint_ref<N> x) noexcept {
         if constexpr(N > 1) {
-            return std::ldexp(static_cast<T>(x.hi()),32*N) + unsigned_to_float<T,N-1>(x.lo());
+            return std::ldexp(static_cast<T>(x.hi()),static_cast<int>(sizeof(full_uint)*8*(N-1))) + unsigned_to_float<T,N-1>(x.lo());
         } else {
             return static_cast<T>(x.hi());
         }
-- 
2.43.0


From 19dcfa315be1c6f8dfd56e96ebdeec08150fd869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:51 +0000
Subject: [PATCH 20/31] fix: shapes beside the canvas were drawn on its edge
 column

---
 include/poly_ops/polydraw.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index a1b5409..daad480 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -402,8 +402,8 @@ template<typename T> T clamp(T x,std::type_identity_t<T> lo,std::type_identity_t
     return x;
 }
 
-template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(const fraction<T,NumSize,DenomSize> &x,std::type_identity_t<T> lo,std::type_identity_t<T> hi) {
-    return clamp(static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot),lo,hi);
+template<typename T,unsigned int NumSize,unsigned int DenomSize> T to_coord(const fraction<T,NumSize,DenomSize> &x) {
+    return static_cast<T>(large_ints::unmul<compound_int_size<T>>(x.num,x.denom).quot);
 }
 
 bool should_fill(fill_rule_t rule,long winding) {
@@ -698,10 +698,17 @@ public:
                         winding += s_itr->value.a_is_main(rast.lpoints) ? 1 : -1;
 
                         Coord x_start = x;
-                        x = to_coord(x_intercept(s_itr->value.pa,s_itr->value.pb,y),0,static_cast<Coord>(width-1));
+                        x = to_coord(x_intercept(s_itr->value.pa,s_itr->value.pb,y));
    
-                        if(prev_winding) {
-                            sc = {static_cast<unsigned int>(x),static_cast<unsigned int>(x_start),static_cast<unsigned int>(y),prev_winding};
+                        /* spans entirely to the left or right of the canvas are
+                        skipped */
+                        if(prev_winding && x_start >= 0 && std::cmp_less(x,width)) {
+                            const Coord x_max = static_cast<Coord>(width-1);
+                            sc = {
+                                static_cast<unsigned int>(clamp(x,0,x_max)),
+                                static_cast<unsigned int>(clamp(x_start,0,x_max)),
+                                static_cast<unsigned int>(y),
+                                prev_winding};
                             suspended = true;
                             return true;
                         }
-- 
2.43.0


From 7aed901bc028d0b5a4e592303e573efb81678f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 21/31] fix: lines crossing exactly on a row broke the
 rasterizer

Lines were inserted before the ones crossing on the same row were swapped, and
lines that end there kept crossing lines apart. The events were also referred
to after new events had been added.
---
 include/poly_ops/polydraw.hpp | 56 ++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index daad480..2599343 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -218,7 +218,10 @@ bool consistent_order(const sweep_t<Coord> &sweep) {
     return true;
 }
 
-enum class event_type_t {backward,forward,swap};
+/* At the same y coordinate, lines that end are removed first, so that crossing
+lines are adjacent, and lines that start are inserted last, when the lines
+crossing there are in the order they have below it. */
+enum class event_type_t {backward,swap,forward};
 struct swap_type {};
 template<typename Coord> struct event {
     event_type_t type;
@@ -637,38 +640,37 @@ public:
             sweep.key_comp().current_y = y;
             for(; !rast.events.at_end()
                     && less_than_or_equal(rast.lpoints,rast.events.current(),y)
-                    && rast.events.current().type == event_type_t::swap; rast.events.next(rast.lpoints))
+                    && rast.events.current().type != event_type_t::forward; rast.events.next(rast.lpoints))
             {
-                auto &e = rast.events.current();
-
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "SWAP {} and {} at {}",
-                    rast.sweep_nodes[e.ab.a].value,
-                    rast.sweep_nodes[e.ab.b].value,
-                    e.intr_y);
-
-                rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
-
-                POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
-            }
-            for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::backward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
-
-                POLY_OPS_DRAW_DEBUG_LOG(
-                    "BACKWARD {} at {}",
-                    e.ab,
-                    e.ab.a_y(rast.lpoints));
-
-                auto itr = sweep.erase(e.sweep_node);
-
-                if(itr != sweep.end() && itr != sweep.begin()) {
-                    rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
+                /* this needs to be a copy since adding events can invalidate
+                references */
+                auto e = rast.events.current();
+
+                if(e.type == event_type_t::swap) {
+                    POLY_OPS_DRAW_DEBUG_LOG(
+                        "SWAP {} and {} at {}",
+                        rast.sweep_nodes[e.ab.a].value,
+                        rast.sweep_nodes[e.ab.b].value,
+                        e.intr_y);
+
+                    rast.swap_and_check(sweep,e.ab.a,e.ab.b,e.intr_y);
+                } else {
+                    POLY_OPS_DRAW_DEBUG_LOG(
+                        "BACKWARD {} at {}",
+                        e.ab,
+                        e.ab.a_y(rast.lpoints));
+
+                    auto itr = sweep.erase(e.sweep_node);
+
+                    if(itr != sweep.end() && itr != sweep.begin()) {
+                        rast.check_intersection(std::prev(itr).index(),itr.index(),e.ab.a_y(rast.lpoints));
+                    }
                 }
 
                 POLY_OPS_DRAW_DEBUG_LOG("sweep: {}",sweep);
             }
             for(; !rast.events.at_end() && less_than_or_equal(rast.lpoints,rast.events.current(),y) && rast.events.current().type == event_type_t::forward; rast.events.next(rast.lpoints)) {
-                auto &e = rast.events.current();
+                auto e = rast.events.current();
 
                 POLY_OPS_DRAW_DEBUG_LOG(
                     "FORWARD {} at {}",
-- 
2.43.0


From 72d1c41180ea941132a4f76967e6294b73acc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 22/31] fix: the rasterizer never finished swapping several
 lines crossing at one point

---
 include/poly_ops/polydraw.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 2599343..8bd84b2 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -122,6 +122,8 @@ template<typename Coord> using cached_segment = poly_ops::detail::cached_segment
 template<typename T> constexpr size_t compound_int_size
     = (sizeof(T) + sizeof(large_ints::full_uint) - 1) / sizeof(large_ints::full_uint);
 
+/* "s1" must come before "s2" in the sweep. Lines that have already crossed do not
+count as intersecting. */
 template<typename Coord>
 bool intersects(
     const cached_segment<Coord> &s1,
@@ -142,14 +144,12 @@ bool intersects(
     if(s1.a == s2.a || s1.a == s2.b || s1.b == s2.a || s1.b == s2.b) return false;
 
     auto d = mul<Coord,Coord>(x1-x2,y3-y4) - mul<Coord,Coord>(y1-y2,x3-x4);
-    if(d == 0) return false;
+    if(d >= 0) return false;
 
     auto t_i = mul<Coord,Coord>(x1-x3,y3-y4) - mul<Coord,Coord>(y1-y3,x3-x4);
     auto u_i = mul<Coord,Coord>(x1-x3,y1-y2) - mul<Coord,Coord>(y1-y3,x1-x2);
 
-    if(d > 0) {
-        if(t_i <= 0 || t_i >= d || u_i <= 0 || u_i >= d) return false;
-    } else if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
+    if(t_i >= 0 || t_i <= d || u_i >= 0 || u_i <= d) return false;
 
     auto qr = unmul<compound_int_size<Coord>>(mul(t_i,y2-y1) + mul(d,y1),d,modulo_t::euclid);
     intr_y.whole = static_cast<Coord>(qr.quot);
-- 
2.43.0


From 9b74b265fd5bae8d4d74de5bf0dab3bbb41cd54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:22 +0000
Subject: [PATCH 23/31] fix: a failing allocation in a point sink's destructor
 ended the program

The destructors add the last point, so they can run out of memory, but
destructors are noexcept unless declared otherwise. The polygon being added is
now discarded and the exception passed on.
---
 include/poly_ops/clip.hpp     | 40 +++++++++++++++++++++++++++++------
 include/poly_ops/polydraw.hpp | 37 ++++++++++++++++++++++++--------
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 083bc22..fdb120f 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <numbers>
 #include <cstddef>
+#include <exception>
 #include <utility>
 #include <memory_resource>
 #include <iterator>
@@ -1909,13 +1910,15 @@ public:
 
         bool_set cat;
         bool started;
+        int exceptions;
 
         point_sink(clipper &n,bool_set cat,i_point_tracker<Index> *pt)
             : n{n},
             pt{pt},
             first_i{Index(n.lpoints.size())},
             cat{cat},
-            started{false} {}
+            started{false},
+            exceptions{std::uncaught_exceptions()} {}
         point_sink(const point_sink&) = delete;
         point_sink(point_sink &&b)
             : n{b.n},
@@ -1926,19 +1929,21 @@ public:
             first_orig_i{b.first_orig_i},
             second_orig_i{b.second_orig_i},
             cat{b.cat},
-            started{b.started}
+            started{b.started},
+            exceptions{b.exceptions}
         {
             b.started = false;
         }
 
         void finalize_prev();
+        void discard();
 
     public:
         void operator()(const point_t<Coord> &p,Index orig_i);
         void operator()(const point_t<Coord> &p) { (*this)(p,n._next_orig_i); }
         Index next_orig_i() const { return n._next_orig_i; }
         Index &next_orig_i() { return n._next_orig_i; }
-        ~point_sink();
+        ~point_sink() noexcept(false);
     };
 
     explicit clipper(std::pmr::memory_resource *_contig_mem=nullptr) :
@@ -1963,6 +1968,10 @@ public:
      *
      * The output returned by `execute` is invalidated.
      *
+     * If an exception is thrown, the polygon that was being added is discarded.
+     * If a tracker was used, `reset` must then be called, on both, before either
+     * is used again.
+     *
      * `R` must satisfy `point_range_or_range_range`.
      */
     template<typename R> void add_loops(R &&loops,bool_set cat,i_point_tracker<Index> *pt=nullptr) {
@@ -2119,18 +2128,37 @@ void clipper<Coord,Index>::point_sink::operator()(const point_t<Coord> &p,Index
     started = true;
 }
 template<coordinate Coord,std::integral Index>
-clipper<Coord,Index>::point_sink::~point_sink() {
+void clipper<Coord,Index>::point_sink::discard() {
+    while(n.lpoints.size() > std::size_t(first_i)) n.lpoints.pop_back();
+}
+template<coordinate Coord,std::integral Index>
+clipper<Coord,Index>::point_sink::~point_sink() noexcept(false) {
+    /* if this is being destroyed because of an exception, the loop is
+    incomplete */
+    if(std::uncaught_exceptions() > exceptions) [[unlikely]] {
+        if(started) discard();
+        return;
+    }
+
     /* This code doesn't work with polygons with fewer than three points. A
     polygon with two points almost works, except the two lines have the same
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
         if(n.lpoints.size() == std::size_t(first_i)
-            || prev != n.lpoints[first_i].data) [[likely]] finalize_prev();
+            || prev != n.lpoints[first_i].data) [[likely]]
+        {
+            try {
+                finalize_prev();
+            } catch(...) {
+                discard();
+                throw;
+            }
+        }
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
         if(points_added < 3) [[unlikely]] {
-            while(points_added-- > 0) n.lpoints.pop_back();
+            discard();
         } else {
             n.lpoints.back().next = first_i;
             n.lpoints.back().state() = detail::line_state::check;
diff --git a/include/poly_ops/polydraw.hpp b/include/poly_ops/polydraw.hpp
index 8bd84b2..42086f5 100644
--- a/include/poly_ops/polydraw.hpp
+++ b/include/poly_ops/polydraw.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <span>
 #include <bit>
+#include <exception>
 #include <cassert>
 
 #include "base.hpp"
@@ -464,16 +465,19 @@ public:
         poly_ops::point_t<Coord> prev;
         std::size_t first_i;
         bool started;
+        int exceptions;
 
-        point_sink(rasterizer &n) : n(n), started(false) {}
+        point_sink(rasterizer &n) : n(n), started(false), exceptions{std::uncaught_exceptions()} {}
         point_sink(const point_sink&) = delete;
-        point_sink(point_sink &&b) : n(b.n), prev(b.prev), first_i{b.first_i}, started(b.started) {
+        point_sink(point_sink &&b) : n(b.n), prev(b.prev), first_i{b.first_i}, started(b.started), exceptions{b.exceptions} {
             b.started = false;
         }
 
+        void discard();
+
     public:
         void operator()(const poly_ops::point_t<Coord> &p);
-        ~point_sink();
+        ~point_sink() noexcept(false);
     };
 
     rasterizer() : ran(false) {
@@ -512,7 +516,6 @@ void rasterizer<Coord>::point_sink::operator()(const poly_ops::point_t<Coord> &p
     } else {
         prev = p;
         first_i = n.lpoints.size();
-        started = true;
     }
 
     /* Normally, points aren't added until this is called with the next point or
@@ -520,23 +523,39 @@ void rasterizer<Coord>::point_sink::operator()(const poly_ops::point_t<Coord> &p
     adding it on the first call means the "prev != n.lpoints.back().data" checks
     above and in the destructor are always safe. */
     n.lpoints.emplace_back(prev,n.lpoints.size()+1);
+    started = true;
 
 skip:
     prev = p;
 }
 
 template<typename Coord>
-rasterizer<Coord>::point_sink::~point_sink() {
+void rasterizer<Coord>::point_sink::discard() {
+    while(n.lpoints.size() > first_i) n.lpoints.pop_back();
+}
+
+template<typename Coord>
+rasterizer<Coord>::point_sink::~point_sink() noexcept(false) {
+    /* if this is being destroyed because of an exception, the loop is
+    incomplete */
+    if(std::uncaught_exceptions() > exceptions) [[unlikely]] {
+        if(started) discard();
+        return;
+    }
+
     if(started) [[likely]] {
         if(prev != n.lpoints.back().data && prev != n.lpoints[first_i].data) [[likely]] {
-            n.lpoints.emplace_back(prev,0);
+            try {
+                n.lpoints.emplace_back(prev,0);
+            } catch(...) {
+                discard();
+                throw;
+            }
         }
 
         std::size_t new_points = n.lpoints.size() - static_cast<std::size_t>(first_i);
         if(new_points < 3) [[unlikely]] {
-            while(new_points-- > 0) {
-                n.lpoints.pop_back();
-            }
+            discard();
         } else {
             n.lpoints.back().next = first_i;
         }
-- 
2.43.0


From d8736ded4aaeb5f260253c7a3f3930bf05136872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 24/31] fix: make tracked tree results in the Python module

RecursiveLoop has no place for the originals; creating one with them raised
TypeError whenever tree_out and track_points were combined.
---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 6f2f13a..01680f9 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -440,7 +440,7 @@ cdef class PointMap:
 
 TrackedLoop = collections.namedtuple('TrackedLoop','loop originals')
 RecursiveLoop = collections.namedtuple('RecursiveLoop','loop children')
-TrackedRecursiveLoop = collections.namedtuple('RecursiveLoop','loop children originals')
+TrackedRecursiveLoop = collections.namedtuple('TrackedRecursiveLoop','loop children originals')
 
 cdef public object make_tracked_loop(loop,offsets,indices):
     return TrackedLoop(loop,PointMap.__new__(PointMap,offsets,indices))
@@ -449,7 +449,7 @@ cdef public object make_recur_loop(loop,children):
     return RecursiveLoop(loop,children)
 
 cdef public object make_tracked_recur_loop(loop,children,offsets,indices):
-    return RecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
+    return TrackedRecursiveLoop(loop,children,PointMap.__new__(PointMap,offsets,indices))
 
 cdef load_loop(clipper &c,loop,_bool_set bset,common_dtype,np.NPY_CASTING casting,i_point_tracker *pt):
     cdef np.ndarray ar
-- 
2.43.0


From ad43e686a6f00ce4d2cd7ec8e0c010982fdd033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 25/31] fix: refuse an invalid operand set in the Python
 clipper's add_offsets methods

---
 py/_polyops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 01680f9..23933eb 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -643,7 +643,7 @@ cdef class Clipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -734,7 +734,7 @@ cdef class TrackedClipper:
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,bset,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From 393c9b48eb20ed8965d1c7ebec7320e60fa1bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 26/31] fix: keep the Python clippers' result type in step with
 the loops that were added

When a loop in the middle of an iterable was refused, the ones before it stayed
in the clipper but their type was not taken into account.
---
 py/_polyops.pyx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index 23933eb..d2821a1 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -638,12 +638,19 @@ cdef class Clipper:
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip[0],loops,to_bool_set(bset),self.calc_dtype,casting,NULL)
+        cdef _bool_set bset_ = to_bool_set(bset)
+
+        # one at a time, so that this still agrees with what was added if one of
+        # the loops is refused
+        for loop in loops:
+            self.calc_dtype = load_loop(self._clip[0],loop,bset_,self.calc_dtype,casting,NULL)
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip[0],loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,NULL)
+        cdef _bool_set bset_ = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_offset(self._clip[0],loop,bset_,magnitude,step_size,closed,self.calc_dtype,casting,NULL)
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
@@ -729,12 +736,18 @@ cdef class TrackedClipper:
     cdef _add_loops(self,loops,bset,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_loops(self._clip.base,loops,to_bool_set(bset),self.calc_dtype,casting,self._clip.tracker.callbacks())
+        cdef _bool_set bset_ = to_bool_set(bset)
+
+        # see Clipper._add_loops
+        for loop in loops:
+            self.calc_dtype = load_loop(self._clip.base,loop,bset_,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     cdef _add_offsets(self,loops,bset,double magnitude,int step_size,bint closed,casting_obj):
         cdef np.NPY_CASTING casting
         common._casting_converter(casting_obj,&casting)
-        self.calc_dtype = load_offsets(self._clip.base,loops,to_bool_set(bset),magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
+        cdef _bool_set bset_ = to_bool_set(bset)
+        for loop in loops:
+            self.calc_dtype = load_offset(self._clip.base,loop,bset_,magnitude,step_size,closed,self.calc_dtype,casting,self._clip.tracker.callbacks())
 
     def add_loops(self,loops,bset,*,casting='same_kind'):
         self._add_loops(loops,bset,casting)
-- 
2.43.0


From f4bd67042b13dbd691874b05491e78a82f4db990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 27/31] fix: refuse sub-array dtypes for the results of the
 Python module

Arrays were created with extra dimensions and filled past their end.
---
 py/_polyops.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/_polyops.pyx b/py/_polyops.pyx
index d2821a1..df77a4c 100644
--- a/py/_polyops.pyx
+++ b/py/_polyops.pyx
@@ -499,6 +499,8 @@ cdef check_dtype(obj):
                 <np.dtype>obj,
                 np.NPY_UNSAFE_CASTING):
             raise TypeError('Cannot convert to the specified "dtype"')
+        if np.PyDataType_HASSUBARRAY(<np.dtype>obj):
+            raise TypeError('"dtype" cannot be a sub-array type')
     return obj
 
 cdef unary_op_(bint tree,loops,_bool_op op,casting_obj,dtype_obj,bint track_points):
-- 
2.43.0


From 33f95a0c83f0f2621d4bf33b977213a5a178ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 28/31] fix: count the coordinates left in an array instead of
 comparing addresses

With a stride of zero (e.g. broadcast arrays), the end of the run has the same
address as its start, so the loop ended after one point.
---
 py/common.pxd | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py/common.pxd b/py/common.pxd
index 7ab98f7..408118d 100644
--- a/py/common.pxd
+++ b/py/common.pxd
@@ -23,7 +23,7 @@ cdef extern from *:
 
         char *data;
         npy_intp stride;
-        const char *run_end;
+        npy_intp remaining; // the number of coordinates left in the inner loop
 
         polyops_npy_range(PyArrayObject *ar,int flag,NPY_CASTING casting) noexcept : itr{nullptr}, itr_next{nullptr}
         {
@@ -59,7 +59,7 @@ cdef extern from *:
         void read_pointers() {
             data = *data_ptr;
             stride = *stride_ptr;
-            run_end = data + *inner_size_ptr * stride;
+            remaining = *inner_size_ptr;
         }
 
         npy_point_iterator begin() noexcept;
@@ -74,7 +74,7 @@ cdef extern from *:
         polyops_npy_range *range;
 
         coord_t &operator[](npy_intp i) const noexcept {
-            assert((range->data + i*range->stride) != range->run_end);
+            assert(i < range->remaining);
             return *reinterpret_cast<coord_t*>(range->data + i*range->stride);
         }
 
@@ -104,7 +104,8 @@ cdef extern from *:
             assert(range && range->data);
 
             range->data += range->stride*2;
-            if(range->data == range->run_end) {
+            range->remaining -= 2;
+            if(range->remaining == 0) {
                 if(!(*range->itr_next)(range->itr)) range->data = nullptr;
                 else range->read_pointers();
             }
-- 
2.43.0


From f5fc6c13c4de066b5ec9429683006824c61b18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:24 +0000
Subject: [PATCH 29/31] fix: ask for aligned data when iterating over an array

---
 py/common.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/common.pxd b/py/common.pxd
index 408118d..8329f88 100644
--- a/py/common.pxd
+++ b/py/common.pxd
@@ -31,7 +31,7 @@ cdef extern from *:
             if(NPY_UNLIKELY(!dtype)) return;
             itr = NpyIter_New(
                 ar,
-                flag | NPY_ITER_REFS_OK | NPY_ITER_COPY | NPY_ITER_EXTERNAL_LOOP,
+                flag | NPY_ITER_REFS_OK | NPY_ITER_COPY | NPY_ITER_ALIGNED | NPY_ITER_EXTERNAL_LOOP,
                 NPY_CORDER,
                 casting,
                 dtype);
-- 
2.43.0


From d41d8431aad934301a9517a57e7a1fdc2b7df347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:38 +0000
Subject: [PATCH 30/31] fix: classes that satisfy the coordinate concept did
 not compile as coordinates

---
 include/poly_ops/clip.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index fdb120f..84b3756 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -616,7 +616,7 @@ template<typename Coord> std::tuple<bool,bool> dual_line_segment_up_ray_intersec
 }
 
 template<typename Coord> Coord hsign_of(const point_t<Coord> &delta) {
-    auto r = delta.x() ? delta.x() : delta.y();
+    auto r = delta.x() != 0 ? delta.x() : delta.y();
     POLY_OPS_ASSERT(r != 0);
     return r;
 }
@@ -1037,26 +1037,26 @@ template<typename Index,typename Coord> struct sweep_cmp {
     bool operator()(const cached_segment<Index,Coord> &s1,const cached_segment<Index,Coord> &s2) const {
         if(s1.pa.x() == s2.pa.x()) {
             Coord r = s1.pa.y() - s2.pa.y();
-            if(r) return r > 0;
+            if(r != 0) return r > 0;
             long_coord_t<Coord> r2 = triangle_winding(s1.pb,s1.pa,s2.pb);
-            if(r2) return r2 > 0;
+            if(r2 != 0) return r2 > 0;
             /* the lines are coincident and have the same start point but they
             might be pointing away from each other */
             r = s1.pb.y() - s2.pb.y();
-            if(r) return r > 0;
+            if(r != 0) return r > 0;
         } else if(s1.pa.x() < s2.pa.x()) {
             if(s1.pa.x() != s1.pb.x()) {
                 long_coord_t<Coord> r = triangle_winding(s1.pb,s1.pa,s2.pa);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
                 r = triangle_winding(s1.pb,s1.pa,s2.pb);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
             }
         } else {
             if(s2.pa.x() != s2.pb.x()) {
                 long_coord_t<Coord> r = triangle_winding(s2.pa,s2.pb,s1.pa);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
                 r = triangle_winding(s2.pa,s2.pb,s1.pb);
-                if(r) return r > 0;
+                if(r != 0) return r > 0;
             }
         }
 
@@ -1433,7 +1433,7 @@ void replace_line_indices_with_loop_indices(
             point_t<Coord> d = lpoints[i].data - end_point(lpoints,i);
             POLY_OPS_ASSERT(d.x() != Coord(0) || d.y() != Coord(0));
             inside[static_cast<std::size_t>(lpoints[i].aux.loop_index)]
-                += ((d.x() ? d.x() : d.y()) > 0) ? 1 : -1;
+                += ((d.x() != 0 ? d.x() : d.y()) > 0) ? 1 : -1;
         }
 
         POLY_OPS_DEBUG_LOG("{}: {}",
@@ -2491,11 +2491,11 @@ void clipper<Coord,Index>::do_op(bool_op op,i_point_tracker<Index> *pt,bool tree
         loops, always connect to the line that results in the greatest
         clock-wise turn */
         if(os->second.size() > 1) {
-            bool left = large_ints::negative(triangle_winding(lpoints[intr].data,p,non_anchor_end_point(lpoints,os->second[b_start])));
+            bool left = triangle_winding(lpoints[intr].data,p,non_anchor_end_point(lpoints,os->second[b_start])) < long_coord_t<Coord>(0);
             for(Index i=1; i<static_cast<Index>(os->second.size()); ++i) {
                 auto p3 = non_anchor_end_point(lpoints,os->second[i]);
-                bool i_left = large_ints::negative(triangle_winding(lpoints[intr].data,p,p3));
-                bool left_of_bs = large_ints::negative(triangle_winding(p,non_anchor_end_point(lpoints,os->second[b_start]),p3));
+                bool i_left = triangle_winding(lpoints[intr].data,p,p3) < long_coord_t<Coord>(0);
+                bool left_of_bs = triangle_winding(p,non_anchor_end_point(lpoints,os->second[b_start]),p3) < long_coord_t<Coord>(0);
                 if(!(left ? (i_left && left_of_bs) : (i_left || left_of_bs))) {
                     b_start = i;
                     left = i_left;
-- 
2.43.0


From e660638351c848a66998f93641150c90dd3142c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:19 +0000
Subject: [PATCH 31/31] fix: an exception of a coordinate comparison left an
 incomplete loop behind

When a point sink was destroyed, the comparison of the last point with the
first one was made outside the block that discards the loop, so a throwing
comparison (of a user's coordinate class) left lines that lead nowhere, and
the next operation crashed.
---
 include/poly_ops/clip.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/poly_ops/clip.hpp b/include/poly_ops/clip.hpp
index 84b3756..2ef6d06 100644
--- a/include/poly_ops/clip.hpp
+++ b/include/poly_ops/clip.hpp
@@ -2145,15 +2145,15 @@ clipper<Coord,Index>::point_sink::~point_sink() noexcept(false) {
     end-point indices. The sweep sets expect line segments with unique indices.
     */
     if(started) [[likely]] {
-        if(n.lpoints.size() == std::size_t(first_i)
-            || prev != n.lpoints[first_i].data) [[likely]]
-        {
-            try {
+        try {
+            if(n.lpoints.size() == std::size_t(first_i)
+                || prev != n.lpoints[first_i].data) [[likely]]
+            {
                 finalize_prev();
-            } catch(...) {
-                discard();
-                throw;
             }
+        } catch(...) {
+            discard();
+            throw;
         }
 
         std::size_t points_added = n.lpoints.size() - std::size_t(first_i);
-- 
2.43.0


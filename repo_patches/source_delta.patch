From 42b32e98d828a9f4a068cab551b47ef4f9cc1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 1/7] fix: segment relation with region for reflex vertices,
 clockwise borders and partially shared edges

---
 orient/core/region.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/orient/core/region.py b/orient/core/region.py
index c92ed39..21be48b 100644
--- a/orient/core/region.py
+++ b/orient/core/region.py
@@ -118,6 +118,11 @@ def relate_segment(region: Region,
     if (relation_with_contour is Relation.CROSS
             or relation_with_contour is Relation.COMPONENT):
         return relation_with_contour
+    elif relation_with_contour is Relation.OVERLAP:
+        # segment leaves the border
+        # and may lie on different sides of it at its ends
+        return relate_multisegment(region, context.multisegment_cls([segment]),
+                                   context)
     start, end = segment.start, segment.end
     start_index, start_location = _locate_point(region, start, context)
     if relation_with_contour is Relation.DISJOINT:
@@ -137,15 +142,11 @@ def relate_segment(region: Region,
         else:
             angle_orientation = context.angle_orientation
             border_orientation = contour_orientation(region, context)
-            positively_oriented = (border_orientation
-                                   is Orientation.COUNTERCLOCKWISE)
             vertices = region.vertices
             edge_start, edge_end = (vertices[start_index - 1],
                                     vertices[start_index])
             if start == edge_start:
-                prev_start = (vertices[start_index - 2]
-                              if positively_oriented
-                              else vertices[start_index])
+                prev_start = vertices[start_index - 2]
                 if (angle_orientation(prev_start, edge_start, edge_end)
                         is border_orientation):
                     if (angle_orientation(edge_start, prev_start, end)
@@ -158,9 +159,7 @@ def relate_segment(region: Region,
                       is border_orientation):
                     return Relation.TOUCH
             elif start == edge_end:
-                next_end = (vertices[(start_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - start_index - 3])
+                next_end = vertices[(start_index + 1) % len(vertices)]
                 if (angle_orientation(edge_start, edge_end, next_end)
                         is border_orientation):
                     if (angle_orientation(edge_end, edge_start, end)
@@ -168,18 +167,16 @@ def relate_segment(region: Region,
                             or angle_orientation(next_end, edge_end, end)
                             is border_orientation):
                         return Relation.TOUCH
-                    elif (angle_orientation(edge_end, edge_start, end)
-                          is angle_orientation(next_end, edge_end, end)
-                          is border_orientation):
-                        return Relation.TOUCH
+                elif (angle_orientation(edge_end, edge_start, end)
+                      is angle_orientation(next_end, edge_end, end)
+                      is border_orientation):
+                    return Relation.TOUCH
             elif (angle_orientation(edge_end, edge_start, end)
                   is border_orientation):
                 return Relation.TOUCH
             edge_start, edge_end = vertices[end_index - 1], vertices[end_index]
             if end == edge_start:
-                prev_start = (vertices[end_index - 2]
-                              if positively_oriented
-                              else vertices[end_index])
+                prev_start = vertices[end_index - 2]
                 if (angle_orientation(prev_start, edge_start, edge_end)
                         is border_orientation):
                     if (angle_orientation(edge_start, prev_start, start)
@@ -192,9 +189,7 @@ def relate_segment(region: Region,
                       is border_orientation):
                     return Relation.TOUCH
             elif end == edge_end:
-                next_end = (vertices[(end_index + 1) % len(vertices)]
-                            if positively_oriented
-                            else vertices[len(vertices) - end_index - 3])
+                next_end = vertices[(end_index + 1) % len(vertices)]
                 if (angle_orientation(edge_start, edge_end, next_end)
                         is border_orientation):
                     if (angle_orientation(edge_end, edge_start, start)
-- 
2.43.0


From 4b3637d51a11030b6ff372e8714a3d485be49bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 2/7] fix: detect crossing angles with more than two goal rays
 at a point

---
 orient/core/events_queue.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/orient/core/events_queue.py b/orient/core/events_queue.py
index 7c4ba58..2c91703 100644
--- a/orient/core/events_queue.py
+++ b/orient/core/events_queue.py
@@ -233,21 +233,15 @@ class LinearEventsQueue(EventsQueue):
              if event.from_test
              else from_goal_events).append(event)
         start = same_start_events[0].start
-        point_event_cosine = self._to_signed_point_event_squared_cosine
-        base_event = min(from_goal_events,
-                         key=partial(point_event_cosine,
-                                     from_goal_events[0].end))
-        base_end = base_event.end
-        largest_angle_event = min(from_goal_events,
-                                  key=partial(point_event_cosine, base_end))
-        largest_angle_end = largest_angle_event.end
-        base_orientation = self.context.angle_orientation(
-                start, base_end, largest_angle_end
-        )
-        if not all_equal(self._point_in_angle(test_event.end, start, base_end,
-                                              largest_angle_end,
-                                              base_orientation)
-                         for test_event in from_test_events):
+        base_end = from_goal_events[0].end
+        if not all(all_equal(self._point_in_angle(
+                test_event.end, start, base_end, goal_event.end,
+                self.context.angle_orientation(start, base_end,
+                                               goal_event.end))
+                             for test_event in from_test_events)
+                   for goal_event in from_goal_events[1:]):
+            # there are rays from test on both sides
+            # of some pair of rays from goal
             for event in same_start_events:
                 left_event = event if event.is_left else event.left
                 left_event.relation = max(left_event.relation,
@@ -321,14 +315,6 @@ class LinearEventsQueue(EventsQueue):
                                 # if angle is degenerate
                                 or Orientation.COUNTERCLOCKWISE))))
 
-    def _to_signed_point_event_squared_cosine(self,
-                                              point: Point,
-                                              event: Event) -> Scalar:
-        dot_product = self.context.dot_product(event.start, point, event.start,
-                                               event.end)
-        return ((2 * (dot_product > 0) - 1) * (dot_product * dot_product)
-                / self.context.points_squared_distance(event.start, event.end))
-
 
 class EventsQueueKey:
     __slots__ = 'orienteer', 'event'
-- 
2.43.0


From 25c3fa5425ba7717089941668054e507bd265470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 3/7] fix: segment and contour relations with polygon having
 holes touching its border

---
 orient/core/polygon.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index e20fa8d..57c776d 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -9,6 +9,7 @@ from ground.hints import (Contour,
                           Segment)
 
 from . import box
+from .contour import to_edges_endpoints as contour_to_edges_endpoints
 from .events_queue import CompoundEventsQueue
 from .hints import (Multiregion,
                     Region,
@@ -48,8 +49,14 @@ def relate_segment(polygon: Polygon,
                    context: Context) -> Relation:
     relation_without_holes = relate_segment_to_region(polygon.border, segment,
                                                       context)
-    if (polygon.holes and (relation_without_holes is Relation.WITHIN
+    if (polygon.holes and (relation_without_holes is Relation.CROSS
                            or relation_without_holes is Relation.ENCLOSED)):
+        # parts of segment which are on the border or outside of it
+        # can't be told apart from the ones in the polygon's interior
+        # by relation with holes alone
+        return relate_multisegment(polygon, context.multisegment_cls([segment]),
+                                   context)
+    elif polygon.holes and relation_without_holes is Relation.WITHIN:
         relation_with_holes = relate_segment_to_multiregion(polygon.holes,
                                                             segment, context)
         if relation_with_holes is Relation.DISJOINT:
@@ -91,8 +98,21 @@ def relate_contour(polygon: Polygon,
                                                       contour_bounding_box,
                                                       context)
     holes = polygon.holes
-    if holes and (relation_without_holes is Relation.ENCLOSED
-                  or relation_without_holes is Relation.WITHIN):
+    if holes and (relation_without_holes is Relation.CROSS
+                  or relation_without_holes is Relation.ENCLOSED):
+        # parts of contour which are on the border or outside of it
+        # can't be told apart from the ones in the polygon's interior
+        # by relation with holes alone
+        events_queue = CompoundEventsQueue(context)
+        events_queue.register(to_oriented_edges_endpoints(polygon, context),
+                              from_test=False)
+        events_queue.register(contour_to_edges_endpoints(contour),
+                              from_test=True)
+        return process_linear_compound_queue(
+                events_queue, min(contour_bounding_box.max_x,
+                                  context.polygon_box(polygon).max_x)
+        )
+    elif holes and relation_without_holes is Relation.WITHIN:
         relation_with_holes = relate_contour_to_multiregion(
                 holes, contour, contour_bounding_box, context
         )
-- 
2.43.0


From ab7f86b00b5df83496e6ad157d9ba9f78265acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 4/7] fix: cross relation of contours which cross each other
 only in common vertices

---
 orient/core/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index a112357..94b7f48 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -103,7 +103,7 @@ def process_closed_linear_queue(events_queue: CompoundEventsQueue,
                   else Relation.TOUCH)
                  if (has_no_cross
                      and (test_boundary_not_in_goal_interior
-                          is goal_boundary_not_in_test_interior))
+                          and goal_boundary_not_in_test_interior))
                  else Relation.CROSS)
                 if has_no_overlap
                 else Relation.OVERLAP)
-- 
2.43.0


From a28f81b7d78411f7fdce29ae4449e14fe58f7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:11 +0000
Subject: [PATCH 5/7] fix: relation of linear geometry crossing edge in a point
 where border touches itself

---
 orient/core/processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index 94b7f48..363ff3c 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -116,9 +116,9 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
     test_not_in_goal_interior = has_no_touch = True
     test_is_subset_of_goal = goal_border_subset_of_test = True
     for event in events_queue.sweep(stop_x):
-        if event.relation is SegmentsRelation.CROSS:
-            return Relation.CROSS
-        elif has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
+        # goal's border may touch itself in a point of crossing,
+        # so it is not enough to say that the test leaves the goal's interior
+        if has_no_touch and event.relation is not SegmentsRelation.DISJOINT:
             has_no_touch = False
         if event.from_test:
             if test_is_subset_of_goal and event.outside:
-- 
2.43.0


From a05aafd398dd5f541acdb825ec0cb0202ff51e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 6/7] fix: polygons relation when one hole touches other's
 border and another lies in its hole

---
 orient/core/polygon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orient/core/polygon.py b/orient/core/polygon.py
index 57c776d..b03d37c 100644
--- a/orient/core/polygon.py
+++ b/orient/core/polygon.py
@@ -316,7 +316,9 @@ def relate_polygon(goal: Polygon,
                       or holes_relation is Relation.ENCLOSED):
                     return Relation.ENCLOSED
                 elif holes_relation is Relation.WITHIN:
-                    return borders_relation
+                    return (borders_relation
+                            if none_touch
+                            else Relation.ENCLOSED)
                 else:
                     return Relation.OVERLAP
             else:
@@ -368,7 +370,9 @@ def relate_polygon(goal: Polygon,
                   or holes_relation is Relation.ENCLOSED):
                 return Relation.ENCLOSES
             elif holes_relation is Relation.WITHIN:
-                return borders_relation
+                return (borders_relation
+                        if none_touch
+                        else Relation.ENCLOSES)
             else:
                 return Relation.OVERLAP
         else:
-- 
2.43.0


From 0cce9a8273c1dfc527af5c5f9471f493fe81c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:04 +0000
Subject: [PATCH 7/7] fix: relation of multisegment that covers whole border
 and lies on both sides of it

---
 orient/core/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orient/core/processing.py b/orient/core/processing.py
index 363ff3c..e788416 100644
--- a/orient/core/processing.py
+++ b/orient/core/processing.py
@@ -139,7 +139,9 @@ def process_linear_compound_queue(events_queue: CompoundEventsQueue,
                  if test_not_in_goal_interior
                  else Relation.ENCLOSED)
                 if test_is_subset_of_goal
-                else Relation.TOUCH)
+                else (Relation.TOUCH
+                      if test_not_in_goal_interior
+                      else Relation.CROSS))
     elif test_is_subset_of_goal:
         return (Relation.COMPONENT
                 if test_not_in_goal_interior
-- 
2.43.0


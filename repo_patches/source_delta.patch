From efcc8ae3e9e1582909724cb24ceb92de81980763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 01/22] fix: Tracker.update(None, coord_transformations=...)
 iterated over None

---
 norfair/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 275ecee..1aced94 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -176,7 +176,7 @@ class Tracker:
         List[TrackedObject]
             The list of active tracked objects.
         """
-        if coord_transformations is not None:
+        if coord_transformations is not None and detections is not None:
             for det in detections:
                 det.update_coordinate_transformation(coord_transformations)
 
-- 
2.43.0


From 2a4f0ad0eb9b05e3383ffea3d4097fc2fed09ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 02/22] fix: detection fed twice had its absolute points
 transformed twice

---
 norfair/tracker.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 1aced94..4edef2f 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -787,6 +787,4 @@ class Detection:
         self, coordinate_transformation: CoordinatesTransformation
     ):
         if coordinate_transformation is not None:
-            self.absolute_points = coordinate_transformation.rel_to_abs(
-                self.absolute_points
-            )
+            self.absolute_points = coordinate_transformation.rel_to_abs(self.points)
-- 
2.43.0


From 8811f94eda54da69e2724e3158310092b00c80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 03/22] fix: first-detection mask was laid out by dimension
 instead of by point

---
 norfair/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 4edef2f..0305f7b 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -662,8 +662,8 @@ class TrackedObject:
         detected_at_least_once_mask = np.array(
             [(m,) * self.dim_points for m in self.detected_at_least_once_points]
         ).flatten()
-        now_detected_mask = np.hstack(
-            (points_over_threshold_mask,) * self.dim_points
+        now_detected_mask = np.array(
+            [(m,) * self.dim_points for m in points_over_threshold_mask]
         ).flatten()
         first_detection_mask = np.logical_and(
             now_detected_mask, np.logical_not(detected_at_least_once_mask)
-- 
2.43.0


From a2b070366fdcbff1e27b5382965fa723cae8cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 04/22] fix: object matched again kept its ReID countdown
 running and was destroyed

---
 norfair/tracker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index 0305f7b..c63c345 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -625,6 +625,7 @@ class TrackedObject:
         self._conditionally_add_to_past_detections(detection)
 
         self.last_detection = detection
+        self.reid_hit_counter = None
         self.hit_counter = min(self.hit_counter + 2 * period, self.hit_counter_max)
 
         if self.is_initializing and self.hit_counter > self.initialization_delay:
-- 
2.43.0


From 553cfe514c4c99803c8b89a066bea772a7535d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 05/22] fix: dead objects that never initialized were kept as
 ReID targets

---
 norfair/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/tracker.py b/norfair/tracker.py
index c63c345..29f12cd 100644
--- a/norfair/tracker.py
+++ b/norfair/tracker.py
@@ -191,7 +191,9 @@ class Tracker:
         else:
             tracked_objects = []
             for o in self.tracked_objects:
-                if o.reid_hit_counter_is_positive:
+                if o.reid_hit_counter_is_positive and (
+                    o.hit_counter_is_positive or not o.is_initializing
+                ):
                     tracked_objects.append(o)
                     if o.hit_counter_is_positive:
                         alive_objects.append(o)
-- 
2.43.0


From ebe58835fc3ba7247b9644172c89f2fa1dc13e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 06/22] fix: vectorized distances compared the text of labels
 instead of the labels

---
 norfair/distances.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/norfair/distances.py b/norfair/distances.py
index d7d7e4c..3af9d43 100644
--- a/norfair/distances.py
+++ b/norfair/distances.py
@@ -151,26 +151,23 @@ class VectorizedDistance(Distance):
         if not objects or not candidates:
             return distance_matrix
 
-        object_labels = np.array([o.label for o in objects]).astype(str)
-        candidate_labels = np.array([c.label for c in candidates]).astype(str)
-
         # iterate over labels that are present both in objects and detections
-        for label in np.intersect1d(
-            np.unique(object_labels), np.unique(candidate_labels)
-        ):
+        for label in {o.label for o in objects}:
             # generate masks of the subset of object and detections for this label
-            obj_mask = object_labels == label
-            cand_mask = candidate_labels == label
+            obj_mask = np.array([bool(o.label == label) for o in objects])
+            cand_mask = np.array([bool(c.label == label) for c in candidates])
+            if not (obj_mask.any() and cand_mask.any()):
+                continue
 
             stacked_objects = []
             for o in objects:
-                if str(o.label) == label:
+                if o.label == label:
                     stacked_objects.append(o.estimate.ravel())
             stacked_objects = np.stack(stacked_objects)
 
             stacked_candidates = []
             for c in candidates:
-                if str(c.label) == label:
+                if c.label == label:
                     if "Detection" in str(type(c)):
                         stacked_candidates.append(c.points.ravel())
                     else:
-- 
2.43.0


From 8cabf8b5e33ecf3b50ec7a5bbbfc9d53ce8d1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 07/22] fix: draw_points returned None instead of the frame
 when there is nothing to draw

---
 norfair/drawing/draw_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index e513e30..23edaf5 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -113,7 +113,7 @@ def draw_points(
     # end
 
     if drawables is None:
-        return
+        return frame
 
     if text_color is not None:
         text_color = parse_color(text_color)
-- 
2.43.0


From c48ce4278f8941f84feb840478fe37ed73dfe999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 08/22] fix: uppercase hex colors were rejected

---
 norfair/drawing/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/drawing/color.py b/norfair/drawing/color.py
index 40fc4d9..23e1d1f 100644
--- a/norfair/drawing/color.py
+++ b/norfair/drawing/color.py
@@ -25,7 +25,7 @@ def hex_to_bgr(hex_value: str) -> ColorType:
     ValueError
         if the string is invalid
     """
-    if re.match("#[a-f0-9]{6}$", hex_value):
+    if re.match("#[a-fA-F0-9]{6}$", hex_value):
         return (
             int(hex_value[5:7], 16),
             int(hex_value[3:5], 16),
-- 
2.43.0


From 5ebd283e9f553351bff991268e64000f4e9cf71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 09/22] fix: output file of a camera was named after the
 unformatted template

---
 norfair/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/video.py b/norfair/video.py
index 83abbd4..58828e1 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -258,7 +258,7 @@ class Video:
         if self.input_path is not None:
             file_name = self.input_path.split("/")[-1].split(".")[0]
         else:
-            file_name = "camera_{self.camera}"
+            file_name = f"camera_{self.camera}"
         file_name = f"{file_name}_out.{self.output_extension}"
 
         return os.path.join(self.output_path, file_name)
-- 
2.43.0


From a06d4c8e2c81a111711cd26e4241aee16fab4f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 10/22] fix: Video.show passed float sizes to cv2.resize

---
 norfair/video.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/video.py b/norfair/video.py
index 58828e1..29828d4 100644
--- a/norfair/video.py
+++ b/norfair/video.py
@@ -234,8 +234,8 @@ class Video:
             frame = cv2.resize(
                 frame,
                 (
-                    frame.shape[1] // downsample_ratio,
-                    frame.shape[0] // downsample_ratio,
+                    int(frame.shape[1] // downsample_ratio),
+                    int(frame.shape[0] // downsample_ratio),
                 ),
             )
         cv2.imshow("Output", frame)
-- 
2.43.0


From 3d52eb2e88e9fa80850a1e4f44b7a71022463dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 11/22] fix: pandas placeholder was bound to a name nobody uses

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index b1e056d..d99ff5e 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -13,7 +13,7 @@ except ImportError:
     from .utils import DummyMOTMetricsImport
 
     mm = DummyMOTMetricsImport()
-    pandas = DummyMOTMetricsImport()
+    pd = DummyMOTMetricsImport()
 from collections import OrderedDict
 
 
-- 
2.43.0


From 5be4c56f89466ff1f644e491b4dbf4052e76a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 12/22] fix: print_objects_as_table failed on objects that were
 never matched

---
 norfair/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/utils.py b/norfair/utils.py
index 98e0d90..0e58b3e 100644
--- a/norfair/utils.py
+++ b/norfair/utils.py
@@ -41,7 +41,7 @@ def print_objects_as_table(tracked_objects: Sequence):
             str(obj.id),
             str(obj.age),
             str(obj.hit_counter),
-            f"{obj.last_distance:.4f}",
+            "-" if obj.last_distance is None else f"{obj.last_distance:.4f}",
             str(obj.initializing_id),
         )
     console.print(table)
-- 
2.43.0


From 3cc830d5e475c5df7ecee3a152e375e5164088e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 13/22] fix: DetectionFileParser failed on a file with a single
 detection

---
 norfair/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index d99ff5e..191494e 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -110,7 +110,9 @@ class DetectionFileParser:
         # frame, id, bb_left, bb_top, bb_right, bb_down, conf, x, y, z
         detections_path = os.path.join(input_path, "det/det.txt")
 
-        self.matrix_detections = np.loadtxt(detections_path, dtype="f", delimiter=",")
+        self.matrix_detections = np.loadtxt(
+            detections_path, dtype="f", delimiter=",", ndmin=2
+        )
         row_order = np.argsort(self.matrix_detections[:, 0])
         self.matrix_detections = self.matrix_detections[row_order]
         # Coordinates refer to box corners
-- 
2.43.0


From 11c0f7615255a8af9d34ea34fab282462e939283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 14/22] fix: a video with a single prediction could not be
 evaluated

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 191494e..153b601 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -205,7 +205,7 @@ class Accumulators:
                 -1,
             ]
             if np.shape(self.matrix_predictions)[0] == 0:
-                self.matrix_predictions = new_row
+                self.matrix_predictions = np.array([new_row])
             else:
                 self.matrix_predictions = np.vstack((self.matrix_predictions, new_row))
         self.frame_number += 1
-- 
2.43.0


From 02b1d0a4a2af41c9ebf902a3942ad7620e10722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 15/22] fix: Accumulators.update() without predictions iterated
 over None

---
 norfair/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/norfair/metrics.py b/norfair/metrics.py
index 153b601..c80784b 100644
--- a/norfair/metrics.py
+++ b/norfair/metrics.py
@@ -191,7 +191,7 @@ class Accumulators:
 
     def update(self, predictions=None):
         # Get the tracked boxes from this frame in an array
-        for obj in predictions:
+        for obj in predictions if predictions is not None else []:
             new_row = [
                 self.frame_number,
                 obj.id,
-- 
2.43.0


From 40f4a4bd20533ea5db67f502d3fd07cf643acfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:40 +0000
Subject: [PATCH 16/22] fix: draw_boxes treated deprecated flags set to False
 as if they were True

---
 norfair/drawing/draw_boxes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/draw_boxes.py b/norfair/drawing/draw_boxes.py
index 57789db..756fa25 100644
--- a/norfair/drawing/draw_boxes.py
+++ b/norfair/drawing/draw_boxes.py
@@ -100,12 +100,14 @@ def draw_boxes(
         warn_once(
             'Parameter "random_color" is deprecated, set `color="random"` instead'
         )
-        color = "random"
+        if random_color:
+            color = "random"
     if color_by_label is not None:
         warn_once(
             'Parameter "color_by_label" is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once('Parameter "detections" is deprecated, use "drawables" instead')
         drawables = detections
-- 
2.43.0


From 64775b80ee6ee2a2139db675abdf88216fe3bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 17/22] fix: draw_points treated color_by_label=False as if it
 were True

---
 norfair/drawing/draw_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index 23edaf5..de00971 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -99,7 +99,8 @@ def draw_points(
         warn_once(
             'Parameter "color_by_label" on function draw_points is deprecated, set `color="by_label"` instead'
         )
-        color = "by_label"
+        if color_by_label:
+            color = "by_label"
     if detections is not None:
         warn_once(
             "Parameter 'detections' on function draw_points is deprecated, use 'drawables' instead"
-- 
2.43.0


From 3a1efa51e756a89883f88a0a1e010dd2c58069f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 18/22] fix: a Drawable built without live_points could not be
 drawn

---
 norfair/drawing/drawer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/norfair/drawing/drawer.py b/norfair/drawing/drawer.py
index 8365714..903c80d 100644
--- a/norfair/drawing/drawer.py
+++ b/norfair/drawing/drawer.py
@@ -356,6 +356,8 @@ class Drawable:
             self.id = id
             self.label = label
             self.scores = scores
+            if live_points is None and points is not None:
+                live_points = np.ones(points.shape[0]).astype(bool)
             self.live_points = live_points
         else:
             raise ValueError(
-- 
2.43.0


From d34dd7a5275ab2512b5cd1b10edc95e4679ad812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 19/22] fix: text of an object without live points was placed
 at NaN

---
 norfair/drawing/draw_points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/norfair/drawing/draw_points.py b/norfair/drawing/draw_points.py
index de00971..4ceef70 100644
--- a/norfair/drawing/draw_points.py
+++ b/norfair/drawing/draw_points.py
@@ -161,7 +161,8 @@ def draw_points(
                     )
 
         if draw_labels or draw_ids or draw_scores:
-            position = d.points[d.live_points].mean(axis=0)
+            text_points = d.points[d.live_points] if d.live_points.any() else d.points
+            position = text_points.mean(axis=0)
             position -= radius
             text = _build_text(
                 d, draw_labels=draw_labels, draw_ids=draw_ids, draw_scores=draw_scores
-- 
2.43.0


From 5e844c4e603d81379e19b722f8e341e8c2547371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 20/22] fix: FixedCamera failed on frames without a coordinate
 transformation

---
 norfair/drawing/fixed_camera.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/fixed_camera.py b/norfair/drawing/fixed_camera.py
index 6c04906..e0359b2 100644
--- a/norfair/drawing/fixed_camera.py
+++ b/norfair/drawing/fixed_camera.py
@@ -99,9 +99,12 @@ class FixedCamera:
         top_left = (
             np.array(self._background.shape[:2]) // 2 - np.array(frame.shape[:2]) // 2
         )
-        top_left = (
-            coord_transformation.rel_to_abs(top_left[::-1]).round().astype(int)[::-1]
-        )
+        if coord_transformation is not None:
+            top_left = (
+                coord_transformation.rel_to_abs(top_left[::-1])
+                .round()
+                .astype(int)[::-1]
+            )
         # box of the background that will be updated and the limits of it
         background_y0, background_y1 = (top_left[0], top_left[0] + frame.shape[0])
         background_x0, background_x1 = (top_left[1], top_left[1] + frame.shape[1])
-- 
2.43.0


From ec017e3bd5e6df7b407f3deff9183b23a6d0ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 21/22] fix: AbsolutePaths.draw failed when no coordinate
 transformation is given

---
 norfair/drawing/path.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/norfair/drawing/path.py b/norfair/drawing/path.py
index 8029441..0213fa8 100644
--- a/norfair/drawing/path.py
+++ b/norfair/drawing/path.py
@@ -202,7 +202,12 @@ class AbsolutePaths:
 
             points_to_draw = self.get_points_to_draw(obj.get_estimate(absolute=True))
 
-            for point in coord_transform.abs_to_rel(points_to_draw):
+            if coord_transform is None:
+                abs_to_rel = obj.abs_to_rel
+            else:
+                abs_to_rel = coord_transform.abs_to_rel
+
+            for point in abs_to_rel(points_to_draw):
                 Drawer.circle(
                     frame,
                     position=tuple(point.astype(int)),
@@ -214,8 +219,8 @@ class AbsolutePaths:
             last = points_to_draw
             for i, past_points in enumerate(self.past_points[obj.id]):
                 overlay = frame.copy()
-                last = coord_transform.abs_to_rel(last)
-                for j, point in enumerate(coord_transform.abs_to_rel(past_points)):
+                last = abs_to_rel(last)
+                for j, point in enumerate(abs_to_rel(past_points)):
                     Drawer.line(
                         overlay,
                         tuple(last[j].astype(int)),
-- 
2.43.0


From 0b01be1fc0e9ec6e50342b83bc7f9ead80b81ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:49 +0000
Subject: [PATCH 22/22] fix: Drawer.cross accepts the documented tuple center

---
 norfair/drawing/drawer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/norfair/drawing/drawer.py b/norfair/drawing/drawer.py
index 903c80d..49fc2a9 100644
--- a/norfair/drawing/drawer.py
+++ b/norfair/drawing/drawer.py
@@ -205,8 +205,8 @@ class Drawer:
             The resulting frame.
         """
         middle_x, middle_y = center
-        left, top = center - radius
-        right, bottom = center + radius
+        left, top = middle_x - radius, middle_y - radius
+        right, bottom = middle_x + radius, middle_y + radius
         frame = cls.line(
             frame,
             start=(middle_x, top),
-- 
2.43.0


From da882c21707e8298d81c25f859aa5c472ef0051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 01/50] fix: linearize_arc default method raised NameError

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index da8a3c0..c47cf93 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -231,7 +231,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     """
     # set defaults
     if method_class is None:
-        method_class = DEFAULT_LA_method_class
+        method_class = DEFAULT_LA_METHOD
     if plane is None:
         plane = DEFAULT_LA_PLANE()
     if dist_mode is None:
-- 
2.43.0


From b9b249bb3c7266b7021ad9c7a2b50ca460103fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 02/50] fix: arc parameter errors died with NameError instead
 of GCodeParameterError

---
 src/pygcode/gcodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a2e5f34..233c661 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -432,17 +432,17 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Groups
         # XYZ: at least 1
         if not params_xyz:
-            raise GCodeParameterError("no XYZ parameters set for destination: %r" % arc_gcode)
+            raise GCodeParameterError("no XYZ parameters set for destination: %r" % self)
         # IJK or R: only in 1 group
         if params_ijk and params_r:
-            raise GCodeParameterError("both IJK and R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("both IJK and R parameters defined: %r" % self)
         # IJKR: at least 1
         if not params_ijkr:
-            raise GCodeParameterError("neither IJK or R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("neither IJK or R parameters defined: %r" % self)
 
         # --- Parameter Values
         if params_r and (self.R == 0):
-            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
-- 
2.43.0


From 663d9bc8f80e4f2a75e2f92a8a7345866fc36973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 03/50] fix: copied State lost its coordinate systems and the
 selected one

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 46c2ad5..aeebbbb 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -242,7 +242,8 @@ class State(object):
 
     def __copy__(self):
         obj = self.__class__(axes=self._axes)
-        obj.coord_systems = [copy(cs) for cs in self.coord_systems]
+        obj.coord_systems = dict((k, copy(cs)) for (k, cs) in self.coord_systems.items())
+        obj.cur_coord_sys = self.cur_coord_sys
         obj.offset = copy(self.offset)
         return obj
 
-- 
2.43.0


From fb1e4439a9f1fd2f2781903374f307b0bb961a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 04/50] fix: setting Position.unit did not convert the
 coordinates

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index aeebbbb..de50dd9 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -77,7 +77,7 @@ class Position(object):
         elif key in self.POSSIBLE_AXES:
             raise MachineInvalidAxis("'%s' axis is not defined to be set" % key)
         else:
-            self.__dict__[key] = value
+            super(Position, self).__setattr__(key, value)
 
     # Equality
     def __eq__(self, other):
-- 
2.43.0


From 58db43852a2434246cf257df4de5334c1f321828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 05/50] fix: Position.min/max returned a position with extra
 axes

---
 src/pygcode/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index de50dd9..83de89b 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -153,6 +153,7 @@ class Position(object):
             p2 = copy(p2)
             p2.unit = p1.unit
         return cls(
+            axes=p1.axes,
             unit=p1.unit,
             **dict(
                 (k, key(getattr(p1, k), getattr(p2, k))) for k in p1.values
-- 
2.43.0


From 224c2dc2f7e149048c65ac29874800bc8f7eb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 06/50] fix: words with more than 6 digits lost precision when
 printed

---
 src/pygcode/dialects/linuxcnc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 7dbe096..996bf44 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -26,13 +26,14 @@ REGEX_CODE = re.compile(r'^\s*\d+(\.\d)?') # float, but can't be negative
 # Value cleaning functions
 def _clean_codestr(value):
     if value < 10:
-        return "0%g" % value
-    return "%g" % value
+        return "0%.15g" % value
+    return "%.15g" % value
 
 CLEAN_NONE = lambda v: v
-CLEAN_FLOAT = lambda v: "{0:g}".format(round(v, 3))
+# fixed-point ('g' drops digits of large values, and may give an exponent)
+CLEAN_FLOAT = lambda v: "{0:.3f}".format(round(v, 3)).rstrip('0').rstrip('.')
 CLEAN_CODE = _clean_codestr
-CLEAN_INT = lambda v: "%g" % v
+CLEAN_INT = lambda v: "%d" % v
 
 WORD_MAP = {
     # Descriptions copied from wikipedia:
-- 
2.43.0


From c33606e3bab605b36ced75dd16e017ddeb552c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 07/50] fix: a '%' inside a bracketed comment was taken for a
 macro

---
 src/pygcode/line.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index b4f4aef..947e7f4 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -5,7 +5,10 @@ from .block import Block
 
 class Line(object):
 
-    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*%?)?\s*$')
+    # note: a '%' inside a bracketed comment does not start a macro
+    line_regex = re.compile(
+        r'^(?P<block_and_comment>(\([^\)\n]*\)|\((?![^\)\n]*\))|[^\(%\n])*?)(?P<macro>%.*%?)?\s*$'
+    )
 
     def __init__(self, text=None):
         self._text = text
-- 
2.43.0


From e4a26a18797a62fa628632243224fafdc919d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 08/50] fix: lines mixing comment styles leaked comment text
 into the block

---
 src/pygcode/comment.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 5e9b170..2967c27 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -17,7 +17,7 @@ class CommentBase(object):
 class CommentSemicolon(CommentBase):
     "Comments of the format: 'G00 X1 Y2 ; something profound'"
     ORDER = 1
-    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*)$')
+    AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*?)\s*$')
 
     def __str__(self):
         return "; {text}".format(text=self.text)
@@ -47,16 +47,22 @@ def split_line(line_text):
     comments = []
     block_str = line_text.rstrip("\n") # to remove potential return carriage from comment body
 
-    for cls in sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER):
-        matches = list(cls.AUTO_REGEX.finditer(block_str))
-        if matches:
-            for match in reversed(matches):
-                # Build list of comment text
-                comments.insert(0, match.group('text'))  # prepend
-                # Remove comments from given block_str
-                block_str = block_str[:match.start()] + block_str[match.end():]
-            comments_class = cls
+    classes = sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER)
+    while True:
+        # Left-most comment of any type (a comment cannot start within another)
+        matches = [
+            (match, cls) for (match, cls) in ((c.AUTO_REGEX.search(block_str), c) for c in classes)
+            if match
+        ]
+        if not matches:
             break
+        (match, cls) = min(matches, key=lambda x: x[0].start())
+        # Build list of comment text
+        comments.append(match.group('text'))
+        # Remove comment from given block_str
+        block_str = block_str[:match.start()] + block_str[match.end():]
+        if (comments_class is None) or (cls.ORDER < comments_class.ORDER):
+            comments_class = cls
 
     # Create comment instance if content was found
     comment_obj = None
-- 
2.43.0


From b0d5ba68fa54f2d3652c6de7e8aa717a6c296f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 09/50] fix: arcs in the G18 and G19 planes were linearized
 with the wrong angle

---
 src/pygcode/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index c47cf93..4734426 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -324,8 +324,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
-    xy_c2start = plane.quat * (arc_p_start - arc_p_center)
-    xy_c2end = plane.quat * (arc_p_end - arc_p_center)
+    xy_c2start = plane.quat.conjugated() * (arc_p_start - arc_p_center)
+    xy_c2end = plane.quat.conjugated() * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
     if isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
-- 
2.43.0


From 121cc18be26f8c50c2a3bb9ac5c9f5230f4eb2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 10/50] fix: exact half circles were refused because of
 floating point noise

---
 src/pygcode/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 4734426..abb15f8 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -214,6 +214,7 @@ DEFAULT_LA_METHOD = ArcLinearizeMid
 DEFAULT_LA_PLANE = GCodeSelectXYPlane
 DEFAULT_LA_DISTMODE = GCodeAbsoluteDistanceMode
 DEFAULT_LA_ARCDISTMODE = GCodeIncrementalArcDistanceMode
+LA_TOLERANCE = 1e-6  # lengths shorter than this are floating point noise
 
 def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
                   dist_mode=None, arc_dist_mode=None,
@@ -300,8 +301,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
-    if arc_radius < abs(arc_span_mid):
+    if arc_radius < abs(arc_span_mid) - LA_TOLERANCE:
         raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
+    # half circles: don't let floating point noise exclude the endpoint
+    arc_radius = max(arc_radius, abs(arc_span_mid))
     # vector from arc_span midpoint -> circle's centre
     radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(arc_radius**2 - abs(arc_span_mid)**2)
 
-- 
2.43.0


From a2a26dfa0c2e9f33fcde5db5d1cc06cb9631a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 11/50] fix: full circles were linearized to a single point

---
 src/pygcode/transform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index abb15f8..ecb4a0b 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -297,6 +297,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
 
         # average the 2 radii to get the most accurate radius
         arc_radius = (abs(r1) + abs(r2)) / 2.
+        if arc_radius < LA_TOLERANCE:
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
 
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
@@ -314,7 +316,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_start + arc_span_mid - radius_mid_vect
         else:
             arc_p_center = arc_p_start + arc_span_mid + radius_mid_vect
-    else:
+    elif abs(arc_span) >= LA_TOLERANCE:  # else: full circle, centre is as defined by IJK
         # IJK: radius vertex specified
         # arc_p_center is defined as per IJK params, this is an adjustment
         arc_p_center_options = [
@@ -334,6 +336,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
+    if abs(arc_span) < LA_TOLERANCE:  # full circle
+        arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From aeb0561536d7e6081d27fd7db5656a55b210c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 12/50] fix: canned cycles that move only one of X and Y could
 not be expanded

---
 src/pygcode/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index ecb4a0b..4d2727d 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -430,11 +430,15 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
-                cur_hole_p_axis = Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis = Vector3(
+                    # axes not given remain where they are
+                    x=start_pos.X if canned_gcode.X is None else canned_gcode.X,
+                    y=start_pos.Y if canned_gcode.Y is None else canned_gcode.Y,
+                )
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
-                cur_hole_p_axis += Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis += Vector3(x=canned_gcode.X or 0., y=canned_gcode.Y or 0.)
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
-- 
2.43.0


From 6a6a79e136760dad62660a8c8ff64fe7f7cea5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 13/50] fix: expanding a peck drilling cycle without Q never
 ended

---
 src/pygcode/transform.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 4d2727d..45f8f75 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,6 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
+from .gcodes import GCodeThreadingCycle
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
 
@@ -421,6 +422,15 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
 
+    # Required parameters
+    if isinstance(canned_gcode, GCodeThreadingCycle):
+        raise NotImplementedError("simplifying %r is not supported" % canned_gcode)
+    if (canned_gcode.R is None) or (canned_gcode.Z is None):
+        raise GCodeParameterError("canned cycle needs both R and Z parameters: %r" % canned_gcode)
+    if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)) and not canned_gcode.Q:
+        # (drilling would never reach the bottom of the hole)
+        raise GCodeParameterError("canned cycle needs a non-zero Q parameter: %r" % canned_gcode)
+
     @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
     def inner():
         cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
-- 
2.43.0


From 7ed6d758f4e3bb6ae97c89f34fc1bae27e8d5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 14/50] fix: expanded boring cycles did not dwell nor feed out,
 dwell time was ignored

---
 src/pygcode/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 45f8f75..fd6460a 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,7 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
-from .gcodes import GCodeThreadingCycle
+from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut, GCodeThreadingCycle
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
 
@@ -497,8 +497,13 @@ def simplify_canned_cycle(canned_gcode, start_pos,
                 last_depth = cur_depth
 
             # Dwell
-            if isinstance(canned_gcode, GCodeDrillingCycleDwell):
-                yield GCodeDwell(P=0.5) # TODO: configurable pause
+            if isinstance(canned_gcode, (GCodeDrillingCycleDwell, GCodeBoringCycleDwellFeedOut)):
+                # default pause is 0.5  (TODO: configurable pause)
+                yield GCodeDwell(P=0.5 if canned_gcode.P is None else canned_gcode.P)
+
+            # Feed out of hole
+            if isinstance(canned_gcode, (GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut)):
+                yield GCodeLinearMove(Z=retract_depth)
 
             # Return
             yield GCodeRapidMove(Z=final_depth)
-- 
2.43.0


From 7cc70d6e4d9ee2d2a60d4579da2014b6945e2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 15/50] fix: canned cycle on a machine without a plane selected
 raised AttributeError

---
 src/pygcode/gcodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 233c661..31832af 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -544,14 +544,15 @@ class GCodeCannedCycle(GCode):
 
     def _process(self, machine):
         moveto_coords = self.get_param_dict(letters=machine.axes)
+        plane = machine.mode.plane_selection or GCodeSelectXYPlane()  # default to XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
             moveto_coords.update({
-                machine.mode.plane_selection.normal_axis: self.R,
+                plane.normal_axis: self.R,
             })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
-            moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+            moveto_coords.pop(plane.normal_axis, None)
 
         # Process action 'L' times
         loop_count = self.L
-- 
2.43.0


From 0c67fa62a0c8327c0ea9aab0ee9509c8c8d508e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 16/50] fix: repeated incremental canned cycle accumulated its
 return level

---
 src/pygcode/gcodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 31832af..7b429cc 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -560,6 +560,8 @@ class GCodeCannedCycle(GCode):
             loop_count = 1
         for i in range(loop_count):
             machine.move_to(**moveto_coords)
+            # return level is the same for all holes (not accumulated if incremental)
+            moveto_coords.pop(plane.normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From 89e2a9881c5aa83c42ed4207d8bc152a510a57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 17/50] fix: pygcode-norm ignored the retract mode (G99) when
 expanding canned cycles

---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 8b721d9..755afc1 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -344,6 +344,7 @@ for line_str in args.infile.readlines():
                 'start_pos': machine.pos,
                 'plane': machine.mode.plane_selection,
                 'dist_mode': machine.mode.distance,
+                'retract_mode': machine.mode.canned_cycles_return,
                 'axes': machine.axes,
             }
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
-- 
2.43.0


From 6cff9011ebf1f881df97196a5a8504c603abe4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 18/50] fix: pygcode-norm --singles dropped modal parameters
 and macros

---
 scripts/pygcode-norm | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 755afc1..78a9cef 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -17,7 +17,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Word
         from pygcode import Machine, Mode, Line
         from pygcode import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
-        from pygcode import GCodeCannedCycle
+        from pygcode import GCodeMotion, GCodeCannedCycle
         from pygcode import GCodeRapidMove, GCodeStopSpindle, GCodeAbsoluteDistanceMode
         from pygcode import split_gcodes
         from pygcode import Comment
@@ -250,9 +250,15 @@ def write(gcodes, modal_params=tuple(), comment=None, macro=None):
     :param obj: Line, Block, GCode or Comment instance
     """
     assert not(args.full and modal_params), "with full specified, this should never be called with modal_params"
-    if args.singles and len(gcodes) > 1:
-        for g in sorted(gcodes):
-            write([g], comment=comment)
+    # note: modal parameters form a single (motion) command
+    if args.singles and (len(gcodes) + bool(modal_params)) > 1:
+        commands = [([g], ()) for g in sorted(gcodes)]
+        if modal_params:
+            index = len([g for g in gcodes if g.exec_order <= GCodeMotion.exec_order])
+            commands.insert(index, ([], modal_params))
+        for (i, (g_list, params)) in enumerate(commands):
+            is_last = (i == len(commands) - 1)
+            write(g_list, modal_params=params, comment=comment, macro=macro if is_last else None)
     else:
         # remove comments
         if args.rm_comments:
-- 
2.43.0


From 227d67357358a3e6a449ca5b6d5b490a584349bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 19/50] fix: pygcode-norm dropped the macro of a linearized or
 expanded line

---
 scripts/pygcode-norm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 78a9cef..ce882af 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -308,9 +308,9 @@ def split_and_process(gcode_list, gcode_class, comment):
     if afters:
         write(afters)
         machine.process_gcodes(*afters)
-    # write comment (if given)
-    if comment:
-        write([], comment=line.comment)
+    # write comment & macro (if given)
+    if comment or line.macro:
+        write([], comment=line.comment, macro=line.macro)
 
 
 
-- 
2.43.0


From 1a2fb84260d52c1ce61c7c1dd05e5af97832c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 20/50] fix: pygcode-crop crashed on conditions for the angular
 axes, and ignored those axes

---
 scripts/pygcode-crop | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b5d1d66..884042c 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -186,6 +186,7 @@ args = parser.parse_args()
 # --- Machine
 class NullMachine(Machine):
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
+    axes = set('XYZABC')
 
 machine = NullMachine()
 
@@ -223,10 +224,12 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
             }))
-            # rapid move to X,Y
+            # rapid move to X,Y (and angular axes, if used)
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if k in plane.plane_axes
+                if (k in plane.plane_axes) or ((k in 'ABC') and (
+                    getattr(old_machine.abs_range_min, k) != getattr(old_machine.abs_range_max, k)
+                ))
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0


From 0c0030336a1db9016824992344679b632ee675b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 21/50] fix: pygcode-crop traversed to the wrong place if
 cropped in incremental mode

---
 scripts/pygcode-crop | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 884042c..5a2a5f7 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -17,6 +17,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
         from pygcode import GCodeRapidMove
+        from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 
     except ImportError:
         import sys, os, inspect
@@ -220,6 +221,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
 
             # --- position machine before first cropped line
             print(Comment("traverse into position, up, over, and down"))
+            #   (coordinates are absolute)
+            distance = old_machine.mode.distance
+            is_incremental = isinstance(distance, GCodeIncrementalDistanceMode)
+            if is_incremental:
+                print(GCodeAbsoluteDistanceMode())
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
@@ -235,6 +241,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.pos, plane.normal_axis),
             }))
+            # restore mode(s) changed to traverse
+            if is_incremental:
+                print(distance)
             print('')
 
     if (pre_crop, post_crop) == (False, False):
-- 
2.43.0


From b6d60909f6a0c96419ec55f28d7ceb33de3fedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 22/50] fix: pygcode-crop lost the motion mode for the modal
 lines that follow

---
 scripts/pygcode-crop | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 5a2a5f7..46a00eb 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,7 +16,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
-        from pygcode import GCodeRapidMove
+        from pygcode import GCodeRapidMove, GCodeCannedCycle
         from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 
     except ImportError:
@@ -244,6 +244,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             # restore mode(s) changed to traverse
             if is_incremental:
                 print(distance)
+            motion = old_machine.mode.motion
+            if motion and not isinstance(motion, (GCodeRapidMove, GCodeCannedCycle)):
+                print(motion)
             print('')
 
     if (pre_crop, post_crop) == (False, False):
-- 
2.43.0


From e71054d938eb10430af9e1b368faf53f6dd8b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 23/50] fix: editing a gcode after it was processed changed the
 machine's mode

---
 src/pygcode/gcodes.py  | 4 ++--
 src/pygcode/machine.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 7b429cc..8680089 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -295,8 +295,8 @@ class GCode(object):
 
     def modal_copy(self):
         """Copy of GCode instance containing only parameters listed in modal_param_letters"""
-        return self.__class__(self.word, *[
-            w for (l, w) in self.params.items()
+        return self.__class__(copy(self.word), *[
+            copy(w) for (l, w) in self.params.items()
             if l in self.modal_param_letters
         ])
 
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 83de89b..51165d3 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -425,7 +425,8 @@ class Machine(object):
             params = copy(self.mode.motion.params)  # dict
             params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values())
+                # (copied, so the machine's mode is not changed through the resulting gcode)
+                [copy(w) for w in [self.mode.motion.word] + list(params.values())]
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From 1f5c038b48c57adc5f186346fdf16397ed8fce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 24/50] fix: parameters written before their gcode were not
 assigned to it

---
 src/pygcode/gcodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 8680089..1b5d9c0 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1508,6 +1508,15 @@ def words2gcodes(words):
                 param_info['param_to_index'] = word_info['index']
                 param_info['gcode_class'] = None # no longer a valid candidate
 
+    # Parameters given before their gcode belong to the first one that accepts them
+    for word_info in word_info_list:
+        if word_info['gcode_class'] or (word_info['param_to_index'] is not None):
+            continue # is a gcode, or already assigned
+        for gcode_info in word_info_list[word_info['index'] + 1:]:
+            if gcode_info['gcode_class'] and (word_info['word'].letter in gcode_info['gcode_class'].param_letters):
+                word_info['param_to_index'] = gcode_info['index']
+                break
+
     # Map parameters
     parameter_map = defaultdict(list) # {<gcode word index>: [<parameter words>], ... }
     for word_info in word_info_list:
-- 
2.43.0


From b21cf5ee1026a96afe8ca887156c314f07e1c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 25/50] fix: G80 took the axis parameters of the motion code on
 the same line

---
 src/pygcode/gcodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 1b5d9c0..f2b8acf 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -511,6 +511,7 @@ class GCodeRigidTapping(GCodeMotion):
 
 class GCodeCancelCannedCycle(GCodeMotion):
     """G80: Cancel Canned Cycle"""
+    param_letters = set()  # doesn't accept axis parameters
     word_key = Word('G', 80)
     # Modal Group
     #   Technically G80 belongs to the motion modal group, however it's often
-- 
2.43.0


From b0ae8a57550618739bb6797484dd703a5ec979be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 26/50] fix: axis parameters of G28, G30 and G92 were executed
 as a modal motion

---
 src/pygcode/gcodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index f2b8acf..b6d070b 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1303,6 +1303,7 @@ class GCodeSet(GCodeNonModal):
 
 class GCodeGotoPredefinedPosition(GCodeNonModal):
     """G28,G30: Goto Predefined Position (rapid movement)"""
+    param_letters = set('XYZABCUVW')
     @classmethod
     def word_matches(cls, w):
         return (w.letter == 'G') and (w.value in [28, 30])
@@ -1327,6 +1328,7 @@ class GCodeMoveInMachineCoords(GCodeNonModal):
 
 class GCodeCoordSystemOffset(GCodeNonModal):
     """G92: Coordinate System Offset"""
+    param_letters = set('XYZABCUVW')
     word_key = Word('G', 92)
     exec_order = 230
 
-- 
2.43.0


From e55b55b13edaeff541c7251c35daf97b757bb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 27/50] fix: S given after G96 did not set the spindle speed

---
 src/pygcode/gcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index b6d070b..527c357 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -730,7 +730,7 @@ class GCodeSpindleSpeedMode(GCodeSpindle):
 
 class GCodeSpindleConstantSurfaceSpeedMode(GCodeSpindleSpeedMode):
     """G96: Spindle Constant Surface Speed"""
-    param_letters = set('DS')
+    param_letters = set('D')  # S is it's own gcode
     word_key = Word('G', 96)
 
 
-- 
2.43.0


From fc5691cbb3144768008f42e849b6ba0e266133ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 28/50] fix: machine mode lost the parameters of G41-G43, G64,
 G96 and G97

---
 src/pygcode/gcodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 527c357..a0c0832 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -732,12 +732,14 @@ class GCodeSpindleConstantSurfaceSpeedMode(GCodeSpindleSpeedMode):
     """G96: Spindle Constant Surface Speed"""
     param_letters = set('D')  # S is it's own gcode
     word_key = Word('G', 96)
+    modal_param_letters = set('D')
 
 
 class GCodeSpindleRPMMode(GCodeSpindleSpeedMode):
     """G97: Spindle RPM Speed"""
     param_letters = set('D')
     word_key = Word('G', 97)
+    modal_param_letters = set('D')
 
 
 
@@ -782,6 +784,7 @@ class GCodeToolLengthOffset(GCodeToolLength):
     """G43: Tool Length Offset"""
     param_letters = set('H')
     word_key = Word('G', 43)
+    modal_param_letters = set('H')
 
 
 class GCodeDynamicToolLengthOffset(GCodeToolLength):
@@ -793,6 +796,7 @@ class GCodeAddToolLengthOffset(GCodeToolLength):
     """G43.2: Appkly Additional Tool Length Offset"""
     param_letters = set('H')
     word_key = Word('G', 43.2)
+    modal_param_letters = set('H')
 
 
 class GCodeCancelToolLengthOffset(GCodeToolLength):
@@ -954,24 +958,28 @@ class GCodeCutterCompLeft(GCodeCutterRadiusComp):
     """G41: Cutter Radius Compensation (left)"""
     param_letters = set('D')
     word_key = Word('G', 41)
+    modal_param_letters = set('D')
 
 
 class GCodeCutterCompRight(GCodeCutterRadiusComp):
     """G42: Cutter Radius Compensation (right)"""
     param_letters = set('D')
     word_key = Word('G', 42)
+    modal_param_letters = set('D')
 
 
 class GCodeDynamicCutterCompLeft(GCodeCutterRadiusComp):
     """G41.1: Dynamic Cutter Radius Compensation (left)"""
     param_letters = set('DL')
     word_key = Word('G', 41.1)
+    modal_param_letters = set('DL')
 
 
 class GCodeDynamicCutterCompRight(GCodeCutterRadiusComp):
     """G42.1: Dynamic Cutter Radius Compensation (right)"""
     param_letters = set('DL')
     word_key = Word('G', 42.1)
+    modal_param_letters = set('DL')
 
 
 # ======================= Path Control Mode =======================
@@ -998,6 +1006,7 @@ class GCodePathBlendingMode(GCodePathControlMode):
     """G64: Path Blending"""
     param_letters = set('PQ')
     word_key = Word('G', 64)
+    modal_param_letters = set('PQ')
 
 
 # ======================= Return Mode in Canned Cycles =======================
-- 
2.43.0


From c3cbbd8051c3778d0178d34f75d0086b449bb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 29/50] fix: blocks, lines, positions and machines could not be
 deep-copied

---
 src/pygcode/block.py   | 2 +-
 src/pygcode/machine.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 74ff168..bd0a79d 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -79,7 +79,7 @@ class Block(object):
                 modal_groups.add(gc.modal_group)
 
     def __getattr__(self, k):
-        if k in self._word_map:
+        if k in self.__dict__.get('_word_map', ()):  # (_word_map is not set while being deep-copied)
             for w in self.words:
                 if w.letter == k:
                     return w
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 51165d3..df2efb0 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -63,7 +63,7 @@ class Position(object):
 
     # Attributes Get/Set
     def __getattr__(self, key):
-        if key in self.axes:
+        if key in self.__dict__.get('axes', ()):  # (axes is not set while being deep-copied)
             return self._value[key]
 
         raise AttributeError("'{cls}' object has no attribute '{key}'".format(
-- 
2.43.0


From b2e9e8a7928f4f5042c88312ddb3026351662a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 30/50] fix: Position accepted values for axes it does not have

---
 src/pygcode/machine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index df2efb0..1eb2c3d 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -50,6 +50,10 @@ class Position(object):
         # Unit
         self._unit = kwargs.pop('unit', self.default_unit)
 
+        invalid_axes = set(kwargs) - self.axes
+        if invalid_axes:
+            raise MachineInvalidAxis("values given for undefined axes %s" % invalid_axes)
+
         # Initial Values
         self._value = defaultdict(lambda: 0.0, dict((k, 0.0) for k in self.axes))
         self._value.update(kwargs)
-- 
2.43.0


From 1a419d1d59cf3af37eb1056f0218fa0b7052e064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 31/50] fix: repeated modal parameters were silently dropped

---
 src/pygcode/machine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 1eb2c3d..79a9f8a 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -16,7 +16,7 @@ from .line import Line
 from .words import Word
 from .utils import Vector3, Quaternion
 
-from .exceptions import MachineInvalidAxis, MachineInvalidState
+from .exceptions import GCodeParameterError, MachineInvalidAxis, MachineInvalidState
 
 UNIT_IMPERIAL = GCodeUseInches.unit_id      # G20
 UNIT_METRIC = GCodeUseMillimeters.unit_id   # G21
@@ -453,6 +453,11 @@ class Machine(object):
 
         if modal_gcodes:
             assert len(modal_gcodes) == 1, "more than 1 modal code found"
+            letters = [w.letter for w in modal_params if w.letter in modal_gcodes[0].params]
+            if len(letters) > len(set(letters)):
+                raise GCodeParameterError("modal parameter defined twice: '%s'" % (
+                    ' '.join(str(x) for x in modal_params)
+                ))
             return modal_gcodes[0]
 
         return None
-- 
2.43.0


From 50abeffc4a92125317195c28422e55d3792f1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 32/50] fix: parameters not accepted by a line's motion code
 were given to the previous motion mode

---
 src/pygcode/machine.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 79a9f8a..781edad 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -5,7 +5,7 @@ from collections import defaultdict
 from .gcodes import (
     MODAL_GROUP_MAP, GCode,
     # Modal GCodes
-    GCodeMotion,
+    GCodeMotion, GCodeCancelCannedCycle,
     GCodeIncrementalDistanceMode,
     GCodeUseInches, GCodeUseMillimeters,
     # Utilities
@@ -414,15 +414,20 @@ class Machine(object):
 
         # TODO: convert coord systems between inches/mm, G20/G21 respectively
 
-    def modal_gcode(self, modal_params):
+    def modal_gcode(self, modal_params, gcodes=()):
         """
-        :param ignore_unassigned: if truthy, unassigned parameters will be ignored
+        :param modal_params: list of Word instances not assigned to any gcode
+        :param gcodes: gcodes in the same block; if they set (or cancel) the motion
+                       mode, modal_params cannot be assigned to the machine's mode.
         """
 
         if not modal_params:
             return None
 
-        if self.mode.motion is None:
+        if (self.mode.motion is None) or any(
+                    (g.modal_group == GCodeMotion.modal_group) or isinstance(g, GCodeCancelCannedCycle)
+                    for g in gcodes
+                ):
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
         else:
@@ -470,7 +475,7 @@ class Machine(object):
         """
         assert isinstance(block, Block), "invalid parameter"
         gcodes = copy(block.gcodes)
-        modal_gcode = self.modal_gcode(block.modal_params)
+        modal_gcode = self.modal_gcode(block.modal_params, block.gcodes)
         if modal_gcode:
             gcodes.append(modal_gcode)
         return sorted(gcodes)
@@ -484,8 +489,11 @@ class Machine(object):
         if self.mode.motion is None:
             # no modal motion, modal parameters are all invalid
             block.modal_params = []
-        elif any(True for g in block.gcodes if g.modal_group == GCodeMotion.modal_group):
-            # block defines new motion, modal motion is irrelevant
+        elif any(
+                    (g.modal_group == GCodeMotion.modal_group) or isinstance(g, GCodeCancelCannedCycle)
+                    for g in block.gcodes
+                ):
+            # block defines (or cancels) motion, modal motion is irrelevant
             block.modal_params = []
         else:
             (modal_gcodes, unasigned_words) = words2gcodes(
@@ -504,7 +512,7 @@ class Machine(object):
         # Add modal gcode to list of given gcodes
         modal_params = kwargs.get('modal_params', [])
         if modal_params:
-            modal_gcode = self.modal_gcode(modal_params)
+            modal_gcode = self.modal_gcode(modal_params, gcode_list)
             if modal_gcode:
                 gcode_list.append(modal_gcode)
 
-- 
2.43.0


From 1b4204ced163a37492da465cf61de01ff28a657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 33/50] fix: aligning (anti-)parallel vectors raised ValueError
 or gave a wrong rotation

---
 src/pygcode/utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index d5fcbcf..e15fee9 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -1,5 +1,6 @@
 import sys
 from copy import copy, deepcopy
+from math import atan2
 
 from euclid3 import Vector3, Quaternion
 
@@ -24,10 +25,14 @@ def quat2align(to_align, with_this, normalize=True):
         to_align = to_align.normalized()
         with_this = with_this.normalized()
     # Calculate Quaternion
-    return Quaternion.new_rotate_axis(
-        angle=to_align.angle(with_this),
-        axis=to_align.cross(with_this),
-    )
+    axis = to_align.cross(with_this)
+    # (atan2 is accurate for all angles; acos is not if vectors are almost parallel)
+    angle = atan2(abs(axis), to_align.dot(with_this))
+    if abs(axis) < 1e-9:
+        # (anti-)parallel; any perpendicular axis will do
+        unit_vectors = [Vector3(1., 0., 0.), Vector3(0., 1., 0.), Vector3(0., 0., 1.)]
+        axis = to_align.cross(min(unit_vectors, key=lambda v: abs(to_align.dot(v))))
+    return Quaternion.new_rotate_axis(angle=angle, axis=axis)
 
 
 def quat2coord_system(origin1, origin2, align1, align2):
@@ -48,7 +53,12 @@ def quat2coord_system(origin1, origin2, align1, align2):
     align2 = align2.normalized()
     # Calculate Quaternion
     q1 = quat2align(origin1, align1, normalize=False)
-    q2 = quat2align(q1 * origin2, align2, normalize=False)
+    # (rotated about align1, so origin1 remains aligned)
+    to_align = q1 * origin2
+    q2 = Quaternion.new_rotate_axis(
+        angle=atan2(align1.dot(to_align.cross(align2)), to_align.dot(align2)),
+        axis=align1,
+    )
     return q2 * q1
 
 
-- 
2.43.0


From b927aa8e2a06af656f9abb62a5727c26f01a5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 34/50] fix: text between words that belongs to no word was
 silently ignored

---
 src/pygcode/words.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 63cd312..d87e927 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -105,6 +105,11 @@ def text2words(block_text, dialect=None):
         if letter_match:
             # Letter
             letter = letter_match.group('letter').upper()
+            skipped = block_text[index:index + letter_match.start('letter')]
+            if not index:
+                skipped = re.sub(r'^\s*/', '', skipped) # optional block-delete character
+            if re.search(r'[^\s\x00-\x1f]', skipped): # (control characters are ignored)
+                raise GCodeWordStrError("block code not understood '%s'" % skipped)
             index += letter_match.end() # propogate index to start of value
 
             # Value
-- 
2.43.0


From fa340dbba871e67a0b407467a7573fabc7386875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 35/50] fix: blanks between a word's letter and value became
 part of tool numbers and program names

---
 src/pygcode/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index d87e927..1c61464 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -117,7 +117,7 @@ def text2words(block_text, dialect=None):
             value_match = value_regex.search(block_text[index:])
             if value_match is None:
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
-            value = value_match.group() # matched text
+            value = value_match.group().strip() # matched text
 
             yield Word(letter, value)
 
-- 
2.43.0


From 0afa4ab7306c5e55e1c92eae68767977afdf0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 36/50] fix: a new machine did not select the coordinate system
 of its default mode

---
 src/pygcode/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 781edad..41d555a 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -395,6 +395,9 @@ class Machine(object):
         self.abs_range_min = copy(self.abs_pos)
         self.abs_range_max = copy(self.abs_pos)
 
+        # Act on the default mode (eg: selected coordinate system)
+        self.set_mode()
+
     def __copy__(self):
         obj = self.__class__()
         obj.mode = copy(self.mode)
-- 
2.43.0


From 33ecec2c65bfc3e26dadbd6c639c1b44e5007b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 37/50] fix: expansion of cycles with a dwell (G82, G89) raised
 NameError

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index fd6460a..ad826b6 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -1,6 +1,6 @@
 from math import sin, cos, tan, asin, acos, atan2, pi, sqrt, ceil
 
-from .gcodes import GCodeLinearMove, GCodeRapidMove
+from .gcodes import GCodeLinearMove, GCodeRapidMove, GCodeDwell
 from .gcodes import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
 from .gcodes import GCodePlaneSelect, GCodeSelectXYPlane, GCodeSelectYZPlane, GCodeSelectZXPlane
 from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
-- 
2.43.0


From 548a13b452614af68ce06aa5b90ff25074f5ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 38/50] fix: floating point noise made expanded cycles drill a
 hole twice, and G85/G89 leave it with a rapid move

---
 src/pygcode/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index ad826b6..f6345dc 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -390,6 +390,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
 DEFAULT_SCC_PLANE = GCodeSelectXYPlane
 DEFAULT_SCC_DISTMODE = GCodeAbsoluteDistanceMode
 DEFAULT_SCC_RETRACTMODE = GCodeCannedCycleReturnPrevLevel
+SCC_TOLERANCE = 1e-6  # depths closer than this only differ by floating point noise
 
 def simplify_canned_cycle(canned_gcode, start_pos,
                           plane=None, dist_mode=None, retract_mode=None,
@@ -475,7 +476,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             while True:
                 # Determine new depth
                 cur_depth += delta
-                if cur_depth < drill_depth:
+                if cur_depth < drill_depth + SCC_TOLERANCE:
                     cur_depth = drill_depth
 
                 # Rapid to just above, then slowly drill through delta
-- 
2.43.0


From 20d04522c8d2a765e7c0f0baa69821a3566a72ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 39/50] fix: floating point noise added a rapid move to
 expanded peck cycles in only one of the distance modes

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index f6345dc..6135538 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -481,7 +481,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
 
                 # Rapid to just above, then slowly drill through delta
                 just_above_base = last_depth + 0.1
-                if just_above_base < retract_depth:
+                if just_above_base < retract_depth - SCC_TOLERANCE:
                     yield GCodeRapidMove(Z=just_above_base)
                 yield GCodeLinearMove(Z=cur_depth)
                 if cur_depth <= drill_depth:
-- 
2.43.0


From a2d5eceed11bf8e659c80152681efdd2f2d21d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 40/50] fix: build the word maps aside, so concurrent first
 parses don't collide

---
 src/pygcode/gcodes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a0c0832..c41df35 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1422,21 +1422,25 @@ _gcode_function_list = [] # of the form: [(lambda w: w.letter == 'F', GCodeFeedR
 
 def build_maps():
     """Populate _gcode_word_map and _gcode_function_list"""
-    # Ensure Word maps / lists are clear
-    global _gcode_word_map
-    global _gcode_function_list
-    _gcode_word_map = {}
-    _gcode_function_list = []
+    # Populated aside, and only published when complete; another thread may be
+    # building (or reading) them at the same time.
+    word_map = {}
+    function_list = []
 
     for cls in _subclasses(GCode):
         if cls.word_key is not None:
             # Map Word instance to g-code class
-            if cls.word_key in _gcode_word_map:
+            if cls.word_key in word_map:
                 raise RuntimeError("Multiple GCode classes map to '%s'" % str(cls.word_key))
-            _gcode_word_map[cls.word_key] = cls
+            word_map[cls.word_key] = cls
         elif cls.word_matches is not None:
             # Add to list of functions
-            _gcode_function_list.append((cls.word_matches, cls))
+            function_list.append((cls.word_matches, cls))
+
+    global _gcode_word_map
+    global _gcode_function_list
+    _gcode_word_map = word_map
+    _gcode_function_list = function_list
 
     global _gcode_maps_created
     _gcode_maps_created = True
-- 
2.43.0


From b288bc77bfdaacdacfa6ec512d03f6a8a89e146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 41/50] fix: reading the vector of a position without some of
 X, Y, Z doesn't add those axes to it

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 41d555a..11ffa32 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -183,7 +183,8 @@ class Position(object):
 
     @property
     def vector(self):
-        return Vector3(self._value['X'], self._value['Y'], self._value['Z'])
+        # (read without adding an axis this position does not have)
+        return Vector3(*[self._value.get(k, 0.0) for k in 'XYZ'])
 
     # String representation(s)
     def __repr__(self):
-- 
2.43.0


From 4f6b36039699858edafecc5e9c51af0c214a4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 42/50] fix: a class inheriting from several G-code classes
 doesn't clash with itself

---
 src/pygcode/gcodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index c41df35..d8deca3 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1389,8 +1389,11 @@ def _subclasses_level(root_class, recursion_level=0):
 
 def _subclasses(root_class):
     """Flat list of all classes inheriting from the given root class (recursive)"""
+    found = set()
     for (cls, level) in _subclasses_level(root_class):
-        yield cls
+        if cls not in found:  # (reached once per base class it inherits from)
+            found.add(cls)
+            yield cls
 
 
 def _gcode_class_infostr(base_class=GCode, prefix=''):
-- 
2.43.0


From 9464f037c0fdfec98ca2a56f4eedd95555fd2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 43/50] fix: the default dialect is the one that was set

---
 src/pygcode/dialects/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/dialects/__init__.py b/src/pygcode/dialects/__init__.py
index 9a079a3..65eed12 100644
--- a/src/pygcode/dialects/__init__.py
+++ b/src/pygcode/dialects/__init__.py
@@ -52,4 +52,5 @@ def set_default(name):
     """
 
     # TODO: verify valid name
+    global _DEFAULT
     _DEFAULT = name
-- 
2.43.0


From a7db67c65b983fc1406b5f8bc353850ba68325bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 44/50] fix: a block of another dialect is read with the words
 of that dialect

---
 src/pygcode/block.py | 2 +-
 src/pygcode/words.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index bd0a79d..273a3e6 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -42,7 +42,7 @@ class Block(object):
             self._text = text  # cleaned up block content
 
             # Get words from text, and group into gcodes
-            self.words = list(text2words(self._text))
+            self.words = list(text2words(self._text, dialect=dialect))
             (self.gcodes, self.modal_params) = words2gcodes(self.words)
 
             # Verification
diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 1c61464..4eb034e 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -119,7 +119,7 @@ def text2words(block_text, dialect=None):
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
             value = value_match.group().strip() # matched text
 
-            yield Word(letter, value)
+            yield Word(letter, value, dialect=dialect)
 
             index += value_match.end() # propogate index to end of value
         else:
-- 
2.43.0


From 13ec89b6509587cf545148b3b4c567701a608a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:56 +0000
Subject: [PATCH 45/50] fix: pygcode-norm: arc linearizing methods given in
 upper case are applied (KeyError)

---
 scripts/pygcode-norm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index ce882af..cd53f48 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -52,7 +52,7 @@ def arc_lin_method_type(value):
 
     value_dict = defaultdict(lambda: ArcLinearizeMid)
     if value:
-        match = re.search(r'^(?P<g2>[iom])(,(?P<g3>[iom]))?$', value, re.IGNORECASE)
+        match = re.search(r'^(?P<g2>[iom])(,(?P<g3>[iom]))?$', value.lower())
         if not match:
             raise argparse.ArgumentTypeError("invalid format '%s'" % value)
 
-- 
2.43.0


From 0f40c10b834fb9350f51aa4f555122831035c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:22 +0000
Subject: [PATCH 46/50] fix: linearize_arc: an arc given by its radius may be
 smaller than the precision

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 6135538..94800ca 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -272,7 +272,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_gcode.assert_params()
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-        if abs(arc_p_start - arc_p_end) < max_error:
+        if abs(arc_p_start - arc_p_end) < LA_TOLERANCE:
             raise GCodeParameterError(
                 "arc starts and finishes in the same spot; cannot "
                 "speculate where circle's center is: %r" % arc_gcode
-- 
2.43.0


From 627b651a7c9216ce06ab7479a5b5da41f17ef791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 47/50] fix: canned cycles under G99 without R are refused
 (TypeError), and ignore an axis the machine does not have

---
 src/pygcode/gcodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index d8deca3..9d9ed2d 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -548,9 +548,12 @@ class GCodeCannedCycle(GCode):
         plane = machine.mode.plane_selection or GCodeSelectXYPlane()  # default to XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
-            moveto_coords.update({
-                plane.normal_axis: self.R,
-            })
+            if self.R is None:
+                raise GCodeParameterError("canned cycle returns to R, which is not given: %r" % self)
+            if plane.normal_axis in machine.axes:
+                moveto_coords.update({
+                    plane.normal_axis: self.R,
+                })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
             moveto_coords.pop(plane.normal_axis, None)
-- 
2.43.0


From 184624558f6a78beaad7e5bff9154206616f8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 48/50] fix: canned cycles in the UV, WU and VW planes return
 along the axis normal to the plane

---
 src/pygcode/gcodes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 9d9ed2d..6749bc1 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -929,16 +929,22 @@ class GCodeSelectYZPlane(GCodePlaneSelect):
 class GCodeSelectUVPlane(GCodePlaneSelect):
     """G17.1: select UV plane"""
     word_key = Word('G', 17.1)
+    normal_axis = 'W'
+    plane_axes = set('UV')
 
 
 class GCodeSelectWUPlane(GCodePlaneSelect):
     """G18.1: select WU plane"""
     word_key = Word('G', 18.1)
+    normal_axis = 'V'
+    plane_axes = set('WU')
 
 
 class GCodeSelectVWPlane(GCodePlaneSelect):
     """G19.1: select VW plane"""
     word_key = Word('G', 19.1)
+    normal_axis = 'U'
+    plane_axes = set('VW')
 
 
 # ======================= Cutter Radius Compensation =======================
-- 
2.43.0


From 4d45c144a1f876262232eb36af5deab5365efaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:25 +0000
Subject: [PATCH 49/50] fix: pygcode-crop repeated a stop (M0, M1, M60, M2,
 M30) run before the crop point when restoring the mode

---
 scripts/pygcode-crop | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 46a00eb..687389b 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,7 +16,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
-        from pygcode import GCodeRapidMove, GCodeCannedCycle
+        from pygcode import GCodeRapidMove, GCodeCannedCycle, GCodeProgramControl
         from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 
     except ImportError:
@@ -209,7 +209,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             pre_crop = False
 
             # Set machine's accumulated mode (from everything that's been cut)
-            mode_str = str(old_machine.mode)
+            #   (stops aren't part of it; the cut lines' stops must not be repeated)
+            mode_str = ' '.join(
+                str(g) for g in old_machine.mode.gcodes
+                if not isinstance(g, GCodeProgramControl)
+            )
             if mode_str:
                 print(Comment("machine mode before cropping"))
                 print(mode_str)
-- 
2.43.0


From 9200d573b2bb878d45b3de399dbc71b6fad5cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:09 +0000
Subject: [PATCH 50/50] fix: copy of a machine lost an ignore_invalid_modal set
 on the instance

---
 src/pygcode/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 11ffa32..32c5f54 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -406,6 +406,7 @@ class Machine(object):
         obj.abs_pos = copy(self.abs_pos)
         obj.abs_range_min = copy(self.abs_range_min)
         obj.abs_range_max = copy(self.abs_range_max)
+        obj.ignore_invalid_modal = self.ignore_invalid_modal
         return obj
 
     def set_mode(self, *gcode_list):
-- 
2.43.0


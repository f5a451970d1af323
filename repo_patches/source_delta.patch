From 7e07752acee2e77e5b066ec5a97cb99872d9b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 01/26] fix: reject zero where a strictly positive number is
 required

---
 pyslope/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/data_validation.py b/pyslope/data_validation.py
index 742c577..61edad1 100644
--- a/pyslope/data_validation.py
+++ b/pyslope/data_validation.py
@@ -27,7 +27,7 @@ def assert_strictly_positive_number(n, name):
             f"The value for '{name}' should be an int or float, not a "
             f"{type(n).__name__}."
         )
-    if n < 0:
+    if n <= 0:
         raise ValueError(f"The value for '{name}' should be > 0, not {n}")
 
 
-- 
2.43.0


From e156dd32479c8b0d8dd02f0d302d03c7a6733840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 02/26] fix: validate right_x and right_x_left under their own
 conditions

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 5cc610d..88e97e1 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -976,14 +976,14 @@ class Slope:
             right_x_left = self._limits[2]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x, "right_x_limit"
+                right_x_left, "right_x left coordinate"
             )
 
         if right_x is None:
             right_x = self._limits[3]
         else:
             data_validation.assert_strictly_positive_number(
-                right_x_left, "right_x left coordinate"
+                right_x, "right_x_limit"
             )
 
         # if only one of the double parameters is defined
-- 
2.43.0


From 77fb785bf5285f265877344dce3f9ecdb015b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 03/26] fix: keep the largest udl magnitude as a number after
 removing a udl

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 88e97e1..1780dc8 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -539,7 +539,7 @@ class Slope:
             self._udl_max = 0
 
         if self._udls:
-            self._udl_max = max(self._udls, key=lambda x: x.magnitude)
+            self._udl_max = max(udl.magnitude for udl in self._udls)
 
         # reset results
         self._reset_results()
-- 
2.43.0


From 021220710e2056394b02007eb25f6fb6ade2dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 04/26] fix: remove every matching load when equal loads are
 adjacent

---
 pyslope/pyslope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1780dc8..4675937 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -526,7 +526,7 @@ class Slope:
         """
 
         for udl in udls:
-            for check_udl in self._udls:
+            for check_udl in list(self._udls):
                 if (
                     check_udl.offset == udl.offset
                     and check_udl.magnitude == udl.magnitude
@@ -615,7 +615,7 @@ class Slope:
 
         # can probably write this as O(n) rather than O(n^2)
         for ll in lls:
-            for check_ll in self._lls:
+            for check_ll in list(self._lls):
                 if (
                     check_ll.offset == ll.offset
                     and check_ll.magnitude == ll.magnitude
-- 
2.43.0


From a1c9ecbb840d1194f5b560c25dd576145c332301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 05/26] fix: allow removing a material at depth 0

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 4675937..998f84e 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -759,7 +759,7 @@ class Slope:
             depth = material.depth_to_bottom
 
         # if depth specified adopt
-        if depth:
+        if depth is not None:
             for m in self._materials:
                 if m.depth_to_bottom == depth:
                     self._materials.remove(m)
-- 
2.43.0


From 9aa7ea81e2bd57b2fcfbb11dc7ad7f029643cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 06/26] fix: avoid division by zero when loads leave one search
 point on the crest

---
 pyslope/pyslope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 998f84e..70ce378 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1044,7 +1044,10 @@ class Slope:
         # coordinates for failure planes at top of slope
         # y coordinate is always the coordinate of the top of the slope
         left_coords = [
-            (x1 + (n / (num_points_top - 1)) * (x2 - x1), self._top_coord[1])
+            (
+                x1 + (n / max(num_points_top - 1, 1)) * (x2 - x1),
+                self._top_coord[1],
+            )
             for n in range(num_points_top)
         ]
 
-- 
2.43.0


From e73ec56d995b5b12385f475e7f80a105605af8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 07/26] fix: run dynamic analysis with continuous dynamic udls

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 70ce378..2f7ce96 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1751,7 +1751,7 @@ class Slope:
         left = self._length
         for udl in self._udls:
             if udl.dynamic_offset:
-                left = max(left, self._top_coord[0] - udl.length)
+                left = max(left, self._top_coord[0] - (udl.length or 0))
 
         left -= 0.01
 
-- 
2.43.0


From ee6b832c6b1d8529450fb997be744f0ebffe7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 08/26] fix: keep material and water levels in step with the
 external boundary

---
 pyslope/pyslope.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 2f7ce96..0b9a749 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -271,6 +271,7 @@ class Slope:
         # initialise empty properties used in other components of class
         self._materials = []
         self._water_RL = None
+        self._water_depth = None
         self._udls = []
         self._lls = []
 
@@ -400,6 +401,10 @@ class Slope:
         self._update_udl_coordinates()
         self._update_ll_coordinates()
 
+        # material and water levels are measured from the top of the model
+        self._update_material_levels()
+        self._update_water_level()
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -426,12 +431,21 @@ class Slope:
             self.remove_water_table()
         else:
             data_validation.assert_positive_number(depth, "water depth")
-            self._water_RL = max(0, self._top_coord[1] - depth)
             self._water_depth = depth
+            self._update_water_level()
 
         # reset results
         self._reset_results()
 
+    # dont need to reset results since this only should be called
+    # as a part of resetting
+    def _update_water_level(self):
+        """Update level of water table based on external boundary
+        and water depth"""
+
+        if self._water_depth is not None:
+            self._water_RL = max(0, self._top_coord[1] - self._water_depth)
+
     def remove_water_table(self):
         """Remove water table from model.
 
@@ -709,6 +723,15 @@ class Slope:
         # reset results
         self._reset_results()
 
+    # dont need to reset results since this only should be called
+    # as a part of resetting
+    def _update_material_levels(self):
+        """Update reference level of materials based on external
+        boundary and Material object"""
+
+        for material in self._materials:
+            material.RL = self._external_height - material.depth_to_bottom
+
     def remove_material(
         self, material: Material = None, depth: float = None, remove_all=False
     ):
-- 
2.43.0


From efdecc8f186f5cc82842ee27aa33d3870b23c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 09/26] fix: keep the automatic water factor in step with the
 slope angle

---
 pyslope/pyslope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 0b9a749..1f4232a 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -272,6 +272,7 @@ class Slope:
         self._materials = []
         self._water_RL = None
         self._water_depth = None
+        self._water_auto = True
         self._udls = []
         self._lls = []
 
@@ -405,6 +406,10 @@ class Slope:
         self._update_material_levels()
         self._update_water_level()
 
+        # automatic water factor depends on the angle of the slope
+        if self._water_auto:
+            self.update_water_analysis_options(auto=True)
+
         # reset limits
         self.remove_analysis_limits()
 
@@ -827,6 +832,7 @@ class Slope:
             elif H < 0:
                 H = 0
 
+        self._water_auto = bool(auto)
         self._water_analysis_H = H
 
         # reset results
-- 
2.43.0


From 0be2fd9979cfe67d021c0d4841c06836acf3abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:09 +0000
Subject: [PATCH 10/26] fix: validate materials and boundary options before
 changing the model

---
 pyslope/pyslope.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 1f4232a..eef97df 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -700,14 +700,14 @@ class Slope:
 
         depths = [material.depth_to_bottom for material in materials]
 
-        # if geological unit deeper than model than extend model to fit materials
-        if depths[-1] > self._external_height:
-            self.update_boundary_options(MIN_EXT_H=depths[-1])
-
         # check material depth unique
         if len(depths) > len(set(depths)):
             raise ValueError("The same material depth has been input twice")
 
+        # if geological unit deeper than model than extend model to fit materials
+        if depths and depths[-1] > self._external_height:
+            self.update_boundary_options(MIN_EXT_H=depths[-1])
+
         material_refined = []
         # define RL for each material and color for each material
         for i, material in enumerate(materials):
@@ -935,11 +935,15 @@ class Slope:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_H, "Minimum external model height (MIN_EXT_H)"
             )
-            self._MIN_EXT_H = MIN_EXT_H
         if MIN_EXT_L:
             data_validation.assert_strictly_positive_number(
                 MIN_EXT_L, "Minimum external model length (MIN_EXT_H)"
             )
+
+        # only store once everything has been validated
+        if MIN_EXT_H:
+            self._MIN_EXT_H = MIN_EXT_H
+        if MIN_EXT_L:
             self._MIN_EXT_L = MIN_EXT_L
 
         # if the external boundary has been set this call is after init.
-- 
2.43.0


From 34507e236546b732fe274fdb18f954384d3d20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 11/26] fix: give soil without strength a factor of safety of
 zero

---
 pyslope/pyslope.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index eef97df..da1e391 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1747,6 +1747,11 @@ class Slope:
             if prev_FS is None:
                 return None
 
+            # no strength at all, dividing by a zero factor of safety below
+            # would give a nan result
+            if prev_FS == 0:
+                return 0.0
+
             denom = cos_alpha + (sin_alpha * tan_phi / prev_FS)
             if np.any(denom == 0):
                 return None
-- 
2.43.0


From 8bb10c54c723f454a896b397eda0039bd3195515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 12/26] fix: pass every trial circle through the requested
 entry and exit points

---
 pyslope/pyslope.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index da1e391..d9c2736 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1189,13 +1189,12 @@ class Slope:
             if len(set(i_list)) < 2:
                 continue
 
-            l_c = i_list[0]
-            r_c = i_list[1]
-
+            # the end points given have to stay as they are since the
+            # remaining circles also pass through them
             search += [
                 {
-                    "l_c": l_c,
-                    "r_c": r_c,
+                    "l_c": i_list[0],
+                    "r_c": i_list[1],
                     "c_x": c_x,
                     "c_y": c_y,
                     "radius": radius,
-- 
2.43.0


From 029cfb2a7190d68737011858073e8d3599ad94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 13/26] fix: keep search planes inside the analysis limits

---
 pyslope/pyslope.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d9c2736..10153ce 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1112,7 +1112,16 @@ class Slope:
                     utilities.dist_points(l_c, r_c)
                     > self._min_failure_distance
                 ):
-                    search += self._generate_planes(l_c, r_c, num_circles)
+                    # points next to loads, and circles that cut the slope
+                    # before reaching the exit, can be outside of the limits
+                    search += [
+                        plane
+                        for plane in self._generate_planes(
+                            l_c, r_c, num_circles
+                        )
+                        if x1 - 0.01 <= plane["l_c"][0] <= x2 + 0.01
+                        and x3 - 0.01 <= plane["r_c"][0] <= x4 + 0.01
+                    ]
 
         self._search = search
 
-- 
2.43.0


From 0066dd5fe8bc24147925bc1ef2570d996d441068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 14/26] fix: pass the critical factor of safety to the dynamic
 analysis as a float

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 1606e98..3a61c03 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -481,7 +481,7 @@ def create_slope(
         # might fail if no dynamic loads set up
         try:
             slope.analyse_dynamic(
-                critical_fos=options_form.cleaned_data["critical_FOS"]
+                critical_fos=float(options_form.cleaned_data["critical_FOS"])
             )
         except Exception:
             slope.analyse_slope(max_fos=5)
-- 
2.43.0


From 8b3596226256cd0b3fa255a2d3feb63ce721a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 15/26] fix: use the stored search results without evaluating
 them as code

---
 slope/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 3a61c03..ca375ca 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -55,7 +55,7 @@ def pdf(request, max_fos=5):
     if request.session["plot_json"] == [] or request.session["search"] == []:
         return redirect("index")
     plot = from_json(request.session["plot_json"])
-    search = list(eval(str(request.session["search"])))
+    search = list(request.session["search"])
 
     max_fos = float(max_fos)
 
-- 
2.43.0


From 91d02a7eb551a19095f52cd11cbe570cf940f9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 16/26] fix: redirect pdf requests without results or with a
 malformed limit

---
 slope/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slope/views.py b/slope/views.py
index ca375ca..9daae0e 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -52,12 +52,15 @@ def reset(request):
 
 def pdf(request, max_fos=5):
     # get saved data, still taking forever.
-    if request.session["plot_json"] == [] or request.session["search"] == []:
+    if not request.session.get("plot_json") or not request.session.get("search"):
         return redirect("index")
     plot = from_json(request.session["plot_json"])
     search = list(request.session["search"])
 
-    max_fos = float(max_fos)
+    try:
+        max_fos = float(max_fos)
+    except ValueError:
+        return redirect("index")
 
     # turn json data back into a plotly chart
     traces = []
-- 
2.43.0


From 8db467f5914f28bb140a4ba7c609d5c10d2706eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 17/26] fix: redirect submissions with values the slope model
 rejects

---
 slope/views.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index 9daae0e..b939f4b 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -279,7 +279,11 @@ def index(request):
         # if form is valid
         if valid:
 
-            slope = create_slope(*form_list)
+            # the forms accept some values that the slope model does not
+            try:
+                slope = create_slope(*form_list)
+            except ValueError:
+                return redirect("reset")
 
             # return color_dictionary
             # add coordinates of failure planes to information that gets passed back.
-- 
2.43.0


From 3f6cac1eeaec98a6304e3f582f940703cc492946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:50 +0000
Subject: [PATCH 18/26] fix: show the model when an analysis has no results

---
 slope/views.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slope/views.py b/slope/views.py
index b939f4b..4fc276a 100644
--- a/slope/views.py
+++ b/slope/views.py
@@ -315,7 +315,12 @@ def index(request):
                 s["x"] = [l_c[0]] + x_ + [r_c[0]]
                 s["y"] = [l_c[1]] + y_ + [r_c[1]]
 
-            plot = slope.plot_critical(material_table=True, legend=True)
+            # without any results there is no critical plane to plot
+            if slope._search:
+                plot = slope.plot_critical(material_table=True, legend=True)
+            else:
+                plot = slope.plot_boundary(material_table=True, legend=True)
+
             plot_json = plot.update_layout(autosize=True).to_json()
 
             search = slope._search
-- 
2.43.0


From 62aaa9b103a360c102bc816b8ff5e679d1d48695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 19/26] fix: keep the minimum failure distance within 90% of
 the model length when geometry changes

---
 pyslope/pyslope.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 10153ce..d504031 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -280,6 +280,7 @@ class Slope:
         # just need to initialise here
         self._dynamic_results = {}
         self._individual_planes = []
+        self._min_failure_distance = 0
 
         self._external_boundary = None
 
@@ -410,6 +411,11 @@ class Slope:
         if self._water_auto:
             self.update_water_analysis_options(auto=True)
 
+        # minimum failure distance can not exceed 90% of the model length
+        self._min_failure_distance = min(
+            self._min_failure_distance, self._external_length * 0.9
+        )
+
         # reset limits
         self.remove_analysis_limits()
 
-- 
2.43.0


From 95efe27eef27f4c58c26a89be390a78afc5adfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 20/26] fix: leave analysis options unchanged when one of them
 is rejected

---
 pyslope/pyslope.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d504031..73068fd 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -890,16 +890,24 @@ class Slope:
         ...     max_iterations=50,
         ... )
         """
+        # work out limited values first, so that invalid input changes nothing
         if slices:
-            self._slices = max(min(500, slices), 10)
+            slices = max(min(500, slices), 10)
 
         if iterations:
-            self._iterations = max(min(iterations, 100000), 500)
+            iterations = max(min(iterations, 100000), 500)
 
         if min_failure_dist is not None:
-            self._min_failure_distance = min(
-                min_failure_dist, self._external_length * 0.9
-            )
+            min_failure_dist = min(min_failure_dist, self._external_length * 0.9)
+
+        if slices:
+            self._slices = slices
+
+        if iterations:
+            self._iterations = iterations
+
+        if min_failure_dist is not None:
+            self._min_failure_distance = min_failure_dist
 
         if tolerance is not None:
             self._tolerance = tolerance
-- 
2.43.0


From 1c21ade2aad49966d2c9164ebcffc1733507afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:23 +0000
Subject: [PATCH 21/26] fix: stop dynamic analysis when the slope is exactly at
 the target with loads at the crest

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index 73068fd..d23e640 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -1821,7 +1821,7 @@ class Slope:
         self.analyse_slope()
         fos = self.get_min_FOS()
         self._dynamic_results[right] = fos
-        if fos > critical_fos:
+        if fos >= critical_fos:
             return 0
 
         # check for extreme case with loads at end of slope as far
-- 
2.43.0


From 39f804bdf4c7012c6f49dbefaaf8f3158618fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 22/26] fix: plot flat critical planes without sampled circle
 points

---
 pyslope/pyslope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index d23e640..f883e95 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -2960,8 +2960,10 @@ class Slope:
                 y_.append(y[i])
 
         if show_center:
-            x_ += [r_c[0], c_x, l_c[0], x_[0]]
-            y_ += [r_c[1], c_y, l_c[1], y_[0]]
+            x_ += [r_c[0], c_x, l_c[0]]
+            y_ += [r_c[1], c_y, l_c[1]]
+            x_.append(x_[0])
+            y_.append(y_[0])
         else:
             x_ = [l_c[0]] + x_ + [r_c[0]]
             y_ = [l_c[1]] + y_ + [r_c[1]]
-- 
2.43.0


From 4d041c417752400c77d4bca30243c38c78871a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 23/26] fix: add the material name to the small-screen table as
 text, not as markup

---
 static/slope/charting.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/static/slope/charting.js b/static/slope/charting.js
index ec45b87..e2377c8 100644
--- a/static/slope/charting.js
+++ b/static/slope/charting.js
@@ -42,7 +42,13 @@ function createPlot(max_display_fos) {
                 colour = plot.data[i + 1].fillcolor
                 var objTo = document.getElementById('mobile_soil_table');
                 var tr = document.createElement("tr");
-                tr.innerHTML = '<td>' + soil_name + '</td><td style="background-color:' + colour + ';"></td><td>' + weight + '</td><td>' + cohesion + '</td><td>' + friction + '</td>';
+                // add as text, the name is whatever has been typed in the form
+                [soil_name, '', weight, cohesion, friction].forEach(function (text) {
+                    var td = document.createElement("td");
+                    td.textContent = text;
+                    tr.appendChild(td);
+                });
+                tr.children[1].style.backgroundColor = colour;
                 objTo.appendChild(tr)
             }
 
-- 
2.43.0


From 765f1f1095428911d35549c748ec0c90833c9a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:00 +0000
Subject: [PATCH 24/26] fix: document the actual default height of a slope

---
 pyslope/pyslope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index f883e95..b711357 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -244,7 +244,7 @@ class Slope:
     Parameters
     ----------
     height : float
-        height of slope in metres, by default 2
+        height of slope in metres, by default 1
     angle : int, optional
         angle of slope (only used if length None), by default 30
     length : float, optional
-- 
2.43.0


From d4ace0b8475a0e3b317385a3fa0ee2c4b94a77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:00 +0000
Subject: [PATCH 25/26] fix: document the actual default numbers of iterations
 and slices

---
 README.md                 | 2 +-
 pyslope/docs/examples.rst | 2 +-
 pyslope/paper/paper.md    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index f29a2e7..17fe7a8 100644
--- a/README.md
+++ b/README.md
@@ -138,7 +138,7 @@ s.set_analysis_limits(s.get_top_coordinates()[0] - 5, s.get_bottom_coordinates()
 
 ### Analysing Slope
 
-To analyse the `Slope` the analyse_slope() method is called. By default 2000 iterations are run with 50 slices per failure plane.
+To analyse the `Slope` the analyse_slope() method is called. By default 1000 iterations are run with 25 slices per failure plane.
 
 ```python
 # The user can change the number of slices and iterations with the method below.
diff --git a/pyslope/docs/examples.rst b/pyslope/docs/examples.rst
index 1f70ec1..9d6bb1a 100644
--- a/pyslope/docs/examples.rst
+++ b/pyslope/docs/examples.rst
@@ -236,7 +236,7 @@ Plot generated using `plot_boundary()` function.
 Concept
 ------------
 
-To analyse the `Slope` the `analyse_slope()` method is called. By default 2000 iterations are run with 50 slices per failure plane.
+To analyse the `Slope` the `analyse_slope()` method is called. By default 1000 iterations are run with 25 slices per failure plane.
 
 
 Code
diff --git a/pyslope/paper/paper.md b/pyslope/paper/paper.md
index 6d76213..d9374cf 100644
--- a/pyslope/paper/paper.md
+++ b/pyslope/paper/paper.md
@@ -166,7 +166,7 @@ s.set_analysis_limits(s.get_top_coordinates()[0] - 5, s.get_bottom_coordinates()
 
 ### Analysing Slope
 
-To analyse the `Slope` the analyse_slope() method is called. By default 2000 iterations are run with 50 slices per failure plane.
+To analyse the `Slope` the analyse_slope() method is called. By default 1000 iterations are run with 25 slices per failure plane.
 
 ```python
 # The user can change the number of slices and iterations with the method below.
-- 
2.43.0


From 7f2a03c5184e52239f3c7af914daeb9de3aa2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:35 +0000
Subject: [PATCH 26/26] fix: keep the model deep enough for its layers when the
 geometry changes

---
 pyslope/pyslope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslope/pyslope.py b/pyslope/pyslope.py
index b711357..3d1ea4d 100644
--- a/pyslope/pyslope.py
+++ b/pyslope/pyslope.py
@@ -713,6 +713,9 @@ class Slope:
         # if geological unit deeper than model than extend model to fit materials
         if depths and depths[-1] > self._external_height:
             self.update_boundary_options(MIN_EXT_H=depths[-1])
+        # otherwise make sure it stays deep enough when the geometry changes
+        elif depths and depths[-1] > self._MIN_EXT_H:
+            self._MIN_EXT_H = depths[-1]
 
         material_refined = []
         # define RL for each material and color for each material
-- 
2.43.0


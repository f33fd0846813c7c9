From 2203f810ddcadf329e4527a05dbb7dcb33c786c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 01/87] fix: window_index read past the end of the window
 centers

---
 src/py_eddy_tracker/generic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..2406549 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -638,15 +638,17 @@ def window_index(x, x0, half_window=1):
     for i, i_x in enumerate(i_ordered):
         x_ = x[i_x]
         # if x bigger than x_min , we found bound and search next one
-        while x_ > x_min and j_min < nb_pt:
+        while j_min < nb_pt and x_ > x_min:
             first_index[j_min] = i
             j_min += 1
-            x_min = x0[j_min] - half_window
+            if j_min < nb_pt:
+                x_min = x0[j_min] - half_window
         # if x bigger than x_max , we found bound and search next one
-        while x_ > x_max and j_max < nb_pt:
+        while j_max < nb_pt and x_ > x_max:
             last_index[j_max] = i
             j_max += 1
-            x_max = x0[j_max] + half_window
+            if j_max < nb_pt:
+                x_max = x0[j_max] + half_window
         if j_max == nb_pt:
             break
     for i in range(j_min, nb_pt):
-- 
2.43.0


From eb4bf60b9201f121df0c7e60ae82c71aaf62590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 02/87] fix: flatten_line_matrix wrote a separator past the end
 of its output

---
 src/py_eddy_tracker/generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 2406549..5a899c5 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -350,8 +350,9 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        if inc < final_size:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From a3562f98db09ccae9ea8605e3421624e0e6c3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 03/87] fix: simplify dropped a line whose only valid point is
 the last one

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 5a899c5..319d185 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -378,7 +378,7 @@ def simplify(x, y, precision=0.1):
             continue
         break
     # Only nan
-    if j == (nb - 1):
+    if not mask[j]:
         return zeros(0, dtype=x.dtype), zeros(0, dtype=x.dtype)
 
     last_nan = False
-- 
2.43.0


From df56b09e01e2ec79674ef52e01edaa20ca7baadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 04/87] fix: particles south of the grid were advected with
 currents of the northern rows

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..271f90e 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2707,7 +2707,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i1 >= i_max or j1 >= j_max or j0 < 0:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From 723c5b6144587997c43918b6a05a81bafdffa161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 05/87] fix: nearest interpolation returned values of masked
 pixels

---
 src/py_eddy_tracker/generic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 319d185..ffabe1d 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -196,19 +196,20 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
     :rtype: array
     """
     if nearest:
-        return interp2d_nearest(x_g, y_g, z_g, x, y)
+        return interp2d_nearest(x_g, y_g, z_g, m_g, x, y)
     else:
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
 
 @njit(cache=True, fastmath=True)
-def interp2d_nearest(x_g, y_g, z_g, x, y):
+def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     """
     Nearest interpolation with wrapping if circular
 
     :param array x_g: coordinates of grid
     :param array y_g: coordinates of grid
     :param array z_g: Grid value
+    :param array m_g: Boolean grid, True if value is masked
     :param array x: coordinate where interpolate z
     :param array y: coordinate where interpolate z
     :return: z interpolated
@@ -230,6 +231,9 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
         if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y:
             z[i] = nan
             continue
+        if m_g[i0, j0]:
+            z[i] = nan
+            continue
         z[i] = z_g[i0, j0]
     return z
 
-- 
2.43.0


From 22d3676a4fde3b7de5b9e1e67f05e04dd7e08db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 06/87] fix: gradient stencil used values out of the grid or
 masked

---
 src/py_eddy_tracker/dataset/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 271f90e..1e10822 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2950,7 +2950,9 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            # There is no value before the first one
+            h_3, h_2, h_1, h0 = h[0, j], h[0, j], h[0, j], h[0, j]
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2965,7 +2967,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
@@ -2977,6 +2979,10 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             if not vertical:
                 # For each row we compute distance
                 d_ = 360 / (d_step * cos(deg2rad(y[j])) * pi * 2 * earth_radius)
+            if m1 and m_1:
+                # no neighbour available
+                m_out[i, j] = True
+                continue
             if m1 ^ m_1:
                 # unbalanced kernel
                 if m_1:
-- 
2.43.0


From 6b04b6ae22bd0ced2d68b0b7810bb37ebcde6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 07/87] fix: GridCollection.interp failed on masked grids

---
 src/py_eddy_tracker/dataset/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 1e10822..0e85468 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2407,10 +2407,10 @@ class GridCollection:
         t1 = t0 + 1
         h0, h1 = self[t0], self[t1]
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
-        m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
+        m0, m1 = h0.get_mask(g0), h1.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From ddd71edc6d0c004dec191d5ba1bbe8bede7ac862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 08/87] fix: contours near the southern edge of a regular grid
 contained no pixel

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index ffabe1d..0554578 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -601,7 +601,7 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
         slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+    slice_y = max(i_y0 - N, 0), i_y1 + N + 1
     return slice_x, slice_y
 
 
-- 
2.43.0


From ae22e71ec4517d639274c506fdd31ec81f14c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 09/87] fix: iter_on with bins yielded or failed on values out
 of the bins when sorted

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..f8b7c85 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -627,6 +627,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From b21fd00c64fc9fd5e40ba17328caa35bee02685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 10/87] fix: align_on with all_ref failed on sorted data and
 dropped the last groups

---
 src/py_eddy_tracker/observations/observation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f8b7c85..d152297 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -655,12 +655,11 @@ class EddiesObservations(object):
                     while b0_other < b0_self:
                         indexs_other, b0_other, b1_other = iter_other.__next__()
                 except StopIteration:
-                    break
-            if b0_self < b0_other:
+                    if not all_ref:
+                        break
+            if b0_self != b0_other:
                 if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
+                    yield indexs_self, empty(0, dtype="i8"), b0_self, b1_self
                 continue
             yield indexs_self, indexs_other, b0_self, b1_self
 
-- 
2.43.0


From e7e2acfce6ddf8a31d9cb034b7b13288cf222620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 11/87] fix: iter_on failed when no value of unsorted data is
 in the bins

---
 src/py_eddy_tracker/observations/observation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d152297..0826c86 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -605,6 +605,9 @@ class EddiesObservations(object):
             if (d < 0).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
+                # No value covered by bins
+                if x.size == 0:
+                    return
                 # convert value in bins number
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
-- 
2.43.0


From 71c124489f4e7982280e0d54da4a5ccafd81712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 12/87] fix: allow to select short tracks when there is none

---
 src/py_eddy_tracker/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..7f61ad6 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -612,7 +612,8 @@ class Correspondances(list):
     def shorter_than(self, size_max):
         """Remove from correspondance table all association for longer eddies than size_max"""
         # Identify eddies longer than
-        i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
+        mask = self.nb_obs_by_tracks < size_max
+        i_keep_track = where(mask)[0]
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
         self.i_current_by_tracks = (
@@ -621,7 +622,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(mask.shape[0], dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From 280d41b1657bdabb91960a0c7c89213cdf176097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 13/87] fix: save and load a correspondance table with a step
 without link

---
 src/py_eddy_tracker/tracking.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 7f61ad6..40e7e53 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -470,7 +470,7 @@ class Correspondances(list):
         for name, data in datas.items():
             h_v = handler.variables[name]
             h_v[:] = data
-            if "File" not in name:
+            if "File" not in name and data.size != 0:
                 h_v.min = h_v[:].min()
                 h_v.max = h_v[:].max()
 
@@ -538,7 +538,7 @@ class Correspondances(list):
             class_kw=class_kw,
         )
 
-        id_max = 0
+        id_max = -1
         for i, nb_elt in enumerate(datas["nb_link"][:]):
             logger.debug(
                 "Link between %s and %s", datas["FileIn"][i], datas["FileOut"][i]
@@ -552,7 +552,9 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            # There could be no link between two datasets
+            if nb_elt != 0:
+                id_max = max(id_max, correspondance["id"].max())
             obj.append(correspondance)
         obj.current_id = id_max + 1
         return obj
-- 
2.43.0


From 05e7ec139bba083751418ee40f9a714447b48119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 14/87] fix: save and resume a tracking before virtual
 observations exist

---
 src/py_eddy_tracker/tracking.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 40e7e53..c503176 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -341,14 +341,17 @@ class Correspondances(list):
             self.current_obs = self.class_method.load_file(
                 self.datasets[first_dataset - 2], **self.class_kw
             )
-            flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # Virtual obs exist only from the third dataset,
+                # and previous virtual obs only from the fourth
+                flg_virtual = "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -480,6 +483,7 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
+        if self.previous_virtual_obs is not None:
             group = handler.createGroup("LastPreviousVirtualObs")
             self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
-- 
2.43.0


From 88fcf98a56b73eebe2fb0f7fbf89ffffa66a1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 15/87] fix: store names of the datasets in correspondance file

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index c503176..4ab2806 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -430,7 +430,7 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
+            if not isinstance(dataset, (str, bytes)):
                 return "In memory file"
             return dataset
 
-- 
2.43.0


From 83db21aa1b8a6b9801d79bc31c97db0f117187cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 16/87] fix: identifiers when two correspondance tables are
 joined

---
 src/py_eddy_tracker/tracking.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 4ab2806..2373d8a 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -195,12 +195,13 @@ class Correspondances(list):
 
         translate[other[i[0] - 1]["id"]] = self[-1]["id"]
 
-        nb_max = other[i[0] - 1]["id"].max()
-        mask = translate == self.UINT32_MAX
-        # We won't translate previous id
-        mask[:nb_max] = False
+        # We won't translate previous id, only the ones which start after junction
+        id_new = setdiff1d(
+            concatenate([items["id"] for items in other[i[0] - 1 :]]),
+            other[i[0] - 1]["id"],
+        )
         # Next id will be shifted
-        translate[mask] = arange(mask.sum()) + self.current_id
+        translate[id_new] = arange(id_new.shape[0]) + self.current_id
 
         # Translate
         for items in other[i[0] :]:
@@ -210,7 +211,7 @@ class Correspondances(list):
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-        self.current_id = translate[-1] + 1
+        self.current_id += id_new.shape[0]
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From 4c095b683c2289fd6f66f73abd250b5d5c7be5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:22 +0000
Subject: [PATCH 17/87] fix: size of the saved table after a join

---
 src/py_eddy_tracker/tracking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 2373d8a..0abc913 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -208,6 +208,7 @@ class Correspondances(list):
             items["id"] = translate[items["id"]]
         # Extend with other obs
         self.extend(other[i[0] :])
+        self.nb_link_max = max(self.nb_link_max, other.nb_link_max)
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-- 
2.43.0


From d3cf1067ffdaead457d88ab66a9c26de3b20fb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 18/87] fix: set track of inserted virtual observations

---
 src/py_eddy_tracker/observations/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..bddee23 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -323,6 +323,8 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         new_TEO = self.new_like(self, size_obs_corrected)
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
+        # indices are the observations which follow the missing ones
+        new_TEO.track[mask] = self.track[indices]
         new_TEO.virtual[:] = mask
         new_TEO.fix_next_previous_obs()
         return new_TEO
-- 
2.43.0


From 2abc9b5ccad2207af333bdd3f7f4daa204852dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 19/87] fix: shift links of observations when virtual ones are
 inserted in a network

---
 src/py_eddy_tracker/observations/network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..c93cb21 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -175,7 +175,12 @@ class NetworkObservations(GroupEddiesObservations):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
         """
-
+        # Real observations were shifted by the insertion of virtual ones
+        i_real = where(self.virtual == 0)[0]
+        # we add 1 for -1 index return index -1
+        translate = concatenate((i_real, [-1]))
+        self.next_obs[i_real] = translate[self.next_obs[i_real]]
+        self.previous_obs[i_real] = translate[self.previous_obs[i_real]]
         fix_next_previous_obs(self.next_obs, self.previous_obs, self.virtual)
 
     @property
-- 
2.43.0


From f1a33964581c43d04ea000ed61f23d9a91554d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 20/87] fix: insert virtual observations of a network only
 inside segments

---
 src/py_eddy_tracker/observations/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index c93cb21..2cdca6b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -167,8 +167,11 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
+        # Observations could be missing only inside a segment
+        segment = self.segment_track_array + 1
+        segment[self.track == self.NOGROUP] = self.NOGROUP
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time, segment, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
         )
 
     def fix_next_previous_obs(self):
-- 
2.43.0


From 3d7939d0c81769a1a1f29d2987e12df4711093cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 21/87] fix: store compressed track numbers in the table

---
 src/py_eddy_tracker/observations/tracking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..624db19 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -209,11 +209,11 @@ class TrackEddiesObservations(GroupEddiesObservations):
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
         if compress_id:
-            list_id = unique(eddies.obs.track)
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -510,7 +510,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From ebabb27c2b85dc41bfa3b56d8f27a676d9840ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 22/87] fix: add_distance with more than one observation

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 624db19..9a88251 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -150,7 +150,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
-- 
2.43.0


From 92e5540b9ffc1e92a19ffd27b748cd5a3bd22232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 23/87] fix: longitude span of westward tracks

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 9a88251..b1f5900 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -380,7 +380,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= delta_lon < abs(d_lon)
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
-- 
2.43.0


From 15dcd8988a1a4bc4ed0a4f651ffae7196dfe27a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 24/87] fix: distance to next observation with missing track
 numbers

---
 src/py_eddy_tracker/observations/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index b1f5900..008908a 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -130,7 +130,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         cum_d = cumsum_by_track(d, self.tracks)
         m_last = ones(d.shape, dtype="bool")
         m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last[self.index_from_track[nb != 0][1:] - 1] = False
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -164,7 +164,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        # Track number without observation have no index
+        d[self.index_from_track[self.nb_obs_by_track != 0][1:] - 1] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From 071bdef2e3800f787e88485d98c31e42801fe2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 25/87] fix: reset index of networks after a new numbering

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 2cdca6b..344eb69 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -729,6 +729,8 @@ class NetworkObservations(GroupEddiesObservations):
         New numbering of network
         """
         new_numbering(self.track, start)
+        # Index was computed with previous numbers
+        self.reset_index()
 
     def only_one_network(self):
         """
-- 
2.43.0


From 5f4192620a19aa7395e31a38968100e11ba80ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:07 +0000
Subject: [PATCH 26/87] fix: find_link with several observations missed
 relatives when forward and backward searches meet

---
 src/py_eddy_tracker/observations/network.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 344eb69..150794f 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -500,28 +500,31 @@ class NetworkObservations(GroupEddiesObservations):
                 # backward
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
-        mask = zeros(segment.size, dtype=bool)
+        # Both ways are explored apart, an observation could be reached forward from
+        # one observation and backward from another one
+        mask_forward = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
 
         def func_forward(seg, indice):
             seg_slice, _forward, _ = segments_connexion[seg]
 
-            mask[indice : seg_slice.stop] = True
+            mask_forward[indice : seg_slice.stop] = True
             for i_begin, i_end, seg2 in _forward:
                 if i_begin < indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_forward[i_end]:
                     func_forward(seg2, i_end)
 
         def func_backward(seg, indice):
             seg_slice, _, _backward = segments_connexion[seg]
 
-            mask[seg_slice.start : indice + 1] = True
+            mask_backward[seg_slice.start : indice + 1] = True
             for i_begin, i_end, seg2 in _backward:
                 if i_begin > indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_backward[i_end]:
                     func_backward(seg2, i_end)
 
         for indice in i_obs:
@@ -531,7 +534,7 @@ class NetworkObservations(GroupEddiesObservations):
             if backward:
                 func_backward(segment[indice], indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask_forward | mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From c81f096291a8a74ad9ba11cf62c04afa1d38c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 27/87] fix: mask_obs_close_event selected the last observation
 for events cut on one side

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 150794f..4c847b8 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2321,6 +2321,9 @@ def mask_follow_obs(m, next_obs, time, indexs, dt=3):
     :param int dt: delta of time max from index, defaults to 3
     """
     for i in indexs:
+        # Event without observation on this side
+        if i == -1:
+            continue
         t0 = time[i]
         m[i] = True
         i_next = next_obs[i]
-- 
2.43.0


From 3401b115687cd2648245e140fa144879cded6bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 28/87] fix: remove_dead_end forgot the mask of segments to
 keep when it is recursive

---
 src/py_eddy_tracker/observations/network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 4c847b8..4cdcc0e 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1505,9 +1505,14 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        if mask is not None:
+            mask = arange(len(self))[mask]
+        _, translate = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                # Selected observations could be moved by sort
+                mask = translate[mask]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask)
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From e1f3e51b2b657c037c4334a9ffb764e54338fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 29/87] fix: analysis_coherence failed when remove_dead_end is
 used

---
 src/py_eddy_tracker/observations/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 4cdcc0e..da7bce4 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1693,10 +1693,10 @@ class NetworkObservations(GroupEddiesObservations):
         if correct_close_events > 0:
             self.correct_close_events(nb_days_max=correct_close_events)
 
+        # All preprocessing are applied in place
         if remove_dead_end > 0:
-            network_clean = self.remove_dead_end(nobs=0, ndays=remove_dead_end)
-        else:
-            network_clean = self
+            self.remove_dead_end(nobs=0, ndays=remove_dead_end)
+        network_clean = self
 
         network_clean.numbering_segment()
 
-- 
2.43.0


From 49b3e3ecb625127f09ae44444b2c5e880212fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 30/87] fix: last_obs of an empty table of observations

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 0826c86..c80b873 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2174,7 +2174,7 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.last_obs
         """
         m = zeros(len(self), dtype="bool")
-        m[-1] = True
+        m[-1:] = True
         m[:-1][self.n[1:] == 0] = True
         return self.extract_with_mask(m)
 
-- 
2.43.0


From f8f12d5036fc283d9afb8b345071e35e55d8f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 31/87] fix: merge of empty tables of tracks

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c80b873..a5a87a4 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -555,7 +555,7 @@ class EddiesObservations(object):
             eddies.obs[key][:nb_obs_self] = self.obs[key][:]
             if key in other_keys:
                 eddies.obs[key][nb_obs_self:] = other.obs[key][:]
-        if "track" in other_keys and "track" in self_keys:
+        if "track" in other_keys and "track" in self_keys and nb_obs_self:
             last_track = eddies.track[nb_obs_self - 1] + 1
             eddies.track[nb_obs_self:] += last_track
         eddies.sign_type = self.sign_type
-- 
2.43.0


From 81203d070a7943b2a0d2381f9de86acafc95297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 32/87] fix: period and index of tracks after an insertion of
 observations

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 src/py_eddy_tracker/observations/tracking.py    | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index a5a87a4..faa10c3 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -670,6 +670,8 @@ class EddiesObservations(object):
         """Insert other obs in self at the given index."""
         if not self.coherence(other):
             raise Exception("Observations with no coherence")
+        # Period will be computed again
+        self.period_ = None
         insert_size = len(other)
         self_size = len(self)
         new_size = self_size + insert_size
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 008908a..f74d2aa 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -327,6 +327,14 @@ class TrackEddiesObservations(GroupEddiesObservations):
             i_start += nb_obs
         return eddies
 
+    def insert_observations(self, other, index):
+        """Insert other obs in self at the given index."""
+        # Index of tracks will be computed again
+        self.__first_index_of_track = None
+        self.__obs_by_track = None
+        self.__nb_track = None
+        return super().insert_observations(other, index)
+
     def count_by_track(self, mask):
         """
         Count by track
-- 
2.43.0


From 49f40f9eaf330626089c43f049969c4b014a7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 33/87] fix: concatenate tracks with empty datasets

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index f74d2aa..841710e 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -320,6 +320,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         i_start = 0
         for obs in observations:
             nb_obs = len(obs)
+            if nb_obs == 0:
+                continue
             sl = slice(i_start, i_start + nb_obs)
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
-- 
2.43.0


From 92d00ef8189710269b3b575ef3bcc88f0e0b2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 34/87] fix: tables with other fields or raw data are not
 coherent

---
 src/py_eddy_tracker/observations/observation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index faa10c3..70fc3bf 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -524,6 +524,7 @@ class EddiesObservations(object):
         test = self.track_extra_variables == other.track_extra_variables
         test *= self.track_array_variables == other.track_array_variables
         test *= self.array_variables == other.array_variables
+        test *= self.dtype == other.dtype
         return test
 
     @classmethod
-- 
2.43.0


From 4d2b2523eb5caa217c90e70af05d7cd6eb8d3cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 35/87] fix: fields could not be added to a table once fields
 have been removed

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 70fc3bf..59ed3a1 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -423,8 +423,10 @@ class EddiesObservations(object):
         nb_obs = len(self)
         fields = set(fields)
         only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0


From 73c9d94f8509c823711d01b364193dcbd5337e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 36/87] fix: combination of two slices selects the rows of both

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 59ed3a1..789c295 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1990,8 +1990,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select = zeros(len(self), dtype="bool")
+                select[filter2] = True
+                return ~reject * select
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From ec381107518e333e4d7c0f855ffa31674efa9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 37/87] fix: grid_box_stat stored the statistic of a box in the
 next one

---
 src/py_eddy_tracker/observations/observation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 789c295..6cce986 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2561,13 +2561,16 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
         # group change
         if i_ != i0 or j_ != j0:
             # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            grid[i0, j0] = percentile(values, method)
+            mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # store last group
+    grid[i0, j0] = percentile(values, method)
+    mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From 5ae2f52fb603ee7bb5dfef72ee00e1ef0333465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 38/87] fix: grid_box_stat failed with masked data

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6cce986..0190732 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2303,6 +2303,8 @@ class EddiesObservations(object):
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
             filter = self.merge_filters(~data.mask, self.merge_filters(filter))
+            # numba functions don't accept masked array
+            data = data.data
         else:
             filter = self.merge_filters(filter)
         x, y, data = x[filter], y[filter], data[filter]
-- 
2.43.0


From 243c549ff496c88e2e52918c3b51a7e619b91f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 39/87] fix: min and max of a grid in contours used masked
 pixels

---
 src/py_eddy_tracker/observations/observation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 0190732..1fd5c30 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2622,11 +2622,16 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
                 result[elt] = v_sum / nb_
         elif max_method:
             v_max = -1e40
+            nb_ = 0
             for i_, j_ in zip(i, j):
-                values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
-            result[elt] = v_max
+                if mask[i_, j_]:
+                    continue
+                v_max = max(v_max, grid[i_, j_])
+                nb_ += 1
+            if nb_ == 0:
+                result[elt] = nan
+            else:
+                result[elt] = v_max
 
 
 class VirtualEddiesObservations(EddiesObservations):
-- 
2.43.0


From cce8cb6f94520fb9612140aedba8347cfde1064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 40/87] fix: loess filter never used the first and the last
 observations of the dataset

---
 src/py_eddy_tracker/observations/tracking.py | 35 +++++++++-----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 841710e..546b59f 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -842,32 +842,29 @@ def track_loess_filter(half_window, x, y, track):
 
     """
     nb = y.shape[0]
-    last = nb - 1
     y_new = empty(y.shape, dtype=y.dtype)
     for i in range(nb):
         cur_track = track[i]
         y_sum = y[i]
         w_sum = 1
-        if i != 0:
-            i_previous = i - 1
+        i_previous = i - 1
+        while i_previous >= 0 and cur_track == track[i_previous]:
             dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
-                w = (1 - (dx / half_window) ** 3) ** 3
-                y_sum += y[i_previous] * w
-                w_sum += w
-                i_previous -= 1
-                dx = x[i] - x[i_previous]
-        if i != last:
-            i_next = i + 1
+            if dx >= half_window:
+                break
+            w = (1 - (dx / half_window) ** 3) ** 3
+            y_sum += y[i_previous] * w
+            w_sum += w
+            i_previous -= 1
+        i_next = i + 1
+        while i_next < nb and cur_track == track[i_next]:
             dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
-                w = (1 - (dx / half_window) ** 3) ** 3
-                y_sum += y[i_next] * w
-                w_sum += w
-                i_next += 1
-                dx = x[i_next] - x[i]
+            if dx >= half_window:
+                break
+            w = (1 - (dx / half_window) ** 3) ** 3
+            y_sum += y[i_next] * w
+            w_sum += w
+            i_next += 1
         y_new[i] = y_sum / w_sum
     return y_new
 
-- 
2.43.0


From 63b35aafb72e445c733060d6e56e2878b6e504dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 41/87] fix: load a slice of observations without stop, with a
 step or out of range

---
 .../observations/observation.py               | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1fd5c30..c5ef01d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -830,14 +830,12 @@ class EddiesObservations(object):
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
             if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
                 logger.warning("step of slice won't be use")
+            start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+            stop = max(start, stop)
+            indexs = dict(indexs, obs=slice(start, stop))
+            nb_obs = stop - start
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
@@ -978,14 +976,12 @@ class EddiesObservations(object):
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
                 sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
                 if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
                     logger.warning("step of slice won't be use")
+                start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+                stop = max(start, stop)
+                indexs = {**indexs, obs_dim: slice(start, stop)}
+                nb_obs = stop - start
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
             if array_dim in h_nc.dimensions:
-- 
2.43.0


From d768401605ea4213d3c7da910beaf61b05cf87f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 42/87] fix: a table without contours could not be loaded from
 zarr

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c5ef01d..1952a9c 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -826,7 +826,7 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From 3e8b9aff82587cf34979db26ce830b4c341fd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 43/87] fix: raw data loaded from zarr were truncated instead
 of rounded

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1952a9c..c932d50 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -932,6 +932,8 @@ class EddiesObservations(object):
                     data -= add_offset
                 if scale_factor is not None:
                     data /= scale_factor
+                    # packed values are integers
+                    data = data.round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From c7d34aafd1686b7f0fe31d809816976c8d31a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 44/87] fix: an empty table with type_cyc could not be loaded
 from netCDF

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c932d50..e0be2f8 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1037,7 +1037,7 @@ class EddiesObservations(object):
 
             for variable in var_list:
                 var_inv = VAR_DESCR_inv[variable]
-                if var_inv == "type_cyc":
+                if var_inv == "type_cyc" and h_nc.variables[variable].size:
                     eddies.sign_type = h_nc.variables[variable][0]
             if eddies.sign_type is None:
                 title = getattr(h_nc, "title", None)
-- 
2.43.0


From d544d1ea82058802b5e7b47a4d85ec03ce78edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 45/87] fix: extremum of a flat area could be a pixel out of
 this area

---
 src/py_eddy_tracker/eddy_feature.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..8902029 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -276,11 +276,17 @@ def detect_local_minima_(grid, general_mask, pixel_mask, maximum_local_extremum,
                     x_mean += xs[i]
                     y_mean += ys[i]
                     nb += 1
-            x_mean /= nb
-            y_mean /= nb
-
-            xs_new.append(numba_types.int32(round(x_mean)))
-            ys_new.append(numba_types.int32(round(y_mean)))
+            x_mean = numba_types.int32(round(x_mean / nb))
+            y_mean = numba_types.int32(round(y_mean / nb))
+            # Barycentre could be out of the group
+            i_near, d_near = -1, 0
+            for i in range(nb_extrema):
+                if gr_ == gr[i]:
+                    d = (xs[i] - x_mean) ** 2 + (ys[i] - y_mean) ** 2
+                    if i_near == -1 or d < d_near:
+                        i_near, d_near = i, d
+            xs_new.append(xs[i_near])
+            ys_new.append(ys[i_near])
         return xs_new, ys_new
     return xs, ys
 
-- 
2.43.0


From d7292d6b36cc6c54e62b2c9bc52edb9108504e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 46/87] fix: unclosed lines which cross the bounds several
 times were lost

---
 src/py_eddy_tracker/eddy_feature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8902029..811a55c 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -394,6 +394,8 @@ class Contours(object):
                         origin = paths_left.pop(0)
                         if self.get_next(origin, paths_left, paths_right):
                             paths_solve.append(origin)
+                        else:
+                            paths_out.append(origin)
 
                 poly_solve += len(paths_solve)
 
-- 
2.43.0


From d58ffd6ada7119ecabf1a88baa1ad0063ed1165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 47/87] fix: nearest contour could be one whose box does not
 contain the position

---
 src/py_eddy_tracker/eddy_feature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 811a55c..bf5e0e0 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -759,11 +759,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Only contours with pt in their bbox are compared
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = 1e10
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
-- 
2.43.0


From 382c64e4b60b2f718601c8b80eba5352f553b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 48/87] fix: contours with several cyclonic eddies were
 compared with the wrong level

---
 src/py_eddy_tracker/eddy_feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index bf5e0e0..8c6b9af 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -704,7 +704,7 @@ class Contours(object):
         else:
             # cyclonic
             sl = slice(1, None)
-            cor = -1
+            cor = 0
 
         # On each level
         for j, collection in enumerate(self.contours.collections[sl]):
-- 
2.43.0


From 79ef1397b7c9eb56f12be307f273937f068712e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 49/87] fix: targets of particles were compared with truncated
 percentages

---
 src/py_eddy_tracker/observations/groups.py | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index bddee23..8b9f887 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -247,23 +247,23 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
             count[i_start_, i_end_] += 1
         ref[i_start_] += 1
     for i in range(nb_start):
+        # Index in full dataset
+        i_ = translate_start[i]
+        # Percents are compared before to be stored, pct could be an array of integers
+        pct_0, pct_1 = float(pct[i_, 0]), float(pct[i_, 1])
         for j in range(nb_end):
-            pct_ = count[i, j]
             # If there are particles from i to j
-            if pct_ != 0:
+            if count[i, j] != 0:
                 # Get percent
-                pct_ = pct_ / ref[i] * 100.0
-                # Get indices in full dataset
-                i_, j_ = translate_start[i], translate_end[j]
-                pct_0 = pct[i_, 0]
+                pct_ = count[i, j] / ref[i] * 100.0
                 if pct_ > pct_0:
-                    pct[i_, 1] = pct_0
-                    pct[i_, 0] = pct_
+                    pct_1, pct_0 = pct_0, pct_
                     i_target[i_, 1] = i_target[i_, 0]
-                    i_target[i_, 0] = j_
-                elif pct_ > pct[i_, 1]:
-                    pct[i_, 1] = pct_
-                    i_target[i_, 1] = j_
+                    i_target[i_, 0] = translate_end[j]
+                elif pct_ > pct_1:
+                    pct_1 = pct_
+                    i_target[i_, 1] = translate_end[j]
+        pct[i_, 0], pct[i_, 1] = pct_0, pct_1
     return i_target, pct
 
 
-- 
2.43.0


From b9523b9f90753c58c567eac3b93d045bf8ff9a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 50/87] fix: last date of the period was never used by
 particle_candidate_atlas

---
 src/py_eddy_tracker/observations/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 8b9f887..71f8a15 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -384,7 +384,11 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         shape = (len(self), 2)
         i_target, pct = full(shape, -1, dtype="i4"), zeros(shape, dtype="i1")
         # Backward or forward
-        times = arange(t_start, t_end - dt) if dt > 0 else arange(t_start - dt, t_end)
+        # (last date is included)
+        if dt > 0:
+            times = arange(t_start, t_end - dt + 1)
+        else:
+            times = arange(t_start - dt, t_end + 1)
 
         if callback_coherence is None:
             callback_coherence = self.fill_coherence
-- 
2.43.0


From 4032632fe3df38e664a9c80820671bf1a1e711d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 51/87] fix: segment coherence failed when the period holds
 only one advection

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index da7bce4..41e6683 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1806,7 +1806,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start + 1) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
@@ -1883,7 +1883,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start + 1) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
-- 
2.43.0


From b560bd77048fd58391f76edeff09a89b625f6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 52/87] fix: identify_in failed when items are sorted by size
 and a size is not in the other dataset

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 41e6683..2964138 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1307,6 +1307,8 @@ class NetworkObservations(GroupEddiesObservations):
         for i_self, i_other, i0, _ in self.align_on(other, counts, all_ref=True):
             if i0 < size_min:
                 continue
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
@@ -1315,8 +1317,6 @@ class NetworkObservations(GroupEddiesObservations):
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
-- 
2.43.0


From 222ee832723ef5c370c10371b5b10d81acc49bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 53/87] fix: close_network failed with float dates or without
 common date

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 2964138..bcf20e8 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -682,8 +682,8 @@ class NetworkObservations(GroupEddiesObservations):
             It could be a costly operation for huge dataset
         """
         p0, p1 = self.period
-        indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        indexs = [empty(0, dtype="i8")]
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
         indexs = concatenate(indexs)
-- 
2.43.0


From 2a69b8700ead84cb6a38005fc46fad533ae30388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 54/87] fix: close_tracks failed without common date

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 546b59f..e6726d7 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -579,7 +579,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         p0_other, p1_other = other.period
         if p1_other < p0 or p1 < p0_other:
             return other.__class__.new_like(other, 0)
-        indexs = list()
+        indexs = [empty(0, dtype="i8")]
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
-- 
2.43.0


From ff9fae274db53102432d194a7cc9e87e4360e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 55/87] fix: align_on failed when the other dataset has nothing
 in the bins

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e0be2f8..d753f11 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -30,6 +30,7 @@ from numpy import (
     histogram,
     histogram2d,
     in1d,
+    inf,
     isnan,
     linspace,
     ma,
@@ -654,7 +655,8 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        # Other could have nothing in the bins
+        indexs_other, b0_other, b1_other = next(iter_other, (None, inf, inf))
         for indexs_self, b0_self, b1_self in iter_self:
             if b0_self > b0_other:
                 try:
-- 
2.43.0


From 8f7934e2764e03f4a886bc161daec224797c88ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 56/87] fix: fixed_ellipsoid_mask used the minus operator on
 booleans

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d753f11..94edc7f 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1341,7 +1341,7 @@ class EddiesObservations(object):
 
         # All obs we are not in rejected and accepted, there are between
         # two circle
-        needs_investigation = -(rejected + accepted)
+        needs_investigation = ~(rejected + accepted)
         index_other, index_self = where(needs_investigation)
 
         nb_case = index_self.shape[0]
-- 
2.43.0


From 385a25fe56822faedc7eaadd4ba887849c309784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 57/87] fix: common area of contours on both sides of the
 dateline was never computed

---
 src/py_eddy_tracker/observations/observation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 94edc7f..edae784 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1278,18 +1278,17 @@ class EddiesObservations(object):
         costs = ma.empty(nb_records, dtype="f4")
 
         for i in range(nb_records):
-            if x_in_max[i] < x_out_min[i] or x_in_min[i] > x_out_max[i]:
+            # Whole turns between the two contours, according to first positions
+            dx = (x_out[i, 0] - x_in[i, 0] + 180) // 360 * 360
+            if x_in_max[i] < x_out_min[i] - dx or x_in_min[i] > x_out_max[i] - dx:
                 costs[i] = 1
                 continue
             if y_in_max[i] < y_out_min[i] or y_in_min[i] > y_out_max[i]:
                 costs[i] = 1
                 continue
 
-            x_in_, x_out_ = x_in[i], x_out[i]
-            p_in = Polygon(create_vertice(x_in_, y_in[i]))
-            if abs(x_in_[0] - x_out_[0]) > 180:
-                x_out_ = (x_out[i] - (x_in_[0] - 180)) % 360 + x_in_[0] - 180
-            p_out = Polygon(create_vertice(x_out_, y_out[i]))
+            p_in = Polygon(create_vertice(x_in[i], y_in[i]))
+            p_out = Polygon(create_vertice(x_out[i] - dx, y_out[i]))
             costs[i] = 1 - (p_in & p_out).area() / min(p_in.area(), p_out.area())
         costs.mask = costs == 1
         return costs
-- 
2.43.0


From f4f211614d661231564fafd653bf8362c99c2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 58/87] fix: test of positions in contours failed without
 position

---
 src/py_eddy_tracker/poly.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..db087af 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -916,6 +916,9 @@ def poly_indexs(x_p, y_p, x_c, y_c):
     nb_p = x_p.shape[0]
     nb_c = x_c.shape[0]
     indexs = -ones(nb_p, dtype=numba_types.int32)
+    # Nothing to test
+    if nb_p == 0:
+        return indexs
     # Adress table to get test bloc
     start_index, end_index, i_first = build_index(i[i_order])
     nb_bloc = end_index.size
-- 
2.43.0


From ae88f93e46838de48df90c330ea0891e95ae31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 59/87] fix: inside failed with undefined positions

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index edae784..d1f2fb8 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2222,8 +2222,8 @@ class EddiesObservations(object):
         :return: flag
         :rtype: array[bool]
         """
-        xname, yname = self.intern(intern)
-        return insidepoly(x, y, self[xname], self[yname])
+        # Undefined positions are never inside
+        return self.contains(x, y, intern=intern) != -1
 
     def grid_count(self, bins, intern=False, center=False, filter=slice(None)):
         """
-- 
2.43.0


From 8a6b71a7a7f97f76196cb07bd7eaba6361c2f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 60/87] fix: global grids were not circular when coordinates
 are rounded

---
 src/py_eddy_tracker/dataset/grid.py | 12 ++++++------
 src/py_eddy_tracker/generic.py      |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0e85468..173019f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1331,7 +1331,7 @@ class RegularGridDataset(GridDataset):
         """Check if the grid is circular"""
         if self._is_circular is None:
             self._is_circular = (
-                abs((self.x_bounds[0] % 360) - (self.x_bounds[-1] % 360)) < 0.0001
+                abs((self.x_bounds[-1] - self.x_bounds[0] + 180) % 360 - 180) < 0.0001
             )
         return self._is_circular
 
@@ -2110,7 +2110,7 @@ def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] + x_step - x_g[0] + 180) % 360 - 180) < 1e-4
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2213,7 +2213,7 @@ def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] + x_step - x_g[0] + 180) % 360 - 180) < 1e-4
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes which should be never exist
@@ -2640,7 +2640,7 @@ def advect_t(x_g, y_g, u_g0, v_g0, m_g0, u_g1, v_g1, m_g1, x, y, m, weigths, hal
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] + x_step - x_g[0] + 180) % 360 - 180) < 1e-4
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes that should never exist
@@ -2771,7 +2771,7 @@ def advect_t_rk4(
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
     x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] + x_step - x_g[0] + 180) % 360 - 180) < 1e-4
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2940,7 +2940,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
         is_circular = False
     else:
         # Test if matrix is circular
-        is_circular = abs(x[-1] % 360 - (x[0] - d_step) % 360) < 1e-5
+        is_circular = abs((x[-1] + d_step - x[0] + 180) % 360 - 180) < 1e-4
 
     # Compute caracteristic distance, constant when vertical
     d_ = 360 / (d_step * pi * 2 * earth_radius)
diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 0554578..e2e5af2 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -221,7 +221,7 @@ def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     y_step = y_g[1] - y_ref
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] + x_step - x_g[0] + 180) % 360 - 180) < 1e-4
     z = empty(x.shape, dtype=z_g.dtype)
     for i in prange(x.size):
         i0 = int(round((x[i] - x_ref) / x_step))
@@ -258,7 +258,7 @@ def interp2d_bilinear(x_g, y_g, z_g, m_g, x, y):
     y_step = y_g[1] - y_ref
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = abs((x_g[-1] + x_step - x_g[0] + 180) % 360 - 180) < 1e-4
     # Indexes that should never exist
     i0_old, j0_old, masked = -100000000, -10000000, False
     z = empty(x.shape, dtype=z_g.dtype)
-- 
2.43.0


From 3420bfb246e21ce0d541838f35bacfab9d1d7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 61/87] fix: last bound of grids described by corners was
 missing

---
 src/py_eddy_tracker/dataset/grid.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 173019f..82c31f5 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -461,14 +461,12 @@ class GridDataset(object):
             self.y_bounds = array(self.vars[y_name].astype("float64"))
 
             if len(self.x_dim) == 1:
-                self.x_c = self.x_bounds.copy()
-                dx2 = (self.x_bounds[1:] - self.x_bounds[:-1]) / 2
-                self.x_c[:-1] += dx2
-                self.x_c[-1] += dx2[-1]
-                self.y_c = self.y_bounds.copy()
-                dy2 = (self.y_bounds[1:] - self.y_bounds[:-1]) / 2
-                self.y_c[:-1] += dy2
-                self.y_c[-1] += dy2[-1]
+                # Last pixel is closed with the last step
+                x, y = self.x_bounds, self.y_bounds
+                self.x_bounds = concatenate((x, (2 * x[-1] - x[-2],)))
+                self.y_bounds = concatenate((y, (2 * y[-1] - y[-2],)))
+                self.x_c = (self.x_bounds[1:] + self.x_bounds[:-1]) / 2
+                self.y_c = (self.y_bounds[1:] + self.y_bounds[:-1]) / 2
             else:
                 raise Exception("not write")
 
-- 
2.43.0


From ff41adefb34001ad02595df31407ac853b2a5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 62/87] fix: nearest index and pixel path were shifted by half
 a pixel

---
 src/py_eddy_tracker/dataset/grid.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 82c31f5..79f9ea2 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -12,6 +12,7 @@ from numba import njit, prange, types as numba_types
 from numpy import (
     arange,
     array,
+    asarray,
     ceil,
     concatenate,
     cos,
@@ -35,7 +36,6 @@ from numpy import (
     percentile,
     pi,
     radians,
-    round_,
     sin,
     sinc,
     sqrt,
@@ -58,7 +58,6 @@ from ..generic import (
     distance,
     interp2d_geo,
     local_to_coordinates,
-    nearest_grd_indice,
     uniform_resample,
 )
 from ..observations.observation import EddiesObservations
@@ -1289,9 +1288,10 @@ class RegularGridDataset(GridDataset):
         return indices % self.x_size
 
     def nearest_grd_indice(self, x, y):
-        return nearest_grd_indice(
-            x, y, self.x_bounds, self.y_bounds, self.xstep, self.ystep
-        )
+        # Pixel which contains the position
+        i_x = ((asarray(x) - self.x_bounds[0]) % 360) / self.xstep
+        i_y = (asarray(y) - self.y_bounds[0]) / self.ystep
+        return floor(i_x).astype("i4"), floor(i_y).astype("i4")
 
     @property
     def xstep(self):
@@ -2258,12 +2258,12 @@ def compute_pixel_path(x0, y0, x1, y1, x_ori, y_ori, x_step, y_step, nb_x):
     i_x1 = empty(nx, dtype=numba_types.int_)
     i_y0 = empty(nx, dtype=numba_types.int_)
     i_y1 = empty(nx, dtype=numba_types.int_)
-    # Because round_ is not accepted with array in numba
+    # Pixels which contain the positions
     for i in range(nx):
-        i_x0[i] = round_(((x0[i] - x_ori) % 360) / x_step)
-        i_x1[i] = round_(((x1[i] - x_ori) % 360) / x_step)
-        i_y0[i] = round_((y0[i] - y_ori) / y_step)
-        i_y1[i] = round_((y1[i] - y_ori) / y_step)
+        i_x0[i] = floor(((x0[i] - x_ori) % 360) / x_step)
+        i_x1[i] = floor(((x1[i] - x_ori) % 360) / x_step)
+        i_y0[i] = floor((y0[i] - y_ori) / y_step)
+        i_y1[i] = floor((y1[i] - y_ori) / y_step)
     # Delta index of x
     d_x = i_x1 - i_x0
     d_x = (d_x + nb_x // 2) % nb_x - (nb_x // 2)
-- 
2.43.0


From 71109f07adb28cfe2554716cc2ec0289398cd120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 63/87] fix: copy of a grid which is not loaded lost its
 orientation

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 79f9ea2..da6f78d 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -495,6 +495,8 @@ class GridDataset(object):
         :param grid_out:
 
         """
+        # Informations are complete only after the load
+        data = self.grid(grid_in)
         h_dict = self.variables_description[grid_in]
         self.variables_description[grid_out] = dict(
             infos=h_dict["infos"].copy(),
@@ -502,7 +504,7 @@ class GridDataset(object):
             args=tuple((grid_out, *h_dict["args"][1:])),
             kwargs=h_dict["kwargs"].copy(),
         )
-        self.vars[grid_out] = self.grid(grid_in).copy()
+        self.vars[grid_out] = data.copy()
 
     def add_grid(self, varname, grid):
         """
-- 
2.43.0


From a4b666b1e5c8bedb8b2947c4413f02162459a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 64/87] fix: part of a grid could not be written, and an unique
 date was written for all dates

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index da6f78d..bc77436 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -414,6 +414,10 @@ class GridDataset(object):
             sl_y = [self.indexs.get(dim, slice(None)) for dim in self.y_dim]
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
+        # Sizes of what is loaded: only one index outside of coordinates
+        sizes = dict(zip(self.x_dim, self.vars[x_name].shape))
+        sizes.update(zip(self.y_dim, self.vars[y_name].shape))
+        self.dimensions = {dim: sizes.get(dim, 1) for dim in self.dimensions}
 
         self.setup_coordinates()
 
-- 
2.43.0


From 56f99759be644ca09270f5a5ebd4f1157cec3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 65/87] fix: particles could not be advected on grids read
 without masked value

---
 src/py_eddy_tracker/dataset/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index bc77436..0d1ae6c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2042,7 +2042,8 @@ class RegularGridDataset(GridDataset):
         if backward:
             u = -u
             v = -v
-        m = u.mask + v.mask
+        # Mask could be reduced to a scalar without masked value
+        m = self.get_mask(u) + self.get_mask(v)
         return u.data, v.data, m
 
     def advect(self, x, y, u_name, v_name, nb_step=10, rk4=True, **kw):
-- 
2.43.0


From 27a9fb7ba5d7829964a68e1a0bfeec9f313cc308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 66/87] fix: advection which starts between two grids used the
 wrong grids

---
 src/py_eddy_tracker/dataset/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0d1ae6c..7c16887 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2601,7 +2601,8 @@ class GridCollection:
 
     def get_next_time_step(self, t_init):
         for i, (t, dataset) in enumerate(self.datasets):
-            if t < t_init:
+            # First grid is the last one before the start
+            if i + 1 < len(self.datasets) and self.datasets[i + 1][0] <= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
@@ -2611,7 +2612,8 @@ class GridCollection:
         i = len(self.datasets)
         for t, dataset in reversed(self.datasets):
             i -= 1
-            if t > t_init:
+            # First grid is the first one after the start
+            if i > 0 and self.datasets[i - 1][0] >= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
-- 
2.43.0


From 8968bf4ddc0f403d1a2895bf7ec4aa26b3ac8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 67/87] fix: statistic by box wrote out of global grids for
 latitudes outside

---
 src/py_eddy_tracker/observations/observation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d1f2fb8..f05b61e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2549,10 +2549,10 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
     i0, j0 = i[k_sort[0]], j[k_sort[0]]
-- 
2.43.0


From f3d7d5602e52fb1003c6e9259a313595cf690752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 68/87] fix: size reduction of a contour with identical
 positions read before the array

---
 src/py_eddy_tracker/poly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index db087af..3d5ea0e 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -869,13 +869,13 @@ def reduce_size(x, y):
     """
     i = x.shape[0]
     x0, y0 = x[0], y[0]
-    while True:
+    # In case of virtual obs all value could be fill with same value, to avoid empty array
+    while i > 3:
         i -= 1
         if x[i] != x0 or y[i] != y0:
             i += 1
-            # In case of virtual obs all value could be fill with same value, to avoid empty array
-            i = max(3, i)
-            return x[:i], y[:i]
+            break
+    return x[:i], y[:i]
 
 
 @njit(cache=True)
-- 
2.43.0


From 4bcdbe5ec3a05b255cf41b34c9c545bdbff688ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 69/87] fix: first time of particle paths was in days and the
 others in seconds

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 7c16887..377d3e0 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2636,7 +2636,9 @@ class GridCollection:
         t = empty(nb_time + 1, dtype="f8")
         x = empty((nb_time + 1, x0.size), dtype=x0.dtype)
         y = empty(x.shape, dtype=y0.dtype)
-        t[0], x[0], y[0] = kwargs.get("t_init"), x0, y0
+        # Times of advection are in seconds
+        t_init = args[0] if args else kwargs["t_init"]
+        t[0], x[0], y[0] = t_init * 86400, x0, y0
         for i in range(nb_time):
             t[i + 1], x[i + 1], y[i + 1] = particles.__next__()
         return t, x, y
-- 
2.43.0


From 326aa3bfccde2ad73fe6c8a62e8edb68c3f2ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 70/87] fix: filter was shifted by one row near the south pole
 when the kernel goes over it

---
 src/py_eddy_tracker/dataset/grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 377d3e0..fa53058 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1381,13 +1381,14 @@ class RegularGridDataset(GridDataset):
         kernel_ = empty((half_x_pt * 2 * order + 1, half_y_pt * 2 * order + 1))
         kernel_[half_x_pt * order :] = kernel
         kernel_[: half_x_pt * order] = kernel[:0:-1]
-        # remove unused row/column
+        # remove unused row/column, kernel must stay centered also when it goes over a pole
         k_valid = kernel_ != 0
+        nb_x, nb_y = kernel_.shape
         x_valid = where(k_valid.sum(axis=1))[0]
-        x_slice = slice(x_valid[0], x_valid[-1] + 1)
+        x_cut = min(x_valid[0], nb_x - 1 - x_valid[-1])
         y_valid = where(k_valid.sum(axis=0))[0]
-        y_slice = slice(y_valid[0], y_valid[-1] + 1)
-        return kernel_[x_slice, y_slice]
+        y_cut = min(y_valid[0], nb_y - 1 - y_valid[-1])
+        return kernel_[x_cut : nb_x - x_cut, y_cut : nb_y - y_cut]
 
     def kernel_lanczos(self, lat, wave_length, order=1):
         """Not really operational
-- 
2.43.0


From c053766d8bba71dbd33711d3248b789bc5a82f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 71/87] fix: current of lagerloef method was undefined on a row
 of grid at equator

---
 src/py_eddy_tracker/dataset/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index fa53058..ef992be 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1843,6 +1843,9 @@ class RegularGridDataset(GridDataset):
             * gob
         )
         w = 1 - exp(-((lat / 2.2) ** 2))
+        # Geostrophic current is infinite at equator, where only lagerloef is used
+        for name in (uname, vname):
+            self.vars[name][:, sl].data[:, w == 0] = 0
         self.vars[vname][:, sl] = self.vars[vname][:, sl] * w + v_lagerloef * (1 - w)
         self.vars[uname][:, sl] = self.vars[uname][:, sl] * w + u_lagerloef * (1 - w)
 
-- 
2.43.0


From b49a754f84329e9b51301fa27f356d70a11f60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:21 +0000
Subject: [PATCH 72/87] fix: swap_track keeps links and segments consistent

After a swap, next observation of the main segment was kept on the branch which had left it,
a segment which stops at the event took the last row of the dataset (index -1), and a second
branch born from the same observation used the rows of the first swap.
---
 src/py_eddy_tracker/observations/network.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index bcf20e8..e0e4b56 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1919,9 +1919,13 @@ class NetworkObservations(GroupEddiesObservations):
     ):
         events = self.splitting_event(triplet=True, only_index=True)
         count = 0
-        for i_main, i1, i2 in zip(*events):
-            seg_main, _, seg2 = (
-                self.segment_track_array[i_main],
+        for i_main, _, i2 in zip(*events):
+            # A previous swap could have changed next observation
+            i1 = self.next_obs[i_main]
+            if i1 == -1 or self.segment[i1] != self.segment[i_main]:
+                # main segment stops at this event
+                continue
+            seg_main, seg2 = (
                 self.segment_track_array[i1],
                 self.segment_track_array[i2],
             )
@@ -1949,6 +1953,8 @@ class NetworkObservations(GroupEddiesObservations):
             ):
                 self.segment[i1 : last_index_main + 1] = self.segment[i2]
                 self.segment[i2 : last_index_secondary + 1] = self.segment[i_main]
+                # main segment goes on with the secondary one
+                self.next_obs[i_main] = i2
                 count += 1
         logger.info("%d segmnent swap on %d", count, len(events[0]))
         return self.sort()
-- 
2.43.0


From 64ae9b30c0b96d430ed4369a60b216e0122a6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 73/87] fix: iter_on with unsorted unsigned values

The difference of unsigned values is never negative: unsorted values, like observation numbers
or track numbers, were taken as sorted and groups mixed several values.
---
 src/py_eddy_tracker/observations/observation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f05b61e..30c6162 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -598,7 +598,6 @@ class EddiesObservations(object):
             for x_, i0, i1 in zip(x0, first_index, last_index):
                 yield i_ordered[i0:i1], x_ - window, x_ + window
         else:
-            d = x[1:] - x[:-1]
             if bins is None:
                 bins = arange(x.min(), x.max() + 2)
             elif not isinstance(bins, ndarray):
@@ -606,7 +605,7 @@ class EddiesObservations(object):
             nb_bins = len(bins) - 1
 
             # Not monotonous
-            if (d < 0).any():
+            if (x[1:] < x[:-1]).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
                 # No value covered by bins
-- 
2.43.0


From 93b2646e29bf1ff5793b14e6b6c5aaa5afff4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:18 +0000
Subject: [PATCH 74/87] fix: network subset tool selects in days, removes dead
 ends and trash as asked

---
 src/py_eddy_tracker/appli/network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..46bc959 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -140,13 +140,17 @@ def subset_network():
         "if 0 it is not used",
     )
     args = parser.parse_args()
-    n = NetworkObservations.load_file(args.input, raw_data=True)
+    # Selections are in days, raw time is not
+    n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-        n = n.remove_dead_end(*args.remove_dead_end)
+        # Dead end are moved to trash
+        n.remove_dead_end(*args.remove_dead_end)
+    if args.remove_trash:
+        n = n.remove_trash()
     if args.period is not None:
         n = n.extract_with_period(args.period)
     n.write_file(filename=args.out)
-- 
2.43.0


From 6d98af330363fa7f94d1663f7851043fa46c0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:58 +0000
Subject: [PATCH 75/87] fix: selection of ids which are not in dataset reads
 out of indexes

---
 src/py_eddy_tracker/observations/network.py  | 3 +++
 src/py_eddy_tracker/observations/tracking.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index e0e4b56..f9efa96 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2278,6 +2278,9 @@ def generate_mask_from_ids(id_networks, nb, istart, iend, i0):
     """
     m = zeros(nb, dtype="bool")
     for i in id_networks:
+        # ids which are not in dataset have no index
+        if i < i0 or i - i0 >= istart.size:
+            continue
         for j in range(istart[i - i0], iend[i - i0]):
             m[j] = True
     return m
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e6726d7..40da0f8 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -824,6 +824,9 @@ def count_by_track(tracks, mask, number):
 @njit(cache=True)
 def compute_mask_from_id(tracks, first_index, number_of_obs, mask):
     for track in tracks:
+        # ids which are not in dataset have no index
+        if track < 0 or track >= first_index.size:
+            continue
         mask[first_index[track] : first_index[track] + number_of_obs[track]] = True
 
 
-- 
2.43.0


From 4ab3af7a956fe2141e49d098547ccd8ba4c70932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:50 +0000
Subject: [PATCH 76/87] fix: comparison of networks fails when no network is
 identical

---
 src/py_eddy_tracker/appli/network.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index 46bc959..7b0d605 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -228,6 +228,17 @@ def run_compare(ref, others):
         ref_id, other_id = ref_id[m], other_id[m]
         out["same N(N)"] = m.sum()
         out["same N(Obs)"] = ref.network_size(ref_id).sum()
+        out["same NS(N)"], out["same NS(Obs)"] = 0, 0
+
+        ref_segu, other_segu = ref.identify_in(other, segment=True)
+        m = other_segu != -1
+        out["same S(S)"] = m.sum()
+        out["same S(Obs)"] = ref.segment_size()[ref_segu[m]].sum()
+
+        outs[k] = out
+        if ref_id.size == 0:
+            # No network to compare further
+            continue
 
         # For network which have same obs
         ref_, other_ = ref.networks(ref_id), other.networks(other_id)
@@ -274,13 +285,6 @@ def run_compare(ref, others):
 
         m = (tref == tother) & (xref == xother) & (yref == yother)
         print(m.sum(), m.size, ref_segu.size, ref_track_no_match.size)
-
-        ref_segu, other_segu = ref.identify_in(other, segment=True)
-        m = other_segu != -1
-        out["same S(S)"] = m.sum()
-        out["same S(Obs)"] = ref.segment_size()[ref_segu[m]].sum()
-
-        outs[k] = out
     return outs
 
 
-- 
2.43.0


From 804a92b5d7881932b3c22647dc0e445e1aa35f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 77/87] fix: advection in several grids extrapolated currents
 when a release goes through several dates

---
 src/py_eddy_tracker/dataset/grid.py | 74 +++++++++++++++++------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ef992be..dd891ce 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2506,14 +2506,22 @@ class GridCollection:
             f_x[filament_size::filament_size_] = nan
             f_y[filament_size::filament_size_] = nan
 
-            if (backward and t <= t1) or (not backward and t >= t1):
-                t0, u0, v0, m0 = t1, u1, v1, m1
-                t1, d1 = generator.__next__()
-                t1 = t1 * 86400
-                u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
-            w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
-            half_w = t_step / 2.0 / (t1 - t0)
-            advect_(d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w)
+            # A release could go through several grids
+            times = arange(t, t + dt, t_step)
+            while times.size:
+                if (backward and times[0] <= t1) or (not backward and times[0] >= t1):
+                    t0, u0, v0, m0 = t1, u1, v1, m1
+                    t1, d1 = generator.__next__()
+                    t1 = t1 * 86400
+                    u1, v1, m1 = d1.uv_for_advection(u_name, v_name, time_step, **kw)
+                    continue
+                m = times > t1 if backward else times < t1
+                w = 1 - (times[m] - t0) / (t1 - t0)
+                half_w = t_step / 2.0 / (t1 - t0)
+                advect_(
+                    d0.x_c, d0.y_c, u0, v0, m0, u1, v1, m1, x, y, mp, w, half_w=half_w
+                )
+                times = times[~m]
             f_x[::filament_size_] = x
             f_y[::filament_size_] = y
             t += dt
@@ -2578,28 +2586,34 @@ class GridCollection:
             mask_particule += isnan(x) + isnan(y)
         while True:
             logger.debug(f"advect : t={t/86400}")
-            if (backward and t <= t1) or (not backward and t >= t1):
-                t0, u0, v0, m0 = t1, u1, v1, m1
-                t1, d1 = generator.__next__()
-                t1 = t1 * 86400
-                u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
-            w = 1 - (arange(t, t + dt, t_step) - t0) / (t1 - t0)
-            half_w = t_step / 2.0 / (t1 - t0)
-            advect_(
-                d0.x_c,
-                d0.y_c,
-                u0,
-                v0,
-                m0,
-                u1,
-                v1,
-                m1,
-                x,
-                y,
-                mask_particule,
-                w,
-                half_w=half_w,
-            )
+            # A release could go through several grids
+            times = arange(t, t + dt, t_step)
+            while times.size:
+                if (backward and times[0] <= t1) or (not backward and times[0] >= t1):
+                    t0, u0, v0, m0 = t1, u1, v1, m1
+                    t1, d1 = generator.__next__()
+                    t1 = t1 * 86400
+                    u1, v1, m1 = d1.uv_for_advection(time_step=time_step, **kw)
+                    continue
+                m = times > t1 if backward else times < t1
+                w = 1 - (times[m] - t0) / (t1 - t0)
+                half_w = t_step / 2.0 / (t1 - t0)
+                advect_(
+                    d0.x_c,
+                    d0.y_c,
+                    u0,
+                    v0,
+                    m0,
+                    u1,
+                    v1,
+                    m1,
+                    x,
+                    y,
+                    mask_particule,
+                    w,
+                    half_w=half_w,
+                )
+                times = times[~m]
             t += dt
             yield t, x, y
 
-- 
2.43.0


From 55a13f997d3b2717e0c431cd6d5b7c9ac6a54668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 78/87] fix: grids with two dimensional coordinates could not
 be loaded, filtered, nor used for identification

---
 src/py_eddy_tracker/appli/grid.py   |  7 +++++++
 src/py_eddy_tracker/dataset/grid.py | 13 +++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/appli/grid.py b/src/py_eddy_tracker/appli/grid.py
index 099465e..9093a20 100644
--- a/src/py_eddy_tracker/appli/grid.py
+++ b/src/py_eddy_tracker/appli/grid.py
@@ -176,6 +176,13 @@ def identification(
         grid.add_uv(h)
         u, v = "u", "v"
     kw_filter = dict(order=filter_order, lat_max=lat_max)
+    if unregular:
+        # Filters of unregular grids have no option
+        if cut_highwavelength != 0:
+            grid.low_filter(h, cut_highwavelength)
+        if cut_wavelength != 0:
+            grid.high_filter(h, cut_wavelength)
+        return grid.eddy_identification(h, u, v, date, **kwargs)
     if cut_highwavelength != 0:
         grid.bessel_low_filter(h, cut_highwavelength, **kw_filter)
     if cut_wavelength != 0:
diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index dd891ce..63268b4 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -105,7 +105,7 @@ BasePath.lat = lat
 
 
 @njit(cache=True)
-def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
+def uniform_resample_stack(vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
@@ -115,7 +115,7 @@ def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
 
 
 @njit(cache=True)
-def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=None):
+def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     return interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
@@ -1098,8 +1098,8 @@ class UnRegularGridDataset(GridDataset):
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
 
-            self.x_c = self.vars[x_name]
-            self.y_c = self.vars[y_name]
+            self.x_c = array(self.vars[x_name].astype("float64"))
+            self.y_c = array(self.vars[y_name].astype("float64"))
 
             self.init_pos_interpolator()
 
@@ -1112,9 +1112,10 @@ class UnRegularGridDataset(GridDataset):
         dist, idx = self.index_interp.query(vertices, k=1)
         i_y = idx % self.x_c.shape[1]
         i_x = int_((idx - i_y) / self.x_c.shape[1])
+        nb_x, nb_y = self.x_c.shape
         return (
-            (max(i_x.min() - self.N, 0), i_x.max() + self.N + 1),
-            (max(i_y.min() - self.N, 0), i_y.max() + self.N + 1),
+            (max(i_x.min() - self.N, 0), min(i_x.max() + self.N + 1, nb_x)),
+            (max(i_y.min() - self.N, 0), min(i_y.max() + self.N + 1, nb_y)),
         )
 
     def get_pixels_in(self, contour):
-- 
2.43.0


From 5d041d0c0733828fbe20ee92c13de6450f7b12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:27 +0000
Subject: [PATCH 79/87] fix: timeline of events fails when field is an array

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f9efa96..4e15bc5 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -900,7 +900,7 @@ class NetworkObservations(GroupEddiesObservations):
             if i_p != -1:
                 seg_previous = self.segment[i_p]
                 if field is not None and method == "all":
-                    y0 = self[field][i.start] * factor
+                    y0 = self.parse_varname(field)[i.start] * factor
                 y1 = (
                     seg_previous
                     if field is None
-- 
2.43.0


From 7cf48209eb484bfb7ca0c7a208c5fee41a9a93d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 80/87] fix: map of a regional grid cut by the reference was
 drawn over the part of the globe which is not in the grid

---
 src/py_eddy_tracker/dataset/grid.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 63268b4..370fc15 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1950,8 +1950,18 @@ class RegularGridDataset(GridDataset):
         else:
             x = (self.x_c - ref) % 360 + ref
             i = x.argsort()
-            x = self.c_to_bounds(x[i])
-            data = data[i]
+            x, data = x[i], data[i]
+            cut = where(x[1:] - x[:-1] > 1.5 * self.xstep)[0]
+            if cut.size:
+                # Regional grid cut by the reference: an empty column between the two parts
+                j = cut[0] + 1
+                empty_col = ma.array(data[:1], mask=ones(data[:1].shape, dtype="bool"))
+                data = ma.concatenate((data[:j], empty_col, data[j:]))
+                half = self.xstep / 2
+                ends = x[[j - 1, -1]] + half
+                x = concatenate((x[:j] - half, ends[:1], x[j:] - half, ends[1:]))
+            else:
+                x = self.c_to_bounds(x)
         return ax.pcolormesh(x, self.y_bounds, data.T * factor, **kwargs)
 
     def contour(self, ax, name, factor=1, ref=None, **kwargs):
-- 
2.43.0


From bf165a500b00eee421a66cb44193d1ad0b8d10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 81/87] fix: spectrum used the values under the mask of missing
 data

---
 src/py_eddy_tracker/dataset/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 370fc15..2158349 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1617,7 +1617,9 @@ class RegularGridDataset(GridDataset):
         x0, y0 = self.nearest_grd_indice(area["llcrnrlon"], area["llcrnrlat"])
         x1, y1 = self.nearest_grd_indice(area["urcrnrlon"], area["urcrnrlat"])
 
+        # missing values must not be used by welch
         data = self.grid(grid_name)[x0:x1, y0:y1]
+        data = where(data.mask, nan, data.data)
 
         # Lat spectrum
         pws = list()
-- 
2.43.0


From 7bc46d1ab313f75088f16c70155e692f332100d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 82/87] fix: spectrum of the reference ignored the scaling
 asked

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 2158349..a98c81d 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1671,7 +1671,7 @@ class RegularGridDataset(GridDataset):
             if ref_grid_name is not None:
                 grid_name = ref_grid_name
             ref_lon_content, ref_lat_content = ref.spectrum_lonlat(
-                grid_name, area, **kwargs
+                grid_name, area, scaling=scaling, **kwargs
             )
             return (
                 (lon_content[0], lon_content[1] / ref_lon_content[1]),
-- 
2.43.0


From 84c3b399af657c4b91e38ea3ff16674c5856872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 83/87] fix: statistics around an event wrote out of memory
 when primary and secondary are both in the target segment

---
 src/py_eddy_tracker/observations/network.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 4e15bc5..0c4620d 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2144,18 +2144,17 @@ def get_percentile_on_following_obs(
     """
     last_t, segment_follow = t[i], segment[i]
     segment_target = segment[i_target]
-    percent_target = empty(window, dtype=percents.dtype)
-    j = 0
+    percent_target = list()
     while abs(last_t - t[i]) < window and i != -1 and segment_follow == segment[i]:
         # Iter on primary & secondary
         for index, percent in zip(indexs[i], percents[i]):
             if index != -1 and segment[index] == segment_target:
-                percent_target[j] = percent
-                j += 1
+                percent_target.append(percent)
         i = follow_obs[i]
-    if j < nb_min:
+    # nothing to compute without observation, even if nb_min is 0
+    if len(percent_target) < max(nb_min, 1):
         return nan
-    return percentile(percent_target[:j], q)
+    return percentile(array(percent_target), q)
 
 
 @njit(cache=True)
-- 
2.43.0


From 1ad0d42edb23e90a0fbfc38d786ca67e4bf7e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:19 +0000
Subject: [PATCH 84/87] fix: age of track with only one observation was nan

---
 src/py_eddy_tracker/observations/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 40da0f8..ede0004 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -368,7 +368,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
     @property
     def age(self):
         """Return age in % for each observation, will be [0:100]"""
-        return self.n.astype("f4") / (self.lifetime - 1) * 100.0
+        # lifetime is at least 1, age is 0 when there is only one observation
+        return self.n.astype("f4") / (self.lifetime - 1).clip(1) * 100.0
 
     def extract_ids(self, tracks):
         mask = self.get_mask_from_id(array(tracks))
-- 
2.43.0


From ddcbaffe3a04bc8941dbe2e0bb17501cc3984065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:19 +0000
Subject: [PATCH 85/87] fix: sign of equatorward azimuth was wrong for eddies
 which go to the southeast

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index ede0004..e26df14 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -289,6 +289,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         y = sin(dlon) * cos(lat1)
         azimuth = degrees(arctan2(y, x)) + 90
         if equatorward:
+            # sign is given by the meridional direction : ]-180, 180]
+            azimuth[azimuth > 180] -= 360
             south = lat0 < 0
             azimuth[south] *= -1
         return azimuth
-- 
2.43.0


From ba7583d7006642388dc5e847a377a557a7bde085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 86/87] fix: files without folder were tracked with undefined
 dates, so in any order

---
 src/py_eddy_tracker/appli/eddies.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index c1c7a90..55059c4 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -233,7 +233,8 @@ def browse_dataset_in(
     sub_sampling_step=1,
     files=None,
 ):
-    pattern_regexp = re_compile(".*/" + date_regexp)
+    # folder is optional : files could be in the current one
+    pattern_regexp = re_compile("(?:.*/)?" + date_regexp)
     if files is not None:
         filenames = bytes_(files)
     else:
@@ -264,15 +265,16 @@ def browse_dataset_in(
                 else:
                     str_date = getattr(h.variables[mode_attrs[0]], mode_attrs[1])
         else:
-            result = pattern_regexp.match(str(item["filename"]))
+            result = pattern_regexp.match(item["filename"].decode("utf-8"))
             if result:
                 str_date = result.groups()[0]
 
-        if str_date is not None:
-            if date_model is None:
-                item["date"] = identify_time(str_date)
-            else:
-                item["date"] = datetime.strptime(str_date, date_model)
+        if str_date is None:
+            raise Exception("No date found for %s" % item["filename"])
+        if date_model is None:
+            item["date"] = identify_time(str_date)
+        else:
+            item["date"] = datetime.strptime(str_date, date_model)
 
     dataset_list.sort(order=["date", "filename"])
     steps = unique(dataset_list["date"][1:] - dataset_list["date"][:-1])
-- 
2.43.0


From 71cb7cec6058f9bc051c05cb94b84506d6dd7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 87/87] fix: selection of files by date failed with only one
 bound, or with date

---
 src/py_eddy_tracker/appli/eddies.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index 55059c4..60964c1 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -11,7 +11,7 @@ from os.path import basename, dirname, exists, join as join_path
 from re import compile as re_compile
 
 from netCDF4 import Dataset
-from numpy import bincount, bytes_, empty, in1d, unique
+from numpy import bincount, bytes_, datetime64, empty, in1d, unique
 from yaml import safe_load
 
 from .. import EddyParser, identify_time
@@ -292,9 +292,13 @@ def browse_dataset_in(
             dataset_list[-1]["date"],
         )
         logger.info("Filtering grid by time %s, %s", start_date, end_date)
-        mask = (dataset_list["date"] >= start_date) * (dataset_list["date"] <= end_date)
-
-        dataset_list = dataset_list[mask]
+        # numpy date could be compared with date or datetime, one of bounds could be missing
+        if start_date is not None:
+            start_date = datetime64(start_date, "s")
+            dataset_list = dataset_list[dataset_list["date"] >= start_date]
+        if end_date is not None:
+            end_date = datetime64(end_date, "s")
+            dataset_list = dataset_list[dataset_list["date"] <= end_date]
     return dataset_list
 
 
-- 
2.43.0


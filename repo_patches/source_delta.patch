From 93d22ee6189f470cd99f2568d5c7c96b80288807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 01/36] fix: loop backend uses the specified drift value of the
 point, not of the matrix row

---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..7b34fd0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From 4a1aa2b4442290c5de815b3c152c2d4487df5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 02/36] fix: loop backend answers a request at the location of
 a point-drift well

---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b34fd0..7c22bfb 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From b2317408af13e8017b6df328658a9c3d5239037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 03/36] fix: update_variogram_model re-adjusts the point-drift
 wells when the anisotropy changes

---
 src/pykrige/uk.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c22bfb..83dafed 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -447,15 +447,10 @@ class UniversalKriging:
                     "Must specify location(s) and strength(s) of point drift terms."
                 )
             self.point_log_drift = True
-            point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_array = np.zeros(point_log.shape)
-            self.point_log_array[:, 2] = point_log[:, 2]
-            self.point_log_array[:, :2] = _adjust_for_anisotropy(
-                np.vstack((point_log[:, 0], point_log[:, 1])).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
+            self.point_log_orig = np.atleast_2d(
+                np.squeeze(np.array(point_drift, copy=True, dtype=np.float64))
             )
+            self._adjust_point_log()
             if self.verbose:
                 print(
                     "Implementing external point-logarithmic drift; "
@@ -509,6 +504,17 @@ class UniversalKriging:
         else:
             self.functional_drift = False
 
+    def _adjust_point_log(self):
+        """Rotates the point drift locations into the adjusted frame."""
+        self.point_log_array = np.zeros(self.point_log_orig.shape)
+        self.point_log_array[:, 2] = self.point_log_orig[:, 2]
+        self.point_log_array[:, :2] = _adjust_for_anisotropy(
+            np.vstack((self.point_log_orig[:, 0], self.point_log_orig[:, 1])).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        )
+
     def _calculate_data_point_zscalars(self, x, y, type_="array"):
         """Determines the Z-scalar values at the specified coordinates
         for use when setting up the kriging matrix. Uses bilinear
@@ -721,6 +727,8 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self._adjust_point_log()
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From 3f6b4b4cdfe8fa1bfaeeb6456132e9a0e14a513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 04/36] fix: copy the variogram parameter list and the
 functional drift list given by the caller

---
 src/pykrige/core.py | 6 +++---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..b70dec4 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 83dafed..fce3c56 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -500,7 +500,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..67c0144 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -445,7 +445,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From 41220162edf785f060b63b9fc3352239a3118343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 05/36] fix: refuse a moving window larger than the data set (C
 backend corrupted memory)

---
 src/pykrige/ok.py   | 2 ++
 src/pykrige/ok3d.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..1cae521 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -838,6 +838,8 @@ class OrdinaryKriging:
             # If this is not checked, nondescriptive errors emerge
             # later in the code.
             raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None and n_closest_points > self.X_ADJUSTED.size:
+            raise ValueError("n_closest_points exceeds the number of data points!")
 
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..49b59e9 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -830,6 +830,11 @@ class OrdinaryKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
+        if n_closest_points is not None and n_closest_points <= 1:
+            raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None and n_closest_points > self.X_ADJUSTED.size:
+            raise ValueError("n_closest_points exceeds the number of data points!")
+
         xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
         ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
         zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
-- 
2.43.0


From e4f5a1c8a7a243d20545be82a82eeada123483a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 06/36] fix: C backend no longer takes a custom variogram
 function for a built-in one of the same name

---
 src/pykrige/ok.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 1cae521..44274a9 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -915,6 +915,16 @@ class OrdinaryKriging:
             except:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
+            if (
+                backend == "C"
+                and self.variogram_function not in self.variogram_dict.values()
+            ):
+                # the compiled variogram functions are selected by name, which
+                # only identifies the built-in ones
+                raise NotImplementedError(
+                    "Custom variogram functions are not supported by the C backend."
+                )
+
             c_pars = {
                 key: getattr(self, key)
                 for key in [
-- 
2.43.0


From 0560f4aef6606ab5d81ad5a92c91a84ec7078e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 07/36] fix: C backend accepts integer variogram parameters

---
 src/pykrige/lib/cok.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..da6a9ad 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,7 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +125,7 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'], dtype='float64')
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From 1572ca6d19061e6312d5b1e3fdee85e904ddf574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 08/36] fix: requests with integer or single precision
 coordinates are answered in double precision

---
 src/pykrige/ok.py   |  8 ++++++--
 src/pykrige/ok3d.py | 12 +++++++++---
 src/pykrige/uk.py   |  8 ++++++--
 src/pykrige/uk3d.py | 12 +++++++++---
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 44274a9..04b0499 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -841,8 +841,12 @@ class OrdinaryKriging:
         if n_closest_points is not None and n_closest_points > self.X_ADJUSTED.size:
             raise ValueError("n_closest_points exceeds the number of data points!")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 49b59e9..daefd42 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -835,9 +835,15 @@ class OrdinaryKriging3D:
         if n_closest_points is not None and n_closest_points > self.X_ADJUSTED.size:
             raise ValueError("n_closest_points exceeds the number of data points!")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
+        zpts = np.atleast_1d(
+            np.squeeze(np.array(zpoints, copy=True, dtype=np.float64))
+        )
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index fce3c56..2d3a945 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1176,8 +1176,12 @@ class UniversalKriging:
 
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
         nx = xpts.size
         ny = ypts.size
         if self.regional_linear_drift:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 67c0144..29abc13 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -978,9 +978,15 @@ class UniversalKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
+        zpts = np.atleast_1d(
+            np.squeeze(np.array(zpoints, copy=True, dtype=np.float64))
+        )
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
         if self.regional_linear_drift:
-- 
2.43.0


From ae37ec1fbcf9ae15952a6de972bae57b6361d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 09/36] fix: masks may be given as any array_like, as
 documented

---
 src/pykrige/ok.py   | 1 +
 src/pykrige/ok3d.py | 1 +
 src/pykrige/uk.py   | 1 +
 src/pykrige/uk3d.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 04b0499..5287faa 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -858,6 +858,7 @@ class OrdinaryKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index daefd42..802f4cc 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -856,6 +856,7 @@ class OrdinaryKriging3D:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.ndim != 3:
                     raise ValueError("Mask is not three-dimensional.")
                 if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 2d3a945..f81ffc3 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1202,6 +1202,7 @@ class UniversalKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 29abc13..420206e 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1006,6 +1006,7 @@ class UniversalKriging3D:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.ndim != 3:
                     raise ValueError("Mask is not three-dimensional.")
                 if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
-- 
2.43.0


From 46ab221b34a5c309f3ab1a87da1cabbb10a84225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 10/36] fix: specified drift arrays of points may be lists or
 columns, as documented

---
 src/pykrige/uk.py   | 3 +++
 src/pykrige/uk3d.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index f81ffc3..b91e311 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1242,6 +1242,7 @@ class UniversalKriging:
                     "encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 2:
                         raise ValueError(
@@ -1260,6 +1261,8 @@ class UniversalKriging:
                     else:
                         spec_drift_grids.append(np.squeeze(spec))
                 elif style == "points":
+                    if spec.ndim == 2 and spec.shape[1] == 1:
+                        spec = spec[:, 0]
                     if spec.ndim != 1:
                         raise ValueError(
                             "Dimensions of drift values array do "
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 420206e..d422f98 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1053,6 +1053,7 @@ class UniversalKriging3D:
                     "be encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 3:
                         raise ValueError(
@@ -1079,6 +1080,8 @@ class UniversalKriging3D:
                     else:
                         spec_drift_grids.append(np.squeeze(spec))
                 elif style == "points":
+                    if spec.ndim == 2 and spec.shape[1] == 1:
+                        spec = spec[:, 0]
                     if spec.ndim != 1:
                         raise ValueError(
                             "Dimensions of drift values array do "
-- 
2.43.0


From 36902ab523d2abbd7b97f91ed6f6db6ea3ebdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 11/36] fix: vectorized backend does not read the external
 drift at masked cells

---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index b91e311..3f7c975 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -973,8 +973,8 @@ class UniversalKriging:
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
             )
             i += 1
         if self.specified_drift:
-- 
2.43.0


From 753c93ef1ac44af9be1c5eca0bc65acd12fbf0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 12/36] fix: external drift grids listed with descending axes
 are interpolated correctly

---
 src/pykrige/uk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 3f7c975..a095ed2 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -432,6 +432,12 @@ class UniversalKriging:
                 self.external_Z_array = np.array(external_drift)
             self.external_Z_array_x = np.array(external_drift_x).flatten()
             self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # the bilinear interpolation relies on ascending axes
+            order_x = np.argsort(self.external_Z_array_x)
+            order_y = np.argsort(self.external_Z_array_y)
+            self.external_Z_array_x = self.external_Z_array_x[order_x]
+            self.external_Z_array_y = self.external_Z_array_y[order_y]
+            self.external_Z_array = self.external_Z_array[np.ix_(order_y, order_x)]
             self.z_scalars = self._calculate_data_point_zscalars(
                 self.X_ORIG, self.Y_ORIG
             )
-- 
2.43.0


From 594ae68c741dc49ae47f608b623937a3939196a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 13/36] fix: a rejected update_variogram_model leaves the
 object as it was

---
 src/pykrige/core.py | 19 +++++++++++++++++++
 src/pykrige/ok.py   |  2 ++
 src/pykrige/ok3d.py |  2 ++
 src/pykrige/uk.py   |  2 ++
 src/pykrige/uk3d.py |  2 ++
 5 files changed, 27 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index b70dec4..a58dfb9 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -22,6 +22,8 @@ References
 Copyright (c) 2015-2020, PyKrige Developers
 """
 
+import functools
+
 import numpy as np
 import scipy.linalg as spl
 from scipy.optimize import least_squares
@@ -33,6 +35,23 @@ eps = 1.0e-10  # Cutoff for comparison to zero
 P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}
 
 
+def _restore_on_error(method):
+    """Decorator for methods that update an object: if the method raises an
+    exception, the attributes of the object are reset to what they were."""
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = dict(self.__dict__)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 def great_circle_distance(lon1, lat1, lon2, lat2):
     """Calculate the great circle distance between one or multiple pairs of
     points given in spherical coordinates. Spherical coordinates are expected
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 5287faa..f25e50c 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -35,6 +35,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -376,6 +377,7 @@ class OrdinaryKriging:
         else:
             self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 802f4cc..7e86c1a 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -34,6 +34,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -365,6 +366,7 @@ class OrdinaryKriging3D:
             print("Q2 =", self.Q2)
             print("cR =", self.cR, "\n")
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index a095ed2..5ed7add 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -639,6 +640,7 @@ class UniversalKriging:
 
         return z_scalars
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d422f98..11ccccf 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -449,6 +450,7 @@ class UniversalKriging3D:
         else:
             self.functional_drift = False
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
-- 
2.43.0


From c021888481301a73514f771578fb8f37681f8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 14/36] fix: grid writers validate their arguments before
 truncating an existing file

---
 src/pykrige/kriging_tools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..e9bfd43 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -50,11 +50,13 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
     z = np.squeeze(np.array(z))
+    if style not in (1, 2):
+        raise ValueError("style kwarg must be either 1 or 2.")
+    if z.ndim != 2:
+        raise ValueError("Two-dimensional grid is required to write *.asc grid.")
     nrows = z.shape[0]
     ncols = z.shape[1]
 
-    if z.ndim != 2:
-        raise ValueError("Two-dimensional grid is required to write *.asc grid.")
     if x.ndim > 1 or y.ndim > 1:
         raise ValueError(
             "Dimensions of X and/or Y coordinate arrays are not "
@@ -117,8 +119,6 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
             f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
             f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        else:
-            raise ValueError("style kwarg must be either 1 or 2.")
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
@@ -286,6 +286,9 @@ def write_zmap_grid(
     nx = len(x)
     ny = len(y)
 
+    if z.ndim != 2:
+        raise ValueError("Two-dimensional grid is required to write *.zmap grid.")
+
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-- 
2.43.0


From c029ac82f986cc6515075c6b1bf6a2fe09164cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 15/36] fix: asc grids keep neighbouring large values apart

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index e9bfd43..7654f6b 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From 1dae62f859ce39ddaa735201899eb9d42792b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 16/36] fix: read_zmap_grid returns axes of the right length
 and the full coordinate system text

---
 src/pykrige/kriging_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 7654f6b..ea17f3a 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -405,7 +405,7 @@ def read_zmap_grid(filename):
             if line.startswith("!"):
                 line_strings = line.split(":")
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = ":".join(line_strings[1:]).strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
@@ -457,6 +457,11 @@ def read_zmap_grid(filename):
     gridx = np.arange(originx, originx + nx * dx, dx)
     gridy = np.arange(originy, originy + ny * dy, dy)
 
+    # np.arange() may yield an entry too many due to imprecision in the upper
+    # cutoff
+    gridx = gridx[:nx]
+    gridy = gridy[:ny]
+
     cellsize = (dx, dy)
 
     return z, gridx, gridy, cellsize, no_data_value, coord_sys
-- 
2.43.0


From ec0c90304287236025cd5ed6eee41cbb4a204792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 17/36] fix: ClassificationKriging accepts 1D targets and
 predicts class labels

---
 src/pykrige/ck.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..b6b195c 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -132,7 +132,7 @@ class ClassificationKriging:
         ml_pred_ilr = ilr_transformation(ml_pred)
 
         self.onehotencode = OneHotEncoder(categories=[self.classes_])
-        y_ohe = np.array(self.onehotencode.fit_transform(y).todense())
+        y_ohe = np.array(self.onehotencode.fit_transform(y.reshape(-1, 1)).todense())
         y_ohe_ilr = ilr_transformation(y_ohe)
 
         for i in range(len(self.classes_) - 1):
@@ -167,7 +167,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From e8be7bb7b6ad82ad256f80ba5b02a7332710551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 18/36] fix: spherical variogram model truncated its values for
 integer distances

---
 src/pykrige/variogram_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index a056bdf..78c5fb7 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -58,6 +58,8 @@ def spherical_variogram_model(m, d):
     psill = float(m[0])
     range_ = float(m[1])
     nugget = float(m[2])
+    # np.piecewise gives its result the type of its argument
+    d = np.asarray(d, dtype=float)
     return np.piecewise(
         d,
         [d <= range_, d > range_],
-- 
2.43.0


From 24d433d99f88bcdfa716f622879f105683e285e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 19/36] fix: grid writers accepted axes whose spacing is
 constant on average only

Only the first step and the mean step were compared, so an axis with a
displaced inner node was written as if it were regular.
---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index ea17f3a..436d3b2 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -77,8 +77,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
+        np.abs(np.diff(y)), dy
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
@@ -292,8 +292,8 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
+        np.abs(np.diff(y)), dy
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0


From d2a9dca57ef893e6d683319478aa72538b153836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 20/36] fix: write_asc_grid style 2 refused square cells
 because of rounding

The spacings of the two axes were compared exactly, although differences
of floating point coordinates hardly ever agree to the last bit.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 436d3b2..a6920a6 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -85,7 +85,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         )
     cellsize = -1
     if style == 2:
-        if dx != dy:
+        if not np.isclose(dx, dy):
             raise ValueError(
                 "X and Y spacing is not the same. "
                 "Cannot write *.asc file in the specified format."
-- 
2.43.0


From 32750df188271cfe4735ebfff0dae78c8a84e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 21/36] fix: Krige.execute leaves the dict of points given by
 the caller unchanged

---
 src/pykrige/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..17dc101 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -282,7 +282,8 @@ class Krige(RegressorMixin, BaseEstimator):
         """
         default_kw = dict(style="points", backend="loop")
         default_kw.update(kwargs)
-        points.update(default_kw)
+        # leave the dict of the caller as it is
+        points = dict(points, **default_kw)
         if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
             points.update(dict(n_closest_points=self.n_closest_points))
         else:
-- 
2.43.0


From 73fdf6fa353e1f06ee8fa7f9f6d76af02a234e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 22/36] fix: estimators made with default models do not share
 them

---
 src/pykrige/ck.py | 5 ++++-
 src/pykrige/rk.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index b6b195c..ff0fc0a 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -58,7 +58,7 @@ class ClassificationKriging:
 
     def __init__(
         self,
-        classification_model=SVC(),
+        classification_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -79,6 +79,9 @@ class ClassificationKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        # a default instance would be shared by all objects
+        if classification_model is None:
+            classification_model = SVC()
         check_sklearn_model(classification_model, task="classification")
         self.classification_model = classification_model
         self.n_closest_points = n_closest_points
diff --git a/src/pykrige/rk.py b/src/pykrige/rk.py
index 5feb97c..1e30640 100644
--- a/src/pykrige/rk.py
+++ b/src/pykrige/rk.py
@@ -57,7 +57,7 @@ class RegressionKriging:
 
     def __init__(
         self,
-        regression_model=SVR(),
+        regression_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -78,6 +78,9 @@ class RegressionKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        # a default instance would be shared by all objects
+        if regression_model is None:
+            regression_model = SVR()
         check_sklearn_model(regression_model)
         self.regression_model = regression_model
         self.n_closest_points = n_closest_points
-- 
2.43.0


From 8c947bf16d2b7f9b8904554be52658781f132070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 23/36] fix: the largest pair distance is kept in the
 experimental variogram at any scale

---
 src/pykrige/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index a58dfb9..321e05f 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -479,13 +479,14 @@ def _initialize_variogram_model(
     # is appended to the list (instead of calculated as part of the
     # list comprehension) to avoid any numerical oddities
     # (specifically, say, ending up as 0.99999999999999 instead of 1.0).
-    # Appending dmax + 0.001 ensures that the largest distance value
+    # Appending dmax + 0.001 (or the next representable number, where adding
+    # 0.001 makes no difference) ensures that the largest distance value
     # is included in the semivariogram calculation.
     dmax = np.amax(d)
     dmin = np.amin(d)
     dd = (dmax - dmin) / nlags
     bins = [dmin + n * dd for n in range(nlags)]
-    dmax += 0.001
+    dmax = max(dmax + 0.001, np.nextafter(dmax, np.inf))
     bins.append(dmax)
 
     # This old binning method was experimental and doesn't seem
-- 
2.43.0


From 2f4f2bd8e98e1c3445414164933a5789eb78870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 24/36] fix: moving window honours pseudo_inv

---
 src/pykrige/lib/cok.pyx | 40 +++++++++++++++++++++++++---------------
 src/pykrige/ok.py       |  5 ++++-
 src/pykrige/ok3d.py     |  5 ++++-
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index da6a9ad..2ee4ec8 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -162,21 +162,31 @@ cpdef _c_exec_loop_moving_window(
         # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
-        dgesv(
-                &nb,
-                &nrhs,
-                &(a_selection[0]),
-                &nb,
-                &(ipiv[0]),
-                &(x[0]),
-                &nb,
-                &info
-                )
-
-        if info > 0:
-            raise ValueError('Singular matrix')
-        elif info < 0:
-            raise ValueError('Wrong arguments')
+        if pars['pseudo_inv']:
+            a_pinv = np.asarray(a_selection)[:nb*nb].reshape((nb, nb))
+            if pars['pseudo_inv_type'] == "pinv":
+                a_pinv = scipy.linalg.pinv(a_pinv)
+            elif pars['pseudo_inv_type'] == "pinvh":
+                a_pinv = scipy.linalg.pinvh(a_pinv)
+            else:
+                raise ValueError('Unknown pseudo inverse method selected.')
+            np.asarray(x)[:nb] = np.dot(a_pinv, np.asarray(b)[:nb])
+        else:
+            dgesv(
+                    &nb,
+                    &nrhs,
+                    &(a_selection[0]),
+                    &nb,
+                    &(ipiv[0]),
+                    &(x[0]),
+                    &nb,
+                    &info
+                    )
+
+            if info > 0:
+                raise ValueError('Singular matrix')
+            elif info < 0:
+                raise ValueError('Wrong arguments')
 
         z_tmp = 0.0
         ss_tmp = 0.0
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index f25e50c..ccf43ab 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -752,7 +752,10 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 7e86c1a..77b92d6 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -727,7 +727,10 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0


From 94e125d71677ee0d54a02b9d76e6a8939c595085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 25/36] fix: inverse log-ratio transform of large coordinates
 overflowed to NaN

---
 src/pykrige/ck.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index ff0fc0a..7826a01 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -291,4 +291,8 @@ def inverse_ilr_transformation(data):
         DOI: 10.1002/9781119003144
     """
 
-    return closure(np.exp(np.einsum("ij,jk->ik", data, -helmert(data.shape[1] + 1))))
+    log_parts = np.einsum("ij,jk->ik", data, -helmert(data.shape[1] + 1))
+    # a common factor of the parts does not change the closed composition,
+    # but would overflow for large coordinates
+    log_parts -= log_parts.max(axis=1, keepdims=True)
+    return closure(np.exp(log_parts))
-- 
2.43.0


From ccf71b8f6edaf5ce5cc5ba7e2417f2a327bacb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 26/36] fix: euclid3_to_great_circle accepts scalars and leaves
 its argument alone

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 321e05f..9330763 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -132,7 +132,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From 5c5f9922e1c5724dcd8a6f058cced81ea4547e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 27/36] fix: refuse drift terms that are not supported

---
 src/pykrige/uk.py   | 13 +++++++++++++
 src/pykrige/uk3d.py | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 5ed7add..cb3d20e 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -252,6 +252,19 @@ class UniversalKriging:
         # Deal with mutable default argument
         if drift_terms is None:
             drift_terms = []
+        if isinstance(drift_terms, str):
+            drift_terms = [drift_terms]
+        unknown = set(drift_terms) - {
+            "regional_linear",
+            "point_log",
+            "external_Z",
+            "specified",
+            "functional",
+        }
+        if unknown:
+            raise ValueError(
+                "Drift terms not supported: " + str(sorted(unknown, key=str))
+            )
         if specified_drift is None:
             specified_drift = []
         if functional_drift is None:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 11ccccf..f783689 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -247,6 +247,17 @@ class UniversalKriging3D:
         # Deal with mutable default argument
         if drift_terms is None:
             drift_terms = []
+        if isinstance(drift_terms, str):
+            drift_terms = [drift_terms]
+        unknown = set(drift_terms) - {
+            "regional_linear",
+            "specified",
+            "functional",
+        }
+        if unknown:
+            raise ValueError(
+                "Drift terms not supported: " + str(sorted(unknown, key=str))
+            )
         if specified_drift is None:
             specified_drift = []
         if functional_drift is None:
-- 
2.43.0


From 3b874a6c8a826cf8b8d9bb7ab32e19a2299152f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 28/36] fix: refuse specified drift arrays with more values
 than the grid has cells

---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index cb3d20e..26702c1 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1265,7 +1265,7 @@ class UniversalKriging:
             for spec in specified_drift_arrays:
                 spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
-                    if spec.ndim < 2:
+                    if spec.ndim < 2 or spec.size != nx * ny:
                         raise ValueError(
                             "Dimensions of drift values array do "
                             "not match specified grid dimensions."
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index f783689..32fe398 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1068,7 +1068,7 @@ class UniversalKriging3D:
             for spec in specified_drift_arrays:
                 spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
-                    if spec.ndim < 3:
+                    if spec.ndim < 3 or spec.size != nx * ny * nz:
                         raise ValueError(
                             "Dimensions of drift values array do "
                             "not match specified grid dimensions."
-- 
2.43.0


From bd723ece07dbaa82aee4a279997d4fc9b57d92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 29/36] fix: data locations were missed by requests with a
 rotated frame and large coordinates

The rounding of the matrix product that adjusts the coordinates depended on
the number of points, so that a data location requested alone could lie
further than the tolerance from its own adjusted position.
---
 src/pykrige/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 9330763..a45ff73 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -205,7 +205,11 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
         raise ValueError(
             "Adjust for anisotropy function doesn't support ND spaces where N>3"
         )
-    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T
+    # Term by term, because the rounding of a matrix product depends on the
+    # number of points: a data location has to get the same adjusted
+    # coordinates in every request.
+    transform = np.dot(stretch, rot_tot)
+    X_adj = sum(np.outer(X[:, i], transform[:, i]) for i in range(Ndim))
 
     X_adj += center
 
-- 
2.43.0


From bf55157b0717847cccf7f84b6ba19a6e04c5022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 30/36] fix: changing the arrays returned by
 get_variogram_points or get_epsilon_residuals changed later reports

---
 src/pykrige/ok.py   | 6 +++---
 src/pykrige/ok3d.py | 2 +-
 src/pykrige/uk.py   | 6 +++---
 src/pykrige/uk3d.py | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index ccf43ab..52ccd16 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -584,8 +584,8 @@ class OrdinaryKriging:
             variogram (array) - the variogram function evaluated at the lags
         """
         return (
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
+            self.lags.copy(),
+            self.variogram_function(self.variogram_model_parameters, self.lags.copy()),
         )
 
     def switch_verbose(self):
@@ -598,7 +598,7 @@ class OrdinaryKriging:
 
     def get_epsilon_residuals(self):
         """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
+        return None if self.epsilon is None else self.epsilon.copy()
 
     def plot_epsilon_residuals(self):
         """Plots the epsilon residuals for the variogram fit."""
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 77b92d6..b19c14f 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -575,7 +575,7 @@ class OrdinaryKriging3D:
 
     def get_epsilon_residuals(self):
         """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
+        return self.epsilon.copy()
 
     def plot_epsilon_residuals(self):
         """Plots the epsilon residuals for the variogram fit."""
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 26702c1..847a25a 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -846,8 +846,8 @@ class UniversalKriging:
             variogram (array) - the variogram function evaluated at the lags
         """
         return (
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
+            self.lags.copy(),
+            self.variogram_function(self.variogram_model_parameters, self.lags.copy()),
         )
 
     def switch_verbose(self):
@@ -860,7 +860,7 @@ class UniversalKriging:
 
     def get_epsilon_residuals(self):
         """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
+        return self.epsilon.copy()
 
     def plot_epsilon_residuals(self):
         """Plots the epsilon residuals for the variogram fit."""
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 32fe398..b1aa307 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -671,7 +671,7 @@ class UniversalKriging3D:
 
     def get_epsilon_residuals(self):
         """Returns the epsilon residuals for the variogram fit. No arguments."""
-        return self.epsilon
+        return self.epsilon.copy()
 
     def plot_epsilon_residuals(self):
         """Plots the epsilon residuals for the variogram fit. No arguments."""
-- 
2.43.0


From 5408911311cad9049fec558f50964f770579acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 31/36] fix: accept lists for the external drift grid and its
 axes

---
 src/pykrige/uk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 847a25a..7b4fa6c 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -428,6 +428,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
+            external_drift = np.asarray(external_drift)
+            external_drift_x = np.asarray(external_drift_x)
+            external_drift_y = np.asarray(external_drift_y)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
-- 
2.43.0


From 0f884a2b5b672e09c2e90e7222afbc9fea61affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 32/36] fix: read_asc_grid reads grids with a single row or a
 single column

---
 src/pykrige/kriging_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index a6920a6..8426c59 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -212,6 +212,9 @@ def read_asc_grid(filename, footer=0):
     raw_grid_array = np.genfromtxt(
         filename, skip_header=header_lines, skip_footer=footer
     )
+    if raw_grid_array.ndim < 2:
+        # a body with a single row or a single column
+        raw_grid_array = raw_grid_array.reshape((-1, 1) if ncols == 1 else (1, -1))
     grid_array = np.flipud(raw_grid_array)
 
     if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
-- 
2.43.0


From f1744220b61ea9162434a2579e2afafccf93cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:11 +0000
Subject: [PATCH 33/36] fix: automatic variogram fits do not depend on the
 units of the data

The stopping criteria of the minimization are absolute: with semivariances
far below one the starting guess was returned (or something worse), far
above one the fit stopped long before the minimum.
---
 src/pykrige/core.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index a45ff73..e12dabe 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -662,17 +662,42 @@ def _calculate_variogram_model(
             [10.0 * np.amax(semivariance), np.amax(lags), np.amax(semivariance)],
         )
 
+    # The stopping criteria of the minimization are not independent of the
+    # units of the data, so it is done in terms of dimensionless parameters
+    # and residuals (with the same objective).
+    sv_unit = np.amax(semivariance)
+    if variogram_model == "linear":
+        unit = np.array([sv_unit / np.amax(lags), sv_unit])
+    elif variogram_model == "power":
+        unit = np.array([sv_unit / np.amax(lags), 1.0, sv_unit])
+    else:
+        unit = np.array([sv_unit, np.amax(lags), sv_unit])
+
+    def residuals(params):
+        return (
+            _variogram_residuals(
+                params * unit, lags, semivariance, variogram_function, weight
+            )
+            / sv_unit
+        )
+
     # use 'soft' L1-norm minimization in order to buffer against
     # potential outliers (weird/skewed points)
     res = least_squares(
-        _variogram_residuals,
-        x0,
-        bounds=bnds,
+        residuals,
+        x0 / unit,
+        bounds=(bnds[0] / unit, bnds[1] / unit),
+        x_scale="jac",
         loss="soft_l1",
-        args=(lags, semivariance, variogram_function, weight),
+        # residuals far below one are squared anyway, without losing digits
+        f_scale=min(1.0 / sv_unit, 1e3),
+        ftol=1e-12,
+        xtol=1e-12,
+        gtol=None,
+        max_nfev=1000,
     )
 
-    return res.x
+    return np.clip(res.x * unit, *bnds)
 
 
 def _krige(
-- 
2.43.0


From 7b8d3a2f6a29feea8cbb2ca173a95d5e2bb43b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:57 +0000
Subject: [PATCH 34/36] fix: fit statistics do not depend on the units of the
 data

---
 src/pykrige/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index e12dabe..54109f9 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -849,6 +849,14 @@ def _find_statistics(
     delta = np.zeros(y.shape)
     sigma = np.zeros(y.shape)
 
+    # an estimation error is zero if it is negligible compared with the
+    # semivariance, whatever the units of the data are
+    if coordinates_type == "geographic":
+        d = great_circle_distance(X[:1, 0], X[:1, 1], X[:, 0], X[:, 1])
+    else:
+        d = cdist(X[:1], X, metric="euclidean").ravel()
+    zero = eps * np.max(np.absolute(variogram_function(variogram_model_parameters, d)))
+
     for i in range(y.shape[0]):
         # skip the first value in the kriging problem
         if i == 0:
@@ -869,7 +877,7 @@ def _find_statistics(
             # the evaluation point X[i, :] is really close to one of the
             # kriging system points in X[:i, :]...
             # in the case of zero estimation error, the results are not stored
-            if np.absolute(ss) < eps:
+            if not ss > zero:
                 continue
 
             delta[i] = y[i] - k
@@ -878,8 +886,8 @@ def _find_statistics(
     # only use non-zero entries in these arrays... sigma is used to pull out
     # non-zero entries in both cases because it is guaranteed to be positive,
     # whereas delta can be either positive or negative
-    delta = delta[sigma > eps]
-    sigma = sigma[sigma > eps]
+    delta = delta[sigma > 0]
+    sigma = sigma[sigma > 0]
     epsilon = delta / sigma
 
     return delta, sigma, epsilon
-- 
2.43.0


From edaf1f9a50c00e8f7f880959b7aa0c07f8d8ac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:13 +0000
Subject: [PATCH 35/36] fix: refuse point drift terms that are not an (N, 3)
 array

---
 src/pykrige/uk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b4fa6c..52833c1 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -473,6 +473,10 @@ class UniversalKriging:
             self.point_log_orig = np.atleast_2d(
                 np.squeeze(np.array(point_drift, copy=True, dtype=np.float64))
             )
+            if self.point_log_orig.ndim != 2 or self.point_log_orig.shape[1] != 3:
+                raise ValueError(
+                    "Point drift terms must be provided as an array of shape (N, 3)."
+                )
             self._adjust_point_log()
             if self.verbose:
                 print(
-- 
2.43.0


From 5b7fb9c8c905eb75ad98b6bcc275356078600d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:21 +0000
Subject: [PATCH 36/36] fix: refuse a zmap file with fewer values than its
 header announces

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 8426c59..f8c9461 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -440,7 +440,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != len(data_values):
+    if nx * ny != i_value:
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


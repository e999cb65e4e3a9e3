From 2c69b32ed28570f2408a1d7d28f0a8860d48d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 01/46] fix: do not attach a frame to its parent when its
 construction fails

---
 rigid_body_motion/reference_frames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..2a4717d 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -184,14 +184,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -200,6 +199,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # only attach to the parent once all arguments have been validated
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From 53f981ff7b4b8d9be21d19244d1c208a7e3980f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:48 +0000
Subject: [PATCH 02/46] fix: do not attach a frame to its parent when its name
 cannot be registered

---
 rigid_body_motion/reference_frames.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 2a4717d..1ce6ee6 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -15,19 +15,23 @@ from rigid_body_motion.utils import qinv, rotate_vectors
 _registry = {}
 
 
+def _check_name(name, update=False):
+    """Check that a frame can be registered under this name."""
+    if name is None:
+        raise ValueError("Reference frame name cannot be None.")
+    if name in _registry and not update:
+        raise ValueError(
+            f"Reference frame with name {name} is already registered. "
+            f"Specify update=True to overwrite."
+        )
+
+
 def _register(rf, update=False):
     """Register a reference frame."""
-    if rf.name is None:
-        raise ValueError("Reference frame name cannot be None.")
+    _check_name(rf.name, update)
     if rf.name in _registry:
-        if update:
-            # TODO keep children?
-            _registry[rf.name].parent = None
-        else:
-            raise ValueError(
-                f"Reference frame with name {rf.name} is already registered. "
-                f"Specify update=True to overwrite."
-            )
+        # TODO keep children?
+        _registry[rf.name].parent = None
     # TODO check if name is a cs transform?
     _registry[rf.name] = rf
 
@@ -103,6 +107,8 @@ def register_frame(
         registry.
     """
     # TODO make this a class with __call__, from_dataset etc. methods?
+    # check before creating the frame so that it isn't attached to its parent
+    _check_name(name, update)
     rf = ReferenceFrame(
         name,
         parent=parent,
-- 
2.43.0


From 3a13539ce082fe8e21deec86630579b18b5d2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 03/46] fix: do not detach a frame from its parent when it is
 registered again

---
 rigid_body_motion/reference_frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 1ce6ee6..0b7992c 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -29,7 +29,7 @@ def _check_name(name, update=False):
 def _register(rf, update=False):
     """Register a reference frame."""
     _check_name(rf.name, update)
-    if rf.name in _registry:
+    if rf.name in _registry and _registry[rf.name] is not rf:
         # TODO keep children?
         _registry[rf.name].parent = None
     # TODO check if name is a cs transform?
-- 
2.43.0


From 480ff1669b95528d7ac4e02e1112356c0833760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 04/46] fix: do not deregister another frame with the same name

---
 rigid_body_motion/reference_frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 0b7992c..fb106e1 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -1341,4 +1341,8 @@ class ReferenceFrame(NodeMixin):
 
     def deregister(self):
         """Remove this frame from the registry."""
+        if _registry.get(self.name, self) is not self:
+            raise ValueError(
+                f"{self} is not registered, its name refers to another frame"
+            )
         _deregister(self.name)
-- 
2.43.0


From 8c9312b862e76a1e064417efff115f0e79a903f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 05/46] fix: return the eigenvector of the largest eigenvalue
 for each mean in qmean

---
 rigid_body_motion/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..c637d5b 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -123,8 +123,8 @@ def qmean(q, axis=None, qaxis=-1):
 
     # compute largest eigenvector of A
     l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
+    idx = np.real(l).argmax(axis=-1)[..., np.newaxis, np.newaxis]
+    v = np.take_along_axis(v, idx, axis=-1)[..., 0]
 
     qm = np.real(v)
 
-- 
2.43.0


From 90ec2a31ae285749fa55c140eb3f3812c16b2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 06/46] fix: rotate vectors correctly by quaternions that are
 not of unit length

---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index c637d5b..79780d2 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -256,7 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From 99fd9c967d413fd208c4f94e66664d4fab1e7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 07/46] fix: keep the order of the remaining axes when rotating
 vectors along another axis

---
 rigid_body_motion/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 79780d2..ffe21ee 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -255,8 +255,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From 27a5796c887188eb8c2472e1f74630dcfeb0a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 08/46] fix: take the unit of datetime timestamps into account

---
 rigid_body_motion/core.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..822ca02 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,6 +22,14 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps"))
 
 
+def _timestamps_to_float(timestamps):
+    """Convert timestamps to float, nanoseconds in case of datetimes."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps.astype(float)
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
@@ -34,7 +42,7 @@ class TransformMatcher:
     def _check_timestamps(cls, timestamps, arr_shape):
         """Make sure timestamps are monotonic."""
         if timestamps is not None:
-            if np.any(np.diff(timestamps.astype(float)) < 0):
+            if np.any(np.diff(_timestamps_to_float(timestamps)) < 0):
                 raise ValueError("Timestamps must be monotonic")
             if len(timestamps) != arr_shape[0]:
                 raise ValueError(
@@ -65,13 +73,15 @@ class TransformMatcher:
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
-                frame.timestamps.astype(float), frame.translation, axis=0
-            )(timestamps.astype(float))
+                _timestamps_to_float(frame.timestamps),
+                frame.translation,
+                axis=0,
+            )(_timestamps_to_float(timestamps))
             rotation = as_float_array(
                 squad(
                     as_quat_array(frame.rotation),
-                    frame.timestamps.astype(float),
-                    timestamps.astype(float),
+                    _timestamps_to_float(frame.timestamps),
+                    _timestamps_to_float(timestamps),
                 )
             )
 
@@ -94,15 +104,15 @@ class TransformMatcher:
                 return as_float_array(
                     squad(
                         as_quat_array(array.data),
-                        array.timestamps.astype(float),
-                        timestamps.astype(float),
+                        _timestamps_to_float(array.timestamps),
+                        _timestamps_to_float(timestamps),
                     )
                 )
             else:
                 # TODO method + optional scipy dependency?
                 return interp1d(
-                    array.timestamps.astype(float), array.data, axis=0
-                )(timestamps.astype(float))
+                    _timestamps_to_float(array.timestamps), array.data, axis=0
+                )(_timestamps_to_float(timestamps))
 
     def add_reference_frame(self, frame, inverse=False):
         """Add a reference frame to the matcher.
@@ -736,7 +746,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _timestamps_to_float(timestamps) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -799,7 +809,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _timestamps_to_float(timestamps) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
-- 
2.43.0


From 5825480fb439fda69526cdc3a31b74a280e8c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 09/46] fix: accept array-like timestamps when estimating
 velocities

---
 rigid_body_motion/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 822ca02..36ed11a 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -745,6 +745,7 @@ def _estimate_angular_velocity(
     cutoff=None,
 ):
     """Estimate angular velocity of transform."""
+    timestamps = np.asarray(timestamps)
     if np.issubdtype(timestamps.dtype, np.datetime64):
         timestamps = _timestamps_to_float(timestamps) / 1e9
 
@@ -808,6 +809,7 @@ def _estimate_linear_velocity(
     translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
 ):
     """Estimate linear velocity of transform."""
+    timestamps = np.asarray(timestamps)
     if np.issubdtype(timestamps.dtype, np.datetime64):
         timestamps = _timestamps_to_float(timestamps) / 1e9
 
-- 
2.43.0


From 708d1e96825d183d9760f56d51958ad9f706db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 10/46] fix: respect axis=0 and single points in functions that
 accept arrays

---
 rigid_body_motion/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 36ed11a..eb6dd37 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -405,8 +405,9 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
+        timestamps = None if timestamps is False else timestamps
         time_dim = None
         coords = None
         dims = None
@@ -420,7 +421,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
-- 
2.43.0


From 3e41ef194f3d96a63c1fc36783090ab832024ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 11/46] fix: transform arrays correctly for all choices of
 spatial and time axis

---
 rigid_body_motion/reference_frames.py | 36 ++++++++++++++++-----------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index fb106e1..09079ef 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -294,10 +294,21 @@ class ReferenceFrame(NodeMixin):
                     f"as the timestamps"
                 )
             # TODO this should be done somewhere else
-            arr = np.swapaxes(arr, 0, time_axis)
+            arr = np.moveaxis(arr, (time_axis, axis), (0, -1))
+        else:
+            arr = np.moveaxis(arr, axis, -1)
 
         return arr, timestamps
 
+    @classmethod
+    def _restore_axes(cls, arr, ndim, axis, time_axis, timestamps):
+        """Restore the axis order of the original array after validation."""
+        if timestamps is not None:
+            return np.moveaxis(arr, (0, -1), (time_axis, axis))
+        else:
+            # a leading time axis might have been added by the transformation
+            return np.moveaxis(arr, -1, axis % ndim + arr.ndim - ndim)
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -639,17 +650,16 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, time_axis, arr_ts)
 
         if not return_timestamps:
             return arr
@@ -700,6 +710,7 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
@@ -707,12 +718,10 @@ class ReferenceFrame(NodeMixin):
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = rotate_vectors(r, arr)
         arr = arr + np.array(t)
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, time_axis, arr_ts)
 
         if not return_timestamps:
             return arr
@@ -764,19 +773,16 @@ class ReferenceFrame(NodeMixin):
         ts: array_like, shape (n_timestamps,) or None
             The timestamps after the transformation.
         """
+        ndim = np.ndim(arr)
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
-        arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
+        arr = as_float_array(as_quat_array(r) * as_quat_array(arr))
 
-        # undo time axis swap
-        if time_axis is not None:
-            arr = np.swapaxes(arr, 0, time_axis)
+        arr = self._restore_axes(arr, ndim, axis, time_axis, arr_ts)
 
         if not return_timestamps:
             return arr
-- 
2.43.0


From 1e54812b06c8b9c047c901911fad37868d825638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 12/46] fix: transform velocity arrays with extra dimensions or
 another axis order

---
 rigid_body_motion/reference_frames.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 09079ef..90c080b 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -885,19 +885,17 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        ndim = np.ndim(arr)
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
 
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+        arr = self._restore_axes(arr, ndim, axis, time_axis, arr_ts)
 
         if return_timestamps:
             return arr, ts_out
@@ -1029,13 +1027,10 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        ndim = np.ndim(arr)
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
         translation, translation_ts = self.transform_vectors(
             translation,
@@ -1052,7 +1047,9 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        linear = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(linear, arr.ndim)
+        arr = self._restore_axes(arr, ndim, axis, time_axis, arr_ts)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From e39c9627b47f646453afb621bedb33cc7c2023fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 13/46] fix: do not require a time dimension when estimating
 rotations from DataArrays

---
 rigid_body_motion/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..2fb18a3 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -262,7 +262,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From 8811bbb4915dbfd5e0651269f219a5cf9238999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 14/46] fix: return a valid shortest-arc rotation between
 opposite vectors

---
 rigid_body_motion/estimators.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 2fb18a3..07df54d 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -271,7 +271,17 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     sn2 = np.sum(v2**2, axis=axis, keepdims=True)
     d12 = np.sum(v1 * v2, axis=axis, keepdims=True)
     c12 = np.cross(v1, v2, axis=axis)
-    rotation = np.concatenate((np.sqrt(sn1 * sn2) + d12, c12), axis=axis)
+    s12 = np.sqrt(sn1 * sn2)
+    rotation = np.concatenate((s12 + d12, c12), axis=axis)
+    norm = np.linalg.norm(rotation, axis=axis, keepdims=True)
+
+    # rotate opposite vectors by 180 degrees around any orthogonal axis
+    e = np.eye(3)[np.argmin(np.abs(np.moveaxis(v1, axis, -1)), axis=-1)]
+    c1e = np.cross(v1, np.moveaxis(e, -1, axis), axis=axis)
+    c1e = np.broadcast_to(c1e, c12.shape)
+    opposite = np.concatenate((np.zeros_like(s12), c1e), axis=axis)
+    rotation = np.where((norm <= 1e-12 * s12) & (s12 > 0), opposite, rotation)
+
     rotation /= np.linalg.norm(rotation, axis=axis, keepdims=True)
 
     if coords is not None:
-- 
2.43.0


From c48b85eaade8ebf5c34d270dad3397aed862f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 15/46] fix: never return a reflection as best-fit rotation

---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 07df54d..8aa83de 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -334,6 +334,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From 2db8dd94f55122cf6feb738337987f70d10032b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 16/46] fix: convert the origin to spherical coordinates
 without NaNs

---
 rigid_body_motion/coordinate_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 373da27..8f464ff 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -82,7 +82,8 @@ def cartesian_to_spherical(arr, axis=-1):
         )
 
     r = np.linalg.norm(arr, axis=axis)
-    theta = np.arccos(np.take(arr, 2, axis=axis) / r)
+    rho = np.linalg.norm(np.take(arr, (0, 1), axis=axis), axis=axis)
+    theta = np.arctan2(rho, np.take(arr, 2, axis=axis))
     phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
     return np.stack((r, theta, phi), axis=axis)
 
-- 
2.43.0


From 44e8b422757616c86ddb2d09dc19a11bfb19f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 17/46] fix: support continuous frames and arrays with a single
 timestamp

---
 rigid_body_motion/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index eb6dd37..eac41f0 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -70,6 +70,10 @@ class TransformMatcher:
             rotation = np.tile(frame.rotation[0], (len(timestamps), 1))
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
+        elif len(frame.timestamps) == 1:
+            # can't interpolate, only defined for this single timestamp
+            translation = np.repeat(frame.translation, len(timestamps), axis=0)
+            rotation = np.repeat(frame.rotation, len(timestamps), axis=0)
         else:
             # TODO method + optional scipy dependency?
             translation = interp1d(
@@ -98,6 +102,9 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
+        elif len(array.timestamps) == 1:
+            # can't interpolate, only defined for this single timestamp
+            return np.repeat(array.data, len(timestamps), axis=0)
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-- 
2.43.0


From 6ff57a6588c054c5547e6d165837f57c9e67d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 18/46] fix: transform arrays whose timestamps don't overlap
 with the frames consistently

---
 rigid_body_motion/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index eac41f0..92089bc 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -102,9 +102,9 @@ class TransformMatcher:
                 return array.data
             else:
                 return np.tile(array.data, (len(timestamps), 1))
-        elif len(array.timestamps) == 1:
-            # can't interpolate, only defined for this single timestamp
-            return np.repeat(array.data, len(timestamps), axis=0)
+        elif len(array.timestamps) == 1 or len(timestamps) == 0:
+            # nothing to interpolate
+            return np.repeat(array.data[:1], len(timestamps), axis=0)
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
@@ -497,7 +497,9 @@ def _make_dataarray(arr, coords, dims, name, attrs, time_dim, ts_out):
             # interpolate if timestamps after transform have changed
             for c in coords:
                 if time_dim in coords[c].dims and c != time_dim:
-                    if np.issubdtype(coords[c].dtype, np.number):
+                    if len(ts_out) == 0:
+                        coords[c] = coords[c].isel({time_dim: slice(0)})
+                    elif np.issubdtype(coords[c].dtype, np.number):
                         coords[c] = coords[c].interp({time_dim: ts_out})
                     else:
                         coords[c] = coords[c].sel(
-- 
2.43.0


From 5a5f61d316c509a347277675cffc3256571ef1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 19/46] fix: keep the order of the other axes when the
 quaternion axis is not the last

rotate_vectors, qmul and from_euler_angles swapped the axis of the
components with the last axis, which permutes the remaining axes of
arrays with more than two dimensions.
---
 rigid_body_motion/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index ffe21ee..1ff0e8a 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -69,9 +69,9 @@ def qmul(*q, qaxis=-1):
         raise ValueError("Please provide at least 2 quaternions to multiply")
 
     if all(qq.dtype != quaternion for qq in q):
-        q = (as_quat_array(np.swapaxes(qq, qaxis, -1)) for qq in q)
+        q = (as_quat_array(np.moveaxis(qq, qaxis, -1)) for qq in q)
         qm = reduce(operator.mul, q, 1)
-        return np.swapaxes(as_float_array(qm), -1, qaxis)
+        return np.moveaxis(as_float_array(qm), -1, qaxis)
     elif all(qq.dtype == quaternion for qq in q):
         return reduce(operator.mul, q, 1)
     else:
@@ -231,7 +231,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
@@ -313,7 +313,7 @@ def from_euler_angles(
             raise ValueError(
                 "Cannot specify roll, pitch or yaw when rpy is provided"
             )
-        rpy = np.swapaxes(np.asarray(rpy), axis, -1)
+        rpy = np.moveaxis(np.asarray(rpy), axis, -1)
         roll = rpy[..., 0]
         pitch = rpy[..., 1]
         yaw = rpy[..., 2]
@@ -379,7 +379,7 @@ def from_euler_angles(
     if return_quaternion:
         return q
     else:
-        return np.swapaxes(as_float_array(q), -1, axis)
+        return np.moveaxis(as_float_array(q), -1, axis)
 
 
 def is_dataarray(obj, require_attrs=None):
-- 
2.43.0


From 34911b606c4bfe232a5b4a008cdb2e3f6cf1c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 20/46] fix: qmean with the quaternion axis not at the end

The axis could not be put back into the result if it was given as a
positive number or all other axes were averaged, and the axes to be
averaged were counted in a permuted array.
---
 rigid_body_motion/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1ff0e8a..ede9f6e 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -108,12 +108,14 @@ def qmean(q, axis=None, qaxis=-1):
     """
     # TODO xarray support
     if q.dtype != quaternion:
-        q = np.swapaxes(q, qaxis, -1)
+        qaxis = qaxis % q.ndim
+        q = np.moveaxis(q, qaxis, -1)
         was_quaternion = False
     else:
         q = as_float_array(q)
         was_quaternion = True
 
+    # axes are numbered without the axis representing the quaternions
     axis = _resolve_axis(axis, q.ndim - 1)
 
     # compute outer product of quaternion elements
@@ -131,7 +133,9 @@ def qmean(q, axis=None, qaxis=-1):
     if was_quaternion:
         return as_quat_array(qm)
     else:
-        return np.swapaxes(qm, -1, qaxis)
+        # put the quaternion axis back between the remaining axes
+        n_before = sum(a < qaxis for a in np.atleast_1d(axis))
+        return np.moveaxis(qm, -1, qaxis - n_before)
 
 
 def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
-- 
2.43.0


From 408e81ed10a13c272a60fc67c40d7d26b38b92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 21/46] fix: qinterp with datetimes of different units

The integer representations were compared without converting them to
the same unit.
---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index ede9f6e..8980ed1 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _resolve_axis, _timestamps_to_float
 
 
 def qinv(q, qaxis=-1):
@@ -168,8 +168,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     """
     # TODO xarray support
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _timestamps_to_float(np.array(t_in))
+    t_out = _timestamps_to_float(np.array(t_out))
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From 036680ab04be34fe351b518f90cba970db1e888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 22/46] fix: accept lists in coordinate conversions and
 estimators

They are documented to take array_like arguments but failed for
anything without a shape.
---
 rigid_body_motion/coordinate_systems.py | 8 ++++++++
 rigid_body_motion/core.py               | 1 +
 2 files changed, 9 insertions(+)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 8f464ff..8dcd64c 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -19,6 +19,8 @@ def cartesian_to_polar(arr, axis=-1):
     arr_polar : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -46,6 +48,8 @@ def polar_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 2:
         raise ValueError(
             f"Expected length of axis {axis} to be 2, got {arr.shape[axis]} "
@@ -75,6 +79,8 @@ def cartesian_to_spherical(arr, axis=-1):
     arr_spherical : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
@@ -106,6 +112,8 @@ def spherical_to_cartesian(arr, axis=-1):
     arr_cartesian : array_like
         Output array.
     """
+    arr = np.asarray(arr)
+
     if arr.shape[axis] != 3:
         raise ValueError(
             f"Expected length of axis {axis} to be 3, got {arr.shape[axis]} "
diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 92089bc..0eb5e8a 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -412,6 +412,7 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
+        arr = np.asanyarray(arr)
         axis = -1 if axis is None else axis
         time_axis = time_axis or 0
         timestamps = None if timestamps is False else timestamps
-- 
2.43.0


From e1a4f1c96811d5d791bea5c2d37c1bad0409e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 23/46] fix: accept lists in the quaternion utilities

qinv, qmul, qmean and qinterp are documented to take array_like
arguments but failed for lists.
---
 rigid_body_motion/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 8980ed1..9278451 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -37,6 +37,7 @@ def qinv(q, qaxis=-1):
         A new array containing the inverse values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     if q.dtype != quaternion:
         q = np.swapaxes(q, qaxis, -1)
         qi = as_float_array(1 / as_quat_array(q))
@@ -68,6 +69,8 @@ def qmul(*q, qaxis=-1):
     if len(q) < 2:
         raise ValueError("Please provide at least 2 quaternions to multiply")
 
+    q = [qq if hasattr(qq, "dtype") else np.asarray(qq) for qq in q]
+
     if all(qq.dtype != quaternion for qq in q):
         q = (as_quat_array(np.moveaxis(qq, qaxis, -1)) for qq in q)
         qm = reduce(operator.mul, q, 1)
@@ -107,6 +110,7 @@ def qmean(q, axis=None, qaxis=-1):
         A new array containing the mean values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
         q = np.moveaxis(q, qaxis, -1)
@@ -167,6 +171,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
         A new array containing the interpolated values.
     """
     # TODO xarray support
+    q = np.asarray(q)
     axis = axis % q.ndim
     t_in = _timestamps_to_float(np.array(t_in))
     t_out = _timestamps_to_float(np.array(t_out))
-- 
2.43.0


From f7e6fbe3e03cc97a5b58656f0141139e24788758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:14 +0000
Subject: [PATCH 24/46] fix: orientations of missing OptiTrack samples

from_euler_angles turned NaN angles, such as those of samples in which
a body was not tracked, into the identity.
---
 rigid_body_motion/utils.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 9278451..458a8a5 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -8,7 +8,6 @@ import numpy as np
 from quaternion import (
     as_float_array,
     as_quat_array,
-    from_rotation_vector,
     quaternion,
 )
 from quaternion import rotate_vectors as quat_rv
@@ -272,6 +271,15 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     return vr
 
 
+def _axis_rotor(angle, component):
+    """Rotors around a coordinate axis, NaN where the angle is NaN."""
+    rotor = np.zeros(angle.shape + (4,))
+    rotor[..., 0] = np.cos(angle / 2)
+    rotor[..., component] = np.sin(angle / 2)
+
+    return as_quat_array(rotor)
+
+
 def from_euler_angles(
     rpy=None,
     roll=None,
@@ -333,9 +341,7 @@ def from_euler_angles(
     if roll is not None:
         roll = np.asarray(roll)
         shape = roll.shape
-        roll = from_rotation_vector(
-            np.stack((roll, np.zeros(shape), np.zeros(shape)), axis=-1)
-        )
+        roll = _axis_rotor(roll, 1)
 
     if pitch is not None:
         pitch = np.asarray(pitch)
@@ -346,9 +352,7 @@ def from_euler_angles(
                 f"Inconsistent shape for pitch argument: expected {shape}, "
                 f"got {pitch.shape}"
             )
-        pitch = from_rotation_vector(
-            np.stack((np.zeros(shape), pitch, np.zeros(shape)), axis=-1)
-        )
+        pitch = _axis_rotor(pitch, 2)
 
     if yaw is not None:
         yaw = np.asarray(yaw)
@@ -359,9 +363,7 @@ def from_euler_angles(
                 f"Inconsistent shape for yaw argument: expected {shape}, "
                 f"got {yaw.shape}"
             )
-        yaw = from_rotation_vector(
-            np.stack((np.zeros(shape), np.zeros(shape), yaw), axis=-1)
-        )
+        yaw = _axis_rotor(yaw, 3)
 
     if shape is None:
         raise ValueError(
-- 
2.43.0


From 1a05fdcebe32eac6c0873ed136b20efcaad63716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 25/46] fix: order of the axes in OptiTrack exports

The columns were taken as x, y and z in the order of the file without
looking at their names.
---
 rigid_body_motion/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 532e26e..2bb7856 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -61,7 +61,7 @@ def load_optitrack(filepath, import_format="numpy"):
 
     # convert orientation to quaternions
     for name in data_dict:
-        rpy = np.deg2rad(data_dict[name]["Rotation"].values)
+        rpy = np.deg2rad(data_dict[name]["Rotation"][["X", "Y", "Z"]].values)
         order = (
             meta.get("Rotation Type", "XYZ")
             .replace("X", "r")
@@ -70,7 +70,7 @@ def load_optitrack(filepath, import_format="numpy"):
         )
         q = from_euler_angles(rpy, order=order)
 
-        position = data_dict[name]["Position"]
+        position = data_dict[name]["Position"][["X", "Y", "Z"]]
         position.columns = position.columns.str.lower()
         orientation = pd.DataFrame(
             q, index=position.index, columns=["w", "x", "y", "z"]
-- 
2.43.0


From 2418ac42052738b19d4b0a5176964856cccbd830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:56 +0000
Subject: [PATCH 26/46] fix: convert OptiTrack positions in millimetres to
 metres

---
 rigid_body_motion/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 2bb7856..a0afddc 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -54,10 +54,11 @@ def load_optitrack(filepath, import_format="numpy"):
         for idx, gp in df.groupby(level=0, axis=1)
     }
 
-    # convert cm to m (if applicable)
-    if meta.get("Length Units", None) == "Centimeters":
+    # convert cm or mm to m (if applicable)
+    scale = {"Centimeters": 100, "Millimeters": 1000}
+    if meta.get("Length Units", None) in scale:
         for name in data_dict:
-            data_dict[name]["Position"] /= 100
+            data_dict[name]["Position"] /= scale[meta["Length Units"]]
 
     # convert orientation to quaternions
     for name in data_dict:
-- 
2.43.0


From 173c4e58923041a307f10b32b410b5263f5bfb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 27/46] fix: stamps of TF messages for timestamps that are not
 in nanoseconds

---
 rigid_body_motion/ros/transformer.py | 38 +++++++++++++---------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..da2ee0d 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -7,6 +7,15 @@ from rigid_body_motion.core import _resolve_rf
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
+def _to_sec(timestamps):
+    """Convert datetime or numeric timestamps to seconds."""
+    timestamps = np.asarray(timestamps)
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return timestamps.astype("datetime64[ns]").astype(float) / 1e9
+    else:
+        return timestamps.astype(float)
+
+
 class Transformer:
     """Wrapper class for tf2_ros.Buffer.
 
@@ -48,13 +57,12 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
                     (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
+                        _to_sec(node.timestamps[0]),
+                        _to_sec(node.timestamps[-1]),
                     )
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
@@ -108,7 +116,7 @@ class Transformer:
         for translation, rotation, timestamp in zip(
             reference_frame.translation,
             reference_frame.rotation,
-            reference_frame.timestamps,
+            _to_sec(reference_frame.timestamps),
         ):
             self._buffer.set_transform(
                 make_transform_msg(
@@ -116,7 +124,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    timestamp,
                 ),
                 "default_authority",
             )
@@ -454,7 +462,7 @@ class ReferenceFrameTransformBroadcaster:
                 )
         else:
             idx = idx or self.idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            ts = _to_sec(self.timestamps.values[idx])
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
@@ -500,7 +508,6 @@ class ReferenceFrameTransformBroadcaster:
 
     def _spin_blocking(self):
         """Continuously publish messages."""
-        import pandas as pd
         import rospy
 
         self.stopped = False
@@ -509,21 +516,12 @@ class ReferenceFrameTransformBroadcaster:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
                 self.idx = (self.idx + 1) % len(self.timestamps)
-                if isinstance(self.timestamps, pd.DatetimeIndex):
-                    dt = (
-                        self.timestamps.values[self.idx].astype(float) / 1e9
-                        - self.timestamps.values[self.idx - 1].astype(float)
-                        / 1e9
-                        if self.idx > 0
-                        else 0.0
+                if self.idx > 0:
+                    dt = _to_sec(self.timestamps.values[self.idx]) - _to_sec(
+                        self.timestamps.values[self.idx - 1]
                     )
                 else:
-                    dt = float(
-                        self.timestamps.values[self.idx]
-                        - self.timestamps.values[self.idx - 1]
-                        if self.idx > 0
-                        else 0.0
-                    )
+                    dt = 0.0
 
                 rospy.sleep(dt)
         else:
-- 
2.43.0


From d300ea21a14d614257461ce3957a6e379f4e968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 28/46] fix: publish the first sample when it is requested

---
 rigid_body_motion/ros/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index da2ee0d..ecd2d63 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -461,7 +461,8 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            if idx is None:
+                idx = self.idx
             ts = _to_sec(self.timestamps.values[idx])
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From 35827fa89a8f8bec69e68ffdf33eebe70aadfc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 29/46] fix: find the sample nearest to an incoming TF message

---
 rigid_body_motion/ros/transformer.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index ecd2d63..164f6fe 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -493,16 +493,13 @@ class ReferenceFrameTransformBroadcaster:
 
     def handle_incoming_msg(self, msg):
         """Publish on incoming message."""
-        import pandas as pd
         import rospy
 
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
+                    ts = rospy.Time.to_sec(transform.header.stamp)
+                    idx = np.argmin(np.abs(_to_sec(self.timestamps) - ts))
                     self.publish(idx)
                 else:
                     self.publish()
-- 
2.43.0


From 5726e7da05d0b59dd8e1b24a78aa608e59769a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 30/46] fix: stamp twist messages

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 164f6fe..7fc0184 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -487,7 +487,7 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
                 )
             )
 
-- 
2.43.0


From 900923c253b1ef2051ac62304707f1f74c725039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 31/46] fix: do not drop the first sample from the TF cache

---
 rigid_body_motion/ros/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 7fc0184..289b0ea 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -73,8 +73,9 @@ class Transformer:
         if len(t_start_end) == 0:
             transformer = Transformer(cache_time=None)
         else:
-            # cache time from earliest start to latest end
-            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0])
+            # cache time from earliest start to latest end, with some margin
+            # because stamps are rounded to nanoseconds
+            cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0]) + 1.0
             transformer = Transformer(cache_time=cache_time)
 
         for node in PreOrderIter(root):
-- 
2.43.0


From 7270bc0346656e0de92a476574cef53b64f6b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 32/46] fix: path markers of static frames and of frames with
 few samples

---
 rigid_body_motion/ros/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..57987a1 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,6 +1,8 @@
 from io import BytesIO
 from threading import Thread
 
+import numpy as np
+
 from rigid_body_motion.core import _resolve_rf
 
 
@@ -208,8 +210,9 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
-        marker.points = [Point(*row) for row in self.translation[::show_every]]
+        points = np.atleast_2d(self.translation)
+        show_every = max(-(-points.shape[0] // max_points), 1)
+        marker.points = [Point(*row) for row in points[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
 
-- 
2.43.0


From cab864bdef152c6fc0d08cf661ba24ec8b0dc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 33/46] fix: markers of type ARROW and with an integer scale

---
 rigid_body_motion/ros/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 57987a1..f66a590 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -65,10 +65,13 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    if marker_type is None:
+        marker_type = Marker.LINE_STRIP
+
+    marker.type = marker_type
     marker.header.frame_id = frame_id
 
-    if isinstance(scale, float):
+    if np.isscalar(scale):
         marker.scale = Vector3(scale, scale, scale)
     else:
         marker.scale = Vector3(*scale)
-- 
2.43.0


From fa9b1284d568d1e5a0b108a1b2f9ec5ac2f80279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 34/46] fix: end the loops of publishers when they are stopped

---
 rigid_body_motion/ros/transformer.py   | 39 +++++++++++++++++---------
 rigid_body_motion/ros/visualization.py | 25 +++++++++++------
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 289b0ea..e7e82fd 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -1,4 +1,4 @@
-from threading import Thread
+from threading import Event, Thread
 
 import numpy as np
 from anytree import PreOrderIter
@@ -435,6 +435,7 @@ class ReferenceFrameTransformBroadcaster:
 
         self.idx = 0
         self.stopped = False
+        self._stop_event = Event()
         self._thread = None
 
     def publish(self, idx=None):
@@ -505,28 +506,29 @@ class ReferenceFrameTransformBroadcaster:
                 else:
                     self.publish()
 
-    def _spin_blocking(self):
+    def _spin_blocking(self, stop_event):
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
         if self.subscriber is None and self.timestamps is not None:
-            while not rospy.is_shutdown() and not self.stopped:
-                self.publish()
-                self.idx = (self.idx + 1) % len(self.timestamps)
-                if self.idx > 0:
-                    dt = _to_sec(self.timestamps.values[self.idx]) - _to_sec(
-                        self.timestamps.values[self.idx - 1]
+            while not rospy.is_shutdown() and not stop_event.is_set():
+                idx = self.idx
+                self.idx = (idx + 1) % len(self.timestamps)
+                self.publish(idx)
+                if idx + 1 < len(self.timestamps):
+                    dt = _to_sec(self.timestamps.values[idx + 1]) - _to_sec(
+                        self.timestamps.values[idx]
                     )
                 else:
                     dt = 0.0
 
                 rospy.sleep(dt)
         else:
-            rospy.spin()
+            while not rospy.is_shutdown() and not stop_event.is_set():
+                rospy.sleep(0.1)
 
-        self.stopped = True
+        if stop_event is self._stop_event:
+            self.stopped = True
 
     def spin(self, block=False):
         """Continuously publish messages.
@@ -544,14 +546,23 @@ class ReferenceFrameTransformBroadcaster:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        # end a loop that is still running
+        self.stop()
+
+        stop_event = self._stop_event = Event()
+        self.stopped = False
+
         if self.timestamps is None:
             self.publish()
         elif block:
-            self._spin_blocking()
+            self._spin_blocking(stop_event)
         else:
-            self._thread = Thread(target=self._spin_blocking)
+            self._thread = Thread(
+                target=self._spin_blocking, args=(stop_event,)
+            )
             self._thread.start()
 
     def stop(self):
         """Stop publishing."""
         self.stopped = True
+        self._stop_event.set()
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index f66a590..bd43d74 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from threading import Thread
+from threading import Event, Thread
 
 import numpy as np
 
@@ -119,6 +119,7 @@ class BaseMarkerPublisher:
             rospy.loginfo("Created marker publisher")
 
         self.stopped = False
+        self._stop_event = Event()
         self._thread = None
 
     def publish(self):
@@ -130,17 +131,16 @@ class BaseMarkerPublisher:
             self.last_message = current_message
             self.publisher.publish(self.marker)
 
-    def _spin_blocking(self):
+    def _spin_blocking(self, stop_event):
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
-        while not rospy.is_shutdown() and not self.stopped:
+        while not rospy.is_shutdown() and not stop_event.is_set():
             self.publish()
             rospy.sleep(self.publish_interval)
 
-        self.stopped = True
+        if stop_event is self._stop_event:
+            self.stopped = True
 
     def spin(self, block=False):
         """Continuously publish messages.
@@ -158,15 +158,24 @@ class BaseMarkerPublisher:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        # end a loop that is still running
+        self.stop()
+
+        stop_event = self._stop_event = Event()
+        self.stopped = False
+
         if block:
-            self._spin_blocking()
+            self._spin_blocking(stop_event)
         else:
-            self._thread = Thread(target=self._spin_blocking)
+            self._thread = Thread(
+                target=self._spin_blocking, args=(stop_event,)
+            )
             self._thread.start()
 
     def stop(self):
         """Stop publishing."""
         self.stopped = True
+        self._stop_event.set()
 
 
 class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
-- 
2.43.0


From 348ca4f5a21aa93fa28fa61804624c068249cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 35/46] fix: return the thread that runs the loop of a
 publisher

---
 rigid_body_motion/ros/transformer.py   | 4 +++-
 rigid_body_motion/ros/visualization.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index e7e82fd..5a8ac57 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -544,7 +544,7 @@ class ReferenceFrameTransformBroadcaster:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         # end a loop that is still running
         self.stop()
@@ -562,6 +562,8 @@ class ReferenceFrameTransformBroadcaster:
             )
             self._thread.start()
 
+            return self._thread
+
     def stop(self):
         """Stop publishing."""
         self.stopped = True
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index bd43d74..00c9d33 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -156,7 +156,7 @@ class BaseMarkerPublisher:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         # end a loop that is still running
         self.stop()
@@ -172,6 +172,8 @@ class BaseMarkerPublisher:
             )
             self._thread.start()
 
+            return self._thread
+
     def stop(self):
         """Stop publishing."""
         self.stopped = True
-- 
2.43.0


From 0c4a600bb57284f6fc0ef162a2d64e66205550ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 36/46] fix: accept strings as output file of
 RosbagReader.export

---
 rigid_body_motion/ros/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..8169e76 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -39,8 +39,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From 74aaf3f0da15939efe81908b608fa5b3da5e5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 37/46] fix: export of values that are out of range of the
 stored type

---
 rigid_body_motion/ros/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 8169e76..bb8a2c9 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -56,9 +56,15 @@ class RosbagReader:
             "_FillValue": np.iinfo(dtype).min,
         }
 
+        # values that are out of range are stored without conversion
+        max_value = comp["scale_factor"] * np.iinfo(dtype).max
+
         encoding = {}
         for v in ds.data_vars:
-            encoding[v] = comp
+            if np.any(np.abs(ds[v].values) > max_value):
+                encoding[v] = {"zlib": True}
+            else:
+                encoding[v] = comp
 
         ds.to_netcdf(filename, encoding=encoding)
 
-- 
2.43.0


From 79e2243bb8a7e603f4765ab223c7332cb2d6b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 38/46] fix: rosbag timestamps of datasets that are not in
 nanoseconds

---
 rigid_body_motion/ros/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index bb8a2c9..25d6eef 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -361,12 +361,14 @@ class RosbagWriter:
             Name of the variable containing the rotation.
         """
         if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
+            timestamps_s = (
+                ds[timestamps].astype("datetime64[ns]").astype(float) / 1e9
+            )
         else:
-            timestamps = ds[timestamps]
+            timestamps_s = ds[timestamps]
 
         self.write_transform_stamped(
-            timestamps,
+            timestamps_s,
             ds[translation],
             ds[rotation],
             topic,
-- 
2.43.0


From e56556cd2fef48a3d904a2a12dc187bc2d3e485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 39/46] fix: write datasets whose first dimension is not time
 to rosbags

---
 rigid_body_motion/ros/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 25d6eef..e21df56 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -367,10 +367,12 @@ class RosbagWriter:
         else:
             timestamps_s = ds[timestamps]
 
+        dims = ds[timestamps].dims
+
         self.write_transform_stamped(
             timestamps_s,
-            ds[translation],
-            ds[rotation],
+            ds[translation].transpose(*dims, ...),
+            ds[rotation].transpose(*dims, ...),
             topic,
             frame,
             child_frame,
-- 
2.43.0


From e7b093edc1c43a2bcce7e21567f07ef39fad898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 40/46] fix: limits of the z axis of reference frame plots

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From e119c5c99427b34230ab4f4311add477ad45a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 41/46] fix: expand the limits of plots of points and vectors
 to what is drawn

---
 rigid_body_motion/plotting.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index c805741..482014d 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -85,6 +85,22 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     return [x_arrow, y_arrow, z_arrow]
 
 
+def _expand_limits(ax, points):
+    """Expand limits of 3D axes such that they contain all points."""
+    points = np.asarray(points, dtype=float).reshape(-1, 3)
+    points = points[np.isfinite(points).all(axis=1)]
+    if len(points) == 0:
+        return
+
+    for get_lim, set_lim, values in (
+        (ax.get_xlim3d, ax.set_xlim3d, points[:, 0]),
+        (ax.get_ylim3d, ax.set_ylim3d, points[:, 1]),
+        (ax.get_zlim3d, ax.set_zlim3d, points[:, 2]),
+    ):
+        lim = get_lim()
+        set_lim([np.min((*lim, *values)), np.max((*lim, *values))])
+
+
 def _set_axes_equal(ax):
     """Make axes of 3D plot have equal scale.
     from https://stackoverflow.com/a/31364297
@@ -192,6 +208,7 @@ def plot_points(arr, ax=None, figsize=(6, 6), fmt="", **kwargs):
 
     lines = ax.plot(arr[:, 0], arr[:, 1], arr[:, 2], fmt, **kwargs)
 
+    _expand_limits(ax, arr)
     _set_axes_equal(ax)
 
     return lines
@@ -293,6 +310,8 @@ def plot_vectors(arr, base=None, ax=None, figsize=(6, 6), **kwargs):
         **kwargs,
     )
 
+    # matplotlib only considers the base points
+    _expand_limits(ax, lines._segments3d)
     _set_axes_equal(ax)
 
     return lines
-- 
2.43.0


From 9016f4616c8ad8f6b8ee5a4e15ef8e0b2660bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 42/46] fix: backward button of play_publisher at the last
 message

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 7eb9a8e89ebc0ae54e78f7ff965a5f3b789d969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 43/46] fix: playback interval for timestamps that are not in
 nanoseconds

---
 rigid_body_motion/ros/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 09a6cc9..2a758bc 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -86,10 +86,12 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     from IPython.core.display import display
     from ipywidgets import widgets
 
+    from .transformer import _to_sec
+
     if timestamps is None:
         timestamps = np.asarray(publisher.timestamps)
 
-    interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
+    interval = np.mean(np.diff(_to_sec(timestamps) * 1e3)) / speed
 
     # position bar
     s_idx = widgets.IntSlider(
-- 
2.43.0


From 2c4cdfe197d55bf536ef0ca7770557f1b999bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 44/46] fix: valid samples next to invalid ones in lookups and
 transformations

---
 rigid_body_motion/core.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 0eb5e8a..40901e9 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -30,6 +30,21 @@ def _timestamps_to_float(timestamps):
     return timestamps.astype(float)
 
 
+def _keep_samples(interpolated, samples, timestamps, new_timestamps):
+    """Use samples instead of interpolated values where timestamps coincide.
+
+    Otherwise, invalid samples (NaN) would affect their valid neighbors.
+    """
+    timestamps = _timestamps_to_float(timestamps)
+    new_timestamps = _timestamps_to_float(new_timestamps)
+    idx = np.searchsorted(timestamps, new_timestamps)
+    idx = np.minimum(idx, len(timestamps) - 1)
+    is_sample = timestamps[idx] == new_timestamps
+    interpolated[is_sample] = samples[idx[is_sample]]
+
+    return interpolated
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
@@ -88,6 +103,13 @@ class TransformMatcher:
                     _timestamps_to_float(timestamps),
                 )
             )
+            translation, rotation = (
+                _keep_samples(arr, samples, frame.timestamps, timestamps)
+                for arr, samples in (
+                    (translation, frame.translation),
+                    (rotation, frame.rotation),
+                )
+            )
 
         return translation, rotation
 
@@ -108,7 +130,7 @@ class TransformMatcher:
         else:
             # TODO better way to check if quaternion
             if array.data.shape[-1] == 4:
-                return as_float_array(
+                data = as_float_array(
                     squad(
                         as_quat_array(array.data),
                         _timestamps_to_float(array.timestamps),
@@ -117,10 +139,14 @@ class TransformMatcher:
                 )
             else:
                 # TODO method + optional scipy dependency?
-                return interp1d(
+                data = interp1d(
                     _timestamps_to_float(array.timestamps), array.data, axis=0
                 )(_timestamps_to_float(timestamps))
 
+            return _keep_samples(
+                data, array.data, array.timestamps, timestamps
+            )
+
     def add_reference_frame(self, frame, inverse=False):
         """Add a reference frame to the matcher.
 
-- 
2.43.0


From b0c03f9ab8e73ab3594ef6c78719a956616093ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 45/46] fix: outlier suppression for other array layouts

---
 rigid_body_motion/core.py       | 61 +++++++++++++++++++++++----------
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 40901e9..9f8a655 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -772,6 +772,30 @@ def _make_velocity_dataarray(
     return da
 
 
+def _interpolate_outliers(
+    velocity, second_diff, timestamps, outlier_thresh, axis=-1, time_axis=0
+):
+    """Interpolate velocity samples with large second-order differences."""
+    velocity = np.moveaxis(velocity, (time_axis, axis), (0, -1))
+    diff = np.moveaxis(second_diff, (time_axis, axis), (0, -1))
+    norm = np.linalg.norm(diff, axis=-1)
+    pad = [(0, 0)] * (norm.ndim - 1)
+    norm = np.pad(norm, [(0, 2)] + pad) + np.pad(norm, [(1, 1)] + pad)
+
+    interpolated = np.empty_like(velocity)
+    for extra_idx in np.ndindex(*norm.shape[1:]):
+        idx = (slice(None),) + extra_idx
+        valid = norm[idx] <= outlier_thresh
+        interpolated[idx] = interp1d(
+            timestamps[valid],
+            velocity[idx][valid],
+            axis=0,
+            bounds_error=False,
+        )(timestamps)
+
+    return np.moveaxis(interpolated, (0, -1), (time_axis, axis))
+
+
 def _estimate_angular_velocity(
     rotation,
     timestamps,
@@ -820,17 +844,13 @@ def _estimate_angular_velocity(
         )
 
     if outlier_thresh is not None:
-        dr = np.linalg.norm(
+        angular = _interpolate_outliers(
+            angular,
             np.diff(as_rotation_vector(as_quat_array(r)), n=2, axis=time_axis),
-            axis=-1,
+            timestamps,
+            outlier_thresh,
+            time_axis=time_axis,
         )
-        dr = np.hstack((dr, 0.0, 0.0)) + np.hstack((0.0, dr, 0.0))
-        angular = interp1d(
-            timestamps[dr <= outlier_thresh],
-            angular[dr <= outlier_thresh],
-            axis=time_axis,
-            bounds_error=False,
-        )(timestamps)
 
     if cutoff is not None:
         angular = filtfilt(*butter(7, cutoff), angular, axis=time_axis)
@@ -843,7 +863,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    axis=-1,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
 ):
     """Estimate linear velocity of transform."""
     timestamps = np.asarray(timestamps)
@@ -853,14 +878,14 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
-        dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
-        linear = interp1d(
-            timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
-            axis=time_axis,
-            bounds_error=False,
-        )(timestamps)
+        linear = _interpolate_outliers(
+            linear,
+            np.diff(translation, n=2, axis=time_axis),
+            timestamps,
+            outlier_thresh,
+            axis=axis,
+            time_axis=time_axis,
+        )
 
     if cutoff is not None:
         linear = filtfilt(*butter(7, cutoff), linear, axis=time_axis)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 8aa83de..d2575fd 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -132,6 +132,7 @@ def estimate_linear_velocity(
     linear = _estimate_linear_velocity(
         arr,
         timestamps,
+        axis=axis,
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
-- 
2.43.0


From 9f39448bdb5303d371ad98116da02668559f7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 46/46] fix: signs of quaternions in interpolation and angular
 velocities

---
 rigid_body_motion/core.py  | 23 +++++++++++++++++++----
 rigid_body_motion/utils.py |  2 +-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 9f8a655..da9f2bc 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -11,6 +11,7 @@ from quaternion import (
     derivative,
     quaternion,
     squad,
+    unflip_rotors,
 )
 from scipy.interpolate import interp1d
 from scipy.signal import butter, filtfilt
@@ -101,6 +102,7 @@ class TransformMatcher:
                     as_quat_array(frame.rotation),
                     _timestamps_to_float(frame.timestamps),
                     _timestamps_to_float(timestamps),
+                    unflip_input_rotors=True,
                 )
             )
             translation, rotation = (
@@ -135,6 +137,7 @@ class TransformMatcher:
                         as_quat_array(array.data),
                         _timestamps_to_float(array.timestamps),
                         _timestamps_to_float(timestamps),
+                        unflip_input_rotors=True,
                     )
                 )
             else:
@@ -772,6 +775,14 @@ def _make_velocity_dataarray(
     return da
 
 
+def _continuous_rotation_vectors(rotation, time_axis):
+    """Convert to rotation vectors, regardless of the signs of quaternions."""
+    q = as_float_array(unflip_rotors(as_quat_array(rotation), axis=time_axis))
+    first = np.take(q, [0], axis=time_axis)[..., :1]
+
+    return as_rotation_vector(as_quat_array(np.where(first < 0, -q, q)))
+
+
 def _interpolate_outliers(
     velocity, second_diff, timestamps, outlier_thresh, axis=-1, time_axis=0
 ):
@@ -829,14 +840,16 @@ def _estimate_angular_velocity(
         valid_idx = [slice(None)] * r.ndim
         valid_idx[time_axis] = ~nan_idx
         valid_idx = tuple(valid_idx)
+        q = unflip_rotors(as_quat_array(r[valid_idx]), axis=time_axis)
         dq = as_quat_array(
-            derivative(r[valid_idx], timestamps[~nan_idx], axis=time_axis)
+            derivative(
+                as_float_array(q), timestamps[~nan_idx], axis=time_axis
+            )
         )
-        q = as_quat_array(r[valid_idx])
         angular = np.nan * np.ones_like(r[..., :-1])
         angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
     elif mode == "rotation_vector":
-        rv = as_rotation_vector(as_quat_array(r))
+        rv = _continuous_rotation_vectors(r, time_axis)
         angular = np.gradient(rv, timestamps, axis=time_axis)
     else:
         raise ValueError(
@@ -846,7 +859,9 @@ def _estimate_angular_velocity(
     if outlier_thresh is not None:
         angular = _interpolate_outliers(
             angular,
-            np.diff(as_rotation_vector(as_quat_array(r)), n=2, axis=time_axis),
+            np.diff(
+                _continuous_rotation_vectors(r, time_axis), n=2, axis=time_axis
+            ),
             timestamps,
             outlier_thresh,
             time_axis=time_axis,
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 458a8a5..e1afcc4 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -188,7 +188,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
 
     q = np.swapaxes(q, axis, 0)
     try:
-        qi = squad(q, t_in, t_out)
+        qi = squad(q, t_in, t_out, unflip_input_rotors=True)
     except ValueError:
         raise RuntimeError(
             "Error using SQUAD with multi-dimensional array, please upgrade "
-- 
2.43.0


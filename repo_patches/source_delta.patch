From c1be367345cf0a0897eff01ef52fe612dc2af336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 01/31] fix: qmean picks the eigenvector of the largest
 eigenvalue

---
 rigid_body_motion/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..2631294 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -123,8 +123,8 @@ def qmean(q, axis=None, qaxis=-1):
 
     # compute largest eigenvector of A
     l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
+    idx = l.argmax(axis=-1)[..., np.newaxis, np.newaxis]
+    v = np.take_along_axis(v, idx, axis=-1)[..., 0]
 
     qm = np.real(v)
 
-- 
2.43.0


From f43ee2770d25fc6da69fe725b5e5097ebc9e85f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 02/31] fix: rotate_vectors normalises by the squared
 quaternion norm

---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 2631294..94d54c8 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -256,7 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From b6b59fb7f406b04b56b9a07da43412d4ecd819e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 03/31] fix: best_fit_rotation corrects reflections

---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..4cc7d58 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -324,6 +324,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From 063b44117c992ca8ae6cf5972bcaac287889978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 04/31] fix: do not attach a frame to its parent before its
 arguments are validated

---
 rigid_body_motion/reference_frames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..3d8ca6f 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -184,14 +184,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -200,6 +199,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # only attach to the tree once all arguments have been validated
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From b6fa1d20bbf8c9f13efb7ce9fc3e1b329b75e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 05/31] fix: detach frames that cannot be registered

---
 rigid_body_motion/reference_frames.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 3d8ca6f..c0b56fb 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -112,7 +112,12 @@ def register_frame(
         inverse=inverse,
         discrete=discrete,
     )
-    _register(rf, update=update)
+    try:
+        _register(rf, update=update)
+    except ValueError:
+        # don't leave the rejected frame attached to its parent
+        rf.parent = None
+        raise
 
 
 def deregister_frame(name):
-- 
2.43.0


From 7da8dac2d5c1b488a0a91e5f46fdbf68ff6db79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 06/31] fix: registering a registered frame again keeps its
 parent

---
 rigid_body_motion/reference_frames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index c0b56fb..b890603 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -22,7 +22,8 @@ def _register(rf, update=False):
     if rf.name in _registry:
         if update:
             # TODO keep children?
-            _registry[rf.name].parent = None
+            if _registry[rf.name] is not rf:
+                _registry[rf.name].parent = None
         else:
             raise ValueError(
                 f"Reference frame with name {rf.name} is already registered. "
-- 
2.43.0


From f15ecf40b1291d36335c512b0a3830851e424c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 07/31] fix: deregister does not remove another frame of the
 same name

---
 rigid_body_motion/reference_frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index b890603..383db11 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -1341,4 +1341,8 @@ class ReferenceFrame(NodeMixin):
 
     def deregister(self):
         """Remove this frame from the registry."""
+        if self.name in _registry and _registry[self.name] is not self:
+            raise ValueError(
+                f"A different reference frame is registered as {self.name}"
+            )
         _deregister(self.name)
-- 
2.43.0


From 89e80e09f129955354624695af50e422aa2a8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 08/31] fix: axis=0 is not treated like an unspecified axis

---
 rigid_body_motion/core.py       | 5 +++--
 rigid_body_motion/estimators.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..30a4a5d 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -395,8 +395,9 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
+        timestamps = None if timestamps is False else timestamps
         time_dim = None
         coords = None
         dims = None
@@ -410,7 +411,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 4cc7d58..52fe208 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -262,7 +262,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From a8f5ef35da1238768a236cea526e1be0b65ff3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 09/31] fix: only undo the time axis swap if the time axis was
 swapped

---
 rigid_body_motion/reference_frames.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 383db11..ddd0a1b 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -648,7 +648,7 @@ class ReferenceFrame(NodeMixin):
         arr = rotate_vectors(r, arr, axis=axis)
 
         # undo time axis swap
-        if time_axis is not None:
+        if arr_ts is not None:
             arr = np.swapaxes(arr, 0, time_axis)
 
         if not return_timestamps:
@@ -711,7 +711,7 @@ class ReferenceFrame(NodeMixin):
         arr = arr + np.array(t)
 
         # undo time axis swap
-        if time_axis is not None:
+        if arr_ts is not None:
             arr = np.swapaxes(arr, 0, time_axis)
 
         if not return_timestamps:
@@ -775,7 +775,7 @@ class ReferenceFrame(NodeMixin):
         arr = np.swapaxes(as_float_array(arr), -1, axis)
 
         # undo time axis swap
-        if time_axis is not None:
+        if arr_ts is not None:
             arr = np.swapaxes(arr, 0, time_axis)
 
         if not return_timestamps:
-- 
2.43.0


From 0b97a639ef806d55e111847913a49b398fdee75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 10/31] fix: transforms honour the spatial axis of the input
 array

---
 rigid_body_motion/reference_frames.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index ddd0a1b..44f45bb 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -298,6 +298,18 @@ class ReferenceFrame(NodeMixin):
 
         return arr, timestamps
 
+    @classmethod
+    def _move_spatial_axis(cls, arr, axis, time_axis, timestamps):
+        """Make the spatial axis of a validated array the last axis."""
+        axis = axis % arr.ndim
+        if timestamps is not None and axis == 0:
+            # the first axis was swapped with the time axis
+            axis = time_axis % arr.ndim
+        # count from the end because array can be expanded along time
+        axis = axis - arr.ndim
+
+        return np.swapaxes(arr, axis, -1), axis
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -640,12 +652,13 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_spatial_axis(arr, axis, time_axis, arr_ts)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
+        arr = np.swapaxes(rotate_vectors(r, arr), axis, -1)
 
         # undo time axis swap
         if arr_ts is not None:
@@ -701,14 +714,15 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_spatial_axis(arr, axis, time_axis, arr_ts)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = rotate_vectors(r, arr, axis=axis)
-        arr = arr + np.array(t)
+        arr = rotate_vectors(r, arr) + np.array(t)
+        arr = np.swapaxes(arr, axis, -1)
 
         # undo time axis swap
         if arr_ts is not None:
@@ -765,14 +779,14 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
+        arr, axis = self._move_spatial_axis(arr, axis, time_axis, arr_ts)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
         arr, _ = matcher.get_arrays(ts)
 
         r = self._expand_singleton_axes(r, arr.ndim)
-        arr = np.swapaxes(arr, axis, -1)
         arr = as_quat_array(r) * as_quat_array(arr)
-        arr = np.swapaxes(as_float_array(arr), -1, axis)
+        arr = np.swapaxes(as_float_array(arr), axis, -1)
 
         # undo time axis swap
         if arr_ts is not None:
-- 
2.43.0


From d948e5f5fc4c55ac58e19bb9a849dc4a788e2ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 11/31] fix: velocity transforms honour axis and time_axis

---
 rigid_body_motion/reference_frames.py | 33 +++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 44f45bb..1791f9e 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -893,19 +893,21 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_spatial_axis(arr, axis, time_axis, arr_ts)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
 
         arr, angular, ts_out = self._match_arrays(
             [(arr, ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+        arr = np.swapaxes(arr, axis, -1)
+
+        # undo time axis swap
+        if arr_ts is not None:
+            arr = np.swapaxes(arr, 0, time_axis)
 
         if return_timestamps:
             return arr, ts_out
@@ -1037,13 +1039,10 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
+        arr, axis = self._move_spatial_axis(arr, axis, time_axis, arr_ts)
         arr, ts = self.transform_vectors(
-            arr,
-            to_frame,
-            axis=axis,
-            time_axis=time_axis,
-            timestamps=timestamps,
-            return_timestamps=True,
+            arr, to_frame, timestamps=arr_ts, return_timestamps=True
         )
         translation, translation_ts = self.transform_vectors(
             translation,
@@ -1060,7 +1059,13 @@ class ReferenceFrame(NodeMixin):
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        offset = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(offset, arr.ndim)
+        arr = np.swapaxes(arr, axis, -1)
+
+        # undo time axis swap
+        if arr_ts is not None:
+            arr = np.swapaxes(arr, 0, time_axis)
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From 8686128c87800b4f5d89ec3034c1d94b8950affa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 12/31] fix: handle datetime timestamps of any resolution

---
 rigid_body_motion/core.py             |  4 ++--
 rigid_body_motion/reference_frames.py | 13 +++++++++++--
 rigid_body_motion/ros/io.py           |  3 ++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 30a4a5d..13f0b06 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -737,7 +737,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -800,7 +800,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = timestamps.astype("datetime64[ns]").astype(float) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 1791f9e..a8bb6dd 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -33,6 +33,15 @@ def _register(rf, update=False):
     _registry[rf.name] = rf
 
 
+def _convert_timestamps(timestamps):
+    """Convert to array, use the same resolution for all datetime arrays."""
+    timestamps = np.asarray(timestamps)
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps
+
+
 def _deregister(name):
     """Deregister a reference frame."""
     if name not in _registry:
@@ -225,7 +234,7 @@ class ReferenceFrame(NodeMixin):
     def _init_arrays(translation, rotation, timestamps, inverse):
         """Initialize translation, rotation and timestamp arrays."""
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _convert_timestamps(timestamps)
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional.")
             t_shape = (len(timestamps), 3)
@@ -285,7 +294,7 @@ class ReferenceFrame(NodeMixin):
             )
 
         if timestamps is not None:
-            timestamps = np.asarray(timestamps)
+            timestamps = _convert_timestamps(timestamps)
             if timestamps.ndim != 1:
                 raise ValueError("timestamps must be one-dimensional")
             if arr.shape[time_axis] != len(timestamps):
diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..5e3b0ce 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -355,7 +355,8 @@ class RosbagWriter:
             Name of the variable containing the rotation.
         """
         if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
+            timestamps = ds[timestamps].astype("datetime64[ns]")
+            timestamps = timestamps.astype(float) / 1e9
         else:
             timestamps = ds[timestamps]
 
-- 
2.43.0


From 9a0a50fabac70db5b636dd495409977ecd69be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 13/31] fix: publish honours index 0

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..973d93c 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -453,7 +453,7 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            idx = self.idx if idx is None else idx
             ts = self.timestamps.values[idx].astype(float) / 1e9
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From 20b21f59527112520b24201ad2db0f2eaf2402a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 14/31] fix: initialise the broadcaster before subscribing to
 messages

---
 rigid_body_motion/ros/transformer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 973d93c..64d20c4 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -413,21 +413,22 @@ class ReferenceFrameTransformBroadcaster:
         else:
             self.twist_publisher = None
 
+        self.idx = 0
+        self.stopped = False
+        self._thread = None
+
+        # messages can arrive as soon as the subscriber has been created
         if subscribe:
-            self.subscriber = rospy.Subscriber(
-                "/tf", tfMessage, self.handle_incoming_msg
-            )
             if isinstance(subscribe, str):
                 self.subscribe_to_frame = subscribe
             else:
                 self.subscribe_to_frame = self.base.name
+            self.subscriber = rospy.Subscriber(
+                "/tf", tfMessage, self.handle_incoming_msg
+            )
         else:
             self.subscriber = None
 
-        self.idx = 0
-        self.stopped = False
-        self._thread = None
-
     def publish(self, idx=None):
         """Publish a transform message.
 
-- 
2.43.0


From 3e8fe82cb1478fb292b002245267a5c60824fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 15/31] fix: look up nearest timestamp with an API that pandas
 still provides

---
 rigid_body_motion/ros/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 64d20c4..cb912c0 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -494,8 +494,8 @@ class ReferenceFrameTransformBroadcaster:
                     ts = pd.to_datetime(
                         rospy.Time.to_sec(transform.header.stamp), unit="s"
                     )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
-                    self.publish(idx)
+                    idx = self.timestamps.get_indexer([ts], method="nearest")
+                    self.publish(idx[0])
                 else:
                     self.publish()
 
-- 
2.43.0


From 5a86ed0e503234290e460cf8cd9cf1a768fe9184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 16/31] fix: stop() is not lost when called right after spin()

---
 rigid_body_motion/ros/transformer.py   | 5 +++--
 rigid_body_motion/ros/visualization.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index cb912c0..8f75d51 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -504,8 +504,6 @@ class ReferenceFrameTransformBroadcaster:
         import pandas as pd
         import rospy
 
-        self.stopped = False
-
         if self.subscriber is None and self.timestamps is not None:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
@@ -548,6 +546,9 @@ class ReferenceFrameTransformBroadcaster:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        # reset here, stop() could be called before the thread has started
+        self.stopped = False
+
         if self.timestamps is None:
             self.publish()
         elif block:
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..111b468 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -129,8 +129,6 @@ class BaseMarkerPublisher:
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
         while not rospy.is_shutdown() and not self.stopped:
             self.publish()
             rospy.sleep(self.publish_interval)
@@ -153,6 +151,9 @@ class BaseMarkerPublisher:
         thread: threading.Thread
             If `block=True`, the Thread instance that runs the loop.
         """
+        # reset here, stop() could be called before the thread has started
+        self.stopped = False
+
         if block:
             self._spin_blocking()
         else:
-- 
2.43.0


From 721c444e050994913d2d9c52744516ebdf4701f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 17/31] fix: get_marker honours marker type 0

---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 111b468..3269b27 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -63,7 +63,7 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
     if isinstance(scale, float):
-- 
2.43.0


From b77b5d0710ece6572dcf459f775a992873e6faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 18/31] fix: path marker step for fewer or more than max_points
 samples

---
 rigid_body_motion/ros/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 3269b27..3f08d3d 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -209,7 +209,8 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
+        # round up in order to not exceed max_points
+        show_every = max(1, -(-self.translation.shape[0] // max_points))
         marker.points = [Point(*row) for row in self.translation[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
-- 
2.43.0


From c37dd19a00fcd8f4b7944e8ca46d3dfa53ed23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 19/31] fix: backward button works at the end of the recording

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From de30e230d27a9260eb01aa7f033b4252cd9007b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 20/31] fix: reference frame plots update the z axis limits

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From 15e34094ed9104241901e28a513a58da05671c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 21/31] fix: export transform_coordinates

---
 rigid_body_motion/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rigid_body_motion/__init__.py b/rigid_body_motion/__init__.py
index 8f721aa..e5f17ee 100644
--- a/rigid_body_motion/__init__.py
+++ b/rigid_body_motion/__init__.py
@@ -61,6 +61,7 @@ __all__ = [
     "transform_angular_velocity",
     "transform_linear_velocity",
     # coordinate system transforms
+    "transform_coordinates",
     "cartesian_to_polar",
     "polar_to_cartesian",
     "cartesian_to_spherical",
-- 
2.43.0


From fd719d24f7abb0333528b1bfb1b150410a2d53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 22/31] fix: qinterp handles datetime timestamps of any
 resolution

---
 rigid_body_motion/core.py             |  9 +++++++++
 rigid_body_motion/reference_frames.py | 10 +---------
 rigid_body_motion/utils.py            |  6 +++---
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 13f0b06..eb025c0 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -315,6 +315,15 @@ class TransformMatcher:
         return (*arrays, timestamps)
 
 
+def _convert_timestamps(timestamps):
+    """Convert to array, use the same resolution for all datetime arrays."""
+    timestamps = np.asarray(timestamps)
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps
+
+
 def _resolve_axis(axis, ndim):
     """Convert axis argument into actual array axes."""
     if isinstance(axis, int) and axis < 0:
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index a8bb6dd..a0990a0 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -6,6 +6,7 @@ from quaternion import as_float_array, as_quat_array, from_rotation_matrix
 
 from rigid_body_motion.core import (
     TransformMatcher,
+    _convert_timestamps,
     _estimate_angular_velocity,
     _estimate_linear_velocity,
     _resolve_rf,
@@ -33,15 +34,6 @@ def _register(rf, update=False):
     _registry[rf.name] = rf
 
 
-def _convert_timestamps(timestamps):
-    """Convert to array, use the same resolution for all datetime arrays."""
-    timestamps = np.asarray(timestamps)
-    if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype("datetime64[ns]")
-
-    return timestamps
-
-
 def _deregister(name):
     """Deregister a reference frame."""
     if name not in _registry:
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 94d54c8..ed2f5ca 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _convert_timestamps, _resolve_axis
 
 
 def qinv(q, qaxis=-1):
@@ -164,8 +164,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     """
     # TODO xarray support
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _convert_timestamps(t_in).astype(float)
+    t_out = _convert_timestamps(t_out).astype(float)
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From 769c1f09a55719375faee18e9e29866c1f6c1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 23/31] fix: rotate_vectors keeps axis order for arrays with
 more than two axes

---
 rigid_body_motion/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index ed2f5ca..4c4f3ce 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -231,7 +231,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
@@ -255,8 +255,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From 0d4422553da975e8d4b1c54bac9e57772aab016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 24/31] fix: qmean puts the quaternion axis back for any qaxis

---
 rigid_body_motion/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 4c4f3ce..928c998 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -108,6 +108,7 @@ def qmean(q, axis=None, qaxis=-1):
     """
     # TODO xarray support
     if q.dtype != quaternion:
+        qaxis = qaxis % q.ndim
         q = np.swapaxes(q, qaxis, -1)
         was_quaternion = False
     else:
@@ -131,6 +132,9 @@ def qmean(q, axis=None, qaxis=-1):
     if was_quaternion:
         return as_quat_array(qm)
     else:
+        # axes before the quaternion axis might have been removed
+        reduced = axis if isinstance(axis, tuple) else (axis,)
+        qaxis = qaxis - sum(a < qaxis for a in reduced)
         return np.swapaxes(qm, -1, qaxis)
 
 
-- 
2.43.0


From a298502eed121703aa29ddd8a17f6a02213e2349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 25/31] fix: reject outliers of linear velocity along the given
 time axis

---
 rigid_body_motion/core.py       | 13 ++++++++++---
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index eb025c0..48ddeda 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -805,7 +805,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    axis=-1,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
@@ -814,11 +819,13 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
+        dt = np.linalg.norm(
+            np.diff(translation, n=2, axis=time_axis), axis=axis
+        )
         dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
         linear = interp1d(
             timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
+            np.compress(dt <= outlier_thresh, linear, axis=time_axis),
             axis=time_axis,
             bounds_error=False,
         )(timestamps)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 52fe208..2fba8e2 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -132,6 +132,7 @@ def estimate_linear_velocity(
     linear = _estimate_linear_velocity(
         arr,
         timestamps,
+        axis=axis,
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
-- 
2.43.0


From f40eda5320107d740c805b4b3984a004df448126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 26/31] fix: stamp published twist messages

The twist of a moving frame was published with a zero time stamp although
the transform and pose of the same sample carry the time of the sample.
---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 8f75d51..d2752fa 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -479,7 +479,7 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
                 )
             )
 
-- 
2.43.0


From 1f26011e14f7bb519fa1fcf567e9111829b67ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:16 +0000
Subject: [PATCH 27/31] fix: convert numeric timestamps to ROS time

Frames may have numeric timestamps in seconds, but the transformer and the
broadcaster divided them by 1e9 as if they were datetimes, and incoming
stamps were looked up as datetimes in a numeric index.
---
 rigid_body_motion/ros/transformer.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index d2752fa..1ebc8c8 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -7,6 +7,14 @@ from rigid_body_motion.core import _resolve_rf
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
+def _to_sec(timestamps):
+    """Convert datetime or numeric timestamps to seconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return timestamps.astype("datetime64[ns]").astype(float) / 1e9
+    else:
+        return timestamps.astype(float)
+
+
 class Transformer:
     """Wrapper class for tf2_ros.Buffer.
 
@@ -48,13 +56,12 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
                     (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
+                        _to_sec(node.timestamps[0]),
+                        _to_sec(node.timestamps[-1]),
                     )
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
@@ -116,7 +123,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    _to_sec(timestamp),
                 ),
                 "default_authority",
             )
@@ -455,7 +462,7 @@ class ReferenceFrameTransformBroadcaster:
                 )
         else:
             idx = self.idx if idx is None else idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            ts = _to_sec(self.timestamps.values[idx])
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
@@ -491,9 +498,9 @@ class ReferenceFrameTransformBroadcaster:
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
+                    ts = rospy.Time.to_sec(transform.header.stamp)
+                    if isinstance(self.timestamps, pd.DatetimeIndex):
+                        ts = pd.to_datetime(ts, unit="s")
                     idx = self.timestamps.get_indexer([ts], method="nearest")
                     self.publish(idx[0])
                 else:
-- 
2.43.0


From aa5c99c046cfbd1545f6279819cc074b02e9b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:22 +0000
Subject: [PATCH 28/31] fix: export accepts a path given as string

---
 rigid_body_motion/ros/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 5e3b0ce..9466cf2 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -39,8 +39,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From a3887cebd3f1a7f94ed386df77447645ea56b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 29/31] fix: spin at the pace of timestamps of any resolution

---
 rigid_body_motion/ros/transformer.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 1ebc8c8..95ec0cd 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -508,28 +508,18 @@ class ReferenceFrameTransformBroadcaster:
 
     def _spin_blocking(self):
         """Continuously publish messages."""
-        import pandas as pd
         import rospy
 
         if self.subscriber is None and self.timestamps is not None:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
                 self.idx = (self.idx + 1) % len(self.timestamps)
-                if isinstance(self.timestamps, pd.DatetimeIndex):
-                    dt = (
-                        self.timestamps.values[self.idx].astype(float) / 1e9
-                        - self.timestamps.values[self.idx - 1].astype(float)
-                        / 1e9
-                        if self.idx > 0
-                        else 0.0
-                    )
-                else:
-                    dt = float(
-                        self.timestamps.values[self.idx]
-                        - self.timestamps.values[self.idx - 1]
-                        if self.idx > 0
-                        else 0.0
-                    )
+                dt = (
+                    _to_sec(self.timestamps.values[self.idx])
+                    - _to_sec(self.timestamps.values[self.idx - 1])
+                    if self.idx > 0
+                    else 0.0
+                )
 
                 rospy.sleep(dt)
         else:
-- 
2.43.0


From 5ea5be8cf1f52e9f39e4dc879476131557663573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 30/31] fix: return the thread of a publisher that does not
 block

---
 rigid_body_motion/ros/transformer.py   | 3 ++-
 rigid_body_motion/ros/visualization.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 95ec0cd..87145c6 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -541,7 +541,7 @@ class ReferenceFrameTransformBroadcaster:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         # reset here, stop() could be called before the thread has started
         self.stopped = False
@@ -553,6 +553,7 @@ class ReferenceFrameTransformBroadcaster:
         else:
             self._thread = Thread(target=self._spin_blocking)
             self._thread.start()
+            return self._thread
 
     def stop(self):
         """Stop publishing."""
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 3f08d3d..9997ed6 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -149,7 +149,7 @@ class BaseMarkerPublisher:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         # reset here, stop() could be called before the thread has started
         self.stopped = False
@@ -159,6 +159,7 @@ class BaseMarkerPublisher:
         else:
             self._thread = Thread(target=self._spin_blocking)
             self._thread.start()
+            return self._thread
 
     def stop(self):
         """Stop publishing."""
-- 
2.43.0


From 5121a39af0e82056a77e4bfc2ca4af651f6de1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:09 +0000
Subject: [PATCH 31/31] fix: play back messages at the pace of timestamps of
 any resolution

---
 rigid_body_motion/ros/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 09a6cc9..29d1f52 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -86,10 +86,14 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     from IPython.core.display import display
     from ipywidgets import widgets
 
+    from .transformer import _to_sec
+
     if timestamps is None:
-        timestamps = np.asarray(publisher.timestamps)
+        timestamps = publisher.timestamps
+    timestamps = np.asarray(timestamps)
 
-    interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
+    # in milliseconds
+    interval = np.mean(np.diff(_to_sec(timestamps) * 1e3)) / speed
 
     # position bar
     s_idx = widgets.IntSlider(
-- 
2.43.0


From 8b595852d0ed0183e5d6c45cd83a6ac42537dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 01/35] fix: quaternion_angular_distance decides closeness per
 pair, not for the whole batch

---
 src/pytorch_kinematics/transforms/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..aafdf78 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -30,7 +30,8 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
     theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
 
     # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
+    # (decided for each pair by itself so that a result does not depend on what else is in the batch)
+    close = 1 - torch.square(cos_theta) < 1e-4
     theta[close] = 0
     return theta
 
-- 
2.43.0


From a9cd2a40bca1cb9aa208ea6df80a0fcca91eb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 02/35] fix: quaternion_slerp keeps its argument and handles
 coinciding pairs in a mixed batch

---
 src/pytorch_kinematics/transforms/math.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index aafdf78..4345d0b 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -61,21 +61,20 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
     to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    q2 = torch.where(to_invert[..., None], -q2, q2)
+    cos_theta = torch.where(to_invert, -cos_theta, cos_theta)
 
-    # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
+    # If the quaternions are close, perform a linear interpolation (decided for each pair by itself)
+    close = cos_theta > 1.0 - 1e-6
 
     # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    theta = torch.acos(torch.where(close, torch.zeros_like(cos_theta), cos_theta))
     sin_theta = torch.sin(theta)
 
     # Perform the interpolation
-    w1 = torch.sin((1.0 - t) * theta) / sin_theta
-    w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    w1 = torch.where(close, (1.0 - t) * torch.ones_like(theta), torch.sin((1.0 - t) * theta) / sin_theta)
+    w2 = torch.where(close, t * torch.ones_like(theta), torch.sin(t * theta) / sin_theta)
+    return w1[..., None] * q1 + w2[..., None] * q2
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From 89e2f1e6267963d47d275a53c46a016c54cce2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 03/35] fix: transform_points with batch_to_batch raised for
 every input

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..b5d7bb1 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -331,8 +331,8 @@ class Transform3d:
         points_batch = torch.cat([points_batch, ones], dim=2)
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
-        if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
+        if batch_to_batch and points.dim() == 2:
+            points_out = linalg.batch_batch_product(points_batch[0], self.get_matrix())
         else:
             points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
-- 
2.43.0


From 8e27dceb7baadfbf06447b08287acdb1ab41bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 04/35] fix: transform_normals with batch_to_batch applied the
 inverse rotation

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index b5d7bb1..dab0b4f 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -366,8 +366,8 @@ class Transform3d:
             raise ValueError(msg % (normals.shape,))
         mat = self.inverse().get_matrix()[:, :3, :3]
 
-        if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+        if batch_to_batch and normals.dim() == 2:
+            normals_out = linalg.batch_batch_product(normals, mat.transpose(-1, -2))
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
-- 
2.43.0


From 91c02837418aa2743bf5dcd8ddd746d32dc04c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 05/35] fix: invert the linear part of a transform that scales
 instead of transposing it

---
 src/pytorch_kinematics/transforms/transform3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index dab0b4f..9f38042 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -269,7 +269,8 @@ class Transform3d:
         Tinv = T.clone()
         R = T[:, :3, :3]
         t = T[:, :3, 3]
-        Tinv[:, :3, :3] = R.transpose(1, 2)
+        # the linear part is a rotation only while no scaling was composed
+        Tinv[:, :3, :3] = torch.linalg.inv(R)
         Tinv[:, :3, 3:] = -Tinv[:, :3, :3] @ t.unsqueeze(-1)
         return Tinv
 
-- 
2.43.0


From 9bff6ca4ff79984373b8e5c0cfe022c7775a6441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 06/35] fix: RotateAxisAngle ignored its dtype

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 9f38042..721bf50 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -628,7 +628,7 @@ class RotateAxisAngle(Rotate):
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(device=device, dtype=dtype, R=R)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From 2c19c878b7c3359f1586eef51f02367d84fcbba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 07/35] fix: translations, scalings and rotations chained on a
 transform were rounded to single precision

---
 src/pytorch_kinematics/transforms/transform3d.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 721bf50..44035db 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -409,14 +409,18 @@ class Transform3d:
 
         return shape_operators_out
 
+    def _with_dtype(self, args, position, kwargs):
+        """Arguments for a transform of the same precision, unless one is given (by name or at the given position)."""
+        return kwargs if len(args) > position else {"dtype": self.dtype, **kwargs}
+
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(Translate(device=self.device, *args, **self._with_dtype(args, 3, kwargs)))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(Scale(device=self.device, *args, **self._with_dtype(args, 3, kwargs)))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(Rotate(device=self.device, *args, **self._with_dtype(args, 1, kwargs)))
 
     def rotate_axis_angle(self, *args, **kwargs):
         return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
-- 
2.43.0


From 7fc3e66eea14af0d80e4aa4bafaac5ea976a6648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:48 +0000
Subject: [PATCH 08/35] fix: Translate, Scale and Rotate record the precision
 of their matrix

---
 src/pytorch_kinematics/transforms/transform3d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 44035db..a550ed9 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -494,7 +494,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -531,7 +531,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -566,7 +566,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(device=device, dtype=dtype)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
-- 
2.43.0


From 8243ecfbf4a23df8e7b2b6343cbee5bdbcf3e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 09/35] fix: quaternion_from_euler halved the angles of the
 tensor it was given

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..f6b428a 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,9 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From 9f93335cbaddf99f41db50cfdf12daf35263f8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 10/35] fix: get_joints(exclude_fixed=False) left out the fixed
 joints

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..47e2901 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -407,10 +407,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From a5766f2587b4716d80574c79d98e4cab5ab83be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 11/35] fix: a serial chain keeps the precision and device of
 the chain it is taken from

---
 src/pytorch_kinematics/chain.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 47e2901..65b027b 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -318,6 +318,8 @@ class Chain:
         for i in range(self._num_frames):
             lo = self.link_offsets[i] if self.link_offsets[i] is not None else eye4.unsqueeze(0)
             jo = self.joint_offsets[i] if self.joint_offsets[i] is not None else eye4.unsqueeze(0)
+            lo = lo.to(dtype=self.dtype, device=self.device)
+            jo = jo.to(dtype=self.dtype, device=self.device)
             static_offsets.append((lo @ jo).squeeze(0))
         self._static_offsets = torch.stack(static_offsets, dim=0)  # (num_frames, 4, 4)
 
@@ -657,6 +659,9 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        # unless asked otherwise, keep the precision and device of the source chain
+        kwargs.setdefault("dtype", chain.dtype)
+        kwargs.setdefault("device", chain.device)
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From 7cc06e07aa5268c48d0d786f3377df52d1837b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 12/35] fix: build the joint tables of a chain on its device

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 65b027b..45777f7 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -296,8 +296,8 @@ class Chain:
                 queue.append((child, idx, depth + 1))
 
             idx += 1
-        self.joint_type_indices = torch.tensor(self.joint_type_indices)
-        self.joint_indices = torch.tensor(self.joint_indices)
+        self.joint_type_indices = torch.tensor(self.joint_type_indices, device=self.device)
+        self.joint_indices = torch.tensor(self.joint_indices, device=self.device)
         # We need to use a dict because torch.compile doesn't list lists of tensors
         self.parents_indices = [torch.tensor(p, dtype=torch.long, device=self.device) for p in self.parents_indices]
 
-- 
2.43.0


From ebfeb6799818e32867bbf79ea982df9a53aae3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 13/35] fix: frame indices are on the device the chain was
 moved to

---
 src/pytorch_kinematics/chain.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 45777f7..4b101f0 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -496,7 +496,6 @@ class Chain:
         names = self._get_link_names(self._root)
         return sorted(set(names), key=names.index)
 
-    @lru_cache
     def get_frame_indices(self, *frame_names):
         return torch.tensor([self.frame_to_idx[n] for n in frame_names], dtype=torch.long, device=self.device)
 
-- 
2.43.0


From 608a123e164e07b3e43bea3fbe442d1a84329f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 14/35] fix: accept arrays as values of a joint mapping

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 4b101f0..9f22b90 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -581,7 +581,7 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
-                th[..., jnt_idx] = joint_position
+                th[..., jnt_idx] = torch.as_tensor(joint_position, device=self.device, dtype=self.dtype)
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
                 for joint_name, th_i in zip(self.get_joint_parameter_names(), th):
-- 
2.43.0


From f6cf7e596c6cd83ec9eb5f3a4867061378b26e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 15/35] fix: serial chains accept a mapping of single joint
 values

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 9f22b90..e332e66 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,7 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
-- 
2.43.0


From 0974bf9c6cf94c42d52cf0bffb319f040cbe4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 16/35] fix: SerialChain.jacobian accepts a mapping of joint
 values as documented

---
 src/pytorch_kinematics/chain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index e332e66..62d0952 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -773,8 +773,7 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
-            th = torch.tensor(th, dtype=self.dtype, device=self.device)
+        th = self.ensure_tensor(th)
         if len(th.shape) <= 1:
             th = th.reshape(1, -1)
 
-- 
2.43.0


From 2022410b8b13a95a0c41aa099966e6ae0fb03a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 17/35] fix: keep the precision of a tool location given as
 numbers

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 62d0952..7b7577c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -789,7 +789,7 @@ class SerialChain(Chain):
             if isinstance(locations, tf.Transform3d):
                 tool = locations
             else:
-                tool = tf.Transform3d(pos=locations)
+                tool = tf.Transform3d(pos=locations, dtype=self.dtype, device=self.device)
             if tool.dtype != self.dtype or tool.device != self.device:
                 tool = tool.to(device=self.device, copy=True, dtype=self.dtype)
             tool_matrix = tool.get_matrix()
-- 
2.43.0


From d1988937551b852ae88b006abde777ba5263f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 18/35] fix: reject too many joint values for a serial chain

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 7b7577c..62b4619 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -843,6 +843,8 @@ class SerialChain(Chain):
             # pass through default behavior for frame indices being None, which is currently
             # to return all frames.
             frame_indices = None
+        if th_n_joints > self.n_joints:
+            raise ValueError(f'Expected {self.n_joints} joint values, got {th_n_joints}.')
         if th_n_joints < self.n_joints:
             # if th is only a partial list of joints, assume it's a list of joints for only the serial chain.
             partial_th = th
-- 
2.43.0


From 91ed8d877518a44106ee3a909fb11e54001bce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 19/35] fix: changing a returned list of joint names does not
 change the chain

---
 src/pytorch_kinematics/chain.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 62b4619..b608860 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Optional, Sequence
 
 import copy
@@ -419,7 +418,6 @@ class Chain:
         joints = self._get_joints(self._root, exclude_fixed=exclude_fixed)
         return joints
 
-    @lru_cache()
     def get_joint_parameter_names(self, exclude_fixed=True):
         names = []
         for j in self.get_joints(exclude_fixed=exclude_fixed):
-- 
2.43.0


From 14f78ea43a7a52191afd2af8c1fb9f3e041a609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 20/35] fix: Frame keeps the children it is given

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From f606fa7821a5d0c610e188363e7909919c9b1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 21/35] fix: count the joints, not the rows, of a nested list
 of joint values

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index b608860..8866753 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -830,10 +830,10 @@ class SerialChain(Chain):
 
     def convert_serial_inputs_to_chain_inputs(self, th, end_only: bool):
         # th = self.ensure_tensor(th)
-        th_b = get_batch_size(th)
-        th_n_joints = get_n_joints(th)
         if isinstance(th, list):
             th = torch.tensor(th, device=self.device, dtype=self.dtype)
+        th_b = get_batch_size(th)
+        th_n_joints = get_n_joints(th)
 
         if end_only:
             frame_indices = self.get_frame_indices(self._serial_frames[-1].name)
-- 
2.43.0


From 90f39a94a18ab3543617d779e7153561b62b038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:52 +0000
Subject: [PATCH 22/35] fix: limit enforcement turned joints without limits
 into NaN

---
 src/pytorch_kinematics/ik.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..100eb76 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,11 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # without two finite limits there is no center: only shift as far as needed to respect the limit there is
+        up = torch.ceil((low - q) / (2 * math.pi))
+        down = torch.floor((high - q) / (2 * math.pi))
+        shift = torch.where(q < low, up, torch.where(q > high, down, torch.zeros_like(q)))
+        n = torch.where(torch.isfinite(center), n, shift)
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From 67ebd01d963aa8e41df24dd1728f02a987fd183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:02 +0000
Subject: [PATCH 23/35] fix: SVD inverse kinematics step failed for chains with
 fewer than six joints

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 100eb76..51862ab 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -123,6 +123,8 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     denom = D ** 2 + regularization
     prod = D / denom
     inverted = torch.diag_embed(prod)
+    # a chain with fewer joints than task coordinates has only that many singular values
+    U = U[:, :, :m_sv]
     Vh = Vh[:, :m_sv, :]
     total = Vh.transpose(1, 2) @ inverted @ U.transpose(1, 2)
     dq = total @ dx_w
-- 
2.43.0


From 6bbdbadb4c8d426e6a1aa7511a96dd0af78fd6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 24/35] fix: refinement for the joint limits lost solutions
 already found

---
 src/pytorch_kinematics/ik.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 51862ab..70fa70e 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -627,6 +627,7 @@ class PseudoInverseIK(InverseKinematics):
 
         # Step 2: clamp to limits
         q = torch.clamp(q, self.chain.low, self.chain.high)
+        q_clamped = q
 
         # Step 3: clamped refinement iterations to recover from any error introduced by clamping
         for _ in range(self.num_limit_refinement_iterations):
@@ -643,10 +644,19 @@ class PseudoInverseIK(InverseKinematics):
         sol.converged_rot[:] = False
 
         # Recompute error and update solution
-        J_new, m_new = self._jacobian_fn(q, True)
-        _, dx_new = self._ik_step_fn(m_new, target_pos, target_wxyz, J_new,
-                                     self._reg_matrix, self.num_retries, self.lm_damping, self._task_weight)
-        sol.update(q, dx_new.squeeze(2), use_keep_mask=False)
+        def evaluate(q):
+            J_new, m_new = self._jacobian_fn(q, True)
+            _, dx_new = self._ik_step_fn(m_new, target_pos, target_wxyz, J_new,
+                                         self._reg_matrix, self.num_retries, self.lm_damping, self._task_weight)
+            err = dx_new.squeeze(2)
+            solved = (err[:, :3].norm(dim=-1) < self.pos_tolerance) & (err[:, 3:].norm(dim=-1) < self.rot_tolerance)
+            return err, solved
+
+        err, solved = evaluate(q)
+        # refinement can overshoot: where it started from a solution but did not end at one, keep the former
+        err_clamped, solved_clamped = evaluate(q_clamped)
+        lost = (solved_clamped & ~solved).unsqueeze(-1)
+        sol.update(torch.where(lost, q_clamped, q), torch.where(lost, err_clamped, err), use_keep_mask=False)
 
 
 class PseudoInverseIKWithSVD(PseudoInverseIK):
-- 
2.43.0


From c54b9de09a215be1855a501a27bf988766b8723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 25/35] fix: accept initial configurations given for each
 problem

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 70fa70e..4da23b6 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -362,7 +362,7 @@ class InverseKinematics:
         if retry_configs is None:
             self.initial_config = self.sample_configs(num_retries)
         else:
-            if retry_configs.shape[1] != self.dof:
+            if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
-- 
2.43.0


From 34d4aa70ec9cb0d28f9e95e88c226004c2422047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 26/35] fix: inverse kinematics works in the precision of the
 chain

---
 src/pytorch_kinematics/ik.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 4da23b6..f15ba16 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -364,6 +364,8 @@ class InverseKinematics:
         else:
             if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
+        # work in the precision and on the device of the chain
+        self.initial_config = self.initial_config.to(dtype=self.dtype, device=self.device)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
 
@@ -378,10 +380,11 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
-                    self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
+            limits = torch.as_tensor(self.joint_limits, dtype=self.dtype, device=self.device)
+            return torch.rand(num_configs, self.dof, dtype=self.dtype, device=self.device) * (
+                    limits[:, 1] - limits[:, 0]) + limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, dtype=self.dtype, device=self.device)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
@@ -461,7 +464,7 @@ class PseudoInverseIK(InverseKinematics):
     def solve(self, target_poses: Transform3d) -> IKSolution:
         self.clear()
 
-        target = target_poses.get_matrix()
+        target = target_poses.get_matrix().to(dtype=self.dtype, device=self.device)
 
         M = target.shape[0]
 
-- 
2.43.0


From ff624d821c7740404d8dc4f4bcba24065d66d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 27/35] fix: continuous URDF joints with a velocity limit were
 limited to zero

---
 src/pytorch_kinematics/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..eaa22bd 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -46,7 +46,8 @@ def _build_chain_recurse(root_frame, lmap, joints):
     for j in joints:
         if j.parent == root_frame.link.name:
             try:
-                limits = (j.limit.lower, j.limit.upper)
+                # the format gives continuous joints no position limits
+                limits = None if j.type == 'continuous' else (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
             # URDF assumes symmetric velocity and effort limits
-- 
2.43.0


From 678e891c0b65d29122bd8eac0528741ac40d87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 28/35] fix: URDF and SDF descriptions of a single link

---
 src/pytorch_kinematics/sdf.py  | 1 +
 src/pytorch_kinematics/urdf.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..8afff25 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -84,6 +84,7 @@ def build_chain_from_sdf(data):
     joints = robot.joints
     n_joints = len(joints)
     has_root = [True for _ in range(len(joints))]
+    root_link = robot.links[0]  # the only one if there are no joints
     for i in range(n_joints):
         for j in range(i + 1, n_joints):
             if joints[i].parent == joints[j].child:
diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index eaa22bd..7b49675 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -107,6 +107,7 @@ def build_chain_from_urdf(data):
     joints = robot.joints
     n_joints = len(joints)
     has_root = [True for _ in range(len(joints))]
+    root_link = robot.links[0]  # the only one if there are no joints
     for i in range(n_joints):
         for j in range(i + 1, n_joints):
             if joints[i].parent == joints[j].child:
-- 
2.43.0


From 3d5891c9df21901e23b86a144bfb79135cce1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 29/35] fix: roll and yaw of SDF poses were exchanged

---
 src/pytorch_kinematics/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 8afff25..0b936fc 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,9 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        # roll, pitch, yaw about fixed axes
+        roll, pitch, yaw = pose[3:]
+        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor([yaw, pitch, roll]), "ZYX"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From b2f2ab7af98a7223ed75f742860366cbb7244994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 30/35] fix: SDF joints without an axis and links without
 inertial data

---
 src/pytorch_kinematics/sdf.py                | 3 ++-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 0b936fc..29d1f86 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -53,12 +53,13 @@ def _build_chain_recurse(root_frame, lmap, joints):
             link_c = lmap[j.child]
             t_p = _convert_transform(link_p.pose)
             t_c = _convert_transform(link_c.pose)
+            axis = None if j.axis is None else j.axis.xyz
             try:
                 limits = (j.axis.limit.lower, j.axis.limit.upper)
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=axis, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..9d89905 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -43,8 +43,8 @@ class Inertial(xmlr.Object):
 
 
 xmlr.reflect(Inertial, params=[
-    xmlr.Element('mass', float),
-    xmlr.Element('inertia', Inertia),
+    xmlr.Element('mass', float, False),
+    xmlr.Element('inertia', Inertia, False),
     pose_element
 ])
 
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
@@ -255,7 +255,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From 83c6aa3e463e030bb1f475501016edc70b27daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 31/35] fix: SDF joint limits with only one or no bound given

---
 src/pytorch_kinematics/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 29d1f86..215299a 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -55,7 +55,8 @@ def _build_chain_recurse(root_frame, lmap, joints):
             t_c = _convert_transform(link_c.pose)
             axis = None if j.axis is None else j.axis.xyz
             try:
-                limits = (j.axis.limit.lower, j.axis.limit.upper)
+                lower, upper = j.axis.limit.lower, j.axis.limit.upper
+                limits = (-math.inf if lower is None else lower, math.inf if upper is None else upper)
             except AttributeError:
                 limits = None
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-- 
2.43.0


From acafbdbc75945a0b0eb7631500ede25ed51c83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 32/35] fix: SDF joint axes given in the model frame

---
 src/pytorch_kinematics/sdf.py                                | 3 +++
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 215299a..be3f352 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -54,6 +54,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
             t_p = _convert_transform(link_p.pose)
             t_c = _convert_transform(link_c.pose)
             axis = None if j.axis is None else j.axis.xyz
+            if axis is not None and j.axis.use_parent_model_frame:
+                # given in the model frame, like the poses of the links
+                axis = t_c.get_matrix()[0, :3, :3].T @ torch.tensor(axis)
             try:
                 lower, upper = j.axis.limit.lower, j.axis.limit.upper
                 limits = (-math.inf if lower is None else lower, math.inf if upper is None else upper)
diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..b01cfcc 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -153,6 +153,8 @@ class BasicType(ValueType):
         return str(value)
 
     def from_string(self, value):
+        if self.type is bool:
+            return value.strip().lower() in ('true', '1')
         return self.type(value)
 
 
-- 
2.43.0


From 316d353376433d08db49c56378b5a5955812cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 33/35] fix: MJCF joints without limits were limited to zero

---
 src/pytorch_kinematics/mjcf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..eee621b 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -40,7 +40,7 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=(joint.range[0], joint.range[1]) if joint.limited[0] else None)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From a12676c243957d6a63994faeee67c2fb44aa2459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 34/35] fix: MJCF joints with a reference value

---
 src/pytorch_kinematics/mjcf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index eee621b..e4e0846 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -1,6 +1,7 @@
 from typing import Union, Optional, Dict
 
 import mujoco
+import torch
 from mujoco._structs import _MjModelBodyViews as MjModelBodyViews
 
 import pytorch_kinematics.transforms as tf
@@ -38,6 +39,14 @@ def _build_chain_recurse(m, parent_frame, parent_body):
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
                 joint_offset = tf.Transform3d(pos=joint.pos)
+                # the joint value at which the body is where it is declared to be
+                ref = joint.qpos0[0]
+                if ref != 0:
+                    if JOINT_TYPE_MAP[joint.type[0]] == 'revolute':
+                        turn = torch.tensor(-ref * joint.axis, dtype=torch.float32)
+                        joint_offset = joint_offset.compose(tf.Transform3d(rot=tf.axis_angle_to_quaternion(turn)))
+                    else:
+                        joint_offset = joint_offset.compose(tf.Transform3d(pos=-ref * joint.axis))
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
                                           limits=(joint.range[0], joint.range[1]) if joint.limited[0] else None)
-- 
2.43.0


From 7b3def69109cf814e7b8f6dc27c0339483b7cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:52 +0000
Subject: [PATCH 35/35] fix: shape operators given as a batch could not be
 transformed

---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index a550ed9..d05a595 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -400,6 +400,10 @@ class Transform3d:
             msg = "Expected shape_operators to have dim = 3 or dim = 4: got shape %r"
             raise ValueError(msg % (shape_operators.shape,))
         mat = self.inverse().get_matrix()[:, :3, :3]
+        if shape_operators.dim() == 4:
+            # P operators for each of N transforms (or for all of them)
+            mat = mat.to(dtype=shape_operators.dtype).unsqueeze(1)
+            return mat.transpose(-1, -2) @ shape_operators @ mat
         shape_operators_out = _broadcast_bmm(mat.permute(0, 2, 1), _broadcast_bmm(shape_operators, mat))
 
         # When transform is (1, 4, 4) and shape_operator is (P, 3, 3) return
-- 
2.43.0


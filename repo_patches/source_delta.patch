From 27f2c47757694c1db23bdaa506d58097a47ae8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 01/66] fix: quaternion slerp of batches and of coincident end
 points

---
 ebsdtorch/s2_and_so3/quaternions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..b73bfb2 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,14 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True).clamp(min=-1.0, max=1.0)
     angle = torch.acos(cos_theta)
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # coincident end points: 0 / 0, the weights tend to the linear ones
+    coincident = sin_theta < 1e-7
+    w1 = torch.where(coincident, 1 - t, torch.sin((1 - t) * angle) / sin_theta)
+    w2 = torch.where(coincident, t, torch.sin(t * angle) / sin_theta)
+    return a * w1 + b * w2
 
 
 @torch.jit.script
-- 
2.43.0


From a09d08b75af4df7e2cdabdb779ab2e526fa7a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 02/66] fix: quaternion between antiparallel directions is a
 half turn

---
 ebsdtorch/s2_and_so3/quaternions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index b73bfb2..f00fd26 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -266,6 +266,14 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
     )
     out[~valid, 0] = 1
     out[~valid, 1:] = 0
+    # antiparallel points: half turn about any axis perpendicular to the start
+    flipped = ~valid & (torch.sum(points_start * points_finish, dim=-1) < 0)
+    start = points_start[flipped]
+    helper = torch.zeros_like(start)
+    helper.scatter_(-1, start.abs().argmin(dim=-1, keepdim=True), 1.0)
+    axis = torch.cross(start, helper, dim=-1)
+    out[flipped, 0] = 0
+    out[flipped, 1:] = axis / torch.norm(axis, dim=-1, keepdim=True)
     return out
 
 
-- 
2.43.0


From d3347cc78b12ffa97abe76acc110f1accf7f8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 03/66] fix: matrix to quaternion keeps the relative axis signs
 of half turns

---
 ebsdtorch/s2_and_so3/orientations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..170cc28 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -121,11 +121,10 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
+    # the branches yield the conjugate, so flip the axis where the real part is
+    # positive (the relative axis signs must be kept for 180 degree rotations)
+    qu[..., 1:] = torch.where(qu[..., 0:1] > 0, -qu[..., 1:], qu[..., 1:])
     qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
 
     return qu
 
-- 
2.43.0


From 0d94c04aab1604aa3528daa7535f83ad9d64cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 04/66] fix: axis-angle of quaternions with negative real part

---
 ebsdtorch/s2_and_so3/orientations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 170cc28..052d6d6 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -758,7 +758,8 @@ def qu2ax(qu: Tensor) -> Tensor:
     """
 
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    # the axis is flipped for negative real parts so use the magnitude here
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), min=-1.0, max=1.0))
 
     s = torch.where(
         qu[..., 0:1] != 0,
-- 
2.43.0


From edc469c5174c139c01f61239328650794495e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 05/66] fix: Rodrigues vector of the identity and of negative
 real parts

---
 ebsdtorch/s2_and_so3/orientations.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 052d6d6..2e254c2 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -797,7 +797,15 @@ def qu2ro(qu: Tensor) -> Tensor:
     ro[..., :3] = qu[..., 1:] * torch.rsqrt(
         torch.sum(qu[..., 1:] ** 2, dim=-1, keepdim=True)
     )
-    ro[..., 3] = torch.tan(torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0)))
+    ro[..., 3] = torch.tan(
+        torch.acos(torch.clamp(torch.abs(qu[..., 0]), min=-1.0, max=1.0))
+    )
+    # negative real part -> flip the axis so that tan(angle/2) is positive
+    ro[..., :3] = torch.where(qu[..., 0:1] < 0, -ro[..., :3], ro[..., :3])
+
+    # identity quaternions are about the z axis
+    mask_identity = ro[..., 3] == 0
+    ro[mask_identity] = torch.tensor([0, 0, 1, 0], dtype=qu.dtype, device=qu.device)
 
     # w < 1e-8 for float32 / w < 1e-10 for float64 -> infinite tan
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
-- 
2.43.0


From d92ec58cb89c07efdf05e942e1ae683dda08b7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 06/66] fix: axis-angle to matrix for any number of batch
 dimensions

---
 ebsdtorch/s2_and_so3/orientations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 2e254c2..a16e1e6 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -189,7 +189,8 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
+    axis_angle = axis_angle.reshape(-1, 4)
+    data_n = axis_angle.shape[0]
 
     # set the output
     matrices = torch.empty(
@@ -210,7 +211,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = (theta > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
-- 
2.43.0


From a2b48a332d132615a8d6fda08a81c4e0730bc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 07/66] fix: matrix to axis-angle for identity, half turns and
 any batch shape

---
 ebsdtorch/s2_and_so3/orientations.py | 34 ++++++++++------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index a16e1e6..cfbfb8e 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -146,32 +146,22 @@ def om2ax(matrix: Tensor) -> Tensor:
 
     batch_dim = matrix.shape[:-2]
 
+    # the quaternion is well conditioned for all angles including 0 and pi
+    qu = om2qu(matrix)
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+
     # set the output with the same batch dimensions as the input
     axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
+    axis[..., :3] = qu[..., 1:] / norm
+    axis[..., 3:] = 2.0 * torch.atan2(norm, qu[..., 0:1])
 
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
-
-    # set the angle
-    axis[..., 3] = theta
+    # the identity is about the z axis
+    mask_identity = norm[..., 0] == 0
+    axis[mask_identity] = torch.tensor(
+        [0, 0, 1, 0], dtype=matrix.dtype, device=matrix.device
+    )
 
-    return axis.view(batch_dim + (4,))
+    return axis
 
 
 @torch.jit.script
-- 
2.43.0


From bfd5a70d6442726e562d2f01a6d757198fa0ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 08/66] fix: quaternion to homochoric leaves its input
 unchanged

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index cfbfb8e..666508c 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -39,7 +39,7 @@ def qu2ho(qu: Tensor) -> Tensor:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
     ho = torch.empty_like(qu[..., :3])
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
+    angle = 2 * torch.acos(qu[..., 0:1].clamp(min=-1.0, max=1.0))
     # get the unit vector
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
-- 
2.43.0


From 440f96a147644ceb8ecb0a3ce78e217d51464a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 09/66] fix: unit axis from the Newton homochoric inverse

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 666508c..b41eac6 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -651,7 +651,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
     return ax
-- 
2.43.0


From b4d4c630abac8ab95ff13dd664a43d7c1d4af590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 10/66] fix: crystal symmetry acts on orientations from the
 left when reducing to the fundamental zone

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..bea63e5 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,8 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    # (orientations take sample to crystal directions, so crystal symmetry acts from the left)
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,8 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    # (orientations take sample to crystal directions, so crystal symmetry acts from the left)
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From 232cbd3994fc441bfa414ad3126af442b03946aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 11/66] fix: disorientation applies each Laue group on the side
 of its own orientation

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 24 ++++++++++++------------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 16 ++++++++--------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..a8b313e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -50,11 +50,11 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     laue_group_1 = laue_elements(laue_id_1).to(qu.dtype).to(qu.device)
     laue_group_2 = laue_elements(laue_id_2).to(qu.dtype).to(qu.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(qu.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index bea63e5..4e8c5e2 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -387,11 +387,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -454,12 +454,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From 251a728cd947d6ec36497e98d22ac2e197c2d26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 12/66] fix: disorientation angle of equivalent orientations is
 not NaN after rounding

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 3 ++-
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index a8b313e..c5fd9dc 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -198,6 +198,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
 
     # find the largest real part magnitude and return the angle
-    cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    # (rounding can exceed one, for which acos is NaN)
+    cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values.clamp(max=1.0)
 
     return 2.0 * torch.acos(cosine_half_angle)
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 4e8c5e2..85b3c4a 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -466,7 +466,8 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     equivalent_quat_pos_real = equivalent_quat_pos_real.reshape(N, -1)
 
     # find the largest real part magnitude and return the angle
-    cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    # (rounding can exceed one, for which acos is NaN)
+    cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values.clamp(max=1.0)
 
     return 2.0 * torch.acos(cosine_half_angle)
 
-- 
2.43.0


From 1c17fca85d60b210491ad706ce6233888743f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 13/66] fix: cubed coordinates map into the cubic fundamental
 zone

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 85b3c4a..217b99c 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -272,7 +272,7 @@ def cube_to_rfz(
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
         # scale the sorted values
-        rfz_coords = torch.where(scales, sorted * factors, sorted)
+        rfz_coords = torch.where(scales, sorted / factors, sorted)
         # scatter the sorted values back to the original order
         rfz_coords = torch.scatter(rfz_coords, -1, indices, rfz_coords)
         # copy the sign of the original values
@@ -305,12 +305,12 @@ def rfz_to_cube(
         # same as above but with reciprocal scaling
         sorted, indices = torch.sort(rfz_abs, dim=-1, descending=False)
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
-        # same factor but we divide by it
+        # same factor but we multiply by it
         factors = (
             torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
         )
         factors[factors.isnan()] = 1
-        cc = torch.where(scales, sorted / factors, sorted)
+        cc = torch.where(scales, sorted * factors, sorted)
         cc = torch.scatter(cc, -1, indices, cc)
         cc.copysign_(rfz)
         return cc
-- 
2.43.0


From 8b5ff002998aca102106d48cbc83a3830329c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 14/66] fix: directions on sector boundaries reduce to one
 representative

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..b5b653f 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,7 +49,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(z.clamp(min=-1.0, max=1.0))
 
     if laue_id == 1:  # triclinic
         cond = z >= 0.0
@@ -63,6 +63,8 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
         cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
         cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        # the pole belongs to every sector, but its azimuth is arbitrary
+        cond = cond | ((x == 0.0) & (y == 0.0) & z.gt(0.0))
     elif laue_id == 8:  # hexagonal-low
         cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
@@ -91,9 +93,9 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
+            & eta.ge(0.0)
             & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & chi.ge(0.0)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
@@ -190,7 +192,11 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # non_true = torch.sum(cond, dim=-1) == 0
     # cond[non_true, 0] = True
 
-    return equivalent_points[cond].reshape(data_shape)
+    # boundary points have several equivalents in the closed sector: take the first one
+    first = torch.argmax(cond.to(torch.int64), dim=-1)
+    fz_points = equivalent_points[torch.arange(N, device=points.device), first]
+
+    return fz_points.reshape(data_shape)
 
 
 @torch.jit.script
-- 
2.43.0


From d36f4210ec63b0e58f9b8bdcc208f998bf0aab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 15/66] fix: equivalent directions include the inverted ones in
 the output shape

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index b5b653f..868fb34 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -210,7 +210,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
         laue_id: laue group of points to move to fundamental zone
 
     Returns:
-        points in fundamental zone of shape (..., |laue_group|, 3)
+        equivalent points of shape (..., 2 * |laue_group|, 3), inversion included
 
     """
 
@@ -225,7 +225,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From a4140e236751423cedf9592243fce113e576b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:57 +0000
Subject: [PATCH 16/66] fix: sector membership tolerates rounding on every
 azimuth face, so boundary directions reduce

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 868fb34..ae2579e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -54,21 +54,21 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     if laue_id == 1:  # triclinic
         cond = z >= 0.0
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - EPS) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - EPS) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
         # the pole belongs to every sector, but its azimuth is arbitrary
         cond = cond | ((x == 0.0) & (y == 0.0) & z.gt(0.0))
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-EPS) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -79,7 +79,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.le(PI_2 + EPS)
             & chi.ge(0.0)
         )
@@ -93,7 +93,7 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
+            & eta.ge(-EPS)
             & eta.lt(PI_4 + EPS)
             & chi.ge(0.0)
         )
-- 
2.43.0


From 8050567056c9b44a2d376e8702218c3f9639250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 17/66] fix: space groups 149-155 and 194 belong to Laue
 classes -3m and 6/mmm

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 876685a48ed6b64ea8e1030260bf426f45b029c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 18/66] fix: point group, crystal system and Laue group of a
 cell follow its space group number

---
 ebsdtorch/crystallography/unit_cell.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..6820b69 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -191,22 +191,15 @@ class Cell:
         self.sg_num = sg_num
         self.sg_setting = sg_setting
 
-        # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        # automatically find the point group for the space group (the last one
+        # whose first space group does not exceed the space group number)
+        self.pg_num = sum(1 for sg in sg_pg_beg if sg <= sg_num)
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = sum(1 for sg in sg_xt_beg if sg <= sg_num)
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From 8b7fe5c116439d06da1c3b0d26872dd995b6fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 19/66] fix: sampling schemes of the trigonal space groups
 148-155 and 157

---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..bae00ec 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -158,11 +158,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
-- 
2.43.0


From f1f3d32274ecf2be327c133636c7f8cae31927c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 20/66] fix: reciprocal structure matrix is the inverse
 transpose of the direct one

---
 ebsdtorch/crystallography/unit_cell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 6820b69..9798619 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -299,8 +299,9 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct
+        # structure matrix
+        self.rsm = torch.linalg.inv(self.dsm).T
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From b7161a1b73323b60e2ef93f73eab2515e9d3dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 21/66] fix: rhombohedral structure matrix uses the cell angle
 in radians

---
 ebsdtorch/crystallography/unit_cell.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 9798619..61b5fc5 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -305,14 +305,14 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
             Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
-                / torch.sqrt(torch.tensor(3.0, device=device))
+                * torch.sin(0.5 * self.alpha)
+                / torch.sqrt(torch.tensor(3.0, device=device, dtype=torch.float64))
             )
             y = torch.sqrt(1 - x * x)
             My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
-- 
2.43.0


From b1789eecdf75200487952740c90660abd3559edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 22/66] fix: cross products are returned in the requested space

---
 ebsdtorch/crystallography/unit_cell.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 61b5fc5..b0ae418 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -747,18 +747,18 @@ class Cell:
 
         if inspace == "d":
             r = vl * torch.cross(p, q, dim=-1)
-            if outspace == "d":
-                return torch.einsum("...i,ij->...j", r, self.rmt)
-            elif outspace == "c":
-                return torch.einsum("ij,...j->...i", self.rsm, r)
+            # the cross product of direct vectors has reciprocal components
+            if outspace in ("d", "r", "c"):
+                return self.transform_space(r, "r", outspace)
         elif inspace == "r":
             r = torch.cross(p, q, dim=-1) / vl
-            if outspace == "r":
-                return torch.einsum("...i,ij->...j", r, self.dmt)
-            elif outspace == "c":
-                return torch.einsum("ij,...j->...i", self.dsm, r)
+            # the cross product of reciprocal vectors has direct components
+            if outspace in ("d", "r", "c"):
+                return self.transform_space(r, "d", outspace)
         elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+            r = torch.cross(p, q, dim=-1)
+            if outspace in ("d", "r", "c"):
+                return self.transform_space(r, "c", outspace)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From 7bccf16708b8a50357ba53d08105bc0d55989e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 23/66] fix: average atomic number and weight of cells with
 several sites

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index b0ae418..4d8f5c2 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -355,7 +355,7 @@ class Cell:
 
         # 8) Compute average atomic number, weight and density
         self.average_atomic_number = (
-            torch.mean(
+            torch.sum(
                 self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
             )
             / self.mults.sum()
@@ -363,7 +363,7 @@ class Cell:
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
+            torch.sum(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
         )
 
         # Density in g/cm^3
-- 
2.43.0


From 9ae382cc96c03fc07046915d01f26d0c03a53e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 24/66] fix: rhombohedral to hexagonal conversion keeps
 radians, dtype and every atom's position

---
 ebsdtorch/crystallography/unit_cell.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 4d8f5c2..fb57d43 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -786,28 +786,29 @@ class Cell:
         We use the obverse setting in all cases.
         """
         # Convert lattice parameters to hexagonal
-        calpha = torch.cos(self.alpha * torch.pi / 180.0)
+        calpha = torch.cos(self.alpha)
         ar = self.a
 
-        self.alpha = torch.tensor(90.0, device=self.device)
-        self.beta = torch.tensor(90.0, device=self.device)
-        self.gamma = torch.tensor(120.0, device=self.device)
-        self.a = ar * torch.sqrt(torch.tensor(2.0, device=self.device) - 2.0 * calpha)
-        self.b = self.a
-        self.c = ar * torch.sqrt(torch.tensor(3.0, device=self.device) + 6.0 * calpha)
+        self.alpha = torch.full_like(ar, torch.pi / 2.0)
+        self.beta = torch.full_like(ar, torch.pi / 2.0)
+        self.gamma = torch.full_like(ar, 2.0 * torch.pi / 3.0)
+        self.a = ar * torch.sqrt(2.0 - 2.0 * calpha)
+        self.b = self.a.clone()
+        self.c = ar * torch.sqrt(3.0 + 6.0 * calpha)
 
         # Transform matrix
         M = torch.tensor(
             [
-                [2.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0],
+                [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
             ],
             device=self.device,
+            dtype=self.atom_data.dtype,
         )
 
         # Transform atom coordinates
-        for i in range(self.atom_ntype):
+        for i in range(len(self.atom_data)):
             pos = self.atom_data[i, :3].clone()
             pos = torch.matmul(M, pos)
             self.atom_data[i, :3] = pos
-- 
2.43.0


From 70a1600d88471e89ce0edc26563d49e005ea4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 25/66] fix: rhombohedral structure matrix puts the threefold
 axis along z

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fb57d43..bb808ff 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -307,7 +307,7 @@ class Cell:
         if self.xtal_system == 5:
             x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
 
             x = (
                 2
@@ -315,7 +315,7 @@ class Cell:
                 / torch.sqrt(torch.tensor(3.0, device=device, dtype=torch.float64))
             )
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
-- 
2.43.0


From 8007bd4b158fe90c71c15c7df84c967b3a8e85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 26/66] fix: symmetry operators keep the homogeneous row 0 0 0
 1

---
 ebsdtorch/crystallography/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..ea3bf58 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -473,7 +473,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From 2689ddf319fafdd545c594a1f1fcd19f00d380e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 27/66] fix: second origin choice reads its shift and keeps
 operator translations

---
 ebsdtorch/crystallography/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index ea3bf58..2448c17 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -310,7 +310,7 @@ def read_sg_gen_string(
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
         print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        t = gen_string[3 + 4 * gen_num : (3 + 4 * gen_num) + 3]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +334,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From c78a0f27a2bb3e21df8e77485f52a7dbffe0b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:36 +0000
Subject: [PATCH 28/66] fix: atom positions that round to just below one are
 the image at zero

---
 ebsdtorch/crystallography/unit_cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index bb808ff..051b49e 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -340,7 +340,9 @@ class Cell:
         )
         all_pos = torch.fmod(all_pos + 100.0, 1.0)
         all_pos = torch.where(
-            (all_pos).abs() < 1e-6, torch.zeros_like(all_pos), all_pos
+            (all_pos < 1e-6) | (all_pos > 1.0 - 1e-6),
+            torch.zeros_like(all_pos),
+            all_pos,
         )
 
         # remove duplicates
-- 
2.43.0


From 26bf663dbfa666bbb9b6dd6b74d4bc48b88306b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 29/66] fix: reflection list covers the whole resolution sphere

---
 ebsdtorch/crystallography/unit_cell.py | 91 ++++----------------------
 1 file changed, 11 insertions(+), 80 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 051b49e..d02cb86 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -865,43 +865,10 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
+        # |h| = |g . a| <= |g| a, with equality for the reflections along a, so a / dmin
+        # bounds the index of every reflection in the sphere (for any lattice angles)
+        max_h, max_k, max_l = (
+            int(torch.floor(x / dmin).item()) for x in (self.a, self.b, self.c)
         )
 
         return max_h, max_k, max_l
@@ -931,54 +898,18 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
         # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -987,9 +918,9 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
             hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
-- 
2.43.0


From 91a8397579730ae2ef1a771a916b59c457cb9cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:08 +0000
Subject: [PATCH 30/66] fix: reflection list leaves out (0, 0, 0) and keeps
 every other index

---
 ebsdtorch/crystallography/unit_cell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index d02cb86..38676c0 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -923,7 +923,9 @@ class Cell:
             l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From bbacf6afa88b7574a85d55503f30a89683955e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 31/66] fix: hexagon projection returns unit vectors of the
 hemisphere

---
 ebsdtorch/crystallography/kvectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index bae00ec..4cea431 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -103,7 +103,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
     # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # (Lambert azimuthal disk of unit radius; outside of the hexagon z is negative)
+    r2 = x_out**2 + y_out**2
+    scale = torch.sqrt(torch.clamp(2.0 - r2, min=0.0))
+    out = torch.stack((y_out * scale, x_out * scale, 1.0 - r2), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-- 
2.43.0


From 6a8f048ef47f7ef0fdf97d33ff7becbb05ff6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:07 +0000
Subject: [PATCH 32/66] fix: the centre of the square and hexagon maps to the
 pole instead of NaN

---
 ebsdtorch/s2_and_so3/sphere.py   | 15 ++++-----------
 ebsdtorch/utils/rosca_lambert.py | 25 +++++++++++--------------
 2 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..dbf1e07 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -120,17 +120,10 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
-    # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    # only one case now (the centre has no azimuth, any angle gives the pole)
+    angle = pi * y_new / (4 * torch.where(x_new == 0, torch.ones_like(x_new), x_new))
+    x_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.cos(angle)
+    y_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.sin(angle)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..4155e28 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -25,16 +25,18 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     a = pts[:, 0] * (pi / 2) ** 0.5
     b = pts[:, 1] * (pi / 2) ** 0.5
     m = torch.abs(b) <= torch.abs(a)
+    # the centre has no azimuth, any angle gives the pole
+    a_div = torch.where(a == 0, torch.ones_like(a), a)
     output = torch.empty((n_pts, 3), dtype=pts.dtype, device=pts.device)
     output[m, 0] = (
         (2 * a[m] / pi)
         * torch.sqrt(pi - a[m] ** 2)
-        * torch.cos((pi * b[m]) / (4 * a[m]))
+        * torch.cos((pi * b[m]) / (4 * a_div[m]))
     )
     output[m, 1] = (
         (2 * a[m] / pi)
         * torch.sqrt(pi - a[m] ** 2)
-        * torch.sin((pi * b[m]) / (4 * a[m]))
+        * torch.sin((pi * b[m]) / (4 * a_div[m]))
     )
     output[m, 2] = 1 - (2 * a[m] ** 2 / pi)
     output[~m, 0] = (
@@ -79,17 +81,10 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
-    # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    # only one case now (the centre has no azimuth, any angle gives the pole)
+    angle = pi * y_new / (4 * torch.where(x_new == 0, torch.ones_like(x_new), x_new))
+    x_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.cos(angle)
+    y_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.sin(angle)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
@@ -201,7 +196,9 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
 
     # I_0 sextant equal-area bijection having swapped x & y
     factor = (3.0**0.25) * ((2.0 / pi) ** 0.5) * x_new
-    trig_arg = (y_new * pi) / (2.0 * (3.0**0.5) * x_new)
+    # (the centre has no azimuth, any angle gives the pole)
+    x_div = torch.where(x_new == 0, torch.ones_like(x_new), x_new)
+    trig_arg = (y_new * pi) / (2.0 * (3.0**0.5) * x_div)
     x_hs = factor * torch.cos(trig_arg)
     y_hs = factor * torch.sin(trig_arg)
 
-- 
2.43.0


From c475f0a1316d93c6699ca3273caea15a7b52ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:07 +0000
Subject: [PATCH 33/66] fix: second copy of the hexagon projection returns unit
 vectors

---
 ebsdtorch/utils/rosca_lambert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 4155e28..b342060 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -211,7 +211,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
     # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # (Lambert azimuthal disk of unit radius; outside of the hexagon z is negative)
+    r2 = x_out**2 + y_out**2
+    scale = torch.sqrt(torch.clamp(2.0 - r2, min=0.0))
+    return torch.stack((y_out * scale, x_out * scale, 1.0 - r2), dim=-1)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From aab1477923d963251676a8aa8e347df3f36966e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:02 +0000
Subject: [PATCH 34/66] fix: spherical to Cartesian conversion takes the polar
 angle first, as documented and as its inverse

---
 ebsdtorch/s2_and_so3/sampling.py |  2 +-
 ebsdtorch/s2_and_so3/sphere.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sampling.py b/ebsdtorch/s2_and_so3/sampling.py
index e001040..527ad1a 100644
--- a/ebsdtorch/s2_and_so3/sampling.py
+++ b/ebsdtorch/s2_and_so3/sampling.py
@@ -58,7 +58,7 @@ def s2_fibonacci(
     indices = torch.arange(n, dtype=torch.float64, device=device)
     theta = 2 * torch.pi * indices / phi
     phi = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
-    points = theta_phi_to_xyz(theta, phi)
+    points = theta_phi_to_xyz(phi, theta)
     return points
 
 
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index dbf1e07..64c72e7 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -28,11 +28,11 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.cos(theta) * torch.sin(phi),
+            torch.sin(theta) * torch.cos(phi),
             torch.sin(theta) * torch.sin(phi),
-            torch.cos(phi),
+            torch.cos(theta),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From c13b8228d5fc9cf104130a12bbc05a185ae07a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:12 +0000
Subject: [PATCH 35/66] fix: logarithm of rigid transforms accepts every batch
 shape

---
 ebsdtorch/lie_algebra/se3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..6790e0f 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -435,7 +435,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
     omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor[..., None] * omegas
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -476,7 +476,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
     omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor[..., None] * omegas
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 8f79cd5e0f69e0c1ca2890a8469230833b203c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 36/66] fix: tilts recovered from a rigid transform keep their
 sign and leave the matrix unmodified

---
 ebsdtorch/ebsd/fitting.py  | 7 +++----
 ebsdtorch/ebsd/geometry.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..37fbb0a 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # both tilts are signed so the sines are needed as well as the cosines
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..81f0c67 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # both tilts are signed so the sines are needed as well as the cosines
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From c959c8e59c2d06f7ace0a1cff2be327d7bf48a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 37/66] fix: pixel coordinates are the centres of the (binned)
 pixels

---
 ebsdtorch/ebsd/fitting.py  | 16 ++++++++++------
 ebsdtorch/ebsd/geometry.py |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 37fbb0a..befe976 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -190,14 +190,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - (0.5 * (binning_fp[0] + 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - (0.5 * (binning_fp[1] + 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
@@ -257,15 +257,19 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - binning_fp * h_pad_prior,
+                detector_shape[0]
+                - (0.5 * (binning_fp + 1))
+                + binning_fp * h_pad_after,
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - binning_fp * w_pad_prior,
+                detector_shape[1]
+                - (0.5 * (binning_fp + 1))
+                + binning_fp * w_pad_after,
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 81f0c67..58765e3 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -482,14 +482,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - (0.5 * (binning_fp[0] + 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - (0.5 * (binning_fp[1] + 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
-- 
2.43.0


From ba7f7a0cd20e621f99c8ee37777378948d1c347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 38/66] fix: nearest neighbours from chunks smaller than the
 number of neighbours

---
 ebsdtorch/utils/knn.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..dc35a3d 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -173,6 +173,9 @@ class ChunkedKNN:
         self.curr_end += data_chunk.shape[0]
         self.curr_start = self.curr_end - data_chunk.shape[0]
 
+        # a chunk can hold fewer entries than the number of neighbors asked for
+        self.chunk_topk = min(self.topk, data_chunk.shape[0])
+
         # Quantize the data if needed
         if self.quantized and self.match_device.type == "cpu":
             self.prepared_data = quant_model_data(data_chunk)
@@ -195,11 +198,11 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_dists_chunk, knn_inds_chunk = topk_quantized_data(
-                query, self.prepared_data, self.topk
+                query, self.prepared_data, self.chunk_topk
             )
         else:
             knn_dists_chunk, knn_inds_chunk = knn_batch(
-                self.prepared_data, query, self.topk, self.distance_metric
+                self.prepared_data, query, self.chunk_topk, self.distance_metric
             )
 
         # chunk indices -> global indices
@@ -235,11 +238,11 @@ class ChunkedKNN:
 
         if self.quantized and self.match_device.type == "cpu":
             knn_distances_chunk, knn_indices_chunk = topk_quantized_data(
-                query_chunk, self.prepared_data, self.topk
+                query_chunk, self.prepared_data, self.chunk_topk
             )
         else:
             knn_distances_chunk, knn_indices_chunk = knn_batch(
-                self.prepared_data, query_chunk, self.topk, self.distance_metric
+                self.prepared_data, query_chunk, self.chunk_topk, self.distance_metric
             )
 
         knn_indices_chunk += self.curr_start
-- 
2.43.0


From 05f6500780981b2ef9e0a7f629fff53581824531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 39/66] fix: quantized search is used for the angular metric
 only

---
 ebsdtorch/utils/knn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index dc35a3d..3571cce 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -143,7 +143,8 @@ class ChunkedKNN:
             match_dtype = torch.float32
 
         self.match_dtype = match_dtype
-        self.quantized = quantized_via_ao
+        # the quantized layer computes dot products, no other metric
+        self.quantized = quantized_via_ao and self.distance_metric == "angular"
 
         self.big_better = self.distance_metric == "angular"
         ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
-- 
2.43.0


From 5d12f8fe35000662495e341c787e1df1794caeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 40/66] fix: Krasulina step divides by the squared projection
 norm

---
 ebsdtorch/utils/pca_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 06bf3ed..bde9270 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -63,7 +63,7 @@ class KrasulinaPCA(nn.Module):
         # Project data
         latent = self.C_cross @ x.T
         residual = x.T - self.C @ latent
-        alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0))
+        alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0) ** 2)
         self.C.add_((alpha[None, :] * residual) @ latent.T)
         self.C_cross.copy_(torch.linalg.inv_ex(self.C.T @ self.C)[0] @ self.C.T)
 
-- 
2.43.0


From c3a482ecfaf63fb6fe84244b32188e0de3228dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:10 +0000
Subject: [PATCH 41/66] fix: spatial coordinates that were never set raise the
 documented error

---
 ebsdtorch/ebsd/experiment_pats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..fadcb74 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -55,6 +55,7 @@ class ExperimentPatterns(Module):
         self.phases = None
         self.orientations = None
         self.inv_f_matrix = None
+        self.spatial_coords = None
 
     def set_spatial_coords(
         self,
-- 
2.43.0


From dc695c9fadcc8400d6f590c34b0ffc51f9cca4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:10 +0000
Subject: [PATCH 42/66] fix: a phase with a single pattern keeps its list of
 indices

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index fadcb74..774a3bd 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -361,7 +361,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From 1c8042b5bc9b2e718833dff43fabcfa91622d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:10 +0000
Subject: [PATCH 43/66] fix: a single deformation gradient is accepted for all
 patterns, as documented

---
 ebsdtorch/ebsd/experiment_pats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 774a3bd..dd33963 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -189,6 +189,11 @@ class ExperimentPatterns(Module):
             f_matrix[:, 8] = 1.0
             f_matrix = f_matrix.reshape(self.n_patterns, 3, 3)
         else:
+            if f_matrix.shape[0] == 1:
+                # one gradient shared by all patterns
+                f_matrix = f_matrix.repeat(
+                    self.n_patterns, *[1] * (f_matrix.dim() - 1)
+                )
             if f_matrix.shape[0] != self.n_patterns:
                 raise ValueError(
                     f"Deformation gradients must have the same number of patterns as the ExperimentPatterns object. "
-- 
2.43.0


From 9bdbea29b6968efb32c88a0ac56bc2d8f9933444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:10 +0000
Subject: [PATCH 44/66] fix: indexing results of several phases are combined by
 their top match

---
 ebsdtorch/ebsd/experiment_pats.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index dd33963..3817687 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -421,9 +421,8 @@ class ExperimentPatterns(Module):
                 )
 
             # make a phase_id tensor
-            phase_ids = torch.full(
-                self.n_patterns,
-                fill_value=-1,
+            phase_ids = torch.zeros(
+                (self.n_patterns,),
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
@@ -436,6 +435,9 @@ class ExperimentPatterns(Module):
             )
 
             for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+                # only the top match of each pattern
+                quaternions = quaternions[:, 0].to(orientations.dtype)
+                metrics = metrics[:, 0].to(best_metrics.dtype)
                 if higher_is_better:
                     mask = metrics > best_metrics
                 else:
@@ -453,5 +455,6 @@ class ExperimentPatterns(Module):
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            quaternions, metrics = list(self.raw_indexing_results.values())[0]
+            self.orientations = quaternions[:, 0]
+            self.best_metrics = metrics[:, 0]
-- 
2.43.0


From 48d16c46f766bd02ca3e340d9190f5fb982aa28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:33 +0000
Subject: [PATCH 45/66] fix: binning the master pattern keeps the hemispheres
 apart

---
 ebsdtorch/ebsd/master_pattern.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..ba39432 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -108,9 +108,16 @@ class MasterPattern(Module):
         # )
         # self.master_pattern_binned = blurrer(self.master_pattern[None, None, ...])[0, 0]
 
-        self.master_pattern_binned = torch.nn.functional.avg_pool2d(
-            self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
-        )[0, 0]
+        # bin the two hemispheres separately, they must not share a pixel
+        self.master_pattern_binned = torch.cat(
+            [
+                torch.nn.functional.avg_pool2d(
+                    hemisphere[None, None, ...], binning_factor, stride=binning_factor
+                )[0, 0]
+                for hemisphere in torch.chunk(self.master_pattern, 2, dim=-1)
+            ],
+            dim=-1,
+        )
 
     def normalize(
         self,
-- 
2.43.0


From ac9877f1fc8c8af9833b9e64fcfb11587fb24c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:33 +0000
Subject: [PATCH 46/66] fix: virtual binning uses the requested factor and the
 current master pattern

---
 ebsdtorch/ebsd/master_pattern.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index ba39432..15e2645 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -89,6 +89,7 @@ class MasterPattern(Module):
 
         self.master_pattern = master_pattern
         self.master_pattern_binned = None
+        self.binning_factor = None
         self.factor_dict = {}
 
     def bin(
@@ -118,6 +119,7 @@ class MasterPattern(Module):
             ],
             dim=-1,
         )
+        self.binning_factor = binning_factor
 
     def normalize(
         self,
@@ -130,6 +132,9 @@ class MasterPattern(Module):
             :norm_type (str): Normalization type: "minmax", "zeromean", "standard"
 
         """
+        # a binned copy is out of date from here on
+        self.master_pattern_binned = None
+
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
@@ -175,7 +180,10 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
+            if (
+                self.master_pattern_binned is None
+                or self.binning_factor != virtual_binning
+            ):
                 self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
@@ -230,6 +238,9 @@ class MasterPattern(Module):
             :grid_shape (Tuple[int, int]): The shape of the grid to divide the image into.
 
         """
+        # a binned copy is out of date from here on
+        self.master_pattern_binned = None
+
         self.master_pattern = clahe_grayscale(
             self.master_pattern[None, None, ...],
             clip_limit=clip_limit,
-- 
2.43.0


From c41fb30444bffe8aa895cd9bd0bd5c83ed3a4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:33 +0000
Subject: [PATCH 47/66] fix: master pattern lookup does not mix the hemispheres
 across their seam

---
 ebsdtorch/ebsd/master_pattern.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 15e2645..f9b02b4 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -192,6 +192,20 @@ class MasterPattern(Module):
         # project to the square [-1, 1] x [-1, 1]
         projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
 
+        # the hemispheres are side by side but not neighbours along the seam, so
+        # stop half a pixel before it, as border padding does on the outer edges
+        if padding_mode == "border" and not align_corners:
+            half_pixel = 1.0 / master_pattern_prep.shape[-1]
+            seam_coords = projected_coords_2D[..., 0]
+            seam_coords = torch.where(
+                coords_3D[..., 2] < 0,
+                torch.clamp(seam_coords, min=half_pixel),
+                torch.clamp(seam_coords, max=-half_pixel),
+            )
+            projected_coords_2D = torch.stack(
+                (seam_coords, projected_coords_2D[..., 1]), dim=-1
+            )
+
         # we want to accept a generic number of dimensions (..., 2)
         # grid_sample will perform extremely poorly when given grid shaped:
         # (1, 1000000000, 1, 2) or (1, 1, 1000000000, 2) etc.
-- 
2.43.0


From 229073727ee0456c73f43e2c6e3dc24783cad6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 48/66] fix: joint histogram gives every pair of bins its own
 entry

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..d6f17bc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -48,7 +48,7 @@ def mutual_information(
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
-- 
2.43.0


From 0abb932f6e7b51ed80636abda35f0f7c09bf9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 49/66] fix: mutual information of a constant image is zero
 instead of an index error

---
 ebsdtorch/utils/mutual_information.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d6f17bc..780e18c 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -42,8 +42,11 @@ def mutual_information(
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
     if normalize:
-        a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
-        b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
+        # a constant image falls into the lowest bin
+        a_range = (a_maxvals - a_minvals).clamp(min=1e-12)
+        b_range = (b_maxvals - b_minvals).clamp(min=1e-12)
+        a_bin = ((a - a_minvals) / a_range * n_bins * 0.999999).long()
+        b_bin = ((b - b_minvals) / b_range * n_bins * 0.999999).long()
     else:
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
-- 
2.43.0


From 8c0965025829f42e445c74cda509b4a60c766b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 50/66] fix: the upper limit of the value range belongs to the
 last bin

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 780e18c..e66c035 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -176,8 +176,9 @@ def binned_nmi(
     x = x.view(-1)
     y = y.view(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # the upper limit of the range belongs to the last bin
+    x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(max=binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
-- 
2.43.0


From 590293131781cb1483b7c34cec359839bdf4214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 51/66] fix: cross mutual information counts pixels at the
 upper limit of the range

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index e66c035..7342681 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -376,7 +376,8 @@ def cmif(
     images_dst = images_dst.view(-1, 1, h1, w1)
     images_src = images_src.view(-1, 1, h1, w1)
 
-    dst_levels = (bins_dst * images_dst).byte().repeat(1, bins_dst, 1, 1)
+    # the upper limit of the range belongs to the last bin
+    dst_levels = (bins_dst * images_dst).byte().clamp(max=bins_dst - 1).repeat(1, bins_dst, 1, 1)
     dst_levels = (
         dst_levels
         == torch.arange(bins_dst, dtype=torch.uint8, device=images_dst.device)[
@@ -384,7 +385,7 @@ def cmif(
         ]
     )
 
-    src_levels = (bins_src * images_src).byte().repeat(1, bins_src, 1, 1)
+    src_levels = (bins_src * images_src).byte().clamp(max=bins_src - 1).repeat(1, bins_src, 1, 1)
     src_levels = (
         src_levels
         == torch.arange(bins_src, dtype=torch.uint8, device=images_src.device)[
-- 
2.43.0


From 039b2db645858199dd8ab5456506ef7a74b02263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 52/66] fix: chunked cross mutual information includes the last
 level

---
 ebsdtorch/utils/mutual_information.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 7342681..811d1f1 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -486,8 +486,8 @@ def cmif(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
         )
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 # print which chunk begin and end for each
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
@@ -498,8 +498,8 @@ def cmif(
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-- 
2.43.0


From 269e4a39ae9ff852e54a4e30ed3813d237c2f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 53/66] fix: cross mutual information of images of odd width

---
 ebsdtorch/utils/mutual_information.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 811d1f1..7544fe2 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -450,11 +450,11 @@ def cmif(
         else:
             # first compute the marginal histograms
             marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :]),
+                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :], s=(h1, w1)),
                 dim=(-2, -1),
             )
             marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :]),
+                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :], s=(h1, w1)),
                 dim=(-2, -1),
             )
 
@@ -492,7 +492,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 1.0] = 0.0
                 # update the tally
@@ -503,7 +503,7 @@ def cmif(
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 1.0] = 0.0
                 # increment the joint entropy
@@ -575,7 +575,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 1.0] = 0.0
@@ -605,7 +605,7 @@ def cmif(
             )
 
             # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
+            cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
             cross_corr_real[cross_corr_real < 1.0] = 0.0
-- 
2.43.0


From 17c032a3a48ec2c0c6fcd24affe17cdec713d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 54/66] fix: a bin holding one pixel survives rounding of the
 Fourier transform

---
 ebsdtorch/utils/mutual_information.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 7544fe2..4acffc3 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -494,7 +494,7 @@ def cmif(
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
@@ -505,7 +505,7 @@ def cmif(
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
                 cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
                 joint_p = cross_corr_real / tally_joint
                 joint_p_log_p = torch.where(
@@ -578,7 +578,7 @@ def cmif(
             cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
 
             # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
@@ -608,7 +608,7 @@ def cmif(
             cross_corr_real = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)).real
 
             # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
+            cross_corr_real[cross_corr_real < 0.5] = 0.0
 
             # extract out the joint histograms
             joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
-- 
2.43.0


From 4ea668374eee07436387e35c93054a8215675f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 55/66] fix: chunked cross mutual information pairs every image
 of both batches

---
 ebsdtorch/utils/mutual_information.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 4acffc3..0652c7f 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -449,18 +449,23 @@ def cmif(
 
         else:
             # first compute the marginal histograms
+            # for every pair of images
+            marg_hists_dst = torch.einsum(
+                "bihw,chw->bcihw", dst_levels_fft[:, 1:], src_levels_fft[:, 0]
+            )
             marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :], s=(h1, w1)),
-                dim=(-2, -1),
+                irfft2(marg_hists_dst, s=(h1, w1)), dim=(-2, -1)
+            )
+            marg_hists_src = torch.einsum(
+                "bhw,cjhw->bcjhw", dst_levels_fft[:, 0], src_levels_fft[:, 1:]
             )
             marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :], s=(h1, w1)),
-                dim=(-2, -1),
+                irfft2(marg_hists_src, s=(h1, w1)), dim=(-2, -1)
             )
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
+            marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -475,8 +480,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=2)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
 
         # total number of pixel pair values is the olap value so we can normalize the histogram bars in the joint as they come
         ent_joint = torch.zeros(
-- 
2.43.0


From 0fc2ea7d032fbbfd027709dc249c9f28e9cadaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 56/66] fix: constant marginals with more than eight levels

---
 ebsdtorch/utils/mutual_information.py | 40 +++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 0652c7f..91cff95 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -416,20 +416,38 @@ def cmif(
     if bins_src > 8 or bins_dst > 8:
         if constant_marginal:
             # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src).byte()
-            dst_discrete = (bins_dst * images_dst).byte()
+            src_discrete = (bins_src * images_src * 0.99999).long()
+            dst_discrete = (bins_dst * images_dst * 0.99999).long()
 
-            # calculate the marginal histograms
-            marg_hists_dst = torch.histc(
-                dst_discrete[src_ind].float(), bins=bins_dst, min=0, max=bins_dst - 1
+            # have to use scatter instead
+            marg_hists_dst = torch.zeros(
+                images_dst.shape[0], bins_dst, device=images_dst.device
             )
-            marg_hists_src = torch.histc(
-                src_discrete[dst_ind].float(), bins=bins_src, min=0, max=bins_src - 1
+            marg_hists_src = torch.zeros(
+                images_src.shape[0], bins_src, device=images_src.device
+            )
+
+            # reshape to be (B, n_bins, -1)
+            src_discrete = src_discrete.view(-1, h1 * w1)
+            dst_discrete = dst_discrete.view(-1, h1 * w1)
+
+            # scatter the joint histogram
+            marg_hists_dst = marg_hists_dst.scatter_(
+                -1,
+                dst_discrete,
+                1,
+                reduce="add",
+            )
+            marg_hists_src = marg_hists_src.scatter_(
+                -1,
+                src_discrete,
+                1,
+                reduce="add",
             )
 
             # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum()
-            marg_hists_dst /= marg_hists_dst.sum()
+            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
+            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
 
             # calculate the marginal log probabilities
             marg_src_p_log_p = torch.where(
@@ -444,8 +462,8 @@ def cmif(
             )
 
             # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p)
-            ent_dst = -torch.sum(marg_dst_p_log_p)
+            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
+            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
 
         else:
             # first compute the marginal histograms
-- 
2.43.0


From 9301a82cda7093cbffc5d0260cd697fb6fb95252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:51 +0000
Subject: [PATCH 57/66] fix: normalised cross mutual information with constant
 marginals for batches

---
 ebsdtorch/utils/mutual_information.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 91cff95..dd2ab5d 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -670,9 +670,10 @@ def cmif(
 
     # mutual information is the sum of the marginal entropies minus the joint entropy
     if constant_marginal:
-        mi = ent_dst[:, None, None, None] + ent_src[None, :, None, None] - ent_joint
-    else:
-        mi = ent_dst + ent_src - ent_joint
+        # one value per image, for every pair of images and shift
+        ent_dst = ent_dst[:, None, None, None]
+        ent_src = ent_src[None, :, None, None]
+    mi = ent_dst + ent_src - ent_joint
 
     # replace any NaNs or Infs or Negatives with zeros
     mi[torch.isnan(mi) | torch.isinf(mi) | (mi < 0.0)] = 0.0
-- 
2.43.0


From cfc303e0d5b896725a69fad8eeffb99f7ad09ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:00 +0000
Subject: [PATCH 58/66] fix: chunked cross mutual information normalises
 batches per pair

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index dd2ab5d..70088ef 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -530,7 +530,7 @@ def cmif(
                 # where the bin occupancy was less than 1, set it to zero
                 cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
-                joint_p = cross_corr_real / tally_joint
+                joint_p = cross_corr_real / tally_joint[:, :, None, None]
                 joint_p_log_p = torch.where(
                     joint_p > 0.0,
                     joint_p * torch.log(joint_p),
-- 
2.43.0


From fdf51da559a69a8d6ba258edbad8d5911d38465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 59/66] fix: NLPAR estimates noise from the 3x3 window for
 every kernel radius

---
 ebsdtorch/preprocessing/nlpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..824f56d 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -93,7 +93,7 @@ def nlpar(
     # find indices of 8 nearest neighbors
     # closest point is self so we skip it
     offset_coords = offset_coords[
-        torch.argsort(torch.sum(torch.abs(offset_coords), dim=-1))
+        torch.argsort(torch.sum(offset_coords**2, dim=-1), stable=True)
     ]
 
     starts_i = k_rad + offset_coords[:, 0]
-- 
2.43.0


From 3ccb0a05d1b09e62bf71e663b2ef4da3223fe4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:44 +0000
Subject: [PATCH 60/66] fix: NLPAR keeps padded values out of the noise
 estimate and the coefficient fit

---
 ebsdtorch/preprocessing/nlpar.py | 36 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 824f56d..3a50740 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -116,9 +116,14 @@ def nlpar(
         ]
 
     # estimate the noise level for the entire scan
-    sigma_hat = torch.sqrt(
-        torch.min(dists[:, :, 1:9], dim=-1).values / (2 * n_pixels_per_pat)
-    )
+    # (padded values are no patterns and do not take part)
+    nn_out_bounds = out_bounds_mask_all[:, :, :9]
+    min_dists = torch.min(
+        dists[:, :, 1:9].masked_fill(nn_out_bounds[:, :, 1:], torch.inf), dim=-1
+    ).values
+    # a scan of one pattern has no neighbors at all
+    min_dists = min_dists.masked_fill(torch.isinf(min_dists), 1.0)
+    sigma_hat = torch.sqrt(min_dists / (2 * n_pixels_per_pat))
     # pad sigma_hat so we can use offsets
     sigma_hat_padded = torch.nn.functional.pad(
         sigma_hat,
@@ -148,25 +153,20 @@ def nlpar(
     for _ in range(10):
         # notice that guess_coeff_sq is only calculated at the beginning
         guess_coeff_sq = guess_coeff**2
-        obj = (
-            torch.mean(torch.softmax(nn_weights / guess_coeff_sq, dim=-1)[:, :, 0])
-            - coeff
+        nn_probs = torch.softmax(
+            (nn_weights / guess_coeff_sq).masked_fill(nn_out_bounds, -torch.inf),
+            dim=-1,
         )
+        obj = torch.mean(nn_probs[:, :, 0]) - coeff
         grad = torch.mean(
             -2
-            * torch.exp(nn_weights[:, :, 0] / guess_coeff_sq)
-            * (
-                torch.sum(
-                    nn_weights[:, :, [0]] * torch.exp(nn_weights / guess_coeff_sq),
-                    dim=-1,
-                )
-                - torch.sum(nn_weights * torch.exp(nn_weights / guess_coeff_sq), dim=-1)
-            )
-            / (
-                guess_coeff**3
-                * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
-            )
+            * nn_probs[:, :, 0]
+            * (nn_weights[:, :, 0] - torch.sum(nn_weights * nn_probs, dim=-1))
+            / guess_coeff**3
         )
+        # all neighbors are equally distant: the center fraction is fixed
+        if grad == 0:
+            break
         guess_coeff -= obj / grad
         if torch.abs(obj) < coeff_fit_tol:
             break
-- 
2.43.0


From cffaf8359815f49cbf10957140183a0c9439c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:05 +0000
Subject: [PATCH 61/66] fix: NLPAR of identical neighbouring patterns is not
 NaN

---
 ebsdtorch/preprocessing/nlpar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 3a50740..b97c56e 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -134,9 +134,11 @@ def nlpar(
     # iterate and normalize the squared differences
     for i in range(n_pats_per_kernel):
         sigma_other = sigma_hat_padded[starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]]
-        dists[:, :, i] = (
-            dists[:, :, i] - n_pixels_per_pat * (sigma_hat**2 + sigma_other**2)
-        ) / (2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2))
+        # identical patterns have no noise: keep their distance of zero defined
+        var_sum = (sigma_hat**2 + sigma_other**2).clamp_min(1e-12)
+        dists[:, :, i] = (dists[:, :, i] - n_pixels_per_pat * var_sum) / (
+            2**0.5 * n_pixels_per_pat**0.5 * var_sum
+        )
 
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
-- 
2.43.0


From 9c2a54563a895a081f4fd8379c50788309910df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:51 +0000
Subject: [PATCH 62/66] fix: Gaussian blur keeps the size of images with odd
 sides

---
 ebsdtorch/preprocessing/resampling.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..457e9da 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -29,6 +29,7 @@ class GaussianBlur2d(Module):
         )
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
+        h, w = x.shape[-2:]
         # apply padding
         pad = self._compute_padding(x)
         if self.reflect_padding:
@@ -39,16 +40,8 @@ class GaussianBlur2d(Module):
         # apply convolution
         x = F.conv2d(x, self.kernel, padding=0)
 
-        # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
-        return x
+        # crop off the padding that made the sides odd
+        return x[:, :, :h, :w]
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
         # establish the kernel size
-- 
2.43.0


From 0df1145c5b2934e06dedbbaed0e1468d117c8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:00 +0000
Subject: [PATCH 63/66] fix: chunked indexing honours subtract_exp_pat_mean

---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..68f784b 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -182,9 +182,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -444,9 +445,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From 2efe4f057984747580d26ac4b4c0a70187a336af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:00 +0000
Subject: [PATCH 64/66] fix: PCA indexing uses the requested number of
 components

---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 68f784b..5e00620 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -353,7 +353,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From f2c8fce8fb44d1539620a4b87e3629971f95fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:00 +0000
Subject: [PATCH 65/66] fix: PCA indexing works on binned patterns

---
 ebsdtorch/ebsd/indexing.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5e00620..19438ee 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -281,17 +281,6 @@ def pca_dictionary_index_orientations(
             quantized_via_ao=quantized_via_ao,
         )
 
-        # get the dimensionality of each pattern
-        if signal_mask is not None:
-            n_pixels = signal_mask.sum().item()
-        else:
-            n_pixels = experiment_patterns.n_pixels
-
-        # make an object to do the PCA
-        pcacovmat = OnlineCovMatrix(
-            n_features=n_pixels,
-        ).to(mp.master_pattern.device)
-
         # get a helper function to sync devices
         if experiment_patterns.patterns.device.type == "cuda":
             sync = torch.cuda.synchronize
@@ -317,6 +306,11 @@ def pca_dictionary_index_orientations(
         if not signal_mask is None:
             detector_coords = detector_coords[:, signal_mask.flatten()]
 
+        # make an object to do the PCA (binned and masked pixels only)
+        pcacovmat = OnlineCovMatrix(
+            n_features=detector_coords.shape[1],
+        ).to(mp.master_pattern.device)
+
         # iterate over the dictionary in chunks
         for ori_batch in pb:
             # use orientations to rotate the rays to detector pixel positions
@@ -406,9 +400,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
-- 
2.43.0


From 154b8b03cc919d45d91edfc32450c4a229a39f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:47 +0000
Subject: [PATCH 66/66] fix: indexing again does not mix in the phases of an
 earlier run

---
 ebsdtorch/ebsd/indexing.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 19438ee..64999c8 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -56,6 +56,9 @@ def dictionary_index_orientations(
     if isinstance(master_patterns, MasterPattern):
         master_patterns = [master_patterns]
 
+    # matches of an earlier run (possibly with more phases) do not take part
+    experiment_patterns.raw_indexing_results = {}
+
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
@@ -259,6 +262,9 @@ def pca_dictionary_index_orientations(
     if isinstance(master_patterns, MasterPattern):
         master_patterns = [master_patterns]
 
+    # matches of an earlier run (possibly with more phases) do not take part
+    experiment_patterns.raw_indexing_results = {}
+
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
-- 
2.43.0


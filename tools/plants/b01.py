Q = "s2_and_so3/quaternions.py"; O = "s2_and_so3/orientations.py"
BUGS = [
 dict(id="align_near_identity", prop="C01", file=Q,
  edits=[("valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999", "valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.99")],
  needs="start and finish directions within about 8 degrees of each other", breaks="the quaternion between two close but different directions is the identity",
  demo='''
import math, torch
from ebsdtorch.s2_and_so3.quaternions import quaternion_rotate_sets_sphere, qu_apply
a = torch.tensor([[0.0, 0.0, 1.0]], dtype=torch.float64)
t = 0.08
b = torch.tensor([[math.sin(t), 0.0, math.cos(t)]], dtype=torch.float64)
q = quaternion_rotate_sets_sphere(a, b)
assert (qu_apply(q, a) - b).abs().max() < 1e-6, qu_apply(q, a)
'''),
 dict(id="prod_axis_std", prop="C01", file=Q,
  edits=[("ow = aw * bw - ax * bx - ay * by - az * bz\n    return ow.abs()", "ow = aw * bw - ax * bx - ay * by - az * bz\n    return ow.clamp(min=0.0)")],
  needs="a product whose real part is negative", breaks="magnitude of the real part is zero instead of positive for products with negative real part",
  demo='''
import torch
from ebsdtorch.s2_and_so3.quaternions import qu_prod_pos_real
a = torch.tensor([[0.0, 0.6, 0.8, 0.0]], dtype=torch.float64)
assert (qu_prod_pos_real(a, a) - 1).abs().max() < 1e-9
'''),
 dict(id="ro2ax_half_turn", prop="C02", file=O,
  edits=[("ax[mask_inf_ro, :3] = ro[mask_inf_ro, :3]", "ax[mask_inf_ro, :3] = torch.abs(ro[mask_inf_ro, :3])")],
  needs="a half turn about an axis whose components have mixed signs", breaks="the axis of half turns loses its relative signs",
  demo='''
import math, torch
from ebsdtorch.s2_and_so3.orientations import ro2ax
r = math.sqrt(0.5)
ax = ro2ax(torch.tensor([[r, -r, 0.0, float("inf")]], dtype=torch.float64))
v = ax[0, :3]
assert abs(v[0] * v[1] + 0.5) < 1e-9, ax
'''),
 dict(id="ho_small_angle", prop="C04", file=O,
  edits=[("ho[(angle.squeeze(-1) < 1e-8)] = 0.0", "ho[(angle.squeeze(-1) < 1e-2)] = 0.0")],
  needs="a rotation by less than a hundredth of a radian", breaks="small rotations collapse to the identity",
  demo='''
import math, torch
from ebsdtorch.s2_and_so3.orientations import qu2ho
w = 0.008
h = qu2ho(torch.tensor([[math.cos(w / 2), math.sin(w / 2), 0.0, 0.0]], dtype=torch.float64))
assert abs(float(h[0, 0]) - (0.75 * (w - math.sin(w))) ** (1 / 3)) < 1e-6, h
'''),
 dict(id="zh_unnormalised", prop="C05", file=O,
  edits=[("b2 = a2 - torch.sum(b1 * a2, dim=-1, keepdim=True) * b1", "b2 = a2 - torch.sum(b1 * a2, dim=-1, keepdim=True) * a1")],
  needs="a first triple that is not of unit length and a second that is not perpendicular to it", breaks="the matrix is not orthogonal",
  demo='''
import torch
from ebsdtorch.s2_and_so3.orientations import zh2om
m = zh2om(torch.tensor([[2.0, 0.0, 0.0, 1.0, 1.0, 0.5]], dtype=torch.float64))
assert (m @ m.transpose(-1, -2) - torch.eye(3, dtype=torch.float64)).abs().max() < 1e-9, m
'''),
 dict(id="bunge_negative_real", prop="C03", file=O,
  edits=[("return qu * torch.where(qu[..., 0] < 0, -1, 1).unsqueeze(-1)", "return qu * torch.where(qu[..., 0] < -1e-3, -1, 1).unsqueeze(-1)")],
  needs="a triplet close to a half turn on the far side", breaks="the returned quaternion has a negative real part",
  demo='''
import math, torch
from ebsdtorch.s2_and_so3.orientations import bu2qu
q = bu2qu(torch.tensor([[math.pi / 2 + 0.001, 0.4, math.pi / 2]], dtype=torch.float64))
assert float(q[0, 0]) >= 0, q
'''),
]

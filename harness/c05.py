"""C05 continuous 6D form"""
import torch
from vf.harness import harness
from .common import *
from .c02 import std_ok

BATCH = [((1,),), ((2,),), ((),), ((2, 1),)]


def six(c, batch, name="d"):
    d = c.var(name, batch + (6,), -2, 2, edges=(0, 1, -1))
    a, b = d[..., :3], d[..., 3:]
    n = cross(a, b)
    c.assume(dot(a, a) >= 1e-4)
    c.assume(dot(n, n) >= 1e-6)
    return d, a, b


@harness("C05", cases=BATCH[:1] + BATCH[2:3])
def proper(c, batch):
    """six numbers spanning a plane (box [-2, 2]): proper orthogonal matrix, first row along the first triple, second row in the plane"""
    o = c.mod(O)
    d, a, b = six(c, batch)
    d0 = d.clone()
    M = o.zh2om(d)
    c.shape("matrix", M, batch + (3, 3))
    c.eq("orthogonal", matmul(M, M.transpose(-1, -2)), torch.eye(3, dtype=F64).expand(batch + (3, 3)))
    c.eq("det", det3(M), one(*batch))
    na = dot(a, a).sqrt().unsqueeze(-1)
    c.eq("first row", M[..., 0, :] * na, a)
    c.true("second row on the side of the second triple", dot(M[..., 1, :], b) > 0)
    n = cross(a, b)
    c.eq("second row in the plane", dot(M[..., 1, :], n), zero(*batch))
    c.unmutated("d", d, d0)


@harness("C05", cases=BATCH)
def shapes(c, batch):
    """Gram-Schmidt form for batch shapes of rank 0 to 2"""
    o = c.mod(O)
    d, a, b = six(c, batch)
    M = o.zh2om(d)
    c.shape("matrix", M, batch + (3, 3))
    na = dot(a, a).sqrt().unsqueeze(-1)
    c.eq("first row", M[..., 0, :] * na, a)
    n = cross(a, b)
    c.eq("third row", M[..., 2, :] * dot(n, n).sqrt().unsqueeze(-1), n)


@harness("C05")
def invariance(c):
    """positive scaling of either triple and adding a multiple of the first to the second do not change the rotation"""
    o = c.mod(O)
    q = c.unit_quat("q", (1,))
    R = qmat(q)
    s = c.var("s", (3,), 0.01, 10, edges=(1, 0.01))
    t = c.var("t", (1,), -3, 3, edges=(0,))
    d = torch.cat([s[0] * R[..., 0, :], s[1] * R[..., 1, :] + t * R[..., 0, :]], -1)
    c.eq("rotation", o.zh2om(d), R)
    c.eq("quaternion", qmat(o.zh2qu(d)), R)


@harness("C05", cases=BATCH)
def round_trip(c, batch):
    """matrix and quaternion to six numbers and back"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    R = qmat(q)
    R0 = R.clone()
    z = o.om2zh(R)
    c.shape("six", z, batch + (6,))
    c.eq("rows", z, R[..., :2, :].reshape(batch + (6,)))
    c.eq("back", o.zh2om(z), R)
    z.zero_()
    c.unmutated("matrix not aliased", R, R0)
    z = o.qu2zh(q)
    c.eq("rows of q", z, R0[..., :2, :].reshape(batch + (6,)))


@harness("C05", cases=[((1,),), ((),)])
def round_trip_qu(c, batch):
    """quaternion to six numbers and back to a quaternion"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    std_ok(c, "q", o.zh2qu(o.qu2zh(q)), q, batch)

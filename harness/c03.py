"""C03 Bunge Euler angles"""
from fractions import Fraction

import torch
from vf.harness import harness
from .common import *
from .c02 import std_ok, rodrigues


def elem(a, ax):
    """quaternion of a rotation by a about z (3) or x (1)"""
    c, s, z = torch.cos(a / 2), torch.sin(a / 2), torch.zeros_like(a)
    return torch.stack([c, s if ax == 1 else z, z, s if ax == 3 else z], -1)


def bunge_quat(p1, P, p2):
    """passive rotation of the ZXZ triplet: conjugate of Rz(p1) Rx(P) Rz(p2)"""
    return qconj(ham(ham(elem(p1, 3), elem(P, 1)), elem(p2, 3)))


def bunge_matrix(c1, s1, C, S, c2, s2):
    """passive orientation matrix from the cosines and sines of the triplet"""
    return torch.stack([torch.stack([c1 * c2 - s1 * s2 * C, s1 * c2 + c1 * s2 * C, s2 * S], -1),
                        torch.stack([-c1 * s2 - s1 * c2 * C, -s1 * s2 + c1 * c2 * C, c2 * S], -1),
                        torch.stack([s1 * S, -c1 * S, C], -1)], -2)


def mat_of(bu):
    a, b, d = bu.unbind(-1)
    return bunge_matrix(torch.cos(a), torch.sin(a), torch.cos(b), torch.sin(b), torch.cos(d), torch.sin(d))


def ranges(c, label, bu, batch):
    c.shape(label, bu, batch + (3,))
    t = 2 * torch.pi + 1e-9
    c.true(label + " phi1", (bu[..., 0] >= 0) & (bu[..., 0] <= t))
    c.true(label + " Phi", (bu[..., 1] >= 0) & (bu[..., 1] <= torch.pi + 1e-9))
    c.true(label + " phi2", (bu[..., 2] >= 0) & (bu[..., 2] <= t))


def triplet(c, batch):
    return torch.stack([c.angle("p1", 0, 2, batch), c.angle("P", 0, 1, batch), c.angle("p2", 0, 2, batch)], -1)


BATCH = [((1,),), ((2,),), ((),), ((2, 1),)]


@harness("C03", cases=BATCH)
def bu_qu(c, batch):
    """triplet to quaternion: all phi1, phi2 in [0, 2 pi], Phi in [0, pi]"""
    o = c.mod(O)
    bu = triplet(c, batch)
    b0 = bu.clone()
    q = o.bu2qu(bu)
    ref = bunge_quat(*bu.unbind(-1))
    c.shape("q", q, batch + (4,))
    c.true("real part not negative", q[..., 0] >= 0)
    c.eq("quaternion", q, torch.where(ref[..., :1] < 0, -1.0, 1.0) * ref)
    c.unmutated("bu", bu, b0)


@harness("C03", cases=[((1,),), ((2,),), ((),)])
def bu_om(c, batch):
    """triplet to matrix"""
    o = c.mod(O)
    bu = triplet(c, batch)
    M = o.bu2om(bu)
    c.shape("M", M, batch + (3, 3))
    c.eq("matrix", M, mat_of(bu))


@harness("C03", cases=BATCH)
def qu_bu(c, batch):
    """quaternion to triplet: every unit quaternion; ranges and same rotation"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    q0 = q.clone()
    bu = o.qu2bu(q)
    ranges(c, "bu", bu, batch)
    c.eq("matrix", mat_of(bu), qmat(q))
    c.unmutated("q", q, q0)


LOCK = [[1.0, 0, 0, 0], [0.6, 0, 0, -0.8], [-0.6, 0, 0, -0.8], [0, 0, 0, 1], [0, 1.0, 0, 0], [0, 0.6, -0.8, 0], [0, -0.6, -0.8, 0], [0, 0, 1, 0]]


@harness("C03")
def gimbal(c):
    """gimbal lock: rotations about z and half turns about axes in the plane, in a batch with a general rotation"""
    o = c.mod(O)
    a = c.angle("a", 0, 2, (1,), base=1)
    z = zero(1)
    q1 = torch.stack([torch.cos(a), z, z, torch.sin(a)], -1)
    q2 = torch.stack([z, torch.cos(a), torch.sin(a), z], -1)
    q = c.unit_quat("q", (1,))
    A = torch.cat([q1, t64(LOCK[:4]), q2, t64(LOCK[4:]), q])
    bu = o.qu2bu(A)
    ranges(c, "bu", bu, (11,))
    c.eq("matrix", mat_of(bu), qmat(A))


def lock_free(c, q):
    c.assume((q[..., 0] ** 2 + q[..., 3] ** 2 >= 1e-6) & (q[..., 1] ** 2 + q[..., 2] ** 2 >= 1e-6))


@harness("C03")
def om_bu(c):
    """matrix to triplet, all matrices"""
    o = c.mod(O)
    q = c.unit_quat("q", (1,))
    bu = o.om2bu(qmat(q))
    ranges(c, "bu", bu, (1,))
    c.eq("matrix", mat_of(bu), qmat(q))


@harness("C03")
def ax_bu(c):
    """axis-angle to triplet, all axes, angles in [0, pi]"""
    o = c.mod(O)
    n = c.unit_vec("n", (1,))
    th = c.angle("th", 0, 1, (1,))
    bu = o.ax2bu(torch.cat([n, th.unsqueeze(-1)], -1))
    ranges(c, "bu", bu, (1,))
    c.eq("matrix", mat_of(bu), rodrigues(n, th))


@harness("C03")
def ro_bu(c):
    """Rodrigues to triplet, tangents in [0, 1000] and infinite"""
    o = c.mod(O)
    n = c.unit_vec("n", (2,))
    t = c.var("t", (1,), 0, 1000, edges=(0, 1, 1000), sample=lambda r: r.choice([r.uniform(0, 2), r.uniform(0, 1000)]))
    bu = o.ro2bu(torch.cat([n, torch.stack([t, torch.full((1,), float("inf"), dtype=F64)])], -1))
    ranges(c, "bu", bu, (2,))
    h = torch.sqrt(1 + t * t)
    q = torch.cat([torch.cat([1 / h, n[0] * t / h]).unsqueeze(0), torch.cat([zero(1), n[1]]).unsqueeze(0)])
    c.eq("matrix", mat_of(bu), qmat(q))


def triplet_sd(c):
    """all triplets, given by the half sum and half difference of the outer angles"""
    s, d, P = c.angle("s", 0, 2, (1,), base=1), c.angle("d", -1, 1, (1,), base=1), c.angle("P", 0, 1, (1,), base=2)
    c.assume((s + d >= 0) & (s - d >= 0) & (s + d <= 2 * torch.pi) & (s - d <= 2 * torch.pi))
    k, n = torch.cos(P / 2), torch.sin(P / 2)
    q = torch.stack([k * torch.cos(s), -n * torch.cos(d), -n * torch.sin(d), -k * torch.sin(s)], -1)
    return torch.stack([s + d, P, s - d], -1), q


@harness("C03")
def bu_ax(c):
    """triplet to axis-angle"""
    o = c.mod(O)
    bu, ref = triplet_sd(c)
    ax = o.bu2ax(bu)
    c.eq("unit axis", dot(ax[..., :3], ax[..., :3]), one(1))
    c.true("angle range", (ax[..., 3] >= 0) & (ax[..., 3] <= torch.pi + 1e-9))
    c.eq("rotation", rodrigues(ax[..., :3], ax[..., 3]), qmat(ref))


@harness("C03")
def bu_ro(c):
    """triplet to Rodrigues (half turns excluded)"""
    o = c.mod(O)
    bu, ref = triplet_sd(c)
    c.assume(ref[..., 0].abs() >= 1e-6)
    ro = o.bu2ro(bu)
    w = ref[..., 0].abs()
    s = torch.where(ref[..., :1] < 0, -1.0, 1.0)
    c.eq("unit axis", dot(ro[..., :3], ro[..., :3]), one(1))
    c.true("tangent", ro[..., 3] >= 0)
    c.eq("axis times tangent", ro[..., :3] * ro[..., 3:] * w.unsqueeze(-1), s * ref[..., 1:])


@harness("C03", cases=[(0,), (1,), (2,)])
def round_trip(c, k):
    """triplet to quaternion and back: Phi in (0, pi) returns the same rotation (full ranges split in three parts)"""
    o = c.mod(O)
    p1 = c.angle("p1", Fraction(2 * k, 3), Fraction(2 * k + 2, 3), (1,))
    P = c.angle("P", Fraction(1, 100), Fraction(99, 100), (1,))
    p2 = c.angle("p2", 0, 2, (1,))
    bu = torch.stack([p1, P, p2], -1)
    back = o.qu2bu(o.bu2qu(bu))
    ranges(c, "bu", back, (1,))
    c.eq("rotation", mat_of(back), mat_of(bu))

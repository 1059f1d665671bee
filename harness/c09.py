"""C09 disorientation under crystal symmetry"""
import torch
from vf.harness import harness
from .common import *
from .c07 import is_operator

SMALL = [(1, 1), (1, 3), (2, 2), (2, 6), (3, 3), (3, 6), (4, 4), (6, 6), (6, 2), (3, 7), (7, 3)]
BIG = [(5, 5), (7, 7), (8, 8), (9, 9), (10, 10), (11, 11), (5, 11), (1, 11), (11, 1), (4, 8)]


def cos_half(t1, m, t2):
    """|Re(g1 m g2)| for all pairs, (..., K1*K2)"""
    a = ham(t1, m.unsqueeze(-2).expand(m.shape[:-1] + t1.shape))          # ..., K1, 4
    b = qconj(t2)
    return (a.unsqueeze(-2) * b).sum(-1).reshape(m.shape[:-1] + (-1,)).abs()


def angle_from(r):
    return 2.0 * torch.acos(r.amax(-1).clamp(max=1.0))


@harness("C09", cases=SMALL + BIG, budget=200)
def minimum(c, l1, l2):
    """the disorientation angle of any two unit quaternions (batch of 1) is twice the arc cosine of the largest |Re(g1 q1 q2* g2)| over all pairs
    of operators, in both modules, arguments not modified"""
    f, m, g = c.mod(FZ), c.mod(MIS), c.mod(G)
    a, b = c.unit_quat("a", (1,)), c.unit_quat("b", (1,))
    a0, b0 = a.clone(), b.clone()
    ref = angle_from(cos_half(g.laue_elements(l1), ham(a, qconj(b)), g.laue_elements(l2)))
    c.eq("misorientation module", m.disori_angle_laue(a, b, l1, l2), ref)
    c.eq("orientation module", f.disori_angle_laue(a, b, l1, l2), ref)
    c.unmutated("a", a, a0)
    c.unmutated("b", b, b0)


@harness("C09", cases=SMALL + BIG, budget=200)
def invariance(c, l1, l2):
    """replacing either orientation by an equivalent g q (all of them for small classes, two for large ones), or exchanging the arguments together with their groups, leaves the angle unchanged"""
    f, g = c.mod(FZ), c.mod(G)
    m = c.mod(MIS)
    t1, t2 = g.laue_elements(l1), g.laue_elements(l2)
    a, b = c.unit_quat("a", (1,)), c.unit_quat("b", (1,))
    ref = m.disori_angle_laue(a, b, l1, l2)
    c.eq("swapped", m.disori_angle_laue(b, a, l2, l1), ref)
    for k in (range(1, len(t1)) if len(t1) < 3 or len(t1) * len(t2) < 20 else (1, len(t1) - 1)):
        c.eq("first argument", m.disori_angle_laue(ham(t1[k:k + 1], a), b, l1, l2), ref)
    for k in (range(1, len(t2)) if len(t2) < 3 or len(t1) * len(t2) < 20 else (1, len(t2) - 1)):
        c.eq("second argument", m.disori_angle_laue(a, ham(t2[k:k + 1], b), l1, l2), ref)


@harness("C09", cases=[(k,) for k in range(1, 12)], budget=200)
def equivalents(c, laue):
    """the angle between any orientation and each of its equivalents is zero"""
    f, m, g = c.mod(FZ), c.mod(MIS), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", ())
    n = len(t)
    qs = q.expand(n, 4).clone()
    e = ham(t, qs)
    c.eq("misorientation module", torch.cos(m.disori_angle_laue(e, qs, laue, laue) / 2), one(n))
    c.eq("orientation module", torch.cos(f.disori_angle_laue(e, qs, laue, laue) / 2), one(n))
    c.eq("misalignment", torch.cos(f.ori_angle_laue(e, qs, laue) / 2), one(n))


@harness("C09", cases=[(11, 0)], budget=600, tier="thorough")
def misalignment_cubic(c, laue, two):
    """the same for the cubic class"""
    misalignment(c, laue, two)


@harness("C09", cases=[(k, 0) for k in range(1, 11)] + [(1, 1), (2, 1), (3, 1)], budget=200)
def misalignment(c, laue, two):
    """the one sided angle of any unit quaternion with real part > 0 and the identity (small classes: of any two unit quaternions) is twice the arc
    cosine of the largest |Re(g q1 q2*)|"""
    f, g = c.mod(FZ), c.mod(G)
    a, b = (c.unit_quat("a", (1,)), c.unit_quat("b", (1,))) if two else (c.unit_quat("a", (1,), wpos=True), t64([[1, 0, 0, 0]]))
    ref = cos_half(g.laue_elements(laue), ham(a, qconj(b)), t64([[1, 0, 0, 0]])).amax(-1)
    c.eq("angle", f.ori_angle_laue(a, b, laue), 2.0 * torch.acos(ref))


@harness("C09", cases=SMALL[:-1], budget=200)
def quaternion(c, l1, l2):
    """the reduced misorientation has the largest real part of all equivalents g1 m g2 and is, up to sign, one of them"""
    f, m, g = c.mod(FZ), c.mod(MIS), c.mod(G)
    t1, t2 = g.laue_elements(l1), g.laue_elements(l2)
    q = c.unit_quat("q", (1,))
    out = m.misori_to_fz_laue(q, l1, l2)
    check_quaternion(c, out, q, t1, t2, "reduced")


@harness("C09", cases=[(1, 1), (1, 3), (2, 2), (3, 3), (4, 4), (6, 6)], budget=200)
def quaternion_of_two(c, l1, l2):
    """both routines for the disorientation quaternion of two orientations return an equivalent g1 q1 q2* g2, up to sign, with the largest real part"""
    f, m, g = c.mod(FZ), c.mod(MIS), c.mod(G)
    t1, t2 = g.laue_elements(l1), g.laue_elements(l2)
    a, b = c.unit_quat("a", (1,)), t64([[0.5, 0.1, 0.7, 0.5]])
    check_quaternion(c, m.disorientation_naive(a, b, l1, l2), ham(a, qconj(b)), t1, t2, "naive")
    check_quaternion(c, f.disorientation(a, b, l1, l2), ham(a, qconj(b)), t1, t2, "orientation module")


def check_quaternion(c, out, q, t1, t2, name):
    c.shape(name, out, (1, 4))
    r = cos_half(t1, q, t2)
    c.true(name + " largest", r.amax(-1) <= out[..., 0].abs() + 1e-9)
    e = ham(ham(t1, q.expand(len(t1), 4)).unsqueeze(1), t2)
    e = e.reshape(1, -1, 4)
    o = out.unsqueeze(1)
    c.true(name + " equivalent", (((e - o).abs().amax(-1) <= 1e-9) | ((e + o).abs().amax(-1) <= 1e-9)).any(-1))


@harness("C09", cases=[(3, 6), (11, 9)], budget=200)
def rows(c, l1, l2):
    """each row of a batch gets the angle it would get on its own, for batch shapes (2,) (one symbolic row, one fixed) and shapes must agree"""
    f, m = c.mod(FZ), c.mod(MIS)
    a = c.unit_quat("a", (1,))
    fa, b = t64([[0.5, 0.5, -0.5, 0.5]]), t64([[0.6, 0, 0, 0.8], [0.1, 0.1, 0.7, 0.7]])
    both = torch.cat([a, fa])
    for mod in (f, m):
        out = mod.disori_angle_laue(both, b, l1, l2)
        c.shape("shape", out, (2,))
        c.eq("first", out[:1], mod.disori_angle_laue(a, b[:1], l1, l2))
        c.eq("second", out[1:], mod.disori_angle_laue(fa, b[1:], l1, l2))
        c.raises("different shapes", ValueError, lambda: mod.disori_angle_laue(both, b[:1], l1, l2))

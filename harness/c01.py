"""C01 quaternion algebra and rotation action"""
from fractions import Fraction

import torch
from vf.harness import harness
from .common import *


@harness("C01")
def product(c):
    """product, partial products and triple product equal the Hamilton product (batches of 2, both signs)"""
    m = c.mod(Q)
    a = c.unit_quat("a", (2,))
    b = c.unit_quat("b", (2,))
    a0, b0 = a.clone(), b.clone()
    h = ham(a, b)
    r = m.qu_prod_raw(a, b)
    c.eq("raw product", r, h)
    s = torch.where(h[..., :1] < 0, -1.0, 1.0)
    p = m.qu_prod(a, b)
    c.eq("product", p, s * h)
    c.true("real part of the product not negative", p[..., 0] >= 0)
    c.eq("product keeps the norm", (r * r).sum(-1), one(2))
    c.eq("axis part", m.qu_prod_axis(a, b), h[..., 1:])
    c.eq("real part", m.qu_prod_pos_real(a, b), h[..., 0].abs())
    c.unmutated("a", a, a0)
    c.unmutated("b", b, b0)


@harness("C01")
def general(c):
    """raw products, conjugation and standardisation of arbitrary (not unit) quaternions; associativity"""
    m = c.mod(Q)
    a = c.var("a", (4,), -3, 3, edges=(0, 1, -1))
    b = c.var("b", (4,), -3, 3, edges=(0, 1, -1))
    d = c.var("d", (4,), -3, 3, edges=(0, 1, -1))
    c.eq("raw", m.qu_prod_raw(a, b), ham(a, b))
    c.eq("axis", m.qu_prod_axis(a, b), ham(a, b)[1:])
    c.eq("associative", m.qu_prod_raw(m.qu_prod_raw(a, b), d), m.qu_prod_raw(a, m.qu_prod_raw(b, d)))
    c.eq("conj", m.qu_conj(a), qconj(a))
    c.eq("conj reverses", m.qu_conj(m.qu_prod_raw(a, b)), m.qu_prod_raw(m.qu_conj(b), m.qu_conj(a)))
    s = m.qu_std(a)
    c.eq("std", s, torch.where(a[0] < 0, -a, a))
    c.true("std real", s[0] >= 0)


@harness("C01")
def triple(c):
    """triple product magnitude"""
    m = c.mod(Q)
    a, b, d = c.unit_quat("a", (1,)), c.unit_quat("b", (1,)), c.unit_quat("d", (1,))
    c.eq("triple", m.qu_triple_prod_pos_real(a, b, d), ham(a, ham(b, d))[..., 0].abs())


@harness("C01")
def normalise(c):
    """normalisation of any non-zero quaternion"""
    m = c.mod(Q)
    a = c.var("a", (2, 4), -3, 3, edges=(0, 1, -1))
    n2 = (a * a).sum(-1)
    c.assume(n2 >= 1e-4)
    r = m.qu_norm(a)
    c.eq("unit", (r * r).sum(-1), one(2))
    c.eq("direction", r * n2.sqrt().unsqueeze(-1), a)
    s = m.qu_norm_std(a)
    c.eq("norm_std", s, torch.where(a[..., :1] < 0, -r, r))


@harness("C01")
def action(c):
    """rotation of points: matches the rotation matrix, composes, preserves length, q and -q agree, inverse undoes"""
    m = c.mod(Q)
    q = c.unit_quat("q", (1,))
    p = c.unit_quat("p", (1,))
    v = c.var("v", (1, 3), -2, 2, edges=(0, 1, -1))
    r = m.qu_apply(q, v)
    c.eq("matrix", r, matvec(qmat(q), v))
    c.eq("length", (r * r).sum(-1), (v * v).sum(-1))
    c.eq("sign", m.qu_apply(-q, v), r)
    c.eq("inverse", m.qu_apply(m.qu_conj(q), r), v)
    c.eq("composition", m.qu_apply(p, r), m.qu_apply(m.qu_prod(p, q), v))


@harness("C01")
def group(c):
    """identity and inverse"""
    m = c.mod(Q)
    q = c.unit_quat("q", (2,))
    e = t64([1.0, 0, 0, 0])
    c.eq("inverse", m.qu_prod_raw(q, m.qu_conj(q)), e.expand(2, 4))
    c.eq("left inverse", m.qu_prod(m.qu_conj(q), q), e.expand(2, 4))
    c.eq("identity", m.qu_prod_raw(q, e), q)
    c.eq("identity left", m.qu_prod_raw(e, q), q)


SHAPES = [((4,), (4,)), ((2, 4), (4,)), ((4,), (3, 4)), ((2, 1, 4), (1, 3, 4)), ((1, 4), (2, 2, 4))]


@harness("C01", cases=SHAPES)
def broadcasting(c, sa, sb):
    """broadcast batches: each output element is the product of its own pair"""
    m = c.mod(Q)
    a = c.var("a", sa, -2, 2)
    b = c.var("b", sb, -2, 2)
    shp = torch.broadcast_shapes(sa, sb)
    A, B = a.expand(shp), b.expand(shp)
    h = ham(A, B)
    r = m.qu_prod_raw(a, b)
    c.shape("raw", r, shp)
    c.eq("raw", r, h)
    c.eq("axis", m.qu_prod_axis(a, b), h[..., 1:])
    c.eq("real", m.qu_prod_pos_real(a, b), h[..., 0].abs())
    p = m.qu_prod(a, b)
    c.shape("prod", p, shp)
    c.eq("prod", p, torch.where(h[..., :1] < 0, -h, h))
    v = b[..., 1:]
    c.eq("apply conj shape", m.qu_conj(a), qconj(a))
    s = m.qu_std(a)
    c.eq("std", s, torch.where(a[..., :1] < 0, -a, a))
    c.shape("apply", m.qu_apply(a, v), shp[:-1] + (3,))


@harness("C01", cases=[((2, 4), (2, 3)), ((2, 1, 4), (1, 2, 3)), ((4,), (2, 3)), ((2, 4), (3,))])
def apply_batches(c, sa, sb):
    """rotation of points in broadcast batches"""
    m = c.mod(Q)
    q = c.unit_quat("q", sa[:-1])
    v = c.var("v", sb, -2, 2)
    r = m.qu_apply(q, v)
    shp = torch.broadcast_shapes(sa[:-1], sb[:-1])
    c.shape("apply", r, shp + (3,))
    c.eq("apply", r, matvec(qmat(q).expand(shp + (3, 3)), v.expand(shp + (3,))))


@harness("C01")
def angle(c):
    """rotation angle: cos(angle/2) is the real part, angle in [0, 2pi]"""
    m = c.mod(Q)
    q = c.unit_quat("q", (2,))
    a = m.qu_angle(q)
    c.shape("angle", a, (2,))
    c.eq("cos half", torch.cos(a / 2), q[..., 0])
    c.true("range", (a >= 0) & (a <= 2 * torch.pi))


def frame(c, lo, hi):
    """all pairs of unit vectors at an angle al in [lo*pi, hi*pi]: u, v in the plane of an arbitrary frame"""
    p = c.unit_quat("p", (1,))
    al = c.angle("al", lo, hi, (1,), base=2, edges=[lo, hi])
    R = qmat(p)
    u = R[..., 0]
    v = torch.cos(al).unsqueeze(-1) * u + torch.sin(al).unsqueeze(-1) * R[..., 1]
    return u, v, al


@harness("C01")
def align(c):
    """quaternion taking one unit vector to another, angle between them in [0.002, pi-0.002]"""
    m = c.mod(Q)
    u, v, al = frame(c, Fraction(2, 3000), 1 - Fraction(2, 3000))
    q = m.quaternion_rotate_sets_sphere(u, v)
    c.shape("q", q, (1, 4))
    c.eq("unit", (q * q).sum(-1), one(1))
    c.eq("rotates", matvec(qmat(q), u), v)
    c.eq("axis perpendicular", dot(q[..., 1:], u), zero(1))
    c.eq("angle", q[..., 0], torch.cos(al / 2))


@harness("C01")
def align_near(c):
    """directions within 1e-3 rad of each other: a unit quaternion taking start to finish within 2e-3"""
    m = c.mod(Q)
    u, v, al = frame(c, 0, Fraction(1, 3000))
    q = m.quaternion_rotate_sets_sphere(u, v)
    c.eq("unit", (q * q).sum(-1), one(1))
    w = matvec(qmat(q), u)
    c.true("rotates", dot(w, v) >= 0.99999)


@harness("C01")
def align_opposite(c):
    """opposite directions: a half turn about a perpendicular axis"""
    m = c.mod(Q)
    u = c.unit_vec("u", (1,))
    q = m.quaternion_rotate_sets_sphere(u, -u)
    c.eq("unit", (q * q).sum(-1), one(1))
    c.eq("rotates", matvec(qmat(q), u), -u)


@harness("C01")
def align_batch(c):
    """batch of pairs: rows are independent"""
    m = c.mod(Q)
    u, v, al = frame(c, Fraction(2, 3000), 1 - Fraction(2, 3000))
    e = t64([[0.0, 0, 1], [1.0, 0, 0], [0.6, 0.8, 0]])
    f = t64([[0.0, 0, 1], [0, 1.0, 0], [-0.6, -0.8, 0]])
    q = m.quaternion_rotate_sets_sphere(torch.cat([e, u]), torch.cat([f, v]))
    c.shape("q", q, (4, 4))
    c.eq("last row as alone", q[3:], m.quaternion_rotate_sets_sphere(u, v))
    c.eq("rotates", matvec(qmat(q[:3]), e), f)


@harness("C01", cases=[((1,),), ((2,),), ((),), ((1, 2),)])
def slerp(c, batch):
    """slerp between quaternions with |dot| <= 0.9999: at fraction t of their angle in their plane; batches elementwise"""
    m = c.mod(Q)
    a = c.unit_quat("a", batch)
    b = c.unit_quat("b", batch)
    d = dot(a, b)
    c.assume(d.abs() <= 0.9999)
    th = torch.acos(d)
    for t in (0.0, 0.25, 0.5, 1.0):
        r = m.qu_slerp(a, b, t)
        c.shape(f"slerp {t}", r, batch + (4,))
        w1 = torch.sin((1 - t) * th) / torch.sin(th)
        w2 = torch.sin(t * th) / torch.sin(th)
        c.eq(f"slerp {t}", r, a * w1.unsqueeze(-1) + b * w2.unsqueeze(-1))


@harness("C01")
def slerp_same(c):
    """slerp between equal quaternions returns that quaternion for every t"""
    m = c.mod(Q)
    a = c.unit_quat("a", (1,))
    for t in (0.0, 0.5, 1.0):
        c.eq(f"t={t}", m.qu_slerp(a, a.clone(), t), a)

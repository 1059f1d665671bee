"""C02 quaternion / matrix / axis-angle / Rodrigues conversions"""
from fractions import Fraction

import torch
from vf.harness import harness
from .common import *

BATCH = [((1,),), ((2,),), ((),), ((1, 1),), ((2, 1),)]


def std_ok(c, label, q, ref, batch=None):
    """q is ref up to the sign that makes the real part not negative"""
    if batch is not None:
        c.shape(label, q, batch + (4,))
    c.true(label + " real part not negative", q[..., 0] >= 0)
    c.eq(label + " unit", dot(q, q), torch.ones_like(ref[..., 0]))
    c.eq(label + " same rotation", qmat(q), qmat(ref))


@harness("C02", cases=BATCH)
def qu_om(c, batch):
    """quaternion to matrix: every unit quaternion, both signs; proper orthogonal; batch shapes of rank 0 to 2"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    q0 = q.clone()
    M = o.qu2om(q)
    c.shape("matrix", M, batch + (3, 3))
    c.eq("rotation", M, qmat(q))
    c.eq("orthogonal", matmul(M, M.transpose(-1, -2)), torch.eye(3, dtype=F64).expand(batch + (3, 3)))
    c.eq("proper", det3(M), one(*batch))
    c.unmutated("q", q, q0)


@harness("C02", cases=BATCH)
def om_qu(c, batch):
    """matrix to quaternion for the matrix of every unit quaternion (all branches, half turns, identity)"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    M = qmat(q)
    M0 = M.clone()
    std_ok(c, "quaternion", o.om2qu(M), q, batch)
    c.unmutated("matrix", M, M0)


@harness("C02", cases=BATCH)
def qu_ax(c, batch):
    """quaternion to axis-angle: unit axis, angle in [0, pi], same rotation"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    q0 = q.clone()
    ax = o.qu2ax(q)
    c.shape("ax", ax, batch + (4,))
    c.eq("unit axis", dot(ax[..., :3], ax[..., :3]), one(*batch))
    c.true("angle range", (ax[..., 3] >= 0) & (ax[..., 3] <= torch.pi + 1e-9))
    s = torch.where(q[..., 0] < 0, -1.0, 1.0)
    c.eq("cos half angle", torch.cos(ax[..., 3] / 2), q[..., 0].abs())
    c.eq("axis times sine", ax[..., :3] * torch.sin(ax[..., 3:] / 2), torch.where(q[..., :1] == 0, torch.where(dot(ax[..., :3], q[..., 1:]).unsqueeze(-1) < 0, -1.0, 1.0), s.unsqueeze(-1)) * q[..., 1:])
    c.unmutated("q", q, q0)


def axis_angle(c, batch, lo=0, hi=1, **kw):
    n = c.unit_vec("n", batch)
    th = c.angle("th", lo, hi, batch, base=2, **kw)
    return n, th, torch.cat([n, th.unsqueeze(-1)], -1)


def rodrigues(n, th):
    x, y, z = n.unbind(-1)
    o = torch.zeros_like(x)
    K = torch.stack([torch.stack([o, -z, y], -1), torch.stack([z, o, -x], -1), torch.stack([-y, x, o], -1)], -2)
    s, cc = torch.sin(th)[..., None, None], torch.cos(th)[..., None, None]
    nn = n.unsqueeze(-1) * n.unsqueeze(-2)
    return cc * torch.eye(3, dtype=F64) + s * K + (1 - cc) * nn


@harness("C02", cases=BATCH)
def ax_qu(c, batch):
    """axis-angle to quaternion, angles in [0, pi]"""
    o = c.mod(O)
    n, th, ax = axis_angle(c, batch)
    a0 = ax.clone()
    q = o.ax2qu(ax)
    c.shape("q", q, batch + (4,))
    c.eq("real", q[..., 0], torch.cos(th / 2))
    c.eq("axis", q[..., 1:], n * torch.sin(th / 2).unsqueeze(-1))
    c.eq("rotation", qmat(q), rodrigues(n, th))
    c.unmutated("ax", ax, a0)


@harness("C02", cases=BATCH)
def ax_om(c, batch):
    """axis-angle to matrix, angles in [0.051, pi]"""
    o = c.mod(O)
    n, th, ax = axis_angle(c, batch, Fraction(17, 1000), 1)
    a0 = ax.clone()
    M = o.ax2om(ax)
    c.shape("matrix", M, batch + (3, 3))
    c.eq("rotation", M, rodrigues(n, th))
    c.unmutated("ax", ax, a0)


@harness("C02", cases=[((1,),), ((2,),)])
def ax_om_small(c, batch):
    """axis-angle to matrix, angles in [0, 0.049]: within 1e-7 of the exponential series"""
    o = c.mod(O)
    n = c.unit_vec("n", batch)
    th = c.var("th", batch, 0, Fraction(49, 1000), edges=(0, 0.049))
    ax = torch.cat([n, th.unsqueeze(-1)], -1)
    M = o.ax2om(ax)
    x, y, z = (n * th.unsqueeze(-1)).unbind(-1)
    zr = torch.zeros_like(x)
    K = torch.stack([torch.stack([zr, -z, y], -1), torch.stack([z, zr, -x], -1), torch.stack([-y, x, zr], -1)], -2)
    t2 = (th * th)[..., None, None]
    E = torch.eye(3, dtype=F64) + (1 - t2 / 6) * K + (0.5 - t2 / 24) * matmul(K, K)
    c.le("close", (M - E).abs(), zero(*M.shape), tol=1e-7)


@harness("C02")
def ax_om_mixed(c):
    """axis-angle batch with one tiny and one large angle: rows independent"""
    o = c.mod(O)
    n = c.unit_vec("n", (2,))
    th = c.angle("th", Fraction(17, 1000), 1, (1,))
    ax = torch.cat([n, torch.cat([zero(1), th]).unsqueeze(-1)], -1)
    M = o.ax2om(ax)
    c.eq("rotation", M[1:], rodrigues(n[1:], th))
    c.eq("identity", M[0], torch.eye(3, dtype=F64))
    M = o.ax2om(ax.flip(0))
    c.eq("rotation first", M[:1], rodrigues(n[1:], th))
    c.eq("identity second", M[1], torch.eye(3, dtype=F64))


@harness("C02", cases=BATCH)
def om_ax(c, batch):
    """matrix to axis-angle: matrices of all rotations"""
    o = c.mod(O)
    q = c.unit_quat("q", batch, wpos=True)
    M = qmat(q)
    M0 = M.clone()
    ax = o.om2ax(M)
    c.shape("ax", ax, batch + (4,))
    c.eq("unit axis", dot(ax[..., :3], ax[..., :3]), one(*batch))
    c.true("angle range", (ax[..., 3] >= 0) & (ax[..., 3] <= torch.pi + 1e-9))
    # cos th and n sin th, and the symmetric part n n^T (1 - cos th)
    cc = 2 * q[..., 0] ** 2 - 1
    c.eq("cos angle", torch.cos(ax[..., 3]), cc)
    c.eq("axis times sine", ax[..., :3] * torch.sin(ax[..., 3:]), 2 * q[..., :1] * q[..., 1:])
    n = ax[..., :3]
    c.eq("axis dyad", n.unsqueeze(-1) * n.unsqueeze(-2) * (1 - cc)[..., None, None], 2 * q[..., 1:].unsqueeze(-1) * q[..., 1:].unsqueeze(-2))
    c.unmutated("matrix", M, M0)


@harness("C02", cases=BATCH)
def qu_ro(c, batch):
    """quaternion to Rodrigues: unit axis, tangent of half the angle, infinite at half turns"""
    o = c.mod(O)
    q = c.unit_quat("q", batch)
    c.assume((q[..., 0] == 0) | (q[..., 0].abs() >= 1e-9))
    q0 = q.clone()
    ro = o.qu2ro(q)
    c.shape("ro", ro, batch + (4,))
    c.eq("unit axis", dot(ro[..., :3], ro[..., :3]), one(*batch))
    c.true("tangent not negative", ro[..., 3] >= 0)
    half = q[..., 0] == 0
    c.true("infinite exactly at half turns", torch.isinf(ro[..., 3]) == half)
    t = torch.where(half, 0.0, ro[..., 3])
    w = q[..., 0].abs()
    c.eq("tangent", t * w, torch.where(half, 0.0, dot(q[..., 1:], q[..., 1:]).sqrt()))
    c.eq("axis times tangent", torch.where(half.unsqueeze(-1), 0.0, ro[..., :3] * (t * w).unsqueeze(-1)),
         torch.where(half.unsqueeze(-1), 0.0, q[..., 1:] * torch.where(q[..., :1] < 0, -1.0, 1.0)))
    n = torch.where(half.unsqueeze(-1), ro[..., :3], 0.0)
    v = torch.where(half.unsqueeze(-1), q[..., 1:], 0.0)
    c.eq("axis at half turns", n.unsqueeze(-1) * n.unsqueeze(-2), v.unsqueeze(-1) * v.unsqueeze(-2))
    c.unmutated("q", q, q0)


@harness("C02", cases=[((1,),), ((2,),), ((),), ((2, 1),)])
def ax_ro(c, batch):
    """axis-angle to Rodrigues, angles in [0, 0.999 pi]"""
    o = c.mod(O)
    n, th, ax = axis_angle(c, batch, 0, Fraction(999, 1000))
    a0 = ax.clone()
    ro = o.ax2ro(ax)
    c.shape("ro", ro, batch + (4,))
    c.eq("axis", ro[..., :3], n)
    c.eq("tangent", ro[..., 3] * torch.cos(th / 2), torch.sin(th / 2))
    c.unmutated("ax", ax, a0)


@harness("C02", cases=[((1,),), ((2,),), ((),), ((2, 1),)])
def ro_ax(c, batch):
    """Rodrigues to axis-angle and quaternion and matrix: zero, finite and infinite tangents"""
    o = c.mod(O)
    n = c.unit_vec("n", batch)
    t = c.var("t", batch, 0, 1000, edges=(0, 1, 1000), sample=lambda r: r.choice([r.uniform(0, 2), r.uniform(0, 1000)]))
    inf = c.bools("inf", batch)
    tt = torch.where(inf, float("inf"), t)
    ro = torch.cat([n, tt.unsqueeze(-1)], -1)
    r0 = ro.clone()
    ax = o.ro2ax(ro)
    c.shape("ax", ax, batch + (4,))
    c.eq("unit axis", dot(ax[..., :3], ax[..., :3]), one(*batch))
    c.true("angle range", (ax[..., 3] >= 0) & (ax[..., 3] <= torch.pi + 1e-9))
    h = torch.sqrt(1 + t * t)
    co = torch.where(inf, 0.0, 1 / h)
    si = torch.where(inf, 1.0, t / h)
    c.eq("cos half", torch.cos(ax[..., 3] / 2), co)
    c.eq("axis sine", ax[..., :3] * torch.sin(ax[..., 3:] / 2), n * si.unsqueeze(-1))
    q = o.ro2qu(ro)
    c.shape("q", q, batch + (4,))
    c.eq("real", q[..., 0], co)
    c.eq("axis", q[..., 1:], n * si.unsqueeze(-1))
    c.eq("ro unchanged", torch.where(torch.isinf(ro), 1.0, ro), torch.where(torch.isinf(r0), 1.0, r0))


SPECIAL = [[1.0, 0, 0, 0], [-1.0, 0, 0, 0], [0, 0.6, -0.8, 0], [0, 0, 0, 1.0], [-0.5, 0.5, 0.5, -0.5], [0, -0.48, 0.6, 0.64]]


@harness("C02", cases=[(False,), (True,)])
def round_qu(c, mixed):
    """round trips of quaternions through matrix, axis-angle and Rodrigues form (real part 0 or >= 1e-9), alone and in a batch with special rotations"""
    o = c.mod(O)
    q = c.unit_quat("q", (1,))
    if mixed:
        q = torch.cat([t64(SPECIAL[:3]), q, t64(SPECIAL[3:])])
    batch = q.shape[:-1]
    c.assume((q[..., 0] == 0) | (q[..., 0].abs() >= 1e-9))
    std_ok(c, "om", o.om2qu(o.qu2om(q)), q, batch)
    std_ok(c, "ax", o.ax2qu(o.qu2ax(q)), q, batch)
    std_ok(c, "ro", o.ro2qu(o.qu2ro(q)), q, batch)


@harness("C02", cases=[(False,), (True,)])
def round_om(c, mixed):
    """compositions from the matrix: om2ro and om2ax, ro2om agree with the quaternion; alone and in a batch with special rotations"""
    o = c.mod(O)
    q = c.unit_quat("q", (1,), wpos=True)
    if mixed:
        q = torch.cat([t64(SPECIAL[:3]), q, t64(SPECIAL[3:])])
    batch = q.shape[:-1]
    c.assume((q[..., 0] == 0) | (q[..., 0].abs() >= 1e-9))
    M = qmat(q)
    std_ok(c, "ro", o.ro2qu(o.om2ro(M)), q, batch)
    std_ok(c, "ax", o.ax2qu(o.om2ax(M)), q, batch)


@harness("C02")
def ro_om(c):
    """Rodrigues to matrix, tangents in [0.03, 100]"""
    o = c.mod(O)
    n = c.unit_vec("n", (1,))
    t = c.var("t", (1,), 0.03, 100)
    M = o.ro2om(torch.cat([n, t.unsqueeze(-1)], -1))
    h = torch.sqrt(1 + t * t)
    c.shape("matrix", M, (1, 3, 3))
    c.eq("rotation", M, qmat(torch.cat([(1 / h).unsqueeze(-1), n * (t / h).unsqueeze(-1)], -1)))


@harness("C02", cases=[(f, s) for f, s in (("qu2om", (2, 3)), ("qu2ho", (2, 3)), ("om2qu", (3, 2)), ("om2ax", (2, 3)), ("ax2om", (2, 3)))])
def bad_shape(c, f, s):
    """inputs of the wrong trailing size are rejected"""
    o = c.mod(O)
    if f == "qu2om":
        c.raises("trailing size", (IndexError, ValueError, RuntimeError), lambda: o.qu2om(torch.ones(2, 3)))
    else:
        c.raises("trailing size", (ValueError, RuntimeError), lambda: getattr(o, f)(torch.ones(*s)))

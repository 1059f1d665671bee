"""C07 fundamental zone of orientations"""
import torch
from vf.harness import harness
from .common import *

LAUE = [(k,) for k in range(1, 12)]


def real_parts(t, q):
    """Re(g q) for every operator"""
    return t[:, 0] * q[..., 0:1] - (t[:, 1:] * q[..., None, 1:]).sum(-1)


def is_operator(t, d):
    """d is +-g for a listed operator, up to rounding"""
    return ((t * d.unsqueeze(-2)).sum(-1).abs() > 1 - 1e-9).any(-1)


@harness("C07", cases=LAUE, budget=200)
def reduction(c, laue):
    """any unit quaternion: the reduced one is unit, has real part >= 0, is a symmetry operator times the input, has the largest real part
    of all equivalents"""
    f, g = c.mod(FZ), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", (1,))
    q0 = q.clone()
    out = f.ori_to_fz_laue(q, laue)
    c.shape("shape", out, (1, 4))
    c.eq("unit", dot(out, out), one(1))
    c.true("real part", out[..., 0] >= 0)
    c.true("equivalent", is_operator(t, ham(out, qconj(q))))
    c.true("smallest angle", real_parts(t, q).abs().amax(-1) <= out[..., 0] + 1e-9)
    c.unmutated("q", q, q0)


@harness("C07", cases=[(11,)], budget=600, tier="thorough")
def inside_cubic(c, laue):
    """the membership test accepts every quaternion reduced to the cubic zone that does not lie on a face of it (within 1e-9)"""
    inside(c, laue)


@harness("C07", cases=LAUE[:-1], budget=200)
def inside(c, laue):
    """the membership test accepts every reduced quaternion that does not lie on a face of the zone (within 1e-9)"""
    f, g = c.mod(FZ), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", (1,))
    out = f.ori_to_fz_laue(q, laue)
    near = (real_parts(t[1:], out).abs() > out[..., 0:1] - 1e-9).any(-1)
    c.true("inside", f.ori_in_fz_laue(out, laue) | near)


@harness("C07", cases=LAUE, budget=200)
def representative(c, laue):
    """every equivalent g q of an orientation q in the interior of the zone reduces to q itself (so the result does not depend on the equivalent)"""
    f, g = c.mod(FZ), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", (), wpos=True)
    r = real_parts(t[1:], q)
    c.assume(q[0] >= 1e-6)
    c.assume((q[0] - 1e-6 >= r).all())
    c.assume((q[0] - 1e-6 >= -r).all())
    eq = ham(t, q.expand(len(t), 4))
    out = f.ori_to_fz_laue(eq, laue)
    c.eq("representative", out, q.expand(len(t), 4))


@harness("C07", cases=LAUE, budget=200)
def membership(c, laue):
    """the membership test accepts every unit quaternion with real part >= 0 strictly inside the faces and rejects every one outside (margin 1e-9)"""
    f, g = c.mod(FZ), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", (1,), wpos=True)
    inside = f.ori_in_fz_laue(q, laue)
    c.shape("shape", inside, (1,))
    r = real_parts(t, q).abs()
    w = q[..., 0:1]
    inside_ref = (r <= w - 1e-9) | (torch.arange(len(t)) == 0)
    outside_ref = r > w + 1e-9
    c.true("interior accepted", inside | ~inside_ref.all(-1))
    c.true("exterior rejected", ~(inside & outside_ref.any(-1)))


@harness("C07", cases=LAUE, budget=200)
def brute(c, laue):
    """the brute force membership test accepts every unit quaternion strictly inside the faces and rejects every one outside (margin 1e-9)"""
    f, g = c.mod(FZ), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", (1,), wpos=True)
    r = real_parts(t, q).abs()
    w = q[..., 0:1]
    b = f.ori_in_fz_laue_brute(q, laue)
    c.shape("shape", b, (1,))
    inside_ref = ((r <= w - 1e-9) | (torch.arange(len(t)) == 0)).all(-1)
    outside_ref = (r > w + 1e-9).any(-1)
    c.true("interior accepted", b | ~inside_ref)
    c.true("exterior rejected", ~(b & outside_ref))


@harness("C07", cases=LAUE)
def equivalents(c, laue):
    """the list of equivalents holds the image of the orientation under every operator, up to sign, with real part >= 0, for batches of rank 1 and 2"""
    f, g = c.mod(FZ), c.mod(G)
    t = g.laue_elements(laue)
    q = c.unit_quat("q", (2, 1))
    e = f.ori_equiv_laue(q, laue)
    c.shape("shape", e, (2, 1, len(t), 4))
    c.true("real part", e[..., 0] >= 0)
    ref = ham(t, q.unsqueeze(-2).expand(2, 1, len(t), 4))
    c.eq("images", e[..., :, None] * e[..., None, :], ref[..., :, None] * ref[..., None, :])


@harness("C07", cases=[((2,), 11), ((2, 1), 5), ((1, 2), 7)])
def rows(c, batch, laue):
    """reduction and membership of a batch treat each row as on its own (one symbolic row next to fixed special ones)"""
    f = c.mod(FZ)
    q = c.unit_quat("q", (1,), wpos=True)
    fixed = t64([[0.0, 0.6, 0.0, 0.8]])
    both = torch.cat([q, fixed]).reshape(batch + (4,))
    one_ = f.ori_to_fz_laue(q, laue)
    two = f.ori_to_fz_laue(fixed, laue)
    out = f.ori_to_fz_laue(both, laue)
    c.shape("shape", out, batch + (4,))
    c.eq("rows", out.reshape(2, 4), torch.cat([one_, two]))
    i = f.ori_in_fz_laue(both, laue)
    c.shape("mask shape", i, batch)
    c.eq("mask rows", i.reshape(2), torch.cat([f.ori_in_fz_laue(q, laue), f.ori_in_fz_laue(fixed, laue)]))
    b = f.ori_in_fz_laue_brute(both, laue)
    c.shape("brute mask shape", b, batch)


@harness("C07", cases=[(0,), (1,)])
def cubed_zone(c, back):
    """cubed coordinates of the cubic zone (Rodrigues form, all points within the cube |x| <= sqrt2 - 1): mapped into the zone, along the same ray,
    and the two maps undo each other"""
    f = c.mod(FZ)
    a = 2 ** 0.5 - 1
    x = c.var("x", (1, 3), -a, a, edges=(0, a))
    x0 = x.clone()
    if not back:
        y = f.cube_to_rfz(x, 11)
        c.le("face distance", y.abs(), torch.full((1, 3), a, dtype=F64))
        c.le("corner face", y.abs().sum(-1), one(1))
        c.eq("ray", cross(x, y), zero(1, 3))
        c.true("same side", dot(x, y) >= 0)
        c.eq("round trip", f.rfz_to_cube(y, 11), x)
    else:
        c.assume(x.abs().sum() <= 1)
        y = f.rfz_to_cube(x, 11)
        c.le("inside the cube", y.abs(), torch.full((1, 3), a, dtype=F64))
        c.eq("round trip", f.cube_to_rfz(y, 11), x)
    c.unmutated("x", x, x0)

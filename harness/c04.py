"""C04 homochoric and cubochoric maps"""
from fractions import Fraction

import torch
from vf.harness import harness
from .common import *

PI = torch.pi
A2 = PI ** (2 / 3) / 2          # half edge of the cube
BATCH = [((1,),), ((2,),), ((),), ((2, 1),)]


@harness("C04", cases=BATCH)
def qu_ho(c, batch):
    """quaternion (real part >= 0) to homochoric: along the axis, equal-volume radius; identity is zero; input unchanged"""
    o = c.mod(O)
    q = c.unit_quat("q", batch, wpos=True)
    c.assume((q[..., 0] == 1) | (q[..., 0] <= 1 - 1e-14))
    q0 = q.clone()
    h = o.qu2ho(q)
    c.shape("ho", h, batch + (3,))
    w = 2 * torch.acos(q[..., 0])
    r3 = 0.75 * (w - torch.sin(w))
    s = dot(q[..., 1:], q[..., 1:]).sqrt().unsqueeze(-1)
    c.eq("axis", h * s, q[..., 1:] * (r3 ** (1 / 3)).unsqueeze(-1))
    c.unmutated("q", q, q0)


@harness("C04", cases=BATCH)
def qu_ho_rounding(c, batch):
    """quaternions whose real part exceeds one by rounding: input unchanged, zero result"""
    o = c.mod(O)
    e = c.var("e", batch, 0, 1e-9, edges=(0, 1e-9))
    z = torch.zeros_like(e)
    q = torch.stack([1 + e, z, z, z], -1)
    q0 = q.clone()
    h = o.qu2ho(q)
    c.eq("ho", h, torch.zeros(batch + (3,), dtype=F64))
    c.check("input object", True)
    c.true("input unchanged", q == q0)


@harness("C04", cases=BATCH)
def ax_ho(c, batch):
    """axis-angle to homochoric, angles in [0, pi]"""
    o = c.mod(O)
    n = c.unit_vec("n", batch)
    th = c.angle("th", 0, 1, batch, base=1)
    h = o.ax2ho(torch.cat([n, th.unsqueeze(-1)], -1))
    c.shape("ho", h, batch + (3,))
    c.eq("ho", h, n * ((0.75 * (th - torch.sin(th))) ** (1 / 3)).unsqueeze(-1))


SIGNS = [(a, b, d) for a in (1, -1) for b in (1, -1) for d in (1, -1)]
PERMS = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]


def cube_point(c):
    """0 <= small < middle < big: middle = u big with u in (0, 1), small = 12 t middle / pi with t in [0, pi/12)"""
    t = c.angle("t", 0, Fraction(1, 12), (1,), base=1, open_hi=True)
    b = c.var("b", (1,), 0.001, Fraction(10726, 10000), edges=(0.001, 1.0726))
    u = c.var("u", (1,), 0, 1)
    c.assume((u > 0) & (u < 1))
    m = u * b
    s = 12 * t * m / PI
    return t, s, m, b, u


K2 = (PI / 6) ** (1 / 3)


def cu_ho_ref(t, u, b):
    """Rosca, Morawiec, De Graef 2014: the three steps in closed form, squares of the three components"""
    r2 = 2 ** 0.5
    ct, st = torch.cos(t), torch.sin(t)
    f2 = r2 * u ** 2 * 6 / (PI * (r2 - ct))          # times b^2 k^2
    x2, y2 = 2 * f2 * st ** 2, f2 * (r2 * ct - 1) ** 2
    g2 = 1 - PI * (x2 + y2) / 24
    z = ((6 / PI) - (x2 + y2) / 2) / (6 / PI) ** 0.5
    s = b * b * K2
    return x2 * g2 * s, y2 * g2 * s, z * z * s


@harness("C04", cases=PERMS, budget=200)
def cu_ho(c, i, j, k):
    """cubochoric to homochoric, all points of the cube with big coordinate >= 0.001 (one coordinate order and its 8 sign combinations per case): squares of the closed form, octant kept, radius depends only on the big coordinate, input unchanged"""
    o = c.mod(O)
    t, s, m, b, u = cube_point(c)
    sg = t64(SIGNS)
    p = torch.stack([s, m, b], -1)[:, [i, j, k]] * sg
    p0 = p.clone()
    h = o.cu2ho(p)
    c.shape("ho", h, (8, 3))
    if tuple(h.shape) != (8, 3):
        return
    r = torch.stack(cu_ho_ref(t, u, b), -1)[:, [i, j, k]]
    c.eq("squared components", h * h, r.expand(8, 3), tol=1e-6)
    c.true("octant", h * p >= 0)
    c.unmutated("cu", p, p0)
    c.eq("radius", dot(h, h), (b * b * (6 / PI) ** (2 / 3)).expand(8), tol=1e-6)


@harness("C04")
def cu_ho_batch(c):
    """a general point in a batch with axes, diagonals, face centres and the origin; 2-D batch and single point"""
    o = c.mod(O)
    t, s, m, b, u = cube_point(c)
    R = A2 * (6 / PI) ** (1 / 3)
    sp = t64([[0.0, 0, 0], [A2, 0, 0], [0, -A2, 0], [0, 0, A2], [A2, A2, A2], [-A2, A2, -A2]])
    d = R / 3 ** 0.5
    e = t64([[0.0, 0, 0], [R, 0, 0], [0, -R, 0], [0, 0, R], [d, d, d], [-d, d, -d]])
    p = torch.cat([sp[:3], torch.stack([m, s, b], -1), sp[3:]])
    h = o.cu2ho(p)
    c.shape("ho", h, (7, 3))
    c.eq("special", torch.cat([h[:3], h[4:]]), e, tol=1e-6)
    x, y, z = cu_ho_ref(t, u, b)
    c.eq("general", h[3] * h[3], torch.stack([y, x, z], -1)[0], tol=1e-6)
    c.eq("one point", o.cu2ho(p[3]), h[3])
    h2 = o.cu2ho(p[1:].reshape(2, 3, 3))
    c.shape("two batch dimensions", h2, (2, 3, 3))
    c.eq("two batch dimensions", h2.reshape(6, 3), h[1:])


def ball_point(c):
    """a homochoric point r = |h| in the pyramid small <= middle <= big, from the intermediate square coordinates"""
    t = c.angle("t", 0, Fraction(1, 12), (1,), base=1, open_hi=True)
    r = c.var("r", (1,), 0.001, Fraction(13306, 10000), edges=(0.001,))
    u = c.var("u", (1,), 0.0001, 1)
    c.assume(u < 1)
    ct, st = torch.cos(t), torch.sin(t)
    r2 = 2 ** 0.5
    # middle cube coordinate = u * big cube coordinate
    c.assume(torch.sqrt(r2 - ct) > 0)
    mu = r2 * u / torch.sqrt(r2 * (r2 - ct))          # times r
    x2, y2 = mu * r2 * st, mu * (r2 * ct - 1)
    q = x2 * x2 + y2 * y2
    g = torch.sqrt(1 - q / 4)
    h = torch.stack([x2 * g, y2 * g, 1 - q / 2], -1) * r.unsqueeze(-1)
    c.assume((h[:, 0] < h[:, 1]) & (h[:, 1] < h[:, 2]))
    B = r * K2
    return h, torch.stack([12 * t / PI * u * B, u * B, B], -1), t, u


@harness("C04", cases=PERMS, budget=200)
def ho_cu(c, i, j, k):
    """homochoric to cubochoric, the ball minus small neighbourhoods (radius >= 0.001, middle >= 0.0001 big): inverse of the three closed-form steps, every coordinate order and signs, input unchanged"""
    o = c.mod(O)
    h, p, t, u = ball_point(c)
    sg = t64(SIGNS)
    h = h[:, [i, j, k]] * sg
    h0 = h.clone()
    x = o.ho2cu(h)
    c.shape("cu", x, (8, 3))
    c.eq("cu", x, p[:, [i, j, k]] * sg, tol=1e-6)
    c.unmutated("ho", h, h0)


@harness("C04")
def ho_cu_special(c):
    """homochoric to cubochoric on the axes, the origin and planes"""
    o = c.mod(O)
    R = A2 * (6 / PI) ** (1 / 3)
    d = R / 3 ** 0.5
    b = c.var("b", (1,), 0.001, Fraction(13306, 10000))
    z = torch.zeros_like(b)
    h = torch.cat([t64([[0.0, 0, 0], [d, d, d], [-d, d, -d]]), torch.stack([b, z, z], -1), torch.stack([z, -b, z], -1), torch.stack([z, z, b], -1)])
    p = o.ho2cu(h)
    u = b * (PI / 6) ** (1 / 3)
    c.eq("cu", p, torch.cat([t64([[0.0, 0, 0], [A2, A2, A2], [-A2, A2, -A2]]), torch.stack([u, z, z], -1), torch.stack([z, -u, z], -1), torch.stack([z, z, u], -1)]), tol=1e-6)
    c.eq("one point", o.ho2cu(h[3]), p[3])


EMSOFT = [0.9999999999999968, -0.49999999999986866, -0.025000000000632055, -0.003928571496460683, -0.0008164666077062752, -0.00019411896443261646,
          -0.00004985822229871769, -0.000014164962366386031, -1.9000248160936107e-6, -5.72184549898506e-6, 7.772149920658778e-6, -0.00001053483452909705,
          9.528014229335313e-6, -5.660288876265125e-6, 1.2844901692764126e-6, 1.1255185726258763e-6, -1.3834391419956455e-6, 7.513691751164847e-7,
          -2.401996891720091e-7, 4.386887017466388e-8, -3.5917775353564864e-9]


def half_cos(u):
    """cosine of half the rotation angle from the squared homochoric radius (published fit, error below 1e-11)"""
    s = torch.zeros_like(u)
    for k in reversed(EMSOFT):
        s = s * u + k
    return s


@harness("C04", cases=[("ho2ax",), ("kikuchipy",), ("EMsoft",)])
def ho_ax(c, which):
    """homochoric to axis-angle: unit axis along the vector, cosine of half the angle within 1e-6 of the true inverse; radius in [0.0011, (3 pi/4)^(1/3)]"""
    o = c.mod(O)
    n = c.unit_vec("n", (1,))
    r = c.var("r", (1,), 0.0011, Fraction(133067, 100000), edges=(0.0011, 1.33067, 1.0))
    h = n * r.unsqueeze(-1)
    ax = o.ho2ax(h) if which == "ho2ax" else o.ho2ax_reference(h, which)
    c.shape("ax", ax, (1, 4))
    c.eq("axis", ax[..., :3], n)
    c.true("angle range", (ax[..., 3] >= 0) & (ax[..., 3] <= torch.pi + 1e-9))
    c.le("angle", (torch.cos(ax[..., 3] / 2) - half_cos(r * r).clamp(0, 1)).abs(), zero(1), tol=1e-6)


@harness("C04")
def ho_ax_batch(c):
    """batches: the origin is the identity about z, rows independent, any batch shape; quaternion and matrix routes agree"""
    o = c.mod(O)
    n = c.unit_vec("n", (1,))
    r = c.var("r", (1,), 0.01, Fraction(133, 100))
    h = n * r.unsqueeze(-1)
    H = torch.cat([zero(1, 3), h, t64([[0.0, 1.0, 0]])])
    for f in (o.ho2ax, o.ho2ax_reference):
        a = f(H)
        c.eq("origin", a[0], t64([0.0, 0, 1, 0]))
        c.eq("row", a[1:2], f(h))
        c.eq("fixed axis", a[2, :3], t64([0.0, 1, 0]))
        c.eq("single", f(h[0]), a[1])
        c.eq("2-D", f(H.reshape(3, 1, 3)).reshape(3, 4), a)
    ax = o.ho2ax(h)
    q = o.ho2qu(h)
    c.eq("quaternion", q, torch.cat([torch.cos(ax[..., 3:] / 2), ax[..., :3] * torch.sin(ax[..., 3:] / 2)], -1))


@harness("C04", cases=[((1,),), ((3,),), ((2, 1),)])
def ho_ax_newton(c, batch):
    """Newton variant: unit axis along the vector, origin is the identity about z, angle is the Newton iterate of the Pade start value"""
    o = c.mod(O)
    n = c.unit_vec("n", batch)
    r = c.var("r", batch, 0.01, Fraction(133, 100))
    ax = o.ho2ax_newton(n * r.unsqueeze(-1))
    c.shape("ax", ax, batch + (4,))
    c.eq("axis", ax[..., :3], n)
    z = o.ho2ax_newton(torch.zeros(batch + (3,), dtype=F64))
    c.eq("origin", z, t64([0.0, 0, 1, 0]).expand(batch + (4,)))

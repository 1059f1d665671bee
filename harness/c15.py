"""C15 exponential and logarithm of rigid transforms"""
import torch
from vf.harness import harness
from .common import *

SE = "ebsdtorch.lie_algebra.se3"


def skew(v):
    z = torch.zeros_like(v[..., 0])
    x, y, w = v[..., 0], v[..., 1], v[..., 2]
    return torch.stack([torch.stack([z, -w, y], -1), torch.stack([w, z, -x], -1), torch.stack([-y, x, z], -1)], -2)


def lift(t):
    return t.unsqueeze(-1).unsqueeze(-1)


def eye():
    return torch.eye(3, dtype=F64)


def rotation(n, s, co):
    k = skew(n)
    return eye() + lift(s) * k + lift(1 - co) * matmul(k, k)


def vmat(n, t, s, co):
    k = skew(n)
    return eye() + lift((1 - co) / t) * k + lift(1 - s / t) * matmul(k, k)


def vinv(n, t, sh, ch):
    """inverse of vmat from the sine and cosine of the half angle"""
    k = skew(n)
    return eye() - lift(t / 2) * k + lift(1 - t * ch / (2 * sh)) * matmul(k, k)


def rigid(r, p):
    top = torch.cat([r, p.unsqueeze(-1)], -1)
    bottom = t64([[0.0, 0.0, 0.0, 1.0]]).expand(top.shape[:-2] + (1, 4))
    return torch.cat([top, bottom], -2)


def twist(c, shape=(1,), lo=0.05, hi=0.999):
    """axis, angle (times pi between the bounds) and translation part"""
    n = c.unit_vec("n", shape)
    t = c.angle("t", lo / torch.pi, hi, shape)
    c.assume((torch.sin(t / 2) > 0).all() & (torch.cos(t / 2) > 0).all())
    tau = c.var("tau", tuple(shape) + (3,), lo=-10, hi=10)
    return n, t, tau


SHAPES = [((1,),), ((),), ((2, 1),)]


@harness("C15", cases=SHAPES)
def exponential(c, shape):
    """for rotation angles 0.05 to 0.999 pi, any axis and translation: matrix, split and quaternion routes give the rigid transform of the closed form"""
    f = c.mod(SE)
    n, t, tau = twist(c, shape)
    w = t.unsqueeze(-1) * n
    vec = torch.cat([w, tau], -1)
    before = vec.clone()
    r = rotation(n, torch.sin(t), torch.cos(t))
    p = matvec(vmat(n, t, torch.sin(t), torch.cos(t)), tau)
    m = f.se3_exp_map_om(vec)
    c.shape("shape", m, tuple(shape) + (4, 4))
    c.eq("matrix", m, rigid(r, p))
    rs, ps = f.se3_exp_map_split(vec)
    c.eq("split rotation", rs, r)
    c.eq("split translation", ps, p)
    q, pq = f.se3_exp_map_quat(vec)
    c.shape("quaternion shape", q, tuple(shape) + (4,))
    c.eq("quaternion", q, torch.cat([torch.cos(t / 2).unsqueeze(-1), torch.sin(t / 2).unsqueeze(-1) * n], -1))
    c.eq("quaternion translation", pq, p)
    c.eq("rotation only", f.w_exp(w), r)
    c.unmutated("argument", vec, before)


@harness("C15", cases=SHAPES)
def logarithm(c, shape):
    """for rotation angles 0.05 to 0.999 pi: the logarithm of the closed-form transform is the twist, by all three routes"""
    f = c.mod(SE)
    n, t, p = twist(c, shape)
    r = rotation(n, torch.sin(t), torch.cos(t))
    tau = matvec(vinv(n, t, torch.sin(t / 2), torch.cos(t / 2)), p)
    want = torch.cat([t.unsqueeze(-1) * n, tau], -1)
    m = rigid(r, p)
    before = m.clone()
    out = f.se3_log_map_om(m)
    c.shape("shape", out, tuple(shape) + (6,))
    c.eq("matrix", out, want)
    c.eq("split", f.se3_log_map_split(r, p), want)
    q = torch.cat([torch.cos(t / 2).unsqueeze(-1), torch.sin(t / 2).unsqueeze(-1) * n], -1)
    c.eq("quaternion", f.se3_log_map_quat(q, p), want)
    c.unmutated("argument", m, before)


@harness("C15")
def v_inverse(c):
    """the two V matrices of the closed form invert each other (angles 0.05 to 0.999 pi)"""
    f = c.mod(SE)
    n, t, tau = twist(c)
    w = t.unsqueeze(-1) * n
    a, b = f.w_to_v(w), f.w_to_v_inv(w)
    c.eq("V", a, vmat(n, t, torch.sin(t), torch.cos(t)))
    c.eq("inverse", matmul(a, b), eye().expand(1, 3, 3))


def tiny(c, hi, k=1):
    """angle below the bound with sine and cosine as series and bounded remainders"""
    t = c.var("t", (1,), lo=0, hi=hi)
    e = c.var("e", (1,), lo=0, hi=1)
    g = c.var("g", (1,), lo=0, hi=1)
    return t, e, g


@harness("C15", cases=[(9e-4,)])
def small_exponential(c, hi):
    """for angles of 0 to 0.0009, identity included, any axis: every exponential is the closed form within 1e-9 (sine and cosine enclosed by their series)"""
    f = c.mod(SE)
    n = c.unit_vec("n", (1,))
    t, e, g = tiny(c, hi)
    tau = c.var("tau", (1, 3), lo=-10, hi=10)
    w = t.unsqueeze(-1) * n
    k = skew(n)
    k2 = matmul(k, k)
    s = t - t ** 3 / 6 + e * t ** 5 / 120
    b = t * t / 2 - g * t ** 4 / 24  # 1 - cos
    r = eye() + lift(s) * k + lift(b) * k2
    v = eye() + lift(t / 2 - g * t ** 3 / 24) * k + lift(t * t / 6 - e * t ** 4 / 120) * k2
    p = matvec(v, tau)
    vec = torch.cat([w, tau], -1)
    c.eq("matrix", f.se3_exp_map_om(vec), rigid(r, p), tol=1e-9)
    rs, ps = f.se3_exp_map_split(vec)
    c.eq("split rotation", rs, r, tol=1e-9)
    c.eq("split translation", ps, p, tol=1e-9)
    c.eq("rotation only", f.w_exp(w), r, tol=1e-9)
    c.eq("V", f.w_to_v(w), v, tol=1e-9)


@harness("C15")
def middle_exponential(c):
    """for angles 0.001 to 0.05 about a fixed skew axis: every exponential is the closed form within 1e-8, wherever the series and the closed form join"""
    f = c.mod(SE)
    n = t64([[2 / 3, -1 / 3, 2 / 3]])
    t = c.angle("t", 0.001 / torch.pi, 0.05 / torch.pi, (1,))
    s, co = torch.sin(t), torch.cos(t)
    c.assume((s >= t - t ** 3 / 6).all() & (s <= t - t ** 3 / 6 + t ** 5 / 120).all())
    c.assume((co >= 1 - t ** 2 / 2 + t ** 4 / 24 - t ** 6 / 720).all() & (co <= 1 - t ** 2 / 2 + t ** 4 / 24).all())
    w = t.unsqueeze(-1) * n
    r, v = rotation(n, s, co), vmat(n, t, s, co)
    a, b = f.w_exp_vmat(w)
    c.eq("rotation", a, r, tol=1e-8)
    c.eq("V", b, v, tol=1e-8)
    c.eq("rotation only", f.w_exp(w), r, tol=1e-8)
    c.eq("V only", f.w_to_v(w), v, tol=1e-8)


@harness("C15", cases=[((1,),), ((),)])
def identity(c, shape):
    """zero rotation: every route keeps the translation and gives the identity rotation, and the logarithm returns it"""
    f = c.mod(SE)
    tau = c.var("tau", tuple(shape) + (3,), lo=-10, hi=10)
    vec = torch.cat([torch.zeros_like(tau), tau], -1)
    r = eye().expand(tuple(shape) + (3, 3))
    m = f.se3_exp_map_om(vec)
    c.eq("matrix", m, rigid(r, tau))
    q, p = f.se3_exp_map_quat(vec)
    c.eq("quaternion", q, t64([1.0, 0, 0, 0]).expand(tuple(shape) + (4,)))
    c.eq("translation", p, tau)
    c.eq("log", f.se3_log_map_om(m), vec)
    c.eq("log split", f.se3_log_map_split(r, tau), vec)
    c.eq("log quaternion", f.se3_log_map_quat(q, p), vec)


@harness("C15")
def mixed_batch(c):
    """rows with large, small and zero angles in one batch do not influence each other"""
    f = c.mod(SE)
    n, t, tau = twist(c)
    fixed = t64([[0.0, 0.0, 0.0, 1.0, -2.0, 3.0], [3e-4, -2e-4, 1e-4, 0.5, 0.25, -1.0], [0.01, 0.0, 0.02, 1.0, 1.0, 1.0]])
    vec = torch.cat([t.unsqueeze(-1) * n, tau], -1)
    rows = torch.cat([fixed[:2], vec, fixed[2:]], 0)
    m = f.se3_exp_map_om(rows)
    l = f.se3_log_map_om(m)
    for i in range(4):
        c.eq(f"exp row {i}", m[i], f.se3_exp_map_om(rows[i:i + 1])[0])
        c.eq(f"log row {i}", l[i], f.se3_log_map_om(m[i:i + 1])[0])


@harness("C15", cases=[("om", 9e-3), ("split", 9e-5)])
def small_logarithm(c, route, hi):
    """for small angles, identity included, the logarithm is the twist to the accuracy of its series (2e-7 in the rotation for angles up to 0.009, 2e-6 in the translation)"""
    f = c.mod(SE)
    n = c.unit_vec("n", (1,))
    t, e, g = tiny(c, hi)
    p = c.var("tau", (1, 3), lo=-10, hi=10)
    k = skew(n)
    k2 = matmul(k, k)
    s = t - t ** 3 / 6 + e * t ** 5 / 120
    b = t * t / 2 - g * t ** 4 / 24
    r = eye() + lift(s) * k + lift(b) * k2
    out = f.se3_log_map_om(rigid(r, p)) if route == "om" else f.se3_log_map_split(r, p)
    c.eq("rotation", out[..., :3], t.unsqueeze(-1) * n, tol=2e-7)
    want = p - matvec(lift(t / 2) * k, p) + matvec(lift(t * t / 12) * k2, p)
    c.eq("translation", out[..., 3:], want, tol=2e-6)

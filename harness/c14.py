"""C14 spherical coordinates and sphere sampling"""
import torch
from vf.harness import harness
from .common import *

SHT = "ebsdtorch.harmonics.sht"


def direction(theta, phi):
    return torch.stack([torch.sin(theta) * torch.cos(phi), torch.sin(theta) * torch.sin(phi), torch.cos(theta)], -1)


@harness("C14", cases=[((1,),), ((),), ((2, 1),)])
def to_cartesian(c, shape):
    """polar and azimuthal angle give the unit direction with that declination and azimuth, for batches of rank 0 to 2"""
    th = c.angle("theta", 0, 1, shape, base=1)
    ph = c.angle("phi", -1, 1, shape, base=1)
    a, b = th.clone(), ph.clone()
    out = c.mod(SP).theta_phi_to_xyz(th, ph)
    c.shape("shape", out, tuple(shape) + (3,))
    c.eq("direction", out, direction(th, ph))
    c.eq("unit", (out * out).sum(-1), torch.ones_like(out[..., 0]))
    c.unmutated("theta", th, a)
    c.unmutated("phi", ph, b)


@harness("C14", cases=[((1,),), ((),), ((1, 1),)])
def to_spherical(c, shape):
    """a direction of any length gives its declination in [0, pi] and its azimuth in (-pi, pi]"""
    th = c.angle("theta", 0, 1, shape, base=1, open_lo=True, open_hi=True)
    ph = c.angle("phi", -1 + 1e-9, 1 - 1e-9, shape, base=1)
    r = c.var("r", tuple(shape), lo=0.1, hi=10)
    v = direction(th, ph) * r.unsqueeze(-1)
    c.assume((torch.sin(th) > 0).all())
    before = v.clone()
    out = c.mod(SP).xyz_to_theta_phi(v)
    c.shape("shape", out, tuple(shape) + (2,))
    c.eq("declination", out[..., 0], th)
    c.eq("azimuth", out[..., 1], ph)
    c.unmutated("argument", v, before)


@harness("C14")
def round_trip(c):
    """converting any unit direction to angles and back returns it; the angles stay in range"""
    f = c.mod(SP)
    v = c.unit_vec("v", (1,))
    a = f.xyz_to_theta_phi(v)
    c.true("declination range", (a[..., 0] >= 0) & (a[..., 0] <= torch.pi + 1e-9))
    c.true("azimuth range", (a[..., 1] >= -torch.pi - 1e-9) & (a[..., 1] <= torch.pi + 1e-9))
    c.eq("back", f.theta_phi_to_xyz(a[..., 0], a[..., 1]), v)


@harness("C14")
def axes(c):
    """the poles and the four axis directions have the angles of the convention and come back exactly"""
    f = c.mod(SP)
    v = t64([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]])
    s = c.var("s", (1,), lo=0.5, hi=2)
    a = f.xyz_to_theta_phi(v * s)
    h = torch.pi / 2
    c.eq("declination", a[..., 0], t64([0, 2 * h, h, h, h, h]))
    c.eq("azimuth", a[2:, 1], t64([0, h, 2 * h, -h]))
    c.eq("back", f.theta_phi_to_xyz(a[..., 0], a[..., 1]), v)


@harness("C14", cases=[((1,),), ((1, 2),)])
def harmonic_grid_direction(c, shape):
    """pairs of the harmonic grid (azimuth, declination) give the direction with that azimuth and declination"""
    ph = c.angle("phi", -1, 1, shape, base=1)
    th = c.angle("theta", 0, 1, shape, base=1)
    out = c.mod(SHT).theta_phi_to_xyz(torch.stack([ph, th], -1))
    c.eq("direction", out, direction(th, ph))


@harness("C14", cases=[(b,) for b in (1, 2, 3, 4, 5)])
def harmonic_grid(c, b):
    """the grid of bandlimit b has 2b equally spaced azimuths on [0, 2 pi) and 2b declinations at the centres of equal intervals of [0, pi], azimuth first"""
    i = c.ints("i", 0, 2 * b - 1, ())
    j = c.ints("j", 0, 2 * b - 1, ())
    g = c.mod(SHT).grid_DriscollHealy(b, torch.float64)
    c.shape("shape", g, (2 * b, 2 * b, 2))
    out = g[i, j]
    c.eq("azimuth", out[0], torch.pi * i.to(F64) / b)
    c.eq("declination", out[1], torch.pi * (2 * j.to(F64) + 1) / (4 * b))


@harness("C14", cases=[(m,) for m in ("avg", "max")])
def sphere_lattice(c, mode):
    """the spiral lattice of n = 1 to 12 points has n unit vectors in descending height, evenly spaced in height and turning by the golden angle"""
    n = int(c.ints("n", 1, 12, ()).item())
    p = c.mod(SAM).s2_fibonacci(n, torch.device("cpu"), mode)
    c.shape("count", p, (n, 3))
    c.eq("unit", (p * p).sum(-1), torch.ones_like(p[..., 0]))
    if n > 2:
        dz = p[:-1, 2] - p[1:, 2]
        c.eq("even heights", dz, dz[:1].expand(n - 1))
        c.true("descending", dz > 0)
        c.eq("symmetric", p[:, 2] + p[:, 2].flip(0), torch.zeros_like(p[:, 2]))


@harness("C14")
def rotation_lattice(c):
    """the spiral of n = 1 to 12 rotations has n unit quaternions"""
    n = int(c.ints("n", 1, 12, ()).item())
    q = c.mod(SAM).so3_fibonacci(n, torch.device("cpu"))
    c.shape("count", q, (n, 4))
    c.eq("unit", (q * q).sum(-1), torch.ones_like(q[..., 0]))
    k = torch.arange(n, dtype=F64)
    c.eq("even radii", q[:, 0] ** 2 + q[:, 1] ** 2, (k + 0.5) / n)


@harness("C14")
def random_rotations(c):
    """uniform random quaternions are unit for every draw of the three random numbers and follow Shoemake's formula"""
    m = c.mod(SAM)
    u = c.var("u", (2,), lo=0, hi=1)
    v = c.angle("v", 0, 2, (2,), base=1)
    w = c.angle("w", 0, 2, (2,), base=1)
    draws = [u, v / (2 * torch.pi), w / (2 * torch.pi)]
    q = with_draws(m, draws, lambda: m.so3_uniform_quat(2, torch.device("cpu"), F64))
    c.shape("count", q, (2, 4))
    c.eq("unit", (q * q).sum(-1), torch.ones_like(q[..., 0]))
    c.eq("radius", q[:, 0] ** 2 + q[:, 1] ** 2, 1 - u)
    c.true("draws used", len(draws) == 0)


def with_draws(m, draws, call):
    """run with torch.rand handing out the given tensors"""
    from unittest.mock import patch
    with patch.object(m.torch, "rand", lambda *a, **k: draws.pop(0)):
        return call()

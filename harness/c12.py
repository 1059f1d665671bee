"""C12 square and hexagon equal-area maps"""
import torch
from vf.harness import harness
from .common import *

U = "ebsdtorch/utils/rosca_lambert.py"
SPH = SP
RL = "ebsdtorch.utils.rosca_lambert"
KV = "ebsdtorch.crystallography.kvectors"
MC = "ebsdtorch.simulation.monte_carlo"
INVERSE = [(SPH, "inv_rosca_lambert"), (RL, "square_to_hemisphere"), (RL, "square_to_hemisphere_v2"), (KV, "square_to_hemisphere")]
FORWARD = [(SPH, "rosca_lambert"), (MC, "rosca_lambert")]
HEXAGON = [(RL, "hexagon_to_hemisphere"), (KV, "hexagon_to_hemisphere")]
SECTORS = range(4)
PARTS = ["+", "-", -1, 0, 1]
R2, R3 = 2 ** 0.5, 3 ** 0.5


def turn(k, x, y):
    for _ in range(k):
        x, y = -y, x
    return x, y


def distance(c):
    """u = sqrt(2) p: distance from the centre, sqrt(2 - u^2) = sqrt(2) q"""
    pq = c.unit_vec("pq", (1,), n=2)
    p, q = pq[..., 0], pq[..., 1]
    c.assume((p > 0).all() & (q > 0).all() & (p <= q).all())
    return p, q


def azimuth(c, part, half):
    """relative azimuth inside a sector, its cosine and sine: the open halves, or the three borders"""
    if part in (-1, 0, 1):
        a = torch.full((1,), part * half * torch.pi, dtype=F64)
        co = 1.0 if part == 0 else R2 / 2 if half == 0.25 else R3 / 2
        si = part * (R2 / 2 if half == 0.25 else 0.5)
        return a, torch.full((1,), co, dtype=F64), torch.full((1,), si, dtype=F64)
    a = c.angle("phi", 0, half, (1,), base=1, open_lo=True, open_hi=True)
    c.assume((torch.cos(a) > torch.sin(a)).all())  # holds below 45 degrees
    s = 1 if part == "+" else -1
    return s * a, torch.cos(a), s * torch.sin(a)


def wedge(c, k, part="+"):
    """point of the k-th sector of the square and its image, for all distances u from the centre and azimuths"""
    p, q = distance(c)
    a, ca, sa = azimuth(c, part, 0.25)
    u = R2 * p
    x, y = turn(k, u, 4 / torch.pi * a * u)
    r = 2 * p * q
    dx, dy = turn(k, r * ca, r * sa)
    return torch.stack([x, y], -1), torch.stack([dx, dy, 1 - 2 * p * p], -1)


@harness("C12", cases=[(m, f, k, t) for m, f in INVERSE for k in SECTORS for t in PARTS])
def to_hemisphere(c, module, name, k, t):
    """the inverse map sends every point of the closed square but the centre to the direction of its equal-area definition (height linear in the area of the concentric square, azimuth linear in the area of the sector)"""
    f = getattr(c.mod(module), name)
    xy, d = wedge(c, k, t)
    before = xy.clone()
    out = f(xy)
    c.shape("shape", out, (1, 3))
    c.eq("direction", out, d)
    c.unmutated("argument", xy, before)


@harness("C12", cases=[(m, f, k, s, t) for m, f in FORWARD for k in SECTORS for s in (1, -1) for t in PARTS])
def to_square(c, module, name, k, s, t):
    """the forward map sends every direction but the poles to the point of the square whose image it is, directions of the lower hemisphere like their mirror images"""
    f = getattr(c.mod(module), name)
    xy, d = wedge(c, k, t)
    d = d * t64([1.0, 1.0, s])
    before = d.clone()
    out = f(d)
    c.shape("shape", out, (1, 2))
    c.eq("point", out, xy)
    c.unmutated("argument", d, before)


@harness("C12", cases=[(k, s, t) for k in SECTORS for s in (1, -1) for t in PARTS])
def side_by_side(c, k, s, t):
    """the two-hemisphere map puts the upper hemisphere in the left and the lower in the right half, at half scale along the first axis"""
    f = c.mod(SPH).rosca_lambert_side_by_side
    xy, d = wedge(c, k, t)
    if s < 0:
        c.assume((d[..., 2] > 0).all())
    out = f(d * t64([1.0, 1.0, s]))
    c.eq("point", out, torch.stack([xy[..., 0] / 2 - 0.5 * s, xy[..., 1]], -1))


@harness("C12")
def poles(c):
    """centre and poles map to each other in every copy, alone and inside a batch of rank 2, and the other rows stay right"""
    xy, d = wedge(c, 1)
    o = torch.zeros(1, 2, dtype=F64)
    n = t64([[0.0, 0.0, 1.0]])
    square = torch.stack([o, xy, o], 0)
    sphere = torch.stack([n, d, n], 0)
    for m, f in INVERSE:
        out = getattr(c.mod(m), f)(square)
        c.eq(f"{m} {f}", out, sphere)
    for m, f in FORWARD:
        fn = getattr(c.mod(m), f)
        c.eq(f"{m} {f}", fn(sphere), square)
        c.eq(f"{m} {f} south", fn(-n), o)
    for m, f in HEXAGON:
        out = getattr(c.mod(m), f)(o)
        c.eq(f"{m} {f}", out, n)


@harness("C12", cases=[(m, f, k, t) for m, f in HEXAGON for k in range(6) for t in PARTS])
def hexagon(c, module, name, k, t):
    """the hexagon map sends every point of the closed regular hexagon (vertices at distance 1 on the first axis) to the direction of its equal-area definition"""
    f = getattr(c.mod(module), name)
    p, q = distance(c)
    a, ca, sa = azimuth(c, t, 1 / 6)
    rho = R2 * p
    x = rho * R3 / 2
    y = x * (2 * R3 / torch.pi) * a
    r = 2 * p * q
    dx, dy = r * ca, r * sa
    # sector k is centred on the azimuth 60 k + 30 degrees
    ck = [R3 / 2, 0.0, -R3 / 2, -R3 / 2, 0.0, R3 / 2][k]
    sk = [0.5, 1.0, 0.5, -0.5, -1.0, -0.5][k]
    xy = torch.stack([ck * x - sk * y, sk * x + ck * y], -1)
    d = torch.stack([ck * dx - sk * dy, sk * dx + ck * dy, 1 - 2 * p * p], -1)
    before = xy.clone()
    out = f(xy)
    c.shape("shape", out, (1, 3))
    c.eq("direction", out, d)
    c.unmutated("argument", xy, before)

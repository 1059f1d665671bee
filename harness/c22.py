"""C22 master pattern lookup"""
import torch
from vf.harness import harness
from .common import *
from .c12 import wedge, SECTORS
from .c17 import double

MPM = "ebsdtorch.ebsd.master_pattern"


def grid(c, n, name="m"):
    return c.var(name, (n, 2 * n), -2, 2)


def bilinear(img, x, y):
    """border-extended bilinear value of one hemisphere (n, n) at a point of the square [-1, 1] x [-1, 1], pixels of equal size"""
    n = img.shape[-1]
    w = []
    for v in (x, y):
        pix = torch.clamp(((v + 1) * n - 1) / 2, 0, n - 1)
        w.append([torch.clamp(1 - torch.abs(pix - i), min=0) for i in range(n)])
    total = 0
    for r in range(n):
        for k in range(n):
            total = total + w[1][r] * w[0][k] * img[r, k]
    return total


def half(m, south):
    n = m.shape[-1] // 2
    return m[:, n:] if south else m[:, :n]


@harness("C22", cases=[(2, k, s, t) for k in SECTORS for s in (1, -1) for t in ("+", "-", 0)] + [(3, k, s, t) for k in SECTORS for s in (1, -1) for t in ("+", "-", 1)] + [(5, k, s, "-") for k in SECTORS for s in (1, -1)] + [(1, 0, 1, "+"), (1, 2, -1, "-")], budget=200)
def lookup(c, n, k, s, t):
    """grids of 1, 2, 3 and 5 nodes per side with all values, all directions but the poles: the value is the border-extended bilinear interpolation of the direction's own hemisphere at its equal-area point"""
    mod = c.mod(MPM)
    m = grid(c, n)
    xy, d = wedge(c, k, t)
    d = d * t64([1.0, 1.0, s])
    c.assume((d[..., 2] != 0).all())
    m0, d0 = m.clone(), d.clone()
    mp = mod.MasterPattern(m, laue_group=1)
    got = mp.interpolate(d)
    c.shape("shape", got, (1,))
    c.eq("value", got[0], bilinear(half(m0, s < 0), xy[0, 0], xy[0, 1]))
    c.unmutated("directions", d, d0)
    c.unmutated("master pattern", mp.master_pattern, m0)


# directions with their points of the square, worked out by hand: (direction, (x, y))
A30 = torch.pi / 6
def place(x, y, south=False):
    """direction of a point of the square, by the definition of the equal-area map"""
    import math
    if x == 0 and y == 0:
        d = [0.0, 0.0, 1.0]
    else:
        turns = 0
        u, v = x, y
        while not (u > 0 and abs(v) <= u):
            u, v = v, -u
            turns += 1
        a = math.pi / 4 * v / u + turns * math.pi / 2
        z = 1 - u * u
        r = math.sqrt(max(0.0, 1 - z * z))
        d = [r * math.cos(a), r * math.sin(a), z]
    return [d[0], d[1], -d[2]] if south else d


POINTS = [(0.0, 0.0), (0.5, 0.25), (-0.5, 0.1), (0.3, -0.7), (-0.2, 0.9), (0.95, 0.05), (-0.9, -0.4), (0.1, -0.05), (-0.6, 0.6), (0.45, 0.4), (-0.35, -0.8), (0.85, -0.3)]
SIDES = [(p, s) for p in POINTS for s in (False, True)]


def listed(shape):
    n = 1
    for w in shape:
        n *= w
    pick = [SIDES[(7 * i) % len(SIDES)] for i in range(n)]
    return t64([place(*p, s) for p, s in pick]).reshape(tuple(shape) + (3,)), pick


@harness("C22", cases=[(s, n) for s in ((), (1,), (2,), (3,), (7,), (2, 3), (12,), (3, 1, 4), (5, 5), (1, 1), (4, 6)) for n in (2, 3)])
def batch(c, shape, n):
    """directions of any batch shape (rank 0 to 3, primes, squares): each value belongs to its own direction, for all grid values"""
    mod = c.mod(MPM)
    m = grid(c, n)
    d, pick = listed(shape)
    mp = mod.MasterPattern(m, laue_group=1)
    for again in range(2):
        got = mp.interpolate(d, normalize_coords=bool(again))
        c.shape("shape", got, tuple(shape))
        flat = got.reshape(-1)
        for i, (p, s) in enumerate(pick):
            c.eq(f"value {again} {i}", flat[i], bilinear(half(m, s), t64(p[0]), t64(p[1])))


@harness("C22", cases=[(s,) for s in (False, True)])
def nodes(c, south):
    """at the direction of a grid node the stored value is returned (4 nodes per side)"""
    mod = c.mod(MPM)
    m = grid(c, 4)
    at = [(r, k) for r in range(4) for k in range(4)]
    d = t64([place((2 * k + 1) / 4 - 1, (2 * r + 1) / 4 - 1, south) for r, k in at])
    got = mod.MasterPattern(m, laue_group=1).interpolate(d)
    for i, (r, k) in enumerate(at):
        c.eq(f"node {r} {k}", got[i], half(m, south)[r, k])


@harness("C22")
def equator(c):
    """on both sides of the equator the value is that of the same azimuth at the rim of the own hemisphere; equal rims make it continuous"""
    mod = c.mod(MPM)
    n = 3
    m = grid(c, n)
    mp = mod.MasterPattern(m, laue_group=1)
    for i, (x, y) in enumerate([(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (1.0, 0.5), (-1.0, 0.5), (-0.5, 1.0), (0.25, -1.0)]):
        up = place(x * (1 - 1e-9), y * (1 - 1e-9))
        dn = place(x * (1 - 1e-9), y * (1 - 1e-9), True)
        got = mp.interpolate(t64([up, dn]))
        c.eq(f"above {i}", got[0], bilinear(half(m, False), t64(x), t64(y)), tol=1e-6)
        c.eq(f"below {i}", got[1], bilinear(half(m, True), t64(x), t64(y)), tol=1e-6)


@harness("C22", cases=[(1,), (-1,)])
def scaling(c, s):
    """directions of any length between 0.1 and 10 give the value of the unit direction"""
    mod = c.mod(MPM)
    m = grid(c, 2)
    f = c.var("f", (1,), 0.1, 10)
    d = t64([place(0.5, 0.25, s < 0), place(-0.2, 0.9, s < 0), place(0.0, 0.0, s < 0)])
    mp = mod.MasterPattern(m, laue_group=1)
    c.eq("value", mp.interpolate(d * f), mp.interpolate(d, normalize_coords=False), tol=1e-7)


def binned(m, b):
    out = []
    for s in (False, True):
        h = half(m, s)
        k = h.shape[0] // b
        out.append(torch.stack([torch.stack([h[r * b:(r + 1) * b, q * b:(q + 1) * b].mean() for q in range(k)]) for r in range(k)]))
    return out


@harness("C22", cases=[(4, (2,)), (3, (2,)), (5, (2,)), (6, (2, 3)), (6, (3, 1, 2)), (4, (2, 4, 2)), (5, (2, 5))])
def binning(c, n, factors):
    """virtual binning by any sequence of factors, odd sizes included: blocks of the own hemisphere only, always of the factor asked for"""
    mod = c.mod(MPM)
    m = grid(c, n)
    mp = mod.MasterPattern(m, laue_group=1)
    d, pick = listed((12,))
    for step, b in enumerate(factors):
        got = mp.interpolate(d, virtual_binning=b)
        ref = binned(m, b)
        for i, (p, s) in enumerate(pick):
            c.eq(f"value {step} {i}", got[i], bilinear(ref[s], t64(p[0]), t64(p[1])))


@harness("C22", cases=[("zeromean",), ("minmax",), ("standard",)])
def normalising(c, kind):
    """normalisation applies one affine map to the whole pattern, before and after binned lookups alike"""
    mod = c.mod(MPM)
    m = grid(c, 2) if kind != "minmax" else c.var("m", (1, 2), -2, 2)
    m0 = m.clone()
    mp = mod.MasterPattern(m, laue_group=1)
    d, pick = listed((4,))
    if kind == "zeromean":
        mp.interpolate(d, virtual_binning=2)
    rows = m0.reshape(-1)
    mean = rows.mean()
    if kind == "standard":
        c.assume(((rows - mean) ** 2).sum() >= 1e-2)
    mp.normalize(kind)
    got = mp.master_pattern.reshape(-1)
    if kind == "zeromean":
        c.eq("values", got, rows - mean)
        after = mp.interpolate(d, virtual_binning=2)
        ref = binned(m0 - mean, 2)
        for i, (p, s) in enumerate(pick):
            c.eq(f"binned {i}", after[i], bilinear(ref[s], t64(p[0]), t64(p[1])))
    elif kind == "standard":
        c.eq("values", got * (((rows - mean) ** 2).sum() / (rows.shape[0] - 1)).sqrt(), rows - mean)
    else:
        for i in range(rows.shape[0]):
            c.le(f"at least 0 {i}", zero(), got[i])
            c.le(f"at most 1 {i}", got[i], one())
        c.eq("affine", (got[1] - got[0]) * (rows.amax() - rows.amin() + 1e-4), rows[1] - rows[0])


@harness("C22")
def construction(c):
    """two hemispheres given separately are looked up like the joined pattern; missing, double or ill-shaped arguments are refused"""
    mod = c.mod(MPM)
    m = grid(c, 2)
    d, pick = listed((6,))
    a = mod.MasterPattern((m[:, :2], m[:, 2:]), space_group=225)
    b = mod.MasterPattern(m, point_group="m3-m")
    c.eq("joined", a.interpolate(d), b.interpolate(d))
    c.true("same class", torch.tensor(a.laue_group == b.laue_group == 11))
    c.raises("no group", ValueError, lambda: mod.MasterPattern(m))
    c.raises("two groups", ValueError, lambda: mod.MasterPattern(m, laue_group=11, space_group=225))
    c.raises("rank", ValueError, lambda: mod.MasterPattern(m.reshape(-1), laue_group=11))
    c.raises("rank of halves", ValueError, lambda: mod.MasterPattern((m[0], m[1]), laue_group=11))
    c.raises("normalisation", ValueError, lambda: a.normalize("max"))

"""C10 fundamental sectors of directions"""
import torch
from vf.harness import harness
from .common import *

LAUE = [(k,) for k in range(1, 12)]
R3 = 3 ** 0.5
# inward normals of the faces of the sector (EMsoft's convention: azimuth interval of each class, upper hemisphere)
PLANES = {1: [[0, 0, 1]],
          2: [[0, 0, 1], [0, 1, 0]],
          3: [[0, 0, 1], [0, 1, 0], [1, 0, 0]],
          4: [[0, 0, 1], [0, 1, 0], [1, 0, 0]],
          5: [[0, 0, 1], [0, 1, 0], [1, -1, 0]],
          6: [[0, 0, 1], [0, -1, 0], [R3, -1, 0]],
          7: [[0, 0, 1], [1, 0, 0], [-1, -R3, 0]],
          8: [[0, 0, 1], [0, 1, 0], [R3, -1, 0]],
          9: [[0, 0, 1], [0, 1, 0], [1, -R3, 0]],
          10: [[0, 1, 0], [1, 0, 0], [-1, 0, 1], [0, -1, 1]],
          11: [[0, 1, 0], [1, -1, 0], [-1, 0, 1]]}


def heights(p, laue):
    return (t64(PLANES[laue]) * p.unsqueeze(-2)).sum(-1)


def images(c, p, laue):
    """g p for all listed operators, then -g p"""
    t = c.mod(G).laue_elements(laue)
    m = qmat(t)
    r = (m * p.unsqueeze(-2).unsqueeze(-3)).sum(-1)
    return torch.cat([r, -r], -2)


@harness("C10", cases=LAUE[:-2], budget=200)
def membership(c, laue):
    """the membership test accepts every unit direction strictly inside the faces of the class's sector and rejects every one outside (margin 1e-9)"""
    f = c.mod(FS2)
    p = c.unit_vec("p", (1,))
    h = heights(p, laue)
    i = f.s2_in_fz_laue(p, laue)
    c.shape("shape", i, (1,))
    c.true("interior accepted", i | ~(h >= 1e-9).all(-1))
    on_mirror = (p[..., 1] - p[..., 0]).abs() <= 1e-9
    c.true("exterior rejected", ~(i & (h < -1e-9).any(-1)) | on_mirror)


@harness("C10", cases=LAUE[:-2], budget=200)
def reduction(c, laue):
    """any unit direction reduces to the image of itself under a listed operator, with or without inversion, that lies in the sector (1e-9)"""
    f = c.mod(FS2)
    p = c.unit_vec("p", (1,))
    p0 = p.clone()
    out = f.s2_to_fz_laue(p, laue)
    c.shape("shape", out, (1, 3))
    c.unmutated("p", p, p0)
    h = heights(out, laue)
    c.true("in the sector", (h >= -1e-9).all(-1))
    c.true("equivalent", ((images(c, p, laue) - out.unsqueeze(-2)).abs().amax(-1) < 1e-9).any(-1))


@harness("C10", cases=LAUE[:-2], budget=200)
def representative(c, laue):
    """all equivalents of a direction strictly inside the sector (margin 1e-6) reduce to that direction"""
    f = c.mod(FS2)
    p = c.unit_vec("p", ())
    c.assume((heights(p, laue) >= 1e-6).all())
    e = images(c, p, laue)
    out = f.s2_to_fz_laue(e, laue)
    c.eq("representative", out, p.expand(len(e), 3))


@harness("C10", cases=LAUE)
def equivalents(c, laue):
    """the list of equivalents of a batch (2,1) holds the image under every operator, then the opposite of each"""
    f = c.mod(FS2)
    p = c.unit_vec("p", (2, 1))
    e = f.s2_equiv_laue(p, laue)
    n = c.mod(G).laue_elements(laue).shape[0]
    c.shape("shape", e, (2, 1, 2 * n, 3))
    c.eq("images", e, images(c, p, laue))


@harness("C10", cases=[(3,), (9,)])
def rows(c, laue):
    """each row of a batch of rank 2 reduces as on its own (one symbolic row, two fixed ones)"""
    f = c.mod(FS2)
    p = c.unit_vec("p", (1,))
    fixed = t64([[0.0, 0.6, 0.8], [-0.48, 0.64, -0.6]])
    both = torch.cat([p, fixed]).reshape(1, 3, 3)
    out = f.s2_to_fz_laue(both, laue)
    c.shape("shape", out, (1, 3, 3))
    c.eq("rows", out[0], torch.cat([f.s2_to_fz_laue(p, laue), f.s2_to_fz_laue(fixed, laue)]))
    i = f.s2_in_fz_laue(both, laue)
    c.shape("mask shape", i, (1, 3))


@harness("C10", cases=LAUE[-2:], budget=45)
def membership_cubic(c, laue):
    """membership for the cubic classes, whose curved sector face is only partly within reach of the solver"""
    membership(c, laue)


@harness("C10", cases=LAUE[-2:], budget=45)
def reduction_cubic(c, laue):
    """reduction for the cubic classes (partly within reach)"""
    reduction(c, laue)


@harness("C10", cases=LAUE[-2:], budget=45)
def representative_cubic(c, laue):
    """representatives for the cubic classes (partly within reach)"""
    representative(c, laue)


@harness("C10", cases=[(10, 1), (11, 0)], budget=60)
def cubic_line(c, laue, s):
    """cubic classes along great half circles through the sector (fixed azimuths, every polar angle): membership, reduction"""
    f = c.mod(FS2)
    import math
    az = (0.1, 0.4, 0.7, 1.3)[s]
    th = c.angle("th", 0, 1, (1,), base=1, open_lo=True, open_hi=True)
    p = torch.stack([torch.sin(th) * math.cos(az), torch.sin(th) * math.sin(az), torch.cos(th)], -1)
    h = heights(p, laue)
    i = f.s2_in_fz_laue(p, laue)
    c.true("interior accepted", i | ~(h >= 1e-6).all(-1))
    c.true("exterior rejected", ~(i & (h < -1e-6).any(-1)))
    out = f.s2_to_fz_laue(p, laue)
    c.true("in the sector", (heights(out, laue) >= -1e-6).all(-1))
    c.true("equivalent", ((images(c, p, laue) - out.unsqueeze(-2)).abs().amax(-1) < 1e-6).any(-1))

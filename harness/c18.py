"""C18 pattern centre parameters and rigid transforms"""
import torch
from vf.harness import harness
from .common import *

GEO = "ebsdtorch.ebsd.geometry"
FIT = "ebsdtorch.ebsd.fitting"
SIZES = [(60, 60), (48, 64), (7, 5)]


def frames(d, sx):
    """unit vectors of rows, columns and the normal of the detector in the sample frame: rotation by the primary tilt about the column axis after the secondary tilt about the row axis"""
    s, co, u, v = torch.sin(d), torch.cos(d), torch.sin(sx), torch.cos(sx)
    z = torch.zeros_like(s)
    ei = torch.stack([-s, z, -co], -1)
    ej = torch.stack([-u * co, v, u * s], -1)
    ek = torch.stack([v * co, u, -v * s], -1)
    return ei, ej, ek


def params(c, shape=(1,), half=0.499):
    pc = c.var("pc", tuple(shape) + (3,), lo=-1, hi=2)
    d = c.angle("d", -half, half, shape, base=1)
    sx = c.angle("sx", -half, half, shape, base=1)
    return pc, d, sx


def deg(a):
    return a * 180 / torch.pi


def module(c, which):
    if which == "geometry":
        m = c.mod(GEO)
        return m.bruker_geometry_to_SE3, m.bruker_geometry_from_SE3
    m = c.mod(FIT)
    return m.bruker_geometries_to_SE3, m.bruker_geometry_from_SE3


@harness("C18", cases=[(w, s) for w in ("geometry", "fitting") for s in SIZES])
def placement(c, which, size):
    """the rotation is the frame of rows, columns and normal of the tilted detector, and the translation puts the point at the pattern centre (fraction of the width from the left, of the height from the top, distance in heights) at the source"""
    to, _ = module(c, which)
    pc, d, sx = params(c)
    a = [pc.clone(), deg(d), deg(sx)]
    b = [x.clone() for x in a]
    r, t = to(a[0], a[1], a[2], size)
    ei, ej, ek = frames(d, sx)
    c.shape("rotation shape", r, (1, 3, 3))
    c.shape("translation shape", t, (1, 3))
    c.eq("rotation", r, torch.stack([ei, ej, ek], -1))
    c.eq("orthogonal", matmul(r, r.transpose(-1, -2)), torch.eye(3, dtype=F64).expand(1, 3, 3))
    c.eq("proper", det3(r), torch.ones(1, dtype=F64))
    h, w = float(size[0]), float(size[1])
    i0, j0, k0 = pc[..., 1] * h - 0.5, pc[..., 0] * w - 0.5, pc[..., 2] * h
    at = i0.unsqueeze(-1) * ei + j0.unsqueeze(-1) * ej - k0.unsqueeze(-1) * ek
    c.eq("pattern centre at the source", at + t, torch.zeros(1, 3, dtype=F64))
    for i in range(3):
        c.unmutated(f"argument {i}", a[i], b[i])


@harness("C18", cases=[(w, s) for w in ("geometry", "fitting") for s in SIZES])
def back(c, which, size):
    """the parameters and tilts come back from their transform, for primary and secondary tilts of both signs up to 89.8 degrees, and the transform is left unmodified"""
    to, fro = module(c, which)
    pc, d, sx = params(c)
    r, t = to(pc, deg(d), deg(sx), size)
    r0, t0 = r.clone(), t.clone()
    p, a, b = fro(r, t, size)
    c.eq("pattern centre", p, pc)
    c.eq("primary tilt", a, deg(d))
    c.eq("secondary tilt", b, deg(sx))
    c.unmutated("rotation", r, r0)
    c.unmutated("translation", t, t0)


@harness("C18", cases=[("geometry",), ("fitting",)])
def axis_tilts(c, which):
    """tilts of exactly 0 and 90 degrees in any combination come back, with the pattern centre"""
    to, fro = module(c, which)
    pc = c.var("pc", (5, 3), lo=-1, hi=2)
    d = t64([0.0, 90.0, -90.0, 0.0, 70.0])
    sx = t64([0.0, 0.0, 0.0, 10.0, -10.0])
    r, t = to(pc, d, sx, (60, 80))
    p, a, b = fro(r, t, (60, 80))
    c.eq("pattern centre", p, pc)
    c.eq("primary tilt", a, d)
    c.eq("secondary tilt", b, sx)


@harness("C18", cases=[("geometry",), ("fitting",)])
def rows(c, which):
    """each row of a batch is converted on its own, and scalar tilts apply to all rows"""
    to, fro = module(c, which)
    pc, d, sx = params(c, (2,))
    r, t = to(pc, deg(d), deg(sx), (48, 64))
    for i in range(2):
        ri, ti = to(pc[i:i + 1], deg(d)[i:i + 1], deg(sx)[i:i + 1], (48, 64))
        c.eq(f"rotation {i}", r[i], ri[0])
        c.eq(f"translation {i}", t[i], ti[0])
    rs, ts = to(pc, deg(d)[0], deg(sx)[0], (48, 64))
    c.eq("scalar tilt", ts[1], to(pc[1:], deg(d)[:1], deg(sx)[:1], (48, 64))[1][0])
    c.eq("scalar tilt rotation", rs[0], r[0])

"""C17 projection of detector pixels"""
from contextlib import contextmanager
import torch
from vf.harness import harness
from .common import *
from .c15 import rigid, rotation
from .c18 import GEO, FIT, frames, deg

TILT = 0.49


@contextmanager
def double():
    """the model takes its precision from the default type"""
    torch.set_default_dtype(F64)
    try:
        yield
    finally:
        torch.set_default_dtype(torch.float32)


def symbolic(c, size, se3=None, **kw):
    """geometry model with symbolic tilts and pattern centre (in float64), and its reference frame"""
    g = c.mod(GEO)
    pc = c.var("pc", (3,), lo=-1, hi=2)
    a = c.angle("a", -TILT, TILT, (), base=1)   # detector tilt minus tilt of the sample about y
    sx = c.angle("sx", -TILT, TILT, (), base=1)
    dt = c.var("dt", (), lo=-30, hi=30)
    with double():
        m = g.EBSDGeometry(size, (deg(sx), dt - deg(a), dt), pc, se3, **kw)
    ei, ej, ek = frames(a, sx)
    h, w = float(size[0]), float(size[1])
    origin = torch.stack([pc[1] * h - 0.5, pc[0] * w - 0.5, -pc[2] * h])
    r = torch.stack([ei, ej, ek], -1)
    return m, r, -matvec(r, origin)


def place(r, t, pix):
    """pixel (i, j) of the detector plane in the sample frame"""
    z = torch.zeros_like(pix[..., :1])
    return matvec(r, torch.cat([pix, z], -1)) + t


@harness("C17", cases=[((60, 60),), ((6, 8),)])
def projection(c, size):
    """any pixel projects to the point of the tilted detector plane given by pattern centre, detector tilt and both sample tilts, relative to its scan position"""
    m, r, t = symbolic(c, size)
    pix = c.var("pix", (1, 2), lo=-100, hi=100)
    scan = c.var("scan", (1, 2), lo=-100, hi=100)
    pix0, scan0 = pix.clone(), scan.clone()
    out = m.project2sample(pix)
    c.shape("shape", out, (1, 3))
    c.eq("point", out, place(r, t, pix))
    z = torch.zeros(1, 1, dtype=F64)
    c.eq("scan position", m.project2sample(pix, scan), place(r, t, pix) - torch.cat([scan, z], -1))
    c.unmutated("pixel", pix, pix0)
    c.unmutated("scan", scan, scan0)


@harness("C17")
def back_projection(c):
    """projecting a pixel and projecting the point, or any positive multiple of it, back returns the pixel, with and without scan position"""
    m, r, t = symbolic(c, (6, 8))
    pix = c.var("pix", (1, 2), lo=-100, hi=100)
    scan = c.var("scan", (1, 2), lo=-100, hi=100)
    k = c.var("k", (), lo=0.1, hi=10)
    foot = matvec(r.transpose(-1, -2), t)[2]
    c.assume(foot > 0.01)
    v = m.project2sample(pix)
    c.eq("back", m.backproject2detector(v * k).reshape(1, 2), pix)
    v = m.project2sample(pix, scan)
    height = dot(r[:, 2], torch.cat([scan[0], torch.zeros(1, dtype=F64)]) - t)
    c.assume(height < -0.01)
    c.eq("back with scan", m.backproject2detector(v * k, scan).reshape(1, 2), pix)


@harness("C17")
def rows(c):
    """a grid of pixels against several scan positions broadcasts: entry (p, s) is pixel p seen from position s"""
    m, r, t = symbolic(c, (6, 8))
    pix = c.var("pix", (2, 1, 2), lo=-100, hi=100)
    scan = c.var("scan", (1, 2, 2), lo=-100, hi=100)
    out = m.project2sample(pix, scan)
    c.shape("shape", out, (2, 2, 3))
    for p in range(2):
        for s in range(2):
            want = place(r, t, pix[p, 0]) - torch.cat([scan[0, s], torch.zeros(1, dtype=F64)])
            c.eq(f"{p}{s}", out[p, s], want)


BIN = [((h, w), b) for h, w in ((4, 4), (6, 4), (1, 3), (8, 12)) for b in ((1, 1), (2, 2), (1, 2), (2, 1), (4, 4)) if h % b[0] == 0 and w % b[1] == 0]


@harness("C17", cases=BIN)
def pixel_grid(c, size, binning):
    """the coordinates of all (binned) pixels are the projections of the centres of the blocks of binning pixels, in row-major order"""
    m, r, t = symbolic(c, size)
    out = m.get_coords_sample_frame(binning, F64)
    h, w = size[0] // binning[0], size[1] // binning[1]
    c.shape("shape", out, (h * w, 3))
    i = torch.arange(h, dtype=F64) * binning[0] + (binning[0] - 1) / 2
    j = torch.arange(w, dtype=F64) * binning[1] + (binning[1] - 1) / 2
    pix = torch.stack([i[:, None].expand(h, w), j[None, :].expand(h, w)], -1).reshape(-1, 2)
    c.eq("points", out, place(r, t, pix))


@harness("C17", cases=[((4, 6), (3, 2)), ((5, 4), (1, 3)), ((5, 4), (2, 1))])
def binning_error(c, size, binning):
    """a binning that does not divide the detector is refused"""
    m, r, t = symbolic(c, size)
    c.raises("refused", ValueError, lambda: m.get_coords_sample_frame(binning))


MASKS = [((False,) * 3, (True, True, True)), ((True, True, True), (True, True, True)), ((False,) * 3, (True, False, True)),
         ((True, True, True), (False,) * 3), ((False,) * 3, (False,) * 3)]


@harness("C17", cases=[(m, late) for m in MASKS for late in (False, True)])
def tuning(c, mask, late):
    """a rigid fine tuning acts in the detector frame before the pattern centre, restricted to the enabled rotations and shifts, whether they are enabled at construction or later"""
    rots, shifts = mask
    n = t64([[2 / 3, -1 / 3, 2 / 3]])
    ang = 0.7
    tau = c.var("tau", (1, 3), lo=-10, hi=10)
    vec = torch.cat([n * ang, tau], -1)
    if late:
        m, r, t = symbolic(c, (6, 8), vec)
        m.set_optimizable_se3_params(rots, shifts)
    else:
        m, r, t = symbolic(c, (6, 8), vec, opt_rots=rots, opt_shifts=shifts)
    on = t64([float(x) for x in rots + shifts])
    tune = c.mod("ebsdtorch.lie_algebra.se3").se3_exp_map_om(vec * on)[0]
    pix = c.var("pix", (1, 2), lo=-100, hi=100)
    z = torch.zeros(1, 1, dtype=F64)
    moved = matvec(tune[:3, :3], torch.cat([pix, z], -1)) + tune[:3, 3]
    c.eq("tuned point", m.project2sample(pix), matvec(r, moved) + t)
    rr, tt = m.get_detector2sample()
    c.eq("rotation", rr.reshape(3, 3), matmul(r, tune[:3, :3]))
    c.eq("translation", tt.reshape(3), matvec(r, tune[:3, 3]) + t)


@harness("C17", cases=[((4, 4), 1), ((6, 4), 2), ((8, 8), 4), ((6, 9), 3)])
def fitter_pixels(c, size, b):
    """the pixel grid of the geometry fitter holds the same block centres, and the padded grid continues them by whole binned pixels on every side"""
    m = c.mod(FIT)
    h, w = size[0] // b, size[1] // b
    k = c.ints("k", 0, h * w - 1, ())
    out = m.get_3D_pixel_coords(size, torch.device("cpu"), b, F64)
    c.shape("shape", out, (h * w, 3))
    i, j = k // w, k % w
    want = torch.stack([(i * b).to(F64) + (b - 1) / 2, (j * b).to(F64) + (b - 1) / 2, torch.zeros((), dtype=F64)])
    c.eq("centre", out[k], want)
    grid, pad, shape = m.get_3D_pixel_coords_with_periphery(size, torch.device("cpu"), 0.0, 1.0, 0.2, 0.9, b, F64)
    left, right, top, bottom = pad
    c.true("padding", torch.tensor([left == int(0.5 * w), right == int(0.5 * w), top == int(0.3 * size[0] / b), bottom == int(0.4 * size[0] / b)]))
    c.true("padded shape", torch.tensor([tuple(shape) == (h + top + bottom, w + left + right)]))
    W = w + left + right
    n = c.ints("n", 0, (h + top + bottom) * W - 1, ())
    i, j = n // W - top, n % W - left
    want = torch.stack([(i * b).to(F64) + (b - 1) / 2, (j * b).to(F64) + (b - 1) / 2, torch.zeros((), dtype=F64)])
    c.eq("padded centre", grid[n], want)


@harness("C17")
def fitter_rays(c):
    """the fitter turns pixels into unit directions of the moved points, and rotates them by every orientation of the dictionary"""
    m = c.mod(FIT)
    pix = c.var("pix", (2, 3), lo=-10, hi=10)
    q = c.unit_quat("q", (2,))
    u = c.unit_quat("u", ())
    t = c.var("t", (3,), lo=-10, hi=10)
    r = qmat(u)
    p = matvec(r, pix) + t
    n2 = dot(p, p)
    c.assume((n2 > 0.01).all())
    unit = p / torch.sqrt(n2).unsqueeze(-1)
    c.eq("ray", m.apply_geometry(pix, r, t), unit)
    out = m.generate_dictionary_coords(pix, q, r, t)
    c.shape("shape", out, (2, 2, 3))
    for a in range(2):
        c.eq(f"rotated {a}", out[a], matvec(qmat(q[a]), unit))

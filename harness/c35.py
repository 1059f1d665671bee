"""C35 masks and resampling"""
import math
import torch
from vf.harness import harness
from .common import *
from .c17 import double

RM = "ebsdtorch.preprocessing.radial_mask"
RS = "ebsdtorch.preprocessing.resampling"


def member(i, j, ci, cj, r2):
    d = (i - ci) ** 2 + (j - cj) ** 2
    return d < r2


@harness("C35", cases=[((3, 3),), ((4, 4),), ((2, 5),), ((6, 1),), ((5, 4),)], budget=100)
def radius(c, shape):
    """mask sizes up to 5 x 5 and any radius up to 7 around the middle: exactly the pixels nearer than the radius"""
    m = c.mod(RM)
    r = c.var("r", (), 0.05, 7, edges=(1, 2))
    h, w = shape
    d2 = [[(i - 0.5 * (h - 1)) ** 2 + (j - 0.5 * (w - 1)) ** 2 for j in range(w)] for i in range(h)]
    for v in {x for row in d2 for x in row}:
        c.assume((r - math.sqrt(v)).abs() > 1e-3)
    got = m.get_radial_mask(shape, r)
    c.shape("shape", got, shape)
    c.true("type", torch.tensor(got.dtype == torch.bool))
    for i in range(h):
        for j in range(w):
            c.true(f"pixel {i} {j}", got[i, j] == (r * r > d2[i][j]))


@harness("C35", cases=[((3, 3), 1.2), ((3, 4), 2.2), ((1, 4), 0.7), ((5, 3), 1.6)], budget=100)
def centre(c, shape, r):
    """any centre in fractional coordinates, rows first: 0 is the first and 1 the last pixel"""
    m = c.mod(RM)
    f = c.var("f", (2,), 0, 1, edges=(0, 1))
    h, w = shape
    inside = torch.stack([r * r - (i - f[0] * (h - 1)) ** 2 - (j - f[1] * (w - 1)) ** 2 for i in range(h) for j in range(w)])
    c.assume((inside.abs() > 1e-3).all())
    got = m.get_radial_mask(shape, r, (f[0], f[1]))
    for k in range(h * w):
        c.true(f"pixel {k // w} {k % w}", got[k // w, k % w] == (inside[k] > 0))


@harness("C35", cases=[((h, w),) for h in range(1, 10) for w in (1, 2, 3, 6, 9, 10)])
def default_radius(c, shape):
    """without a radius: half of the shorter side, sizes up to 9 x 10, any centre row"""
    m = c.mod(RM)
    h, w = shape
    t = c.var("t", (), 0, 1)
    got = m.get_radial_mask(shape, None, (0.5, 0.5))
    c.eq("mask", got.to(F64), t64([[1.0 if (2 * i - h + 1) ** 2 + (2 * j - w + 1) ** 2 < min(h, w) ** 2 else 0.0 for j in range(w)] for i in range(h)]))
    if h > 1 and w <= 3:
        inside = torch.stack([(min(h, w) / 2) ** 2 - (i - t * (h - 1)) ** 2 - (j - 0.5 * (w - 1)) ** 2 for i in range(h) for j in range(w)])
        c.assume((inside.abs() > 1e-3).all())
        got = m.get_radial_mask(shape, None, (t, 0.5))
        for k in range(h * w):
            c.true(f"pixel {k}", got[k // w, k % w] == (inside[k] > 0))


def gauss(sigma, cut):
    """half width and weights of the blur"""
    n = math.floor((2 * cut * sigma + 1) / 2)
    w = {(a, b): math.exp(-(a * a + b * b) / (2 * sigma * sigma)) for a in range(-n, n + 1) for b in range(-n, n + 1)}
    t = sum(w.values())
    return {k: v / t for k, v in w.items()}


def mirrored(k, n):
    return -k if k < 0 else (2 * (n - 1) - k if k >= n else k)


def blurred(x, sigma, cut, reflect):
    """definition: weighted mean of the surroundings, mirrored at (or zero beyond) the border"""
    h, w = x.shape
    g = gauss(sigma, cut)
    rows = []
    for i in range(h):
        row = []
        for j in range(w):
            acc = torch.zeros((), dtype=x.dtype)
            for (a, b), v in g.items():
                p, q = i + a, j + b
                if reflect:
                    acc = acc + v * x[mirrored(p, h), mirrored(q, w)]
                elif 0 <= p < h and 0 <= q < w:
                    acc = acc + v * x[p, q]
            row.append(acc)
        rows.append(torch.stack(row))
    return torch.stack(rows)


SIZES = [(4, 4), (3, 5), (5, 4), (4, 7), (3, 3), (6, 6)]


@harness("C35", cases=[(s, g, 3, True) for s in SIZES for g in (0.3, 0.34)] + [((4, 4), 0.7, 1, False), ((3, 4), 0.7, 2, False), ((5, 5), 0.6, 3, False), ((5, 5), 0.5, 3, True), ((4, 5), 2 / 3, 3, True), ((4, 6), 1.0, 1, True), ((7, 5), 0.6, 2, True)], budget=100)
def blur(c, shape, sigma, cut, reflect):
    """images up to 7 x 7, odd and even sides, any values: every pixel is the Gaussian mean around it and the size stays; the second image of a batch on its own"""
    m = c.mod(RS)
    x = c.var("x", shape, -3, 3, dtype=torch.float32)
    y = torch.flip(x, (0,)) * 2 + 1
    got = m.GaussianBlur2d(sigma, cut, reflect)(torch.stack([x, y])[:, None])
    c.shape("shape", got, (2, 1) + shape)
    want = blurred(x, sigma, cut, reflect)
    c.eq("image", got[0, 0], want, tol=1e-4)
    if reflect:
        c.eq("second", got[1, 0], torch.flip(want, (0,)) * 2 + 1, tol=1e-4)
        c.le("mean low", x.amin(), got[0, 0] + 1e-5)
    else:
        c.eq("second", got[1, 0], blurred(y, sigma, cut, reflect), tol=1e-4)


@harness("C35", cases=[((4, 4), 2.0, "bilinear"), ((6, 4), 2.0, "bilinear"), ((5, 5), 2.0, "bilinear"), ((4, 6), 2.0, "bicubic"), ((6, 6), 3.0, "bilinear"), ((6, 6), 3.0, "bicubic"), ((5, 7), 1.5, "bicubic"), ((8, 8), 4.0, "bilinear")], budget=100)
def downsample(c, shape, factor, mode):
    """reduction by a factor: size divided (and rounded down), images of one value keep it, reduction of a sum is the sum of the reductions, and the rows and columns swap with the image's"""
    m = c.mod(RS)
    x = c.var("x", shape, -3, 3, dtype=torch.float32)
    v = c.var("v", (), -3, 3, dtype=torch.float32)
    f = m.BlurAndDownsample(factor, mode)
    got = f(x[None, None])[0, 0]
    size = (int(shape[0] / factor), int(shape[1] / factor))
    c.shape("shape", got, size)
    c.eq("constant", f((x * 0 + v)[None, None])[0, 0], v.expand(size), tol=1e-4)
    c.eq("shifted", f((2 * x + v)[None, None])[0, 0], 2 * got + v, tol=1e-4)
    c.eq("turned", f(x.T[None, None])[0, 0], got.T, tol=1e-4)
    c.eq("mirrored", f(torch.flip(x, (1,))[None, None])[0, 0], torch.flip(got, (1,)), tol=1e-4)
    if mode == "bilinear" and factor == 2.0 and not (shape[0] % 2 or shape[1] % 2):
        b = blurred(x, 2 * factor / 6, 3, True)
        c.eq("means of blocks", got, b.reshape(size[0], 2, size[1], 2).mean((1, 3)), tol=1e-4)

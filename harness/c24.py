"""C24 adaptive histogram equalisation"""
import math
import torch
from vf.harness import harness
from .common import *

CL = "ebsdtorch.preprocessing.clahe"


def reflected(k, n):
    return k if k < n else 2 * (n - 1) - k


def mapping(levels, bins, clip):
    """cumulative histogram of one tile after clipping: what exceeds the limit goes evenly to all bins, the rest to the first ones"""
    n = len(levels)
    h = [float(levels.count(k)) for k in range(bins)]
    if clip > 0:
        top = max(math.floor(clip * n / bins), 1)
        over = sum(max(0.0, v - top) for v in h)
        h = [min(v, top) + over // bins + (1 if k < over % bins else 0) for k, v in enumerate(h)]
    return [min(1.0, sum(h[:k + 1]) / n) for k in range(bins)]


def place(k, n, tiles):
    """position of pixel k of n between the tiles: linear from the outer edge of the first to that of the last tile, clamped to tile centres"""
    t = (2.0 * k / (n - 1) - 1.0) if n > 1 else -1.0
    v = min(max(((t + 1) * tiles - 1) / 2, 0.0), tiles - 1.0)
    a = min(int(math.floor(v)), tiles - 1)
    return [(a, 1 - (v - a))] + ([(a + 1, v - a)] if v - a > 1e-12 else [])


def level(v, bins):
    k = 0
    while k + 1 < bins and bool(v * (bins - 1) >= k + 1):
        k += 1
    return k


def look(table, v):
    """table read at value v in [0, 1], nodes at bin centres, clamped"""
    n = len(table)
    u = v * n - 0.5
    if bool(u <= 0):
        return torch.ones(()) * table[0]
    if bool(u >= n - 1):
        return torch.ones(()) * table[-1]
    k = 0
    while k + 2 < n and bool(u >= k + 1):
        k += 1
    return table[k] + (u - k) * (table[k + 1] - table[k])


def expected(img, h, w, grid, bins, clip):
    th, tw = math.ceil(h / grid[0]), math.ceil(w / grid[1])
    lev = [[level(img[r, k], bins) for k in range(w)] for r in range(h)]
    maps = {}
    for a in range(grid[0]):
        for b in range(grid[1]):
            tile = [lev[reflected(a * th + r, h)][reflected(b * tw + k, w)] for r in range(th) for k in range(tw)]
            maps[a, b] = mapping(tile, bins, clip)
    out = []
    for r in range(h):
        row = []
        for k in range(w):
            tab = [0.0] * bins
            for a, wa in place(r, h, grid[0]):
                for b, wb in place(k, w, grid[1]):
                    tab = [t + wa * wb * m for t, m in zip(tab, maps[a, b])]
            row.append(look(tab, img[r, k]))
        out.append(torch.stack(row))
    return torch.stack(out)


FIX = [0.1, 0.45, 0.8, 0.95, 0.3, 0.62, 0.05, 1.0, 0.55, 0.0, 0.71, 0.38, 0.2, 0.9, 0.66, 0.5]


def image(c, name, h, w, free):
    """free pixels take any value in [0, 1]"""
    x = c.var(name, (len(free),), 0, 1, dtype=torch.float32, edges=(0, 1))
    v = [x[free.index(k)] if k in free else torch.tensor(FIX[k % 16]) for k in range(h * w)]
    return torch.stack(v).reshape(h, w)


CASES = [((2, 2), (1, 1), 3, 40.0, (0, 1, 2)), ((2, 2), (1, 1), 3, 0.0, (0, 3)), ((2, 2), (1, 1), 4, 1.0, (0, 2)), ((2, 3), (1, 1), 4, 2.0, (1, 5)), ((1, 4), (1, 1), 2, 1.0, (0, 2, 3)), ((1, 6), (1, 2), 3, 1.5, (0, 2, 5)),
         ((4, 1), (2, 1), 3, 0.0, (0, 3)), ((3, 3), (1, 1), 3, 1.0, (0, 4, 8)), ((4, 4), (2, 2), 3, 1.2, (0, 7)), ((4, 4), (2, 2), 4, 0.0, (5, 15)), ((3, 3), (2, 2), 3, 1.3, (4, 8)), ((3, 5), (2, 2), 3, 40.0, (7, 14)), ((5, 3), (2, 2), 4, 1.0, (0, 14)), ((2, 6), (1, 3), 3, 1.1, (2, 9)), ((6, 4), (3, 2), 3, 1.6, (8, 23)), ((5, 7), (2, 3), 3, 0.8, (17,)), ((4, 2), (4, 2), 3, 40.0, (3, 6))]


@harness("C24", cases=CASES, budget=150)
def formula(c, shape, grid, bins, clip, free):
    """images up to 6 x 4 with up to three pixels of any value in [0, 1]: tiles with their clipped cumulative histograms, interpolated between the tiles"""
    m = c.mod(CL)
    h, w = shape
    x = image(c, "x", h, w, list(free))
    x0 = x.clone()
    got = m.clahe_grayscale(x[None, None], clip, bins, grid)
    c.shape("shape", got, (1, 1, h, w))
    c.eq("pixels", got[0, 0], expected(x, h, w, grid, bins, clip), tol=1e-4)
    c.le("range low", torch.zeros(()) - 1e-6, got)
    c.le("range high", got, torch.ones(()) + 1e-6)
    c.unmutated("image", x, x0)


@harness("C24", cases=[((2, 3), (1, 1), 3, 1.0), ((4, 4), (2, 2), 4, 40.0), ((3, 5), (2, 2), 3, 1.5)], budget=150)
def constant(c, shape, grid, bins, clip):
    """an image of one value, anything in [0, 1], becomes an image of one value"""
    m = c.mod(CL)
    v = c.var("v", (), 0, 1, dtype=torch.float32, edges=(0, 1))
    got = m.clahe_grayscale(v.expand((1, 1) + shape).clone(), clip, bins, grid)[0, 0]
    c.eq("constant", got, got[0, 0].expand(shape), tol=1e-6)


@harness("C24", cases=[((2, 1), (2, 3), (1, 1)), ((1, 2), (4, 4), (2, 2)), ((2, 2), (2, 2), (1, 2)), ((3, 1), (3, 3), (2, 2))], budget=150)
def batches(c, batch, shape, grid):
    """batches and channels: every image on its own"""
    m = c.mod(CL)
    h, w = shape
    n = batch[0] * batch[1]
    rows = [image(c, f"x{i}", h, w, [(5 * i + 1) % (h * w)]) if i != 1 else torch.flip(torch.tensor(FIX[:h * w]).reshape(h, w), (0,)) for i in range(n)]
    got = m.clahe_grayscale(torch.stack(rows).reshape(batch + shape), 1.4, 3, grid)
    c.shape("shape", got, batch + shape)
    for i in range(n):
        c.eq(f"image {i}", got.reshape(n, h, w)[i], expected(rows[i], h, w, grid, 3, 1.4), tol=1e-4)


@harness("C24", budget=150)
def container(c):
    """the pattern container applies it to each of its patterns"""
    m = c.mod("ebsdtorch.ebsd.experiment_pats")
    rows = [image(c, "x0", 4, 4, [6]), image(c, "x1", 4, 4, [9])]
    e = m.ExperimentPatterns(torch.stack(rows))
    e.contrast_enhance_clahe(1.2, 2, 3)
    c.shape("shape", e.patterns, (2, 4, 4))
    for i in range(2):
        c.eq(f"pattern {i}", e.patterns[i], expected(rows[i], 4, 4, (2, 2), 3, 1.2), tol=1e-4)

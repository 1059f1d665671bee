"""C25 neighbour averaging"""
import math
import torch
from unittest.mock import patch
from vf.harness import harness
from .common import *
from .c17 import double

NL = "ebsdtorch.preprocessing.nlpar"


def weights(base, rad, coeff, bias=0.0):
    """weights of every pattern of a scan (dict position -> pixels), by the published recipe: noise from the closest of the up to eight neighbours, normalised distances, scale solved so that the mean share of the pattern itself within the 3 x 3 window is `coeff`"""
    pos = list(base)
    n = len(base[pos[0]])
    d2 = lambda p, q: sum((a - b) ** 2 for a, b in zip(base[p], base[q]))
    window = lambda p, k: [q for q in pos if abs(q[0] - p[0]) <= k and abs(q[1] - p[1]) <= k]
    var = {}
    for p in pos:
        near = [d2(p, q) for q in window(p, 1) if q != p]
        var[p] = (min(near) if near else 1.0) / (2 * n)
    def dist(p, q):
        s = max(var[p] + var[q], 1e-12)
        return max(0.0, (d2(p, q) - n * s) / (math.sqrt(2 * n) * s))
    def share(x):
        return sum(1 / sum(math.exp(-dist(p, q) / x) for q in window(p, 1)) for p in pos) / len(pos)
    if len({round(dist(p, q), 12) for p in pos for q in window(p, 1)}) == 1:
        x = 1.0
    else:
        lo, hi = 1e-6, 1e6
        assert share(lo) > coeff > share(hi), (share(lo), share(hi))
        for _ in range(200):
            mid = math.sqrt(lo * hi)
            lo, hi = (mid, hi) if share(mid) > coeff else (lo, mid)
        x = lo
    out = {}
    for p in pos:
        e = {q: math.exp(-dist(p, q) / x + (bias if q == p else 0.0)) for q in window(p, rad)}
        t = sum(e.values())
        out[p] = {q: v / t for q, v in e.items()}
    return out


def scan(shape, pix, seed):
    """fixed base patterns, all distances distinct"""
    r = [((seed * 7919 + 104729 * (k + 1) ** 2) % 1009) / 1009 for k in range(shape[0] * shape[1] * pix)]
    return {(i, j): r[(i * shape[1] + j) * pix:(i * shape[1] + j + 1) * pix] for i in range(shape[0]) for j in range(shape[1])}


def build(shape, base, s, lam):
    return torch.stack([torch.stack([torch.stack([s[k] + lam * v for k, v in enumerate(base[i, j])]) for j in range(shape[1])]) for i in range(shape[0])]).unsqueeze(2)


# scan shape, radius, pixels, base patterns, share of the pattern itself and tolerance of its fit (layouts for which the fit settles in few steps)
GRIDS = [((1, 1), 1, 1, 1, 0.4, 0.1), ((1, 2), 1, 1, 1, 0.4, 0.1), ((2, 1), 2, 1, 1, 0.4, 0.1), ((1, 3), 1, 2, 58, 0.6, 0.01), ((1, 4), 2, 2, 12, 0.6, 0.01), ((4, 1), 3, 2, 58, 0.6, 0.03), ((2, 2), 1, 2, 19, 0.4, 0.03),
         ((2, 3), 1, 2, 59, 0.6, 0.03), ((2, 3), 2, 2, 59, 0.6, 0.03), ((3, 2), 2, 2, 21, 0.4, 0.1), ((3, 3), 1, 2, 35, 0.4, 0.1), ((3, 3), 2, 2, 35, 0.4, 0.1), ((3, 4), 3, 1, 42, 0.6, 0.03), ((5, 2), 2, 2, 45, 0.4, 0.1)]


@harness("C25", cases=[g + (0.0, False) for g in GRIDS] + [GRIDS[7] + (1.5, False), GRIDS[11] + (0.7, False)] + [GRIDS[k] + (0.0, True) for k in (5, 6)], budget=150)
def shifted(c, shape, rad, pix, seed, coeff, tol, bias, scaled):
    """patterns with a common offset image (and for some a common positive scale), anything: scans up to 3 x 4 (and 5 x 2) and radii 1 to 3; the result is the weighted average over exactly the scan neighbours in the window with the published weights, moved and scaled alike"""
    m = c.mod(NL)
    base = scan(shape, pix, seed)
    w = weights(base, rad, coeff, bias)
    with double():
        s = c.var("s", (pix,), -5, 5, edges=(0,))
        lam = c.var("scale", (), 0.1, 4, edges=(1,)) if scaled else one()
        x = build(shape, base, s, lam)
        x0 = x.clone()
        got = m.nlpar(x, rad, coeff, tol, bias)
        c.shape("shape", got, shape + (1, pix))
        for p in base:
            for k in range(pix):
                want = s[k] + lam * sum(w[p][q] * base[q][k] for q in w[p])
                c.eq(f"pattern {p} {k}", got[p][0, k], want, tol=1e-4)
        c.unmutated("patterns", x, x0)


@harness("C25", cases=[((1, 1), 1), ((1, 2), 1), ((2, 1), 2)], budget=100)
def pairs(c, shape, rad):
    """scans of one and two patterns of 2 pixels, anything: equal shares"""
    m = c.mod(NL)
    with double():
        x = c.var("x", shape + (1, 2), -3, 3)
        got = m.nlpar(x, rad)
        want = x.reshape(-1, 2).mean(0)
        for i in range(shape[0]):
            for j in range(shape[1]):
                c.eq(f"{i} {j}", got[i, j, 0], want, tol=1e-6)


@harness("C25", cases=[((1, 3), 1), ((2, 2), 2), ((3, 3), 1)], budget=100)
def copies(c, shape, rad):
    """identical patterns in the window: the average of copies is the pattern itself"""
    m = c.mod(NL)
    with double():
        s = c.var("s", (2,), -3, 3)
        x = s.expand(shape + (1, 2)).clone()
        got = m.nlpar(x, rad).reshape(-1, 2)
        for k in range(got.shape[0]):
            c.eq(f"{k}", got[k], s, tol=1e-6)


@harness("C25", cases=[((2, 2), 2, 19, 0.4, 0.03), ((1, 3), 1, 58, 0.6, 0.01)], budget=150)
def container(c, shape, rad, seed, coeff, tol):
    """the pattern container averages its two-dimensional scan and keeps the order of the patterns; other scans are refused"""
    m = c.mod("ebsdtorch.ebsd.experiment_pats")
    base = scan(shape, 2, seed)
    w = weights(base, rad, coeff)
    with double():
        s = c.var("s", (2,), -5, 5, edges=(0,))
        e = m.ExperimentPatterns(build(shape, base, s, one()))
        real = c.mod(NL).nlpar
        # a looser fit, to keep the encoding small
        with patch.object(m, "nlpar", lambda *a, **k: real(*a, **{**k, "coeff_fit_tol": tol}), create=True):
            e.do_nlpar(rad, coeff)
        c.shape("shape", e.patterns, (shape[0] * shape[1], 1, 2))
        for k, p in enumerate(base):
            for i in range(2):
                c.eq(f"pattern {k} {i}", e.patterns[k, 0, i], s[i] + sum(w[p][q] * base[q][i] for q in w[p]), tol=1e-4)
        c.raises("line scan", ValueError, lambda: m.ExperimentPatterns(torch.zeros(3, 2, 2)).do_nlpar(1))

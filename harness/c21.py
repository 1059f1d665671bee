"""C21 pattern container"""
import torch
from vf.harness import harness
from .common import *
from .c17 import double

EXP = "ebsdtorch.ebsd.experiment_pats"
SHAPES = [(2, 2), (1, 2, 2), (3, 2, 2), (2, 2, 2, 2), (1, 3, 2, 2), (2, 1, 1, 3), (2, 3, 2), (2, 2, 3, 1)]


def make(c, shape, lo=-3, hi=3):
    m = c.mod(EXP)
    x = c.var("x", shape, lo, hi)
    x0 = x.clone()
    return m.ExperimentPatterns(x), x0, x0.reshape((-1,) + tuple(shape[-2:]))


@harness("C21", cases=[(s,) for s in SHAPES])
def reading(c, shape):
    """scans of rank 0 to 2 with patterns of several shapes: row k of any selection (repeated, reordered, single, boolean) is the pattern of that scan position"""
    e, x0, flat = make(c, shape)
    n = flat.shape[0]
    c.true("count", torch.tensor(e.n_patterns == n and e.n_pixels == shape[-1] * shape[-2] and tuple(e.pattern_shape) == tuple(shape[-2:])))
    if len(shape) > 2:
        c.true("scan shape", torch.tensor(tuple(e.spatial_shape) == tuple(shape[:-2])))
    for name, idx in (("all", list(range(n))), ("reversed", list(range(n))[::-1]), ("twice", [n - 1, 0, n - 1]), ("one", [n // 2])):
        got = e.get_patterns(torch.tensor(idx), 1)
        c.shape(f"{name} shape", got, (len(idx),) + tuple(shape[-2:]))
        c.eq(name, got, flat[idx])
    mask = torch.tensor([k % 2 == 0 for k in range(n)])
    c.eq("mask", e.get_patterns(mask, 1), flat[mask])
    c.eq("patterns kept", e.patterns, flat)


@harness("C21", cases=[((2, 4, 4), 2), ((2, 4, 2), 2), ((1, 2, 3, 6), 3), ((2, 4, 4), 4), ((2, 6, 3), 3)])
def binning(c, shape, b):
    """binned patterns: every output pixel is the mean of its block, each pattern on its own"""
    e, x0, flat = make(c, shape)
    n = flat.shape[0]
    idx = [n - 1, 0]
    got = e.get_patterns(torch.tensor(idx), b)
    H, W = shape[-2] // b, shape[-1] // b
    c.shape("shape", got, (2, H, W))
    for k, i in enumerate(idx):
        for r in range(H):
            for q in range(W):
                c.eq(f"block {k} {r} {q}", got[k, r, q], flat[i, r * b:(r + 1) * b, q * b:(q + 1) * b].mean())


@harness("C21", cases=[(s, k) for s in ((2, 1, 3), (2, 1, 2, 2), (3, 1, 2)) for k in ("zeromean", "minmax")] + [((2, 1, 2), "standard"), ((1, 1, 3), "standard")])
def normalising(c, shape, kind):
    """normalisation rescales each pattern by its own statistics only and keeps order and shape"""
    e, x0, flat = make(c, shape)
    n = flat.shape[0]
    rows = flat.reshape(n, -1)
    mean = rows.mean(-1, keepdim=True)
    if kind == "standard":
        for k in range(n):
            c.assume(((rows[k] - mean[k]) ** 2).sum() >= 1e-2)
    e.normalize_per_pattern(kind)
    c.shape("shape", e.patterns, (n,) + tuple(shape[-2:]))
    got = e.patterns.reshape(n, -1)
    if kind == "zeromean":
        want = rows - mean
        c.eq("pattern", got, want)
        c.eq("mean", got.mean(-1), zero(n))
    elif kind == "standard":
        sd = (((rows - mean) ** 2).sum(-1, keepdim=True) / (rows.shape[1] - 1)).sqrt()
        c.eq("pattern", got * sd, rows - mean)
    else:
        for k in range(n):
            for a in range(rows.shape[1]):
                c.le(f"at least 0 {k} {a}", zero(), got[k, a])
                c.le(f"at most 1 {k} {a}", got[k, a], one())
                for b in range(a):
                    c.eq(f"affine {k} {a} {b}", (got[k, a] - got[k, b]) * (rows[k].amax() - rows[k].amin() + 1e-4), rows[k, a] - rows[k, b])


@harness("C21")
def normalise_errors(c):
    """unknown normalisations, patterns of unsupported rank and reading unset results are refused"""
    m = c.mod(EXP)
    e, x0, flat = make(c, (2, 2, 2))
    c.raises("normalisation", ValueError, lambda: e.normalize_per_pattern("max"))
    c.raises("rank 1", ValueError, lambda: m.ExperimentPatterns(x0.reshape(-1)))
    c.raises("rank 5", ValueError, lambda: m.ExperimentPatterns(x0.reshape(1, 1, 2, 2, 2)))
    f, _, _ = make(c, (2, 2, 2))
    c.raises("coordinates", ValueError, f.get_spatial_coords)
    c.raises("deformation", ValueError, f.get_inv_f_matrix)
    c.raises("phases", ValueError, f.get_indices_per_phase)
    c.raises("combine", ValueError, lambda: f.combine_indexing_results(True))
    c.raises("orientation count", ValueError, lambda: f.set_orientations(torch.ones(3, 4, dtype=F64)))
    c.raises("coordinate count", ValueError, lambda: f.set_spatial_coords(torch.ones(3, 2, dtype=F64)))
    c.raises("filter of a line scan", ValueError, f.do_nlpar)


@harness("C21", cases=[((3, 2, 2),), ((2, 2, 1, 2),)])
def background(c, shape):
    """the overall background is the mean pattern of the scan: it becomes zero and differences between patterns stay"""
    e, x0, flat = make(c, shape)
    n = flat.shape[0]
    e.subtract_overall_background()
    c.eq("mean pattern", e.patterns.mean(0), torch.zeros(shape[-2:], dtype=F64))
    for k in range(1, n):
        c.eq(f"difference {k}", e.patterns[k] - e.patterns[0], flat[k] - flat[0])


@harness("C21", cases=[(k,) for k in range(4)])
def write_back(c, k):
    """orientations and coordinates written for any selection are read back for those positions, the others keep theirs; two writes in sequence, all values"""
    e, _, _ = make(c, (2, 2, 1, 1))
    first, second = [([0, 1], [2]), ([3, 0], [0, 2]), ([2], [2]), ([0, 1, 2, 3], [3, 1])][k]
    for name, put, get, w in (("orientations", e.set_orientations, e.get_orientations, 4), ("coordinates", e.set_spatial_coords, e.get_spatial_coords, 2)):
        base = c.var(f"{name}_b", (4, w), -1, 1)
        want = {i: base[i].clone() for i in range(4)}
        put(base.clone())
        for step, idx in enumerate((first, second)):
            v = c.var(f"{name}_{step}", (len(idx), w), -1, 1)
            put(v, torch.tensor(idx))
            for a, i in enumerate(idx):
                want[i] = v[a].clone()
            c.eq(f"{name} {step}", get(), torch.stack([want[i] for i in range(4)]))
        sel = [3, 1, 1]
        c.eq(f"{name} selection", get(torch.tensor(sel)), torch.stack([want[i] for i in sel]))


@harness("C21", cases=[(0,), (1,), (2,), (3,), (4,)])
def deformation(c, k):
    """deformation gradients given per pattern or once, as matrices or rows, are returned for the same positions; the default is the identity"""
    with double():
        e, _, _ = make(c, (3, 1, 2))
        if k == 4:
            e.set_inv_f_matrix()
            want = torch.eye(3, dtype=F64).expand(3, 3, 3)
        else:
            f = c.var("f", [(3, 3, 3), (3, 9), (1, 3, 3), (1, 9)][k], -1, 1)
            want = f.reshape(-1, 3, 3).expand(3, 3, 3).clone()
            e.set_inv_f_matrix(f)
        c.eq("all", e.get_inv_f_matrix(), want)
        c.eq("selection", e.get_inv_f_matrix(torch.tensor([2, 0])), want[[2, 0]])


@harness("C21", cases=[(1, 1, True, 0), (1, 2, False, 3), (2, 1, True, 0), (2, 1, False, 0), (2, 2, True, 1), (3, 1, False, 0), (3, 1, True, 0)])
def combine(c, phases, top, higher, first):
    """up to 3 phases with up to 2 matches of up to 2 patterns: every pattern gets orientation, metric and phase of its best top match"""
    with double():
        n = 2
        e, _, _ = make(c, (n, 1, 2))
        m = c.var("m", (phases, n, top), -1, 1)
        q = c.var("q", (phases, n, top, 4), -1, 1)
        for p in range(phases):
            for o in range(p):
                for i in range(n):
                    c.assume(m[p, i, 0] != m[o, i, 0])
        for p in range(phases):
            e.set_raw_indexing_results(q[p], m[p], phase_id=first + p)
        e.combine_indexing_results(higher_is_better=higher)
        c.shape("orientations", e.orientations, (n, 4))
        for i in range(n):
            p = int(e.phases[i]) - first
            c.true(f"phase {i}", torch.tensor(0 <= p < phases))
            c.eq(f"metric {i}", e.best_metrics[i], m[p, i, 0])
            c.eq(f"orientation {i}", e.get_orientations()[i], q[p, i, 0])
            for o in range(phases):
                c.le(f"best {i} {o}", *((m[o, i, 0], m[p, i, 0]) if higher else (m[p, i, 0], m[o, i, 0])))


@harness("C21", cases=[(3, 2), (2, 3), (1, 1), (4, 2)])
def phase_lists(c, n, phases):
    """every assignment of up to 4 patterns to up to 3 phases: the index lists partition the scan and are lists even for one pattern"""
    e, _, _ = make(c, (n, 1, 1))
    ph = c.ints("p", 0, phases - 1, (n,))
    e.phases = ph
    lists = e.get_indices_per_phase()
    seen = []
    for p, l in enumerate(lists):
        c.true(f"rank {p}", torch.tensor(l.dim() == 1))
        if l.dim() != 1:
            return
        for i in l.tolist():
            seen.append(i)
            c.true(f"phase of {i}", ph[i] == p)
        c.shape(f"patterns {p}", e.get_patterns(l, 1), (l.shape[0], 1, 1))
    c.true("partition", torch.tensor(sorted(seen) == list(range(n))))

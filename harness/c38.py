"""C38 dictionary indexing"""
import contextlib
import io
import torch
from unittest.mock import patch
from vf.harness import harness
from .common import *
from .c19 import distance

FILE = "ebsdtorch/ebsd/indexing.py"
F32 = torch.float32
DICT = [[0.5, 0.5, 0.5, 0.5], [1.0, 0.0, 0.0, 0.0], [0.8, 0.6, 0.0, 0.0], [0.6, 0.0, 0.64, 0.48], [0.5, -0.5, 0.5, -0.5]]


def setting(c, shape=(2, 2), n_dict=3, phases=1):
    """geometry of a small detector, master patterns and dictionaries (all fixed)"""
    geo = c.mod("ebsdtorch.ebsd.geometry").EBSDGeometry(detector_shape=shape, proj_center=(0.4, 0.3, 0.6))
    mps, dicts = [], []
    for p in range(phases):
        g = torch.tensor([[((7 * r * r + 3 * k * k * (p + 1) + 5 * r * k + k + 2 * p) % 17) / 17 for k in range(10)] for r in range(5)])
        mps.append(c.mod("ebsdtorch.ebsd.master_pattern").MasterPattern(g, laue_group=1 + p))
        dicts.append(torch.tensor(DICT[p:p + n_dict] if p else DICT[:n_dict]))
    return geo, mps, dicts


def simulated(c, geo, mp, oris, binning, mask):
    """dictionary patterns by definition: master pattern seen from each pixel under each orientation, without their mean"""
    xyz = geo.get_coords_sample_frame(binning=(binning, binning)).detach()
    xyz = xyz / xyz.norm(dim=-1, keepdim=True)
    rows = []
    for q in oris:
        p = mp.interpolate(c.mod(Q).qu_apply(q.expand(xyz.shape[0], 4), xyz), mode="bilinear", align_corners=False, virtual_binning=binning).reshape(-1)
        if mask is not None:
            p = p[mask.flatten()]
        rows.append(p - p.mean())
    return torch.stack(rows)


def prepared(x, binning, mask, subtract):
    """experimental patterns by definition"""
    n, h, w = x.shape
    y = x.reshape(n, h // binning, binning, w // binning, binning).mean((2, 4)).reshape(n, -1)
    if mask is not None:
        y = y[:, mask.flatten()]
    return y - y.mean(-1, keepdim=True) if subtract else y


def call(c, name, mps, geo, e, dicts, **kw):
    m = c.defs(FILE, ("kikuchipy", "numpy", "orix", "matplotlib"))
    by_group = {mp.laue_group: d for mp, d in zip(mps, dicts)}
    def sampler(laue_id, angular_resolution_deg, device=None, **k):
        d = by_group[laue_id]
        return d[:2].clone() if angular_resolution_deg == 9.0 else d.clone()
    with patch.object(m, "sample_ori_fz_laue_angle", sampler, create=True), contextlib.redirect_stdout(io.StringIO()):
        getattr(m, name)(mps if len(mps) > 1 else mps[0], geo, e, match_dtype=F32, **kw)


def which(row, oris):
    """entry of the dictionary a returned orientation is"""
    for k, q in enumerate(oris):
        if bool((row - q).abs().amax() < 1e-6):
            return k
    return None


def judge(c, e, pats, sims, dicts, metric, k):
    """every pattern of every phase: orientation and value of the best entries, best first; over phases the best of all"""
    sign = -1 if metric == "angular" else 1
    n = pats.shape[0]
    ref = [[distance(metric, pats[i].unsqueeze(0), s) for s in sims] for i in range(n)]
    for p in range(len(sims)):
        oris, vals = e.raw_indexing_results[p]
        c.shape(f"phase {p} orientations", oris, (n, k, 4))
        c.shape(f"phase {p} values", vals, (n, k))
        for i in range(n):
            ids = [which(oris[i, a], dicts[p]) for a in range(k)]
            c.true(f"phase {p} pattern {i} entries", torch.tensor(None not in ids and len(set(ids)) == k))
            if None in ids:
                continue
            r = ref[i][p]
            for a in range(k):
                c.eq(f"phase {p} pattern {i} value {a}", vals[i, a], r[ids[a]], tol=1e-4)
                if a:
                    c.le(f"phase {p} pattern {i} order {a}", sign * r[ids[a - 1]], sign * r[ids[a]] + 1e-4)
            for j in range(len(dicts[p])):
                if j not in ids:
                    c.le(f"phase {p} pattern {i} entry {j} is no better", sign * r[ids[-1]], sign * r[j] + 1e-4)
    ph = [int(v.item()) for v in e.phases]
    c.shape("orientations", e.orientations, (n, 4))
    for i in range(n):
        at = which(e.orientations[i], dicts[ph[i]])
        c.true(f"pattern {i} entry", torch.tensor(at is not None))
        if at is None:
            continue
        best = ref[i][ph[i]][at]
        c.eq(f"pattern {i} value", e.best_metrics[i], best, tol=1e-4)
        for p in range(len(sims)):
            for j in range(len(dicts[p])):
                c.le(f"pattern {i} phase {p} entry {j} is no better", sign * best, sign * ref[i][p][j] + 1e-4)


MASK = torch.tensor([[True, False], [True, True]])
CASES = [(m, 3, dc, ec, False, True, 1, 1) for m in ("angular", "euclidean") for dc, ec in ((2, 1), (5, 10), (1, 2), (3, 3))] + \
    [("manhattan", 2, 1, 1, False, True, 1, 1), ("manhattan", 2, 2, 9, True, True, 1, 1)] + \
    [("angular", 3, dc, ec, mask, sub, b, k) for dc, ec, mask, sub, b, k in ((2, 2, True, True, 1, 1), (2, 9, True, False, 1, 1), (2, 1, False, False, 1, 1), (1, 2, False, True, 1, 2), (3, 9, False, True, 1, 3), (2, 1, False, True, 2, 1), (2, 9, False, True, 2, 2), (1, 1, True, True, 2, 1), (2, 2, True, False, 2, 1))] + \
    [("euclidean", 3, 2, 1, False, False, 1, 1), ("euclidean", 3, 2, 9, False, False, 2, 1), ("euclidean", 3, 2, 2, True, False, 1, 2)]


@harness("C38", cases=CASES, budget=150)
def best_match(c, metric, n_dict, dict_chunk, exp_chunk, mask, subtract, binning, k):
    """two patterns of 2 x 2 (binned: 4 x 4) pixels with any intensities against up to 3 entries in every chunking, with and without mask and mean, 1 to 3 matches"""
    geo, mps, dicts = setting(c, (2 * binning, 2 * binning), n_dict)
    if metric == "manhattan":
        x = torch.stack([c.var("x", (2, 2), 0, 1, dtype=F32), torch.tensor([[0.9, 0.1], [0.3, 0.4]])])
    else:
        x = c.var("x", (2, 2 * binning, 2 * binning), 0, 1, dtype=F32)
    x0 = x.clone()
    e = c.mod("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns(x)
    mk = MASK if mask else None
    call(c, "dictionary_index_orientations", mps, geo, e, dicts, signal_mask=mk, subtract_exp_pat_mean=subtract, experiment_chunk_size=exp_chunk, dictionary_chunk_size=dict_chunk, virtual_binning=binning, top_k_matches=k, distance_metric=metric, quantized_if_x86=False)
    pats = prepared(x0, binning, mk, subtract)
    sims = [simulated(c, geo, mp, d, binning, mk) for mp, d in zip(mps, dicts)]
    judge(c, e, pats, sims, dicts, metric, k)
    c.unmutated("patterns", e.patterns.reshape(x0.shape), x0)


@harness("C38", cases=[("angular", 2, 1), ("angular", 1, 5), ("euclidean", 2, 2)], budget=150)
def phases(c, metric, dict_chunk, exp_chunk):
    """two phases with 2 and 2 entries: every pattern gets the phase and orientation of the best entry of both; indexing again with one phase forgets the other"""
    geo, mps, dicts = setting(c, (2, 2), 2, 2)
    x = torch.stack([c.var("x", (2, 2), 0, 1, dtype=F32), torch.tensor([[0.9, 0.1], [0.3, 0.4]])])
    e = c.mod("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns(x)
    kw = dict(experiment_chunk_size=exp_chunk, dictionary_chunk_size=dict_chunk, distance_metric=metric, quantized_if_x86=False)
    call(c, "dictionary_index_orientations", mps, geo, e, dicts, **kw)
    pats = prepared(x, 1, None, True)
    sims = [simulated(c, geo, mp, d, 1, None) for mp, d in zip(mps, dicts)]
    judge(c, e, pats, sims, dicts, metric, 1)
    call(c, "dictionary_index_orientations", mps[:1], geo, e, dicts[:1], **kw)
    judge(c, e, pats, sims[:1], dicts[:1], metric, 1)


def projected(sims, pats, train, n):
    """both sets on the n leading principal components of the training patterns"""
    cov = (train - train.mean(0)).T @ (train - train.mean(0)) / (len(train) - 1)
    v = torch.linalg.eigh(cov)[1][:, -n:]
    return sims @ v, pats @ v


PCA = [(3, 2, 9, False, True, 1, 4, False), (3, 2, 1, False, True, 1, 2, False), (3, 1, 2, False, False, 1, 1, False), (3, 2, 9, True, True, 1, 2, False), (3, 2, 2, True, False, 1, 3, False), (3, 2, 9, False, True, 2, 2, False), (3, 2, 1, False, True, 2, 2, False), (3, 2, 1, True, True, 2, 1, False), (3, 2, 9, False, False, 1, 2, False), (4, 3, 9, False, True, 1, 1, True)]


@harness("C38", cases=PCA, budget=150)
def compressed(c, n_dict, dict_chunk, exp_chunk, mask, subtract, binning, comps, other):
    """indexing on principal components of the dictionary, any number of components: the best entries by the projected patterns; the components may come from a coarser dictionary"""
    geo, mps, dicts = setting(c, (2 * binning, 2 * binning), n_dict)
    x = c.var("x", (2, 2 * binning, 2 * binning), 0, 1, dtype=F32)
    x0 = x.clone()
    e = c.mod("ebsdtorch.ebsd.experiment_pats").ExperimentPatterns(x)
    mk = MASK if mask else None
    call(c, "pca_dictionary_index_orientations", mps, geo, e, dicts, n_pca_components=comps, signal_mask=mk, subtract_exp_pat_mean=subtract, experiment_chunk_size=exp_chunk, dictionary_chunk_size=dict_chunk, virtual_binning=binning, quantized_via_ao=False, dictionary_resolution_learn_deg=9.0 if other else 0.5)
    train = simulated(c, geo, mps[0], dicts[0][:2] if other else dicts[0], binning, mk)
    sims = simulated(c, geo, mps[0], dicts[0], binning, mk)
    sims, pats = projected(sims, prepared(x0, binning, mk, subtract), train, comps)
    judge(c, e, pats, [sims], dicts, "angular", 1)
    c.unmutated("patterns", e.patterns.reshape(x0.shape), x0)

"""C19 chunked nearest neighbours"""
import torch
from vf.harness import harness
from .common import *

KNN = "ebsdtorch.utils.knn"
METRICS = ("angular", "euclidean", "manhattan")


def distance(metric, q, d):
    if metric == "angular":
        return (q * d).sum(-1)
    if metric == "euclidean":
        return ((q - d) ** 2).sum(-1)
    return (q - d).abs().sum(-1)


def judge(c, name, metric, query, data, idx, dist, k, slack=1e-9):
    """row of indices and distances against the whole database"""
    n = data.shape[0]
    ref = distance(metric, query.unsqueeze(0), data)
    ids = [int(i.item()) for i in idx]
    c.true(f"{name} valid", torch.tensor(all(0 <= i < n for i in ids)))
    if not all(0 <= i < n for i in ids):
        return
    c.true(f"{name} distinct", torch.tensor(len(set(ids)) == k))
    got = torch.stack([ref[i] for i in ids])
    if dist is not None:
        c.eq(f"{name} distance", dist.to(F64), got, tol=max(1e-6, slack))
    sign = -1 if metric == "angular" else 1
    for a in range(k - 1):
        c.le(f"{name} order {a}", sign * got[a], sign * got[a + 1] + slack)
    for j in range(n):
        if j not in ids:
            c.le(f"{name} entry {j} is no better", sign * got[-1], sign * ref[j] + slack)


def run(c, metric, sizes, k, queries, split, device="cpu", slack=1e-9, **kw):
    m = c.mod(KNN)
    n = sum(sizes)
    data = c.var("d", (n, 2), lo=-2, hi=2)
    before = data.clone()
    q0 = queries.clone()
    s = m.ChunkedKNN(n, len(queries), k, torch.device(device), metric, F64, **kw)
    at = 0
    for size in sizes:
        s.set_data_chunk(data[at:at + size])
        at += size
        if split is None:
            s.query_all(queries)
        else:
            start = 0
            for w in split:
                s.query_chunk(queries[start:start + w], start)
                start += w
    idx, dist = s.retrieve_topk()
    c.shape("indices shape", idx, (len(queries), k))
    c.shape("distances shape", dist, (len(queries), k))
    for r in range(len(queries)):
        judge(c, f"query {r}", metric, queries[r], data, idx[r], dist[r], k, slack)
    c.unmutated("data", data, before)
    c.unmutated("queries", queries, q0)


ONE = t64([[0.6, -0.8]])
TWO = t64([[0.6, -0.8], [1.0, 0.5]])
SPLITS = [((3,), 1), ((3,), 2), ((2, 1), 1), ((2, 1), 2), ((1, 2), 2), ((1, 1, 1), 2), ((2, 2), 2), ((1, 3), 2), ((3, 1), 2), ((2, 1), 3)]


@harness("C19", cases=[(m, s, k) for m in METRICS[:1] for s, k in SPLITS] + [(m, s, k) for m in METRICS[1:] for s, k in SPLITS[:6]], budget=200)
def database_split(c, metric, sizes, k):
    """one query against 3 or 4 entries of 2 components with all values, the database split in any way, ragged and smaller than the number of neighbours included"""
    run(c, metric, sizes, k, ONE, None, quantized_via_ao=False)


@harness("C19", cases=[(m, s) for m in METRICS[:2] for s in (None, (2,), (1, 1))], budget=200)
def query_split(c, metric, split):
    """two queries in one or several chunks against 3 entries in two chunks: every query gets its own 2 neighbours"""
    run(c, metric, (2, 1), 2, TWO, split, quantized_via_ao=False)


@harness("C19", cases=METRICS[1:] and [(m,) for m in METRICS[1:]])
def default_mode(c, metric):
    """with the default (quantised) mode, metrics other than the dot product still return the nearest entries"""
    run(c, metric, (2, 1), 2, t64([[0.5, -0.75]]), None, slack=1e-4)


@harness("C19", cases=[(m,) for m in METRICS])
def batch(c, metric):
    """the unchunked search returns the best entries and their distances for a symbolic query"""
    m = c.mod(KNN)
    data = c.var("d", (3, 2), lo=-2, hi=2)
    q = c.var("q", (1, 2), lo=-2, hi=2) if metric != "euclidean" else ONE
    dist, idx = m.knn_batch(data, q, 2, metric)
    best = torch.topk(dist, 2, dim=1, largest=metric == "angular")[1]
    judge(c, "batch", metric, q[0], data, torch.gather(idx, 1, best)[0], torch.gather(dist, 1, best)[0], 2)


@harness("C19")
def errors(c):
    """an unknown metric and a search before any data are refused"""
    m = c.mod(KNN)
    d = c.var("d", (2, 2), lo=-1, hi=1)
    c.raises("metric", NotImplementedError, lambda: m.knn_batch(d, ONE, 1, "cosine"))
    s = m.ChunkedKNN(2, 1, 1, torch.device("cpu"), "angular", F64, quantized_via_ao=False)
    c.raises("no data", ValueError, lambda: s.query_all(ONE))
    c.raises("no data chunk", ValueError, lambda: s.query_chunk(ONE, 0))

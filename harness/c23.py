"""C23 similarity measures"""
import math
import torch
from vf.harness import harness
from .common import *
from .c17 import double

MI = "ebsdtorch.utils.mutual_information"
NORMS = ["none", "Kvalseth Sum", "Kvalseth Min", "Kvalseth Max", "Yao", "Strehl-Ghosh", "Logarithmic"]
GAP = 1e-3


def image(c, name, shape, bins, top=True):
    """values in [0, 1], away from inner bin edges (where the code's own rounding guard acts) but including both ends"""
    x = c.var(name, shape, 0, 1, edges=(0, 1))
    for v in x.reshape(-1):
        for k in range(1, bins):
            c.assume((v * bins > k + GAP) | (v * bins < k - GAP))
        if not top:
            c.assume(v < 1 - GAP)
    return x


def bin_of(v, bins):
    k = 0
    while k + 1 < bins and bool(v * bins >= k + 1):
        k += 1
    return k


def plogp(counts):
    n = sum(counts)
    return -sum(k / n * math.log(k / n) for k in counts if k)


def entropies(A, B):
    """entropies of the marginals and of the joint histogram of two lists of bins"""
    h = lambda l: plogp([l.count(v) for v in set(l)])
    return h(A), h(B), h(list(zip(A, B)))


def normalised(ea, eb, ej, norm):
    mi = ea + eb - ej
    if norm == "none":
        return mi
    if norm == "Kvalseth Sum":
        return 2 * mi / (ea + eb)
    if norm == "Kvalseth Min":
        return mi / min(ea, eb)
    if norm == "Kvalseth Max":
        return mi / max(ea, eb)
    if norm == "Yao":
        return mi / ej
    if norm == "Strehl-Ghosh":
        return mi / math.sqrt(ea * eb)
    return mi / (eb if abs(ea - eb) < 1e-6 else (ea - eb) / (math.log(ea) - math.log(eb)))


def valid(ea, eb, ej, norm):
    return norm == "none" or (ea > 1e-9 and eb > 1e-9)


@harness("C23", cases=[(2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (2, 4)], budget=150)
def raw(c, n, bins):
    """two images of up to 4 values in [0, 1] in up to 4 bins, taken as they are: mutual information is the entropy formula on the joint histogram"""
    m = c.mod(MI)
    with double():
        a, b = image(c, "a", (1, n), bins), image(c, "b", (1, n), bins)
        a0 = a.clone()
        got = m.mutual_information(a, b, bins, False)
        back = m.mutual_information(b, a, bins, False)
        c.shape("shape", got, (1,))
        A, B = [bin_of(v, bins) for v in a[0]], [bin_of(v, bins) for v in b[0]]
        ea, eb, ej = entropies(A, B)
        c.eq("formula", got[0], t64(ea + eb - ej), tol=1e-6)
        c.eq("symmetric", got, back, tol=1e-6)
        c.le("not negative", zero(), got[0] + 1e-6)
        if len(set(A)) == 1 or len(set(B)) == 1:
            c.eq("constant", got[0], zero(), tol=1e-6)
        c.unmutated("image", a, a0)


def shaped(c, name, n, perm):
    """n values in a given order, spread over their own range"""
    lo = c.var(name + "l", (), -2, 2)
    w = 0.5 if name == "a" else 3.0
    t = [zero(), one()] + [c.var(f"{name}t{i}", (), 0, 1) for i in range(n - 2)]
    return torch.stack([lo + w * t[perm[i]] for i in range(n)]).unsqueeze(0), [t[perm[i]] for i in range(n)]


@harness("C23", cases=[(3, 2, (0, 1, 2)), (3, 2, (2, 1, 0)), (3, 3, (1, 2, 0)), (3, 3, (0, 2, 1)), (4, 2, (2, 0, 3, 1)), (2, 5, (0, 1))], budget=150)
def ranged(c, n, bins, perm):
    """images of any range: values are spread over the bins from the smallest to the largest; scaling and shifting an image changes nothing"""
    m = c.mod(MI)
    with double():
        a, ta = shaped(c, "a", n, tuple(range(n)))
        b, tb = shaped(c, "b", n, perm)
        for t in ta + tb:
            for k in range(1, bins):
                c.assume((t * bins > k + GAP) | (t * bins < k - GAP))
        got = m.mutual_information(a, b, bins)
        ea, eb, ej = entropies([bin_of(t, bins) for t in ta], [bin_of(t, bins) for t in tb])
        c.eq("formula", got[0], t64(ea + eb - ej), tol=1e-6)


@harness("C23", cases=[(True,), (False,)])
def constant(c, norm):
    """a constant image carries no information, with and without spreading"""
    m = c.mod(MI)
    with double():
        v = c.var("v", (1, 1), 0.01, 0.99)
        if not norm:
            c.assume((v < 0.49).all() | (v > 0.51).all())
        a = v.expand(1, 3).clone()
        b = t64([[0.1, 0.6, 0.9]])
        c.eq("value", m.mutual_information(a, b, 2, norm), zero(1), tol=1e-6)
        c.eq("other side", m.mutual_information(b, a, 2, norm), zero(1), tol=1e-6)


@harness("C23", cases=[(2, 2), (1, 2), (2, 1)], budget=150)
def batches(c, p, q):
    """batches and a single image against a batch: every pair of rows on its own"""
    m = c.mod(MI)
    with double():
        a, b = image(c, "a", (p, 2), 2), image(c, "b", (q, 2), 2)
        got = m.mutual_information(a, b, 2, False)
        n = max(p, q)
        c.shape("shape", got, (n,))
        for i in range(n):
            A, B = [bin_of(v, 2) for v in a[min(i, p - 1)]], [bin_of(v, 2) for v in b[min(i, q - 1)]]
            ea, eb, ej = entropies(A, B)
            c.eq(f"row {i}", got[i], t64(ea + eb - ej), tol=1e-6)


@harness("C23", cases=[(n, (1, 3) if i % 2 else (3, 1), ("nats", "bits")[i % 2], False) for i, n in enumerate(NORMS)] + [("Logarithmic", (1, 3), "nats", False), ("none", (1, 3), "nats", True), ("Yao", (3, 1), "bits", True)], budget=150)
def binned(c, norm, shape, mode, skip):
    """binned measure with different bin numbers (2 and 3) for 3 values in [0, 1], end points included, in every normalisation and unit"""
    m = c.mod(MI)
    x, y = image(c, "x", shape, 2), image(c, "y", shape, 3)
    A, B = [bin_of(v, 2) for v in x.reshape(-1)], [bin_of(v, 3) for v in y.reshape(-1)]
    if skip:
        keep = [(p, q) for p, q in zip(A, B) if p and q]
        c.assume(torch.tensor(len(keep) > 0))
        A, B = [k[0] for k in keep], [k[1] for k in keep]
    e = entropies(A, B)
    c.assume(torch.tensor(valid(*e, norm)))
    if mode == "bits":
        e = [v / math.log(2) for v in e]
    got = torch.as_tensor(m.binned_nmi(x, y, 2, 3, mode=mode, norm_mode=norm, exclude_lowest_bin=skip))
    c.eq("value", got, t64(normalised(*e, norm)), tol=1e-5)
    if norm == "none":
        c.eq("symmetric", torch.as_tensor(m.binned_nmi(y, x, 3, 2, mode=mode, exclude_lowest_bin=skip)), got, tol=1e-5)
    elif norm in ("Kvalseth Sum", "Kvalseth Max", "Yao", "Strehl-Ghosh"):
        c.le("at most one", got, one() + 1e-5)
        c.le("at least zero", zero() - 1e-5, got)


@harness("C23", cases=[(2, 2), (1, 2), (2, 1)], budget=150)
def binned_batches(c, p, q):
    """batched binned measure: every pair of images on its own, one image against many included (second batch fixed when the first has two images)"""
    m = c.mod(MI)
    x, y = image(c, "x", (p, 1, 2), 2), image(c, "y", (q, 2, 1), 2) if p == 1 else t64([[[0.0], [0.9]], [[0.8], [1.0]]][:q])
    got = m.batch_binned_nmi(x, y, 2, 2)
    n = max(p, q)
    c.shape("shape", got, (n,))
    for i in range(n):
        A, B = [bin_of(v, 2) for v in x[min(i, p - 1)].reshape(-1)], [bin_of(v, 2) for v in y[min(i, q - 1)].reshape(-1)]
        ea, eb, ej = entropies(A, B)
        c.eq(f"pair {i}", got[i], t64(ea + eb - ej), tol=1e-5)


@harness("C23")
def refused(c):
    """unknown normalisations, batch and image sizes that do not match are refused"""
    m = c.mod(MI)
    x = t64([[0.1, 0.6, 0.9]])
    c.raises("norm", ValueError, lambda: m.binned_nmi(x, x, 2, 2, norm_mode="other"))
    c.raises("batch", ValueError, lambda: m.batch_binned_nmi(x.repeat(2, 1), x.repeat(3, 1), 2, 2))
    c.raises("size", ValueError, lambda: m.cmif(torch.zeros(1, 2, 2), torch.zeros(1, 2, 3)))


def shifted(c, dst, src, nd, ns, norm, got, tag):
    """map of one pair of images against the definition: entry (h//2 + dy, w//2 + dx) is for dst shifted by (dy, dx) against src, with periodic images"""
    h, w = len(dst), len(dst[0])
    for dy in range(h):
        for dx in range(w):
            A = [dst[(r + dy) % h][(k + dx) % w] for r in range(h) for k in range(w)]
            B = [src[r][k] for r in range(h) for k in range(w)]
            e = entropies(A, B)
            if not valid(*e, norm):
                continue
            at = got[(dy + h // 2) % h, (dx + w // 2) % w]
            c.eq(f"{tag} shift {dy} {dx}", at, t64(max(0.0, normalised(*e, norm))), tol=1e-4)


CM = [(s, b, k, n) for s, b in (((1, 2), 2), ((1, 2), 3), ((1, 3), 2), ((3, 1), 2), ((2, 2), 2), ((1, 3), 3)) for k in (False, True) for n in ("none",)] + [((1, 3), 2, k, n) for k in (False, True) for n in NORMS[1:]] + [((1, 2), 9, k, "none") for k in (False, True)] + [((1, 3), 9, k, "Yao") for k in (False, True)] + [((1, 2), 17, False, "none")]


@harness("C23", cases=CM, budget=150)
def dense(c, shape, bins, constant, norm):
    """mutual information of one image with all values against a fixed one for every periodic shift, images of up to 4 pixels with even and odd sides, few and many (chunked) levels, constant and moving marginals"""
    m = c.mod(MI)
    with double():
        h, w = shape
        few = [0, bins // 2, bins - 1]
        if bins <= 3:
            x = image(c, "x", (1, h, w), bins)
        else:
            # three of the levels, values anywhere in them
            x = c.var("x", (1, h, w), 0, 1, edges=(0, 1))
            for v in x.reshape(-1):
                inside = [(v * bins > k + GAP) & (v * bins < k + 1 - GAP) for k in few]
                c.assume(inside[0] | inside[1] | inside[2] | (v == 1))
        vals = [0.05, 0.95, 0.05, 1.0]
        y = t64(vals[:h * w]).reshape(1, h, w)
        dst = [[next(k for k in (range(bins) if bins <= 3 else few) if bool(x[0, r, q] * bins < k + 1) or k == bins - 1) for q in range(w)] for r in range(h)]
        src = [[min(bins - 1, int(float(v) * bins)) for v in row] for row in y[0].tolist()]
        got = m.cmif(x, y, bins_dst=bins, bins_src=bins, constant_marginal=constant, norm_mode=norm)
        c.shape("shape", got, (1, 1, h, w))
        shifted(c, dst, src, bins, bins, norm, got[0, 0], "dst")
        if norm == "none":
            got = m.cmif(y, x, bins_dst=bins, bins_src=bins, constant_marginal=constant, norm_mode=norm)
            shifted(c, src, dst, bins, bins, norm, got[0, 0], "src")


@harness("C23", cases=[(2, False, "none"), (2, True, "none"), (2, True, "Yao"), (9, False, "none"), (9, True, "none"), (9, False, "Yao")], budget=150)
def dense_batches(c, bins, constant, norm):
    """batches of 2 against 3 images of 1 x 2 pixels: every pair has its own map"""
    m = c.mod(MI)
    with double():
        x = c.var("x", (2, 1, 2), 0, 1)
        for v in x.reshape(-1):
            c.assume((v * bins < 1 - GAP) | (v * bins > bins - 1 + GAP))
        y = t64([[[0.0, 0.99]], [[0.99, 0.98]], [[0.99, 0.01]]])
        lev = lambda v: 0 if bool(v * bins < 1) else bins - 1
        dst = [[[lev(x[i, 0, 0]), lev(x[i, 0, 1])]] for i in range(2)]
        src = [[[lev(v) for v in im[0]]] for im in y.tolist()]
        got = m.cmif(x, y, bins_dst=bins, bins_src=bins, constant_marginal=constant, norm_mode=norm)
        c.shape("shape", got, (2, 3, 1, 2))
        for i in range(2):
            for j in range(3):
                shifted(c, dst[i], src[j], bins, bins, norm, got[i, j], f"pair {i} {j}")

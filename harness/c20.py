"""C20 streaming statistics"""
import torch
from vf.harness import harness
from .common import *

COV = "ebsdtorch.utils.pca_covmat"
PCA = "ebsdtorch.utils.pca_online"
SPLITS = [(4,), (1, 3), (3, 1), (2, 2), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 1, 1), (2,), (1, 1), (3, 2), (2, 1, 2)]


def stream(c, split, features, dtype=F64, **kw):
    m = c.mod(COV)
    n = sum(split)
    x = c.var("x", (n, features), -3, 3, dtype=dtype)
    x0 = x.clone()
    s = m.OnlineCovMatrix(features, covmat_dtype=F64, delta_dtype=F64, **kw)
    at = 0
    for w in split:
        s(x[at:at + w])
        at += w
    c.unmutated("data", x, x0)
    return s, x


def scatter(x):
    d = x - x.mean(0, keepdim=True)
    return matmul(d.transpose(0, 1), d)


@harness("C20", cases=[(s, f) for s in SPLITS for f in (1, 2)] + [((2, 1), 3), ((1, 3), 3)])
def covariance(c, split, features):
    """up to 5 rows of up to 3 features with all values in [-3, 3], every split into batches listed: running mean, count and covariance equal the formulas on all rows"""
    s, x = stream(c, split, features)
    n = sum(split)
    c.eq("mean", s.mean, x.mean(0, keepdim=True))
    c.eq("scatter", s.covmat_aggregate, scatter(x))
    c.true("count", torch.tensor(int(s.obs) == n))
    cov = s.get_covmat()
    c.shape("covariance shape", cov, (features, features))
    c.eq("covariance", cov, scatter(x) / (n - 1))
    c.eq("covariance again", s.get_covmat(), scatter(x) / (n - 1))


@harness("C20", cases=[((2, 1),), ((1, 2),), ((3,),), ((1, 1, 1),)])
def history(c, split):
    """reading the covariance between batches does not disturb the stream; each intermediate result is that of the rows seen so far"""
    m = c.mod(COV)
    x = c.var("x", (sum(split) + 1, 2), -3, 3)
    s = m.OnlineCovMatrix(2, covmat_dtype=F64, delta_dtype=F64)
    at = 0
    for w in split + (1,):
        s(x[at:at + w])
        at += w
        c.eq(f"mean after {at}", s.mean, x[:at].mean(0, keepdim=True))
        if at > 1:
            c.eq(f"covariance after {at}", s.get_covmat(), scatter(x[:at]) / (at - 1))


@harness("C20", cases=[((2, 1),), ((1, 2),), ((3,),)])
def correlation(c, split):
    """correlation form: unit diagonal, symmetric, covariance divided by both standard deviations"""
    s, x = stream(c, split, 2, correlation=True)
    S = scatter(x)
    c.assume(S[0, 0] >= 1e-3)
    c.assume(S[1, 1] >= 1e-3)
    r = s.get_covmat()
    c.eq("diagonal", torch.stack([r[0, 0], r[1, 1]]), one(2))
    c.eq("symmetric", r[0, 1], r[1, 0])
    c.eq("off diagonal", r[0, 1] * S[0, 0].sqrt() * S[1, 1].sqrt(), S[0, 1])


@harness("C20")
def order(c):
    """the statistics do not depend on the order of the batches or of the rows in them"""
    m = c.mod(COV)
    x = c.var("x", (4, 2), -3, 3)
    got = []
    for parts in ([[0, 1], [2], [3]], [[3], [1, 0], [2]], [[2, 0, 3, 1]]):
        s = m.OnlineCovMatrix(2, covmat_dtype=F64, delta_dtype=F64)
        for p in parts:
            s(x[p])
        got.append((s.mean.clone(), s.get_covmat()))
    for k in (1, 2):
        c.eq(f"mean {k}", got[0][0], got[k][0])
        c.eq(f"covariance {k}", got[0][1], got[k][1])


def krasulina(c, n, k, cmat, eta):
    m = c.mod(PCA)
    with torch.random.fork_rng():
        torch.manual_seed(0)
        s = m.KrasulinaPCA(n, k, eta=eta, dtype=F64)
    s.C.copy_(cmat)
    s.C_cross.copy_(torch.linalg.inv(matmul(cmat.transpose(0, 1), cmat)) @ cmat.transpose(0, 1))
    return s


@harness("C20", cases=[(2, 1, 1), (2, 1, 2), (3, 1, 1), (3, 2, 1)])
def krasulina_step(c, n, k, rows):
    """one Krasulina batch (up to 2 rows, 3 features, 2 components): the implicit update of every row, and the stored pseudo-inverse belongs to the stored components"""
    eta = 0.5
    if k == 1:
        C = torch.cat([c.var("a", (1, 1), 0.3, 2), c.var("b", (n - 1, 1), -2, 2)])
    else:
        a = c.var("a", (1,), -1, 1)
        C = torch.stack([torch.stack([one(), zero()]), torch.stack([a[0], one()]), t64([0.5, 2.0])])
    x = c.var("x", (rows, n), -2, 2)
    s = krasulina(c, n, k, C, eta)
    P = s.C_cross.clone()
    latent = matmul(P, x.transpose(0, 1))
    want = C
    for r in range(rows):
        y = latent[:, r]
        res = x[r] - matvec(C, y)
        want = want + (eta / (1 + eta * (y * y).sum())) * res.unsqueeze(1) * y.unsqueeze(0)
    x0 = x.clone()
    s(x)
    c.eq("components", s.C, want)
    c.unmutated("data", x, x0)
    if n == 2 and rows == 1:
        c.assume((s.C * s.C).sum() >= 1e-3)
        c.eq("pseudo-inverse", matmul(s.C_cross, s.C), torch.eye(k, dtype=F64))


@harness("C20", cases=[(2, 1), (3, 1), (3, 2)])
def krasulina_project(c, n, k):
    """projecting a combination of the components returns the combination; reconstruction is a projection"""
    C = c.var("C", (n, k), -2, 2)
    G = matmul(C.transpose(0, 1), C)
    c.assume((G[0, 0] if k == 1 else G[0, 0] * G[1, 1] - G[0, 1] * G[1, 0]) >= 1e-3)
    z = c.var("z", (1, k), -2, 2)
    s = krasulina(c, n, k, C, 0.5)
    x = s.inverse_transform(z.transpose(0, 1)).transpose(0, 1)
    c.shape("reconstruction", x, (1, n))
    c.eq("coefficients", s.transform(x), z.transpose(0, 1))
    w = c.var("w", (1, n), -2, 2)
    back = s.inverse_transform(s.transform(w)).transpose(0, 1)
    c.eq("residual is orthogonal", matmul(C.transpose(0, 1), (w - back).transpose(0, 1)), torch.zeros(k, 1, dtype=F64))


@harness("C20", cases=[(2, 1, 1), (2, 1, 2)])
def oja_step(c, n, k, rows):
    """one Oja batch: the new component is the unit vector along Q + eta X'X Q"""
    m = c.mod(PCA)
    with torch.random.fork_rng():
        torch.manual_seed(0)
        s = m.OjaPCA(n, k, eta=0.5, dtype=F64)
    Q = c.var("Q", (n, k), -1, 1)
    x = c.var("x", (rows, n), -2, 2)
    s.Q.copy_(Q)
    M = Q + 0.5 * matmul(x.transpose(0, 1), matmul(x, Q))
    c.assume(M[0, 0] > 1e-3)
    c.assume(M[1, 0] > 1e-3)
    s(x)
    c.eq("unit", (s.Q * s.Q).sum(), one())
    for i in range(n):
        for j in range(i):
            c.eq(f"direction {i}{j}", s.Q[i, 0] * M[j, 0], s.Q[j, 0] * M[i, 0])
    c.true("counted", torch.tensor(int(s.step) == 1))
    w = c.var("w", (2, n), -2, 2)
    c.eq("projection", s.transform(w), matmul(w, s.get_components()))
    c.eq("reconstruction", s.inverse_transform(s.transform(w)), matmul(matmul(w, s.Q), s.Q.transpose(0, 1)))

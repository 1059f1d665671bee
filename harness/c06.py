"""C06 Laue operator tables"""
import math
import torch
from vf.harness import harness
from .common import *

R2 = 0.5 ** 0.5
R3 = 3 ** 0.5 / 2
Z = {2: [0, 0, 0, 1], 4: [R2, 0, 0, R2], 3: [0.5, 0, 0, R3], 6: [R3, 0, 0, 0.5]}
X2 = [0, 1, 0, 0]
D111 = [0.5, 0.5, 0.5, 0.5]
GENERATORS = {1: [], 2: [Z[2]], 3: [Z[2], X2], 4: [Z[4]], 5: [Z[4], X2], 6: [Z[3]], 7: [Z[3], X2], 8: [Z[6]], 9: [Z[6], X2],
              10: [Z[2], X2, D111], 11: [Z[4], D111]}
ORDER = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 6, 9: 12, 10: 12, 11: 24}
SUB = [(1, k) for k in range(2, 12)] + [(2, 3), (2, 4), (2, 5), (2, 8), (2, 9), (2, 10), (3, 5), (3, 9), (3, 10), (4, 5), (4, 11), (5, 11), (6, 7), (6, 8),
                                        (7, 9), (8, 9), (10, 11), (3, 11)]
LAUE = [(k,) for k in range(1, 12)]


def same(a, b):
    """index of the element of b (K,4) that is the rotation a (...,4), -1 if none"""
    d = (a.unsqueeze(-2) * b).sum(-1).abs()
    hit = (d - 1).abs() < 1e-9
    return torch.where(hit.any(-1), hit.to(torch.int64).argmax(-1), -torch.ones_like(hit.to(torch.int64).argmax(-1)))


@harness("C06", cases=LAUE)
def group(c, laue):
    """operator table of a Laue class: right order, distinct unit operators with real part >= 0, identity first, every composition of two
    operators acts on every direction (symbolic, box [-1,1]) as a listed operator, inverses listed"""
    g = c.mod(G)
    q = c.mod(Q)
    t = g.laue_elements(laue)
    n = ORDER[laue]
    c.shape("table", t, (n, 4))
    c.check("multiplicity counts inversion", int(g.get_laue_mult(laue)) == 2 * n)
    c.eq("unit", dot(t, t), one(n), tol=1e-12)
    c.true("real part not negative", t[:, 0] >= 0)
    c.eq("identity first", t[0], t64([1, 0, 0, 0]), tol=1e-12)
    d = (t.unsqueeze(0) * t.unsqueeze(1)).sum(-1).abs()
    for i in range(n):
        for j in range(i):
            c.check("distinct", float(d[i, j]) < 0.999)
    prod = ham(t.unsqueeze(1), t.unsqueeze(0))
    k = same(prod, t)
    c.check("closed", bool((k >= 0).all()))
    inv = same(qconj(t), t)
    c.check("inverses", bool((inv >= 0).all()))
    p = c.var("p", (3,), -1, 1)
    images = q.qu_apply(t, p.expand(n, 3))
    twice = q.qu_apply(t.unsqueeze(1), images.unsqueeze(0))
    c.eq("composition", twice, images[k])
    back = q.qu_apply(t[inv], images)
    c.eq("inverse undoes", back, p.expand(n, 3))


@harness("C06", cases=LAUE)
def generators(c, laue):
    """the table holds the class's generating rotations in the standard setting, acting on every direction (symbolic) like the rotation matrices
    written out here; with the order and closure this determines the group"""
    g = c.mod(G)
    q = c.mod(Q)
    t = g.laue_elements(laue)
    p = c.var("p", (3,), -1, 1)
    x, y, z = p.unbind(-1)
    s3 = 3 ** 0.5
    images = {"Z2": [-x, -y, z], "Z4": [-y, x, z], "Z3": [-x / 2 - s3 / 2 * y, s3 / 2 * x - y / 2, z], "Z6": [x / 2 - s3 / 2 * y, s3 / 2 * x + y / 2, z],
              "X2": [x, -y, -z], "D3": [z, x, y]}
    names = {1: [], 2: ["Z2"], 3: ["Z2", "X2"], 4: ["Z4"], 5: ["Z4", "X2"], 6: ["Z3"], 7: ["Z3", "X2"], 8: ["Z6"], 9: ["Z6", "X2"], 10: ["Z2", "X2", "D3"],
             11: ["Z4", "D3"]}[laue]
    for nm, gen in zip(names, GENERATORS[laue]):
        k = int(same(t64(gen), t))
        c.check("generator " + nm, k >= 0)
        if k >= 0:
            c.eq("action of " + nm, q.qu_apply(t[k], p), torch.stack(images[nm]))
    c.reach("generators")


@harness("C06", cases=SUB)
def subgroup(c, small, large):
    """subgroup relations between the eleven classes: every image of a direction (symbolic) under the smaller class is an image under the larger one"""
    g = c.mod(G)
    q = c.mod(Q)
    a, b = g.laue_elements(small), g.laue_elements(large)
    k = same(a, b)
    c.check("subgroup", bool((k >= 0).all()))
    p = c.var("p", (3,), -1, 1)
    c.eq("images", q.qu_apply(a, p.expand(len(a), 3)), q.qu_apply(b[k], p.expand(len(a), 3)))


@harness("C06")
def rejects(c):
    """class numbers outside 1 to 11 have no table"""
    g = c.mod(G)
    for k in (12, 13, 100):
        c.raises(f"class {k}", IndexError, lambda k=k: g.laue_elements(k))
        c.raises(f"multiplicity {k}", IndexError, lambda k=k: g.get_laue_mult(k))

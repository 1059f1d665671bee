"""C31 factorisation"""
import torch
from types import SimpleNamespace
from unittest.mock import patch
from vf.harness import harness
from .common import *

FAC = "ebsdtorch.utils.factorize"


def root(x):
    """floor of the square root, which is all the code takes of it (forks until found)"""
    r = 0
    while bool((r + 1) ** 2 <= x):
        r += 1
    return r


RANGES = [(1, 16), (17, 48), (49, 96), (97, 160), (161, 256), (257, 400), (401, 576), (2300, 2320), (65520, 65535)]


def run(c, lo, hi, fn):
    m = c.mod(FAC)
    n = c.ints("n", lo, hi, ())
    with patch.object(m, "math", SimpleNamespace(sqrt=root)):
        return n, getattr(m, fn)(n.clone())


@harness("C31", cases=RANGES, budget=100)
def factors(c, lo, hi):
    """every size in the range: sorted prime factors whose product is the size"""
    n, f = run(c, lo, hi, "FactorECM")
    p = 1
    for k, v in enumerate(f):
        c.true(f"factor {k} above one", torch.as_tensor(v > 1))
        if k:
            c.true(f"factor {k} sorted", torch.as_tensor(v >= f[k - 1]))
        for d in [d for d in range(2, 256) if all(d % e for e in range(2, d))]:
            if d * d <= hi:
                c.true(f"factor {k} not divisible by {d}", torch.as_tensor((v % d != 0) | (v == d)))
        p = p * v
    c.true("product", torch.as_tensor(p == n))


@harness("C31", cases=RANGES, budget=100)
def near_square(c, lo, hi):
    """every size in the range: two positive factors with that product, neither larger than the other by more than the largest prime factor"""
    m = c.mod(FAC)
    seen = []
    real = m.FactorECM

    def record(n):
        seen.append(real(n))
        return list(seen[-1])

    with patch.object(m, "FactorECM", record):
        n, (a, b) = run(c, lo, hi, "nearly_square_factors")
    yes = lambda v: torch.as_tensor(v)
    c.true("product", yes(a * b == n))
    c.true("first positive", yes(a >= 1))
    c.true("second positive", yes(b >= 1))
    big = seen[0][-1] if seen and len(seen[0]) else 1
    c.true("first balanced", yes(a <= b * big))
    c.true("second balanced", yes(b <= a * big))

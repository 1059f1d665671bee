"""Harness API: the same harness function runs symbolically (every input a symbol) or
concretely (replay / translation validation) against the code in /repo."""
import ast
import importlib
import importlib.util
import math
import os
import random
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import torch

from . import terms as tm
from . import shadow as sh
from .nf import Engine, Path, Unsupported, Infeasible, PathLimit, NF, special, NAN, ALL
from .solve import Solver
from .numeric import Numeric

REPO = os.environ.get("VF_REPO", "/repo")
torch.set_num_threads(1)
HARNESSES = {}
warnings.filterwarnings("ignore")


class Skip(Exception):
    """concrete input outside the harness's assumptions"""


class Harness:
    def __init__(self, prop, fn, cases, tier, budget, samples, known, title, mode, query_s):
        self.prop, self.fn, self.cases, self.tier = prop, fn, cases, tier
        self.budget, self.samples, self.known = budget, samples, known
        self.name = fn.__name__
        self.title = title or (fn.__doc__ or fn.__name__).strip().splitlines()[0]
        self.mode = mode
        self.query_s = query_s


def harness(prop, cases=((),), tier="quick", budget=120, samples=6, known=None, title=None, mode="auto", query_s=10):
    """register a harness; cases: list of argument tuples (each one is a separate job)"""
    def d(fn):
        hh = Harness(prop, fn, [c if isinstance(c, tuple) else (c,) for c in cases], tier, budget, samples, known, title, mode, query_s)
        HARNESSES.setdefault(prop, []).append(hh)
        return fn
    return d


# ---------------------------------------------------------------------------
# loading code under test
# ---------------------------------------------------------------------------
_mods = {}


def load(name):
    m = _mods.get(name)
    if m is None:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        m = _mods[name] = importlib.import_module(name)
    return m


def load_defs(relpath, drop_imports=(), keep=None):
    """load only imports, constants and definitions of a file with an unguarded script part"""
    key = ("defs", relpath)
    m = _mods.get(key)
    if m is not None:
        return m
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    path = os.path.join(REPO, relpath)
    src = open(path).read()
    tree = ast.parse(src, path)
    body = []
    for n in tree.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            nm = [a.name for a in n.names] + [getattr(n, "module", None) or ""]
            if any(x.split(".")[0] in drop_imports for x in nm if x):
                continue
            tops = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ""]
            # what is not installed is only needed by the script part
            if any(t and importlib.util.find_spec(t.split(".")[0]) is None for t in tops):
                continue
            body.append(n)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            body.append(n)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            if keep is None or any(isinstance(t, ast.Name) and t.id in keep for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                if keep is not None or all(isinstance(x, (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.Name, ast.Load, ast.Store, ast.UnaryOp, ast.USub, ast.BinOp, ast.Assign, ast.AnnAssign, ast.operator)) for x in ast.walk(n)):
                    body.append(n)
    tree.body = body
    m = types.ModuleType("vfload_" + relpath.replace("/", "_").replace(".py", ""))
    m.__file__ = path
    sys.modules[m.__name__] = m
    exec(compile(tree, path, "exec"), m.__dict__)
    _mods[key] = m
    return m


# ---------------------------------------------------------------------------
# contexts
# ---------------------------------------------------------------------------
class Base:
    mod = staticmethod(load)
    defs = staticmethod(load_defs)

    def flat(self, x):
        return x.reshape(-1) if isinstance(x, torch.Tensor) else torch.as_tensor(x).reshape(-1)

    def quat_edges(self):
        s = math.sqrt(0.5)
        return [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (s, s, 0, 0), (s, 0, -s, 0), (s, 0, 0, s), (0, s, s, 0), (.5, .5, .5, .5),
                (.5, -.5, .5, -.5), (-1, 0, 0, 0), (-.5, .5, .5, .5), (-s, 0, s, 0), (0.8, 0.6, 0, 0), (0.6, 0, 0.64, 0.48), (0, -1, 0, 0), (0, 0, .6, -.8),
                (math.sqrt(1 - 1e-8), 1e-4, 0, 0)]


    # samplers (concrete assignments for the declared inputs)
    def s_var(self, nms, lo, hi, edges, sample):
        l = -2.0 if lo is None else float(lo)
        u = 2.0 if hi is None else float(hi)
        if lo is not None and hi is None:
            u = max(2.0, l + 4)
        if hi is not None and lo is None:
            l = min(-2.0, u - 4)

        def sampler(rng, k):
            if edges and k < 2 * len(edges) and k % 2 == 0:
                return {n: float(rng.choice(edges)) for n in nms}
            if sample:
                return {n: float(sample(rng)) for n in nms}
            return {n: rng.uniform(l, u) for n in nms}
        return sampler

    def s_ints(self, nms, lo, hi):
        return lambda rng, k: {n: rng.randint(lo, hi) for n in nms}

    def s_bools(self, nms):
        return lambda rng, k: {n: bool(rng.getrandbits(1)) for n in nms}

    def s_angle(self, nms, lo, hi, edges, open_lo, open_hi):
        lo, hi = Fraction(lo), Fraction(hi)
        ed = [0, Fraction(1, 4), Fraction(1, 2), 1, Fraction(-1, 2), Fraction(3, 2), 2, lo, hi, Fraction(1, 3)] if edges is None else edges
        ed = [float(x) * math.pi for x in ed if lo <= x <= hi and not (open_lo and x == lo) and not (open_hi and x == hi)]

        def sampler(rng, k):
            if ed and k % 3 == 0:
                return {n: rng.choice(ed) for n in nms}
            return {n: rng.uniform(float(lo), float(hi)) * math.pi for n in nms}
        return sampler

    def s_quat(self, nms, wpos):
        edges = self.quat_edges()

        def sampler(rng, k):
            r = {}
            for ns in nms:
                if rng.random() < 0.35 and k > 1:
                    v = rng.choice(edges)
                else:
                    v = [rng.gauss(0, 1) for _ in range(4)]
                    nn = math.sqrt(sum(x * x for x in v))
                    v = [x / nn for x in v]
                if wpos and v[0] < 0:
                    v = [-x for x in v]
                r.update(zip(ns, v))
            return r
        return sampler

    def s_vec(self, nms, zpos, n):
        def sampler(rng, k):
            r = {}
            for ns in nms:
                if rng.random() < 0.3 and k > 1:
                    v = [0.0] * n
                    v[rng.randrange(n)] = rng.choice([1.0, -1.0])
                else:
                    v = [rng.gauss(0, 1) for _ in range(n)]
                    nn = math.sqrt(sum(x * x for x in v))
                    v = [x / nn for x in v]
                if zpos and v[-1] < 0:
                    v[-1] = -v[-1]
                r.update(zip(ns, v))
            return r
        return sampler


class SymCtx(Base):
    symbolic = True

    def __init__(self, engine, samplers):
        self.e = engine
        self.obls = []
        self.inputs = {}
        self.samplers = samplers
        self.first = not samplers
        self.rngn = 0
        self.watch = []

    # declarations ---------------------------------------------------------
    def _decl(self, name, sampler):
        if self.first:
            self.samplers.append((name, sampler))

    def _tensor(self, names, shape, dtype, sort="R"):
        idt = torch.tensor([tm.var(n, sort).id for n in names], dtype=torch.int64).reshape(shape)
        t = sh.mk(idt, dtype)
        return t

    def group(self, nms):
        for ns in nms:
            self.e.add_group(ns)

    def names(self, name, shape):
        n = 1
        for s in shape:
            n *= s
        return [name] if shape == () else [f"{name}_{i}" for i in range(n)]

    def var(self, name, shape=(), lo=None, hi=None, dtype=torch.float64, edges=(), sample=None):
        """real inputs in [lo, hi]"""
        nms = self.names(name, shape)
        for n in nms:
            a = self.e.var_atom(n)
            if lo is not None:
                a.lo = Fraction(lo)
                self.e.base_nf("ge", a, Fraction(lo))
                if lo >= 0 and not a.nonneg:
                    a.nonneg = True
                    self.e.nonneg_mask |= 0xFF << (8 * a.i)
            if hi is not None:
                a.hi = Fraction(hi)
                self.e.base_nf("le", a, Fraction(hi))
        self._decl(name, self.s_var(nms, lo, hi, edges, sample))
        t = self._tensor(nms, shape, dtype)
        return t

    def ints(self, name, lo, hi, shape=(), dtype=torch.int64):
        nms = self.names(name, shape)
        for n in nms:
            a = self.e.var_atom(n, "I")
            a.lo, a.hi = Fraction(lo), Fraction(hi)
            if lo >= 0 and not a.nonneg:
                a.nonneg = True
                self.e.nonneg_mask |= 0xFF << (8 * a.i)
        self._decl(name, self.s_ints(nms, lo, hi))
        return self._tensor(nms, shape, dtype, "I")

    def bools(self, name, shape=()):
        nms = self.names(name, shape)
        self._decl(name, self.s_bools(nms))
        return self._tensor(nms, shape, torch.bool, "B")

    def angle(self, name, lo, hi, shape=(), dtype=torch.float64, base=2, edges=None, open_lo=False, open_hi=False):
        """angles in [lo*pi, hi*pi] (lo, hi rational)"""
        nms = self.names(name, shape)
        lo, hi = Fraction(lo), Fraction(hi)
        e = self.e
        for n in nms:
            a = e.var_atom(n)
            e.var_angle_den[n] = base
            a.lo = lo * (e.pi.lo if lo >= 0 else e.pi.hi)
            a.hi = hi * (e.pi.hi if hi >= 0 else e.pi.lo)
            if lo >= 0 and not a.nonneg:
                a.nonneg = True
                e.nonneg_mask |= 0xFF << (8 * a.i)
            x = e.mono(a)
            p1 = {k: v for k, v in {**x, 1 << (8 * e.pi.i): -lo}.items() if v}
            p2 = {k: v for k, v in {**{k: -v for k, v in x.items()}, 1 << (8 * e.pi.i): hi}.items() if v}
            e.base_poly(p1, {1} if open_lo else {0, 1})
            e.base_poly(p2, {1} if open_hi else {0, 1})
        self._decl(name, self.s_angle(nms, lo, hi, edges, open_lo, open_hi))
        return self._tensor(nms, shape, dtype)

    def unit_quat(self, name, batch=(1,), dtype=torch.float64, wpos=False):
        """unit quaternions (w,x,y,z), optionally w >= 0"""
        n = 1
        for b in batch:
            n *= b
        e = self.e
        nms = []
        for i in range(n):
            ns = [f"{name}{i}{c}" for c in "wxyz"]
            nms.append(ns)
            xs = [e.var_atom(q) for q in ns[1:]]
            w = e.var_atom(ns[0])
            for a in xs + [w]:
                a.lo, a.hi = Fraction(-1), Fraction(1)
            if w.i not in e.rules:
                e.add_rule(w, {0: 1, **{2 << (8 * a.i): -1 for a in xs}})
                e.known.append(dict(e.rules[w.i]))
            if wpos:
                w.lo = Fraction(0)
                w.nonneg = True
                e.nonneg_mask |= 0xFF << (8 * w.i)
        self.group(nms)
        self._decl(name, self.s_quat(nms, wpos))
        return self._tensor([x for ns in nms for x in ns], tuple(batch) + (4,), dtype)

    def unit_vec(self, name, batch=(1,), dtype=torch.float64, zpos=False, n=3):
        m = 1
        for b in batch:
            m *= b
        e = self.e
        nms = []
        cs = "xyzuvw"[:n]
        for i in range(m):
            ns = [f"{name}{i}{c}" for c in cs]
            nms.append(ns)
            ats = [e.var_atom(q) for q in ns]
            for a in ats:
                a.lo, a.hi = Fraction(-1), Fraction(1)
            z = ats[-1]
            if z.i not in e.rules:
                e.add_rule(z, {0: 1, **{2 << (8 * a.i): -1 for a in ats[:-1]}})
                e.known.append(dict(e.rules[z.i]))
            if zpos:
                z.lo = Fraction(0)
                z.nonneg = True
                e.nonneg_mask |= 0xFF << (8 * z.i)

        self.group(nms)
        self._decl(name, self.s_vec(nms, zpos, n))
        return self._tensor([x for ns in nms for x in ns], tuple(batch) + (n,), dtype)

    # assumptions --------------------------------------------------------------
    def assume(self, cond):
        idt = sh.ids(cond) if isinstance(cond, torch.Tensor) else None
        if idt is None:
            if not cond:
                raise Infeasible()
            return
        for i in idt.reshape(-1).tolist():
            self.e.assume(tm.T[i])

    # obligations ----------------------------------------------------------------
    def eq(self, label, A, B, tol=1e-6, margin=1e-4, via=None):
        a, b = self._pair(label, A, B)
        for k, (x, y) in enumerate(zip(a, b)):
            self.obls.append(("eq", f"{label}[{k}]" if len(a) > 1 else label, x, y, tol, margin, via))

    def _pair(self, label, A, B):
        A = A if isinstance(A, torch.Tensor) else torch.as_tensor(A)
        B = B if isinstance(B, torch.Tensor) else torch.as_tensor(B)
        ia, ib = sh.ids(A), sh.ids(B)
        try:
            ia, ib = torch.broadcast_tensors(ia, ib)
        except RuntimeError:
            self.obls.append(("fail", label + ": shapes differ " + str((tuple(A.shape), tuple(B.shape)))))
            return [], []
        return ia.reshape(-1).tolist(), ib.reshape(-1).tolist()

    def true(self, label, C, via=None):
        C = C if isinstance(C, torch.Tensor) else torch.as_tensor(C)
        ic = sh.ids(C).reshape(-1).tolist()
        for k, x in enumerate(ic):
            self.obls.append(("true", f"{label}[{k}]" if len(ic) > 1 else label, x, via))

    def le(self, label, A, B, tol=1e-7, via=None):
        A = A if isinstance(A, torch.Tensor) else torch.as_tensor(A, dtype=torch.float64)
        self.true(label, A <= B + tol, via)

    def check(self, label, ok):
        if not ok:
            self.obls.append(("fail", label))
        else:
            self.obls.append(("ok", label))

    def shape(self, label, t, shape):
        self.check(f"{label}: shape {tuple(t.shape)} expected {tuple(shape)}", tuple(t.shape) == tuple(shape))

    def unmutated(self, label, t, ref):
        """t must still hold what ref (a clone taken before the call) holds"""
        self.eq(label + " input unchanged", t, ref)

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.obls.append(("ok", label))
            return
        self.obls.append(("fail", label + ": no exception"))

    def reach(self, label):
        self.obls.append(("reach", label))

    def decide(self, cond):
        return bool(cond)

    def rng(self, kinds=None):
        """turn RNG draws into symbolic inputs: uniform -> [0,1), normal -> real"""
        ctx = self

        def cb(kind, shape, dt, **kw):
            ctx.rngn += 1
            nm = f"rng{ctx.rngn}"
            if kind in ("rand", "uniform"):
                return ctx.var(nm, shape, 0, 1, dtype=dt)
            if kind in ("randn", "normal"):
                return ctx.var(nm, shape, -6, 6, dtype=dt, sample=lambda r: r.gauss(0, 1))
            if kind == "randint":
                return ctx.ints(nm, kw["lo"], kw["hi"] - 1, shape, dtype=dt)
            if kind == "randperm":
                return torch.randperm(kw["n"])
            raise Unsupported("rng " + kind)
        sh.STATE.rng_cb = cb


class ConcCtx(Base):
    symbolic = False

    def __init__(self, env, record=None):
        self.env = env
        self.fails = []
        self.values = []
        self.labels = 0
        self.rngn = 0

    def _tensor(self, nms, shape, dtype):
        return torch.tensor([self.env[n] for n in nms], dtype=torch.float64 if dtype.is_floating_point else dtype).reshape(shape).to(dtype)

    names = SymCtx.names

    def need(self, nms, sampler):
        """inputs the symbolic run never declared (it ended early): arbitrary values"""
        if any(n not in self.env for n in nms):
            new = sampler(random.Random(len(self.env) + 17), 2)
            self.env = {**new, **self.env}

    def within(self, nms, lo, hi):
        """a solver model outside the declared bounds is not an input"""
        for n in nms:
            x = self.env[n]
            if lo is not None and x < float(lo) - 1e-9 or hi is not None and x > float(hi) + 1e-9:
                raise Skip()

    def var(self, name, shape=(), lo=None, hi=None, dtype=torch.float64, edges=(), sample=None):
        nms = self.names(name, shape)
        self.need(nms, self.s_var(nms, lo, hi, edges, sample))
        self.within(nms, lo, hi)
        return self._tensor(nms, shape, dtype)

    def ints(self, name, lo, hi, shape=(), dtype=torch.int64):
        nms = self.names(name, shape)
        self.need(nms, self.s_ints(nms, lo, hi))
        self.within(nms, lo, hi)
        return self._tensor(nms, shape, dtype)

    def bools(self, name, shape=()):
        nms = self.names(name, shape)
        self.need(nms, self.s_bools(nms))
        return self._tensor(nms, shape, torch.bool)

    def angle(self, name, lo, hi, shape=(), dtype=torch.float64, base=2, edges=None, open_lo=False, open_hi=False):
        nms = self.names(name, shape)
        self.need(nms, self.s_angle(nms, lo, hi, edges, open_lo, open_hi))
        self.within(nms, float(lo) * math.pi, float(hi) * math.pi)
        return self._tensor(nms, shape, dtype)

    def unit_quat(self, name, batch=(1,), dtype=torch.float64, wpos=False):
        n = 1
        for b in batch:
            n *= b
        nms = [[f"{name}{i}{c}" for c in "wxyz"] for i in range(n)]
        self.need([x for q in nms for x in q], self.s_quat(nms, wpos))
        t = torch.tensor([[self.env[x] for x in q] for q in nms], dtype=torch.float64)
        if not bool(((t.norm(dim=-1) - 1).abs() < 1e-3).all()):
            raise Skip()
        t = t / t.norm(dim=-1, keepdim=True)
        return t.reshape(tuple(batch) + (4,)).to(dtype)

    def unit_vec(self, name, batch=(1,), dtype=torch.float64, zpos=False, n=3):
        m = 1
        for b in batch:
            m *= b
        nms = [[f"{name}{i}{c}" for c in "xyzuvw"[:n]] for i in range(m)]
        self.need([x for q in nms for x in q], self.s_vec(nms, zpos, n))
        t = torch.tensor([[self.env[x] for x in q] for q in nms], dtype=torch.float64)
        if not bool(((t.norm(dim=-1) - 1).abs() < 1e-3).all()):
            raise Skip()
        t = t / t.norm(dim=-1, keepdim=True)
        return t.reshape(tuple(batch) + (n,)).to(dtype)

    def assume(self, cond):
        if isinstance(cond, torch.Tensor):
            if not bool(cond.all()):
                raise Skip()
        elif not cond:
            raise Skip()

    def eq(self, label, A, B, tol=1e-6, margin=1e-4, via=None):
        A = A if isinstance(A, torch.Tensor) else torch.as_tensor(A)
        B = B if isinstance(B, torch.Tensor) else torch.as_tensor(B)
        try:
            A, B = torch.broadcast_tensors(A, B)
        except RuntimeError:
            self.fails.append((label + ": shapes differ", str((tuple(A.shape), tuple(B.shape)))))
            return
        a, b = A.reshape(-1).tolist(), B.reshape(-1).tolist()
        for k, (x, y) in enumerate(zip(a, b)):
            lb = f"{label}[{k}]" if len(a) > 1 else label
            self.values.append((lb, x, y))
            if isinstance(x, complex) or isinstance(y, complex):
                ok = abs(x - y) <= tol * max(1.0, abs(y))
            elif isinstance(x, bool) or isinstance(y, bool):
                ok = bool(x) == bool(y)
            else:
                ok = abs(x - y) <= tol * max(1.0, abs(y)) if (math.isfinite(x) and math.isfinite(y)) else x == y
            if not ok:
                self.fails.append((lb, f"got {x!r}, expected {y!r}"))

    def true(self, label, C, via=None):
        C = C if isinstance(C, torch.Tensor) else torch.as_tensor(C)
        c = C.reshape(-1).tolist()
        for k, x in enumerate(c):
            lb = f"{label}[{k}]" if len(c) > 1 else label
            self.values.append((lb, bool(x), None))
            if not x:
                self.fails.append((lb, "condition is false"))

    le = SymCtx.le

    def check(self, label, ok):
        if not ok:
            self.fails.append((label, "condition is false"))

    def shape(self, label, t, shape):
        self.check(f"{label}: shape {tuple(t.shape)} expected {tuple(shape)}", tuple(t.shape) == tuple(shape))

    def unmutated(self, label, t, ref):
        self.eq(label + " input unchanged", t, ref)

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            return
        self.fails.append((label + ": no exception", ""))

    def reach(self, label):
        pass

    def decide(self, cond):
        return bool(cond)

    def rng(self, kinds=None):
        self.rng_on = True


class RngInject(torch.utils._python_dispatch.TorchDispatchMode):
    """concrete replay of symbolic RNG draws; also makes uninitialised memory visible as NaN / max-int"""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm, view, mut, names = sh.schema_info(func)
        if nm in sh.EMPTY_NAMES:
            r = func(*args, **kwargs)
            if r.device.type == "cpu" and r.numel():
                r.copy_(sh.uninit(tuple(r.shape), r.dtype))
            return r
        base = nm.rstrip("_")
        if base in sh.RNG_NAMES and getattr(self.ctx, "rng_on", False) and base not in ("randperm",):
            c = self.ctx
            r = func(*args, **kwargs)
            c.rngn += 1
            nms = c.names(f"rng{c.rngn}", tuple(r.shape))
            if all(n in c.env for n in nms):
                r.copy_(c._tensor(nms, tuple(r.shape), r.dtype))
            return r
        return func(*args, **kwargs)


def run_concrete(hh, case, env):
    """returns ('skip'|'ok'|'fail', fails, values)"""
    c = ConcCtx(env)
    try:
        with RngInject(c):
            hh.fn(c, *case)
    except Skip:
        return "skip", [], c.values
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        loc = f" at {os.path.relpath(where[-1].filename, REPO)}:{where[-1].lineno}" if where else ""
        return "fail", c.fails + [(f"exception", f"{type(ex).__name__}: {str(ex)[:300]}{loc}")], c.values
    return ("fail" if c.fails else "ok"), c.fails, c.values


# torch.tensor([...symbolic 0-d tensors...]) --------------------------------------------
_orig_tensor = torch.tensor


def _sym_tensor(data, *a, dtype=None, **kw):
    if sh.STATE is not None and isinstance(data, (list, tuple)):
        if _has_sym(data):
            def st(x):
                if isinstance(x, (list, tuple)):
                    return torch.stack([st(y) for y in x])
                if isinstance(x, torch.Tensor):
                    return x
                return _orig_tensor(x, dtype=dtype or torch.get_default_dtype())
            r = st(data)
            return r.to(dtype) if dtype is not None else r
    elif sh.STATE is not None and isinstance(data, torch.Tensor) and sh.is_sym(data):
        r = data.detach().clone()
        return r.to(dtype) if dtype is not None else r
    return _orig_tensor(data, *a, dtype=dtype, **kw) if dtype is not None else _orig_tensor(data, *a, **kw)


def _has_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return isinstance(x, torch.Tensor) and sh.is_sym(x)


torch.tensor = _sym_tensor

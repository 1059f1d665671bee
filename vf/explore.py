"""Symbolic exploration of one harness case, obligations, counterexample replay."""
import math
import os
import random
import sys
import time
import traceback

import torch

from . import terms as tm
from . import shadow as sh
from . import harness as hn
from .harness import SymCtx, run_concrete, Skip, REPO
from .nf import Engine, Path, Unsupported, Infeasible, PathLimit, NF, special, ALL
from .solve import Solver
from .numeric import Numeric

NSAMP = 24


class Concolic(Engine):
    """decisions follow one concrete assignment (translation validation)"""

    def argbest(self, row, largest):
        return None

    def __init__(self, env):
        super().__init__()
        self.env = env
        self.emem = {}

    def truth(self, t):
        return bool(tm.evaluate(t, self.env, self.emem))

    def assume(self, t):
        if not self.truth(t):
            raise Skip()

    def concretise(self, t):
        return int(tm.evaluate(t, self.env, self.emem))


class Result:
    def __init__(self):
        self.d = dict(paths=0, leaves=0, obligations=0, discharged=0, trivial=0, inconclusive=[], unreplayed=[], violations=[], errors=[],
                      queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, splits=0, functions=[], ops=[], validated=0, disagreements=[],
                      numeric=0, reach=0, samples=[], concrete_runs=0, wall=0.0, infeasible=0, complete=True)


def complete_env(engine, samplers, values, rng, k=0):
    env = {}
    for name, s in samplers:
        env.update(s(rng, k))
    groups = engine.groups
    for names in groups:
        have = {n: values[n] for n in names if n in values}
        if have and len(have) < len(names):
            r2 = max(0.0, 1 - sum(v * v for v in have.values()))
            miss = [n for n in names if n not in have]
            v = [env[n] for n in miss]
            nn = math.sqrt(sum(x * x for x in v)) or 1.0
            for n, x in zip(miss, v):
                env[n] = x / nn * math.sqrt(r2)
    for n, v in values.items():
        if n in env:
            env[n] = v
    return env


class Explorer:
    def __init__(self, hh, case, budget, seed=1, max_viol=3, query_s=10):
        self.hh, self.case = hh, case
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.res = Result()
        self.rng = random.Random(seed * 7919 + sum(map(ord, hh.name)))
        self.seed = seed
        self.max_viol = max_viol
        self.query_s = query_s
        self.reported = set()
        self.replays = 0
        self.lin = None
        self.nplain = 0

    # -- main ---------------------------------------------------------------------
    def run(self):
        d = self.res.d
        e = self.e = Engine()
        e.deadline = self.deadline
        e.solver = self.solver = Solver(query_ms=int(self.query_s * 1000))
        e.numeric = Numeric(e)
        for _ in range(NSAMP):
            e.numeric.add({})
        self.samplers = SamplerList(e.numeric, self.rng)
        work = [[]]
        first = True
        funcs = set()
        nval = 0
        while work:
            if time.time() > self.deadline:
                d["complete"] = False
                d["inconclusive"].append(f"{len(work)} unexplored code paths (time budget)")
                break
            lits = work.pop()
            try:
                path = Path(lits)
            except Infeasible:
                continue
            e.path = path
            sh.reset()
            ctx = SymCtx(e, self.samplers.items)
            ctx.first = first
            ctx._decl = self._decl(ctx)
            ex = sh.Exec(e)
            status = "ok"
            err = None
            if first:
                sys.setprofile(self._profiler(funcs))
            try:
                with sh.SymMode(ex):
                    self.hh.fn(ctx, *self.case)
            except Infeasible:
                status = "infeasible"
                d["infeasible"] += 1
            except Skip:
                status = "infeasible"
            except PathLimit:
                status = "limit"
            except Unsupported as x:
                status = "unsupported"
                err = f"{x}{_loc(x)}"
            except Exception as x:
                status = "exception"
                err = f"{type(x).__name__}: {str(x)[:300]}{_loc(x)}"
                self.err_tb = traceback.format_exc()
            finally:
                if first:
                    sys.setprofile(None)
            if first:
                d["functions"] = sorted(funcs)
            d["ops"] = sorted(set(d["ops"]) | set(ex.ops))
            first = first and not self.samplers.items
            work.extend(path.pending)
            path.pending = []
            if status in ("infeasible",):
                continue
            if status == "limit":
                d["complete"] = False
                d["inconclusive"].append("time budget reached inside a code path")
                break
            d["paths"] += 1
            if status == "unsupported":
                d["complete"] = False
                d["inconclusive"].append("not encodable: " + err)
                # the obligations stated before still stand
            if status == "exception":
                self.obl_exception(err, path)
            try:
                self.obligations(ctx.obls, path)
            except PathLimit:
                d["complete"] = False
                d["inconclusive"].append("time budget reached in obligations")
                break
        self.validate()
        s = e.stats
        d.update(queries=s.queries, sat=s.sat, unsat=s.unsat, unknown=s.unknown, solver_s=round(s.time, 3), splits=s.splits,
                 numeric=getattr(s, "numeric", 0), atoms=len(e.atoms), wall=round(time.time() - self.t0, 2))
        return d

    def _decl(self, ctx):
        def decl(name, sampler):
            self.samplers.declare(name, sampler)
        return decl

    def _profiler(self, funcs):
        pre = REPO.rstrip("/") + "/"
        n = len(pre)

        def prof(frame, event, arg):
            if event == "call":
                f = frame.f_code.co_filename
                if f.startswith(pre):
                    funcs.add(f[n:] + ":" + frame.f_code.co_qualname)
        return prof

    # -- obligations ----------------------------------------------------------------
    def obligations(self, obls, base):
        d = self.res.d
        shared = {}
        base.shared = shared
        root = (base.signs, base.bools, base.memo, base.bmemo, base.lits)
        shared[frozenset(base.taken)] = root
        for ob in obls:
            if ob[0] == "ok":
                d["obligations"] += 1
                d["discharged"] += 1
                continue
            if ob[0] == "reach":
                d["reach"] += 1
                continue
            d["obligations"] += 1
            if len(self.res.d["violations"]) >= self.max_viol:
                d["inconclusive"].append(ob[1] + ": not examined after earlier violations")
                continue
            if ob[0] == "fail":
                self.candidate(ob[1], base, [], "structural")
                continue
            if self.trivially(ob):
                d["discharged"] += 1
                d["trivial"] += 1
                continue
            ok = self.explore(ob, base, shared)
            if ok:
                d["discharged"] += 1

    def trivially(self, ob):
        if ob[0] == "eq":
            a, b = tm.T[ob[2]], tm.T[ob[3]]
            return a is b and a.total
        return tm.T[ob[2]] is tm.TRUE

    def explore(self, ob, base, shared):
        e = self.e
        d = self.res.d
        if ob[-1] == "direct":
            r = self.direct(ob, base)
            if r is not None:
                return r
        if self.piecewise(ob, base):
            return True
        work = [list(base.taken)]
        ok = True
        n = 0
        while work:
            lits = work.pop()
            key = frozenset(lits)
            p = Path()
            p.shared = shared
            p.taken = list(lits)
            st = shared.get(key)
            if st is None:
                par = shared[frozenset(base.taken)]
                p.signs, p.bools, p.memo, p.bmemo, p.lits = dict(par[0]), dict(par[1]), dict(par[2]), dict(par[3]), list(par[4])
                try:
                    for l in lits[len(base.taken):]:
                        p.assume(l)
                except Infeasible:
                    continue
                shared[key] = (p.signs, p.bools, p.memo, p.bmemo, p.lits)
            else:
                p.signs, p.bools, p.memo, p.bmemo, p.lits = st
            e.path = p
            n += 1
            d["leaves"] += 1
            try:
                r = self.leaf(ob)
            except Infeasible:
                r = True
            except PathLimit:
                d["complete"] = False
                d["inconclusive"].append(f"{ob[1]}: time budget")
                return False
            except Unsupported as x:
                r = self.unknown(ob, f"not encodable: {x}")
            work.extend(p.pending)
            if r is not True:
                ok = False
                if r == "violation":
                    return False
            if n > 4000:
                d["inconclusive"].append(f"{ob[1]}: leaf limit")
                return False
        return ok

    def leaf(self, ob):
        e = self.e
        if ob[0] == "true":
            if e.truth(tm.T[ob[2]]):
                return True
            return self.decide_sat(ob, [], [])
        _, label, ia, ib, tol, margin, via = ob
        a, b = tm.T[ia], tm.T[ib]
        if a.sort == "B" or b.sort == "B":
            if a.sort != b.sort:
                a, b = tm.num2(a), tm.num2(b)
            else:
                if e.truth(a) == e.truth(b):
                    return True
                return self.decide_sat(ob, [], [])
        if a.sort == "C" or b.sort == "C":
            (x, y), (u, v) = tm.cparts(a), tm.cparts(b)
            pairs = [(x, u), (y, v)]
        else:
            pairs = [(a, b)]
        for x, y in pairs:
            nx, ny = e.nf(x), e.nf(y)
            if special(nx) or special(ny):
                if nx == ny and nx != "nan":
                    continue
                return self.decide_sat(ob, [], [])
            df = e.nsub(nx, ny)
            if not df.num:
                e.stats.trivial += 1
                continue
            p = e.sgn_poly(df)
            s = e.psigns(p)
            if s == {0}:
                continue
            i, sc = e.pid(p)
            g = ("s", i, frozenset(v if sc > 0 else -v for v in (s - {0})))
            from fractions import Fraction
            mg = Fraction(margin).limit_denominator(10 ** 9)
            far = self.margin_goals(df, mg)
            if far is not None and all(self.solver.quick(e, [x]) for x in far):
                continue
            st, model = self.solver.query(e, [g], ms=int(self.query_s * 1000))
            if st == "unsat":
                continue
            # with a margin
            if far is not None:
                for x in far:
                    st, model = self.solver.query(e, [x], ms=int(self.query_s * 1000))
                    if st != "unsat":
                        break
            else:
                cons = []
                q = self.solver.nfx(e, df, cons)
                import z3
                from .solve import zq
                extra = cons + [z3.Or(q > zq(mg), q < -zq(mg))]
                st, model = self.solver.query(e, [g], extra=extra, ms=int(self.query_s * 1000), also=e.nf_deps(df))
            if st == "unsat":
                continue
            if st == "sat" and self.candidate(label, e.path, [g], "solver model", model):
                return "violation"
            if self.search(label, [g], df, margin):
                return "violation"
            if os.environ.get("VF_DEBUG"):
                print("DIFF", e.show_poly(df.num, 60) + f" / {[(e.show_poly(e.plist[j]), k) for j, k in df.den]}" if len(df.num) < 60 else f"{len(df.num)} terms / {df.den}", "atoms", [(e.atoms[j].name, e.atoms[j].kind, str(e.atoms[j].data)[:80]) for j in sorted(e.nf_deps(df))])
            if st == "sat":
                return self.unreplayed(label, model)
            return self.unknown(ob, "solver unknown")
        return True

    def margin_goals(self, df, mg):
        """literals whose disjunction says |df| > mg; None when the sign of the denominator is open"""
        e = self.e
        D = {0: 1}
        for i, k in df.den:
            f = e.plist[i]
            if k % 2:
                sg = e.psigns(f) - {0}
                if len(sg) != 1:
                    return None
                if -1 in sg:
                    f = {m: -v for m, v in f.items()}
            try:
                for _ in range(k):
                    D = e.pmul(D, f)
            except Unsupported:
                return None
            if len(D) > 4000:
                return None
        out = []
        from .nf import padd, pscale
        for sg in (1, -1):
            q = self.numeric_consts(padd(pscale(df.num, sg), pscale(D, -mg)))
            if not q:
                continue
            i, sc = e.pid(q)
            out.append(("s", i, frozenset((1 if sc > 0 else -1,))))
        return out

    def numeric_consts(self, p):
        """constants (pi, square roots) replaced by 40-digit rationals: changes the value by far less than the margin"""
        e = self.e
        from fractions import Fraction
        from .nf import W, FIELD
        out = {}
        cb = e.const_bits
        for m, c in p.items():
            k = m & cb
            v = Fraction(c)
            i = 0
            while k:
                x = k & FIELD
                if x:
                    a = e.atoms[i]
                    v *= ((a.lo + a.hi) / 2) ** x
                k >>= W
                i += 1
            h = m & ~cb
            out[h] = out.get(h, 0) + v
        # coefficients far below double precision of the input constants
        return {m: v for m, v in out.items() if v}

    def decide_sat(self, ob, goal, extra):
        """the leaf violates ob; is it reachable?"""
        e = self.e
        st, model = self.solver.query(e, goal, full=True, ms=int(self.query_s * 1000))
        if st == "unsat":
            return True
        if st == "sat" and self.candidate(ob[1], e.path, goal, "solver model", model):
            return "violation"
        if self.search(ob[1], goal, None, None):
            return "violation"
        if st == "sat":
            return self.unreplayed(ob[1], model)
        return self.unknown(ob, "reachability of a violating leaf unknown")

    def unknown(self, ob, why):
        if os.environ.get("VF_DEBUG"):
            print("UNKNOWN", ob[1], why)
            print(self.e.show_path())
        self.res.d["inconclusive"].append(f"{ob[1]}: {why}")
        return False

    def unreplayed(self, label, model):
        if os.environ.get("VF_DEBUG"):
            print("UNREPLAYED", label, self.solver.model_values(self.e, model))
            print(self.e.show_path())
        self.res.d["unreplayed"].append(f"{label}: solver model not reproduced by the real code (boundary or rounding)")
        return False

    def obl_exception(self, err, path):
        d = self.res.d
        d["obligations"] += 1
        e = self.e
        e.path = path
        st, model = self.solver.query(e, [], full=True)
        if st == "unsat":
            d["discharged"] += 1
            return
        if model is not None and self.candidate("exception", path, [], "solver model", model):
            return
        if self.search("exception", [], None, None):
            return
        d["errors"].append("symbolic run raised " + err)
        d["inconclusive"].append("symbolic run raised " + err)
        if os.environ.get("VF_DEBUG"):
            print(self.err_tb)

    # -- counterexamples ---------------------------------------------------------------
    def candidate(self, label, path, goal, how, model=None):
        vals = self.solver.model_values(self.e, model) if model is not None else {}
        if model is None and how == "structural":
            e = self.e
            e.path = path
            st, model = self.solver.query(e, [], full=True)
            if model is not None:
                vals = self.solver.model_values(e, model)
        for k in range(3):
            env = complete_env(self.e, self.samplers.items, vals, self.rng, k + 2)
            if self.replay(label, env, how):
                return True
        return False

    def replay(self, label, env, how):
        d = self.res.d
        self.replays += 1
        st, fails, _ = run_concrete(self.hh, self.case, env)
        d["concrete_runs"] += 1
        if st == "fail":
            d["violations"].append(dict(harness=self.hh.name, case=repr(self.case), label=label, how=how, env=env,
                                        fails=[list(map(str, f)) for f in fails[:6]]))
            return True
        return False

    def search(self, label, goal, df, margin):
        """solver gave no usable model: look for an assignment on the path numerically, then replay"""
        e = self.e
        num = e.numeric
        lits = e.base_lits + e.path.lits + list(goal)
        for k in range(len(num.samples)):
            if num.holds(k, lits, 1e-7):
                if self.replay(label, dict(num.samples[k]), "path witness"):
                    return True
        if self.replays < 400:
            for t in range(40):
                env = complete_env(e, self.samplers.items, {}, self.rng, t)
                num2 = Numeric(e)
                num2.add(env)
                if num2.holds(0, lits, 1e-7):
                    if self.replay(label, env, "path witness"):
                        return True
        return False

    def piecewise(self, ob, base):
        """one query of linear arithmetic for a piecewise linear obligation"""
        t = tm.T[ob[2]]
        if ob[0] == "eq" and not t.hasite and not tm.T[ob[3]].hasite and t.sort != "B":
            # identities: the normal form decides; the solver confirms the first ones
            self.nplain += 1
            if self.nplain > 40:
                return False
        e = self.e
        e.path = base
        if self.lin is None:
            from .direct import Linear
            self.lin = Linear(e, self.solver)
        try:
            return self.lin.refute(ob, 3000)
        except (Unsupported, KeyError, RecursionError) as x:
            if os.environ.get("VF_DEBUG"):
                print("LINEAR", ob[1], repr(x)[:200])
            return False

    # -- direct encoding -------------------------------------------------------------------
    def direct(self, ob, base):
        from .direct import Direct
        e = self.e
        e.path = base
        try:
            D = Direct(e, self.solver)
            st, model = D.refute(ob, int(self.query_s * 1000))
        except Unsupported as x:
            return None
        if st == "unsat":
            return True
        if st == "sat":
            if self.candidate(ob[1], base, [], "solver model", model):
                return False
            if self.search(ob[1], [], None, None):
                return False
            self.res.d["unreplayed"].append(f"{ob[1]}: solver model not reproduced by the real code (boundary or rounding)")
            return False
        return None

    # -- translation validation --------------------------------------------------------------
    def validate(self):
        d = self.res.d
        if os.environ.get("VF_NOVAL"):
            return
        hh = self.hh
        n = hh.samples
        rng = random.Random(self.seed * 31 + 5)
        done = 0
        for k in range(n * 6):
            if done >= n or time.time() > self.deadline + 20:
                break
            env = complete_env(self.e, self.samplers.items, {}, rng, k)
            st, fails, vals = run_concrete(hh, self.case, env)
            d["concrete_runs"] += 1
            if st == "skip":
                continue
            done += 1
            if st == "fail" and len(d["violations"]) < self.max_viol:
                d["violations"].append(dict(harness=hh.name, case=repr(self.case), label=fails[0][0], how="translation validation run",
                                            env=env, fails=[list(map(str, f)) for f in fails[:6]]))
                continue
            if k % 3 == 0 and k > 0:
                continue  # edge inputs: concrete check only
            self.compare(env, vals)

    def compare(self, env, vals):
        d = self.res.d
        e = Concolic(env)
        e.solver = self.solver
        sh.reset()
        ctx = SymCtx(e, [])
        ctx.first = False
        try:
            with sh.SymMode(sh.Exec(e)):
                self.hh.fn(ctx, *self.case)
        except (Skip, Infeasible):
            return
        except Unsupported:
            return
        except Exception as x:
            d["errors"].append(f"validation run raised {type(x).__name__}: {str(x)[:200]}{_loc(x)}")
            return
        obs = [o for o in ctx.obls if o[0] in ("eq", "true")]
        if len(obs) != len(vals):
            d["disagreements"].append(f"{len(obs)} symbolic vs {len(vals)} concrete values")
            return
        bad = None
        for o, (lb, x, y) in zip(obs, vals):
            if o[0] == "eq":
                for t, v in ((o[2], x), (o[3], y)):
                    w = tm.evaluate(tm.T[t], env, e.emem)
                    if not _close(w, v):
                        bad = f"{lb}: encoding {w!r} real {v!r}"
            else:
                w = tm.evaluate(tm.T[o[2]], env, e.emem)
                if bool(w) != bool(x):
                    bad = f"{lb}: encoding {w!r} real {x!r}"
        if bad:
            d["disagreements"].append(bad)
        else:
            d["validated"] += 1
            if len(d["samples"]) < 1:
                d["samples"].append({k: (round(v, 6) if isinstance(v, float) else v) for k, v in list(env.items())[:8]})


def _close(a, b):
    try:
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) <= 1e-6 * max(1, abs(b))
        if a != a and b != b:
            return True
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 2e-6 * max(1.0, abs(a), abs(b))
    except TypeError:
        return a == b


def _loc(x):
    tb = traceback.extract_tb(x.__traceback__)
    where = [f for f in tb if f.filename.startswith(REPO) or "/harness/" in f.filename]
    return f" at {where[-1].filename}:{where[-1].lineno}" if where else ""


class SamplerList:
    def __init__(self, numeric, rng):
        self.items = []
        self.seen = set()
        self.numeric = numeric
        self.rng = rng

    def declare(self, name, sampler):
        if name in self.seen:
            return
        self.seen.add(name)
        self.items.append((name, sampler))
        for k, s in enumerate(self.numeric.samples):
            s.update(sampler(self.rng, k))

"""Whole-term encoding into SMT (ite kept as ite) for integer / piecewise-linear obligations."""
from fractions import Fraction
import math
import os
import time
import z3
from . import terms as tm
from .nf import Unsupported, special, FIELD, W
from .solve import zq, round17


class Direct:
    def __init__(self, e, solver):
        self.e, self.s = e, solver
        self.memo = {}
        self.cons = []
        self.atoms = set()

    def var(self, t):
        if t.sort == "B":
            return z3.Bool(t.val)
        a = self.e.var_atom(t.val, t.sort)
        self.atoms.add(a.i)
        return z3.Int(t.val) if t.sort == "I" else z3.Real(t.val)

    def enc(self, root):
        memo = self.memo
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[t.id] = self.step(t, [memo[a.id] for a in t.args])
            st.pop()
        return memo[root.id]

    def real(self, x):
        return z3.ToReal(x) if z3.is_int(x) else x

    def step(self, t, a):
        op = t.op
        if op == "const":
            if not t.val.is_rat():
                e = self.e
                n = e.nconst(t.val)
                if n.den:
                    raise Unsupported("constant")
                self.atoms |= {x.i for x in e.atoms_of_poly(n.num)}
                return self.s.poly(e, n.num)
            return z3.IntVal(int(t.val.rat())) if t.sort == "I" else zq(Fraction(t.val.rat()))
        if op == "bconst":
            return z3.BoolVal(t.val)
        if op == "var":
            return self.var(t)
        if op in ("add", "mul"):
            x, y = a
            if t.sort == "R":
                x, y = self.real(x), self.real(y)
            return x + y if op == "add" else x * y
        if op == "neg":
            return -a[0]
        if op == "toreal":
            return self.real(a[0])
        if op == "floor":
            return z3.ToInt(a[0])
        if op == "idiv":
            b = t.args[1]
            if tm.isc(b) and b.val.sgn() > 0:
                return a[0] / a[1]
            raise Unsupported("idiv")
        if op == "imod":
            b = t.args[1]
            if tm.isc(b) and b.val.sgn() > 0:
                return a[0] % a[1]
            raise Unsupported("imod")
        if op == "div":
            b = t.args[1]
            if not b.total:
                raise Unsupported("div")
            # safe only if the denominator cannot vanish
            r, _ = self.check([a[1] == 0], 2000)
            if r != "unsat":
                raise Unsupported("division by a possibly zero value")
            return self.real(a[0]) / self.real(a[1])
        if op == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op == "maxn":
            a = [self.real(x) if t.sort == "R" else x for x in a]
            r = a[0]
            for x in a[1:]:
                r = z3.If(x > r, x, r)
            return r
        if op == "ite":
            x, y = a[1], a[2]
            if t.sort == "R":
                x, y = self.real(x), self.real(y)
            return z3.If(a[0], x, y)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op in ("lt", "le", "eq"):
            x, y = a
            if z3.is_int(x) != z3.is_int(y):
                x, y = self.real(x), self.real(y)
            return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
        if op in ("sqrt", "sin", "cos", "acos", "atan2", "exp", "log", "root") and not t.hasite:
            # through the normal form (definedness is decided there)
            n = self.e.nf(t)
            if special(n):
                raise Unsupported(op)
            c = []
            x = self.s.nfx(self.e, n, c)
            self.cons += c
            self.atoms |= self.e.nf_deps(n)
            return x
        if op == "sqrt":
            # total when the argument cannot be negative
            r, _ = self.check([a[0] < 0], 2000)
            if r != "unsat":
                raise Unsupported("sqrt of a possibly negative value")
            y = z3.Real(f"dsqrt!{t.id}")
            self.cons += [y >= 0, y * y == a[0]]
            return y
        raise Unsupported("direct " + op)

    def context(self):
        e = self.e
        lits = e.base_lits + e.path.lits
        ids = set(self.atoms)
        for l in lits:
            ids |= self.s.lit_atoms(e, l)
        ids = self.s.close(e, ids)
        return [self.s.lit(e, l) for l in lits] + self.s.defs(e, ids) + self.cons

    def check(self, goal, ms):
        e = self.e
        t0 = time.time()
        e.stats.queries += 1
        left = ms
        if e.deadline is not None:
            left = max(100, min(ms, int(1000 * (e.deadline - time.time()))))
        s = z3.Solver()
        s.set("timeout", left)
        s.add(self.context())
        s.add(goal)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        setattr(e.stats, r, getattr(e.stats, r) + 1)
        e.stats.time += time.time() - t0
        return r, (s.model() if r == "sat" else None)

    def refute(self, ob, ms):
        if ob[0] == "true":
            g = [z3.Not(self.enc(tm.T[ob[2]]))]
            return self.check(g, ms)
        _, label, ia, ib, tol, margin, via = ob
        a, b = tm.T[ia], tm.T[ib]
        if a.sort == "C" or b.sort == "C":
            (x, y), (u, v) = tm.cparts(a), tm.cparts(b)
            pairs = [(x, u), (y, v)]
        else:
            pairs = [(a, b)]
        alts = []
        mg = zq(Fraction(margin).limit_denominator(10 ** 9))
        for x, y in pairs:
            if x.sort == "B" and y.sort == "B":
                alts.append(self.enc(x) != self.enc(y))
                continue
            x, y = self.enc(tm.num2(x)), self.enc(tm.num2(y))
            if z3.is_int(x) and z3.is_int(y):
                alts.append(x != y)
            else:
                df = self.real(x) - self.real(y)
                alts.append(z3.Or(df > mg, df < -mg))
        return self.check([z3.Or(alts)], ms)


def scaled(t):
    """(c, x) with t = c x"""
    k = 1.0
    while True:
        if t.op == "neg":
            k, t = -k, t.args[0]
        elif t.op == "mul" and (tm.isc(t.args[0]) or tm.isc(t.args[1])):
            i = 0 if tm.isc(t.args[0]) else 1
            k, t = k * float(t.args[i].val), t.args[1 - i]
        else:
            return k, t


class Linear:
    """Piecewise linear obligations (coefficients in a field of constants) as one query of linear real arithmetic. Constants are 17 digit
    rationals; every comparison that involves a rounded one is relaxed by 1e-12 in the polarity it occurs in, so every solution of the
    exact problem is a solution of the query: 'unsat' is sound, anything else is 'do not know'."""
    EPS = Fraction(1, 10 ** 12)

    def __init__(self, e, solver):
        self.e, self.s = e, solver
        self.memo = {}
        self.bmemo = {}
        self.aux = {}

    # value of a term: (coefficients {var: Fraction}, constant, exact, auxiliary definitions)
    def val(self, t):
        r = self.memo.get(t.id)
        if r is None:
            try:
                r = self._val(t)
            except Unsupported as x:
                r = x
            self.memo[t.id] = r
        if isinstance(r, Unsupported):
            raise r
        return r

    def const(self, t):
        if t.val.is_rat():
            return Fraction(t.val.rat()), True
        n = self.e.nconst(t.val)
        if n.den:
            raise Unsupported("constant")
        x = Fraction(0)
        for m, c in n.num.items():
            if m & ~self.e.const_bits:
                raise Unsupported("constant")
            x += c * self.s.const_value(self.e, m)
        return x, False

    def lin(self, xs):
        co, k, ex, au = {}, Fraction(0), True, frozenset()
        for (c, x) in xs:
            for v, w in x[0].items():
                w = co.get(v, 0) + c * w
                if w:
                    co[v] = w
                else:
                    co.pop(v, None)
            k += c * x[1]
            ex = ex and x[2]
            au |= x[3]
        if sum(abs(w) for w in co.values()) + abs(k) > (10 ** 6 if ex else 100):
            raise Unsupported("size")
        return co, k, ex, au

    def expr(self, x):
        ts = [zq(round17(c)) * z3.Real(v) for v, c in x[0].items()]
        return z3.Sum(ts + [zq(round17(x[1]))])

    def fresh(self, t, ex, au):
        nm = f"lx!{t.id}"
        self.aux[nm] = []
        return {nm: Fraction(1)}, Fraction(0), ex, au | {nm}

    def _val(self, t):
        op = t.op
        if op == "const":
            x, ex = self.const(t)
            return {}, x, ex, frozenset()
        if op == "var":
            if t.sort != "R":
                raise Unsupported("variable")
            a = self.e.var_atom(t.val, t.sort)
            if not (a.i in self.e.atom_group or (a.lo is not None and a.hi is not None and max(abs(a.lo), abs(a.hi)) < 10 ** 6)):
                raise Unsupported("unbounded")
            return {t.val: Fraction(1)}, Fraction(0), True, frozenset((("v", a.i),))
        if op == "add":
            return self.lin([(1, self.val(t.args[0])), (1, self.val(t.args[1]))])
        if op == "neg":
            return self.lin([(-1, self.val(t.args[0]))])
        if op == "toreal":
            return self.val(t.args[0])
        if op in ("mul", "div"):
            x, y = self.val(t.args[0]), self.val(t.args[1])
            if op == "mul" and not x[0]:
                x, y = y, x
            if op == "mul" and y[0]:
                return self.product(x, y)
            if y[0] or (op == "div" and y[1] == 0):
                raise Unsupported("product")
            r = self.lin([(y[1] if op == "mul" else 1 / y[1], x)])
            return r[0], r[1], r[2] and y[2], r[3] | y[3]
        if op in ("abs", "maxn"):
            xs = [self.val(a) for a in t.args]
            if op == "abs":
                xs = [xs[0], self.lin([(-1, xs[0])])]
            au = frozenset().union(*[x[3] for x in xs])
            r = self.fresh(t, all(x[2] for x in xs), au)
            v = self.expr(r)
            es = [self.expr(x) for x in xs]
            self.aux[f"lx!{t.id}"] = [v >= y for y in es] + [z3.Or([v == y for y in es])]
            return r
        if op == "ite":
            x, y = self.val(t.args[1]), self.val(t.args[2])
            b, a1 = self.condition(t.args[0])
            r = self.fresh(t, x[2] and y[2], x[3] | y[3] | a1)
            v = self.expr(r)
            self.aux[f"lx!{t.id}"] = [z3.Or(z3.Not(b), v == self.expr(x)), z3.Or(b, v == self.expr(y))]
            return r
        if not t.hasite and t.sort == "R":
            n = self.e.nf(t)
            if special(n) or n.den or n.num and len(n.num) > 60:
                raise Unsupported("linear " + op)
            r = self.poly(None, n.num)
            if r is None:
                raise Unsupported("linear " + op)
            return r
        raise Unsupported("linear " + op)

    def product(self, x, y):
        """product of two polynomials: the monomials become new bounded variables"""
        if len(x[0]) * len(y[0]) > 64:
            raise Unsupported("product size")
        co, ex, au = {}, x[2] and y[2], x[3] | y[3]
        for v, a in list(x[0].items()) + [("", x[1])]:
            for w, b in list(y[0].items()) + [("", y[1])]:
                if a * b == 0:
                    continue
                if v[:3] == "lx!" or w[:3] == "lx!":
                    raise Unsupported("product")
                m = self.monomial(v, w)
                co[m] = co.get(m, 0) + a * b
                if m in self.aux:
                    au |= {m}
        k = co.pop("", Fraction(0))
        return {m: c for m, c in co.items() if c}, k, ex, au

    def condition(self, c):
        """the truth value of a condition as one variable, shared by all its uses"""
        if c.op == "not":
            b, au = self.condition(c.args[0])
            return z3.Not(b), au
        (p, a1), (n, a2) = self.nnf(c, True), self.nnf(c, False)
        nm = f"lb!{c.id}"
        b = z3.Bool(nm)
        self.aux[nm] = [z3.Or(z3.Not(b), p), z3.Or(b, n)]
        return b, a1 | a2 | {nm}

    def monomial(self, v, w):
        vs = sorted([z for z in v.split("*") + w.split("*") if z])
        m = "*".join(vs)
        if len(vs) > 1 and m not in self.aux:
            b = Fraction(1)
            for z in vs:
                a = self.e.var_atom(z, "R")
                if a.i not in self.e.atom_group:
                    b *= Fraction(max(abs(a.lo), abs(a.hi)))
            r = z3.Real(m)
            even = all(vs.count(z) % 2 == 0 for z in vs)
            self.aux[m] = [r <= zq(b), r >= (0 if even else zq(-b))]
        return m

    def poly(self, pid, p=None):
        """value of a polynomial of the normal form engine, None when it is not one of bounded variables"""
        k = ("poly", pid) if p is None else ("poly", frozenset(p.items()))
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        e = self.e
        p = e.plist[pid] if p is None else p
        if len(p) > 60:
            return None
        co, ex, au, k0 = {}, True, frozenset(), Fraction(0)
        vm = self.s.var_mask(e)
        for m, c in p.items():
            h, v = m & ~vm, m & vm
            if h and h & ~e.const_bits:
                return None
            x = Fraction(c)
            if h:
                x *= self.s.const_value(e, h)
                ex = False
            key, i = "", 0
            while v:
                for _ in range(v & FIELD):
                    a = e.atoms[i]
                    if a.sort == "I" or not (i in e.atom_group or (a.lo is not None and a.hi is not None and max(abs(a.lo), abs(a.hi)) < 10 ** 6)):
                        return None
                    key = self.monomial(key, a.name)
                    au |= {("v", i)}
                v >>= W
                i += 1
            if key == "":
                k0 += x
                continue
            co[key] = co.get(key, 0) + x
            if key in self.aux:
                au |= {key}
        if sum(abs(x) for x in co.values()) + abs(k0) > (10 ** 6 if ex else 100):
            return None
        self.memo[k] = (co, k0, ex, au)
        return self.memo[k]

    def nnf(self, t, pos):
        k = (t.id, pos)
        r = self.bmemo.get(k)
        if r is None:
            try:
                r = self._nnf(t, pos)
            except Unsupported as x:
                r = x
            self.bmemo[k] = r
        if isinstance(r, Unsupported):
            raise r
        return r

    def _nnf(self, t, pos):
        op = t.op
        if op == "bconst":
            return z3.BoolVal(bool(t.val) == pos), frozenset()
        if op == "var":
            v = z3.Bool(t.val)
            return (v if pos else z3.Not(v)), frozenset()
        if op == "not":
            return self.nnf(t.args[0], not pos)
        if op == "and":
            xs = [self.nnf(a, pos) for a in t.args]
            return (z3.And if pos else z3.Or)([x[0] for x in xs]), frozenset().union(*[x[1] for x in xs])
        if op == "ite":
            c1, c0 = self.nnf(t.args[0], True), self.nnf(t.args[0], False)
            x, y = self.nnf(t.args[1], pos), self.nnf(t.args[2], pos)
            return z3.And(z3.Or(c0[0], x[0]), z3.Or(c1[0], y[0])), c1[1] | c0[1] | x[1] | y[1]
        if op in ("lt", "le", "eq"):
            if t.args[0].sort == "B":
                x1, x0, y1, y0 = [self.nnf(a, p) for a in t.args for p in (True, False)]
                w = (y1, y0) if pos else (y0, y1)
                return z3.And(z3.Or(x0[0], w[0][0]), z3.Or(x1[0], w[1][0])), x1[1] | x0[1] | y1[1] | y0[1]
            if op != "eq":
                a, b = t.args
                if a.op in ("abs", "maxn"):
                    ds = [self.lin([(s, self.val(x)), (-1, self.val(b))]) for x in a.args for s in ((1, -1) if a.op == "abs" else (1,))]
                    al = pos
                elif b.op in ("abs", "maxn"):
                    ds = [self.lin([(1, self.val(a)), (-s, self.val(x))]) for x in b.args for s in ((1, -1) if b.op == "abs" else (1,))]
                    al = not pos
                else:
                    ds = None
                if ds is not None:
                    return (z3.And if al else z3.Or)([self.rel(d, op, pos) for d in ds]), frozenset().union(*[d[3] for d in ds])
            d = self.lin([(1, self.val(t.args[0])), (-1, self.val(t.args[1]))])
            return self.rel(d, op, pos), d[3]
        raise Unsupported("linear truth of " + op)

    def rel(self, d, op, pos):
        x = self.expr(d)
        if d[2]:
            r = {"lt": x < 0, "le": x <= 0, "eq": x == 0}[op]
            return r if pos else z3.Not(r)
        w = zq(self.EPS)
        if op == "eq":
            return z3.And(x <= w, x >= -w) if pos else z3.BoolVal(True)
        return x <= w if pos else x >= -w

    def refute(self, ob, ms):
        """True when the negated obligation has no solution on the current path"""
        if ob[0] == "true":
            goal, aux = self.nnf(tm.T[ob[2]], False)
        else:
            a, b = tm.T[ob[2]], tm.T[ob[3]]
            if a.sort == "C" or b.sort == "C":
                return False
            (ka, fa), (kb, fb) = scaled(a), scaled(b)
            if fa.op == fb.op == "acos" and ka == kb and ka:
                # |acos x - acos y| >= m only if |x - y| >= 1 - cos m (for x, y in [-1, 1])
                a, b = fa.args[0], fb.args[0]
                ob = ob[:5] + (0.99 * (1 - math.cos(min(1.0, ob[5] / abs(ka)))),) + ob[6:]
            if a.sort == "B" and b.sort == "B":
                (p, x), (n, y) = self.nnf(a, True), self.nnf(a, False)
                (q, u), (m, v) = self.nnf(b, True), self.nnf(b, False)
                goal, aux = z3.Or(z3.And(p, m), z3.And(n, q)), x | y | u | v
            else:
                d = self.lin([(1, self.val(tm.num2(a))), (-1, self.val(tm.num2(b)))])
                mg = Fraction(ob[5]).limit_denominator(10 ** 9)
                if mg < Fraction(1, 10 ** 11):
                    return False
                x = self.expr(d)
                w = zq(mg - self.EPS)
                goal, aux = z3.Or(x >= w, x <= -w), d[3]
        e = self.e
        t0 = time.time()
        cons = []
        used = set()
        todo = list(aux)
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if isinstance(n, tuple):
                used.add(n[1])
            else:
                cons += self.aux[n]
        for l in e.base_lits + e.path.lits:
            if l[0] != "s":
                continue
            f = self.s.linear_form(e, l[1])
            s = frozenset(l[2])
            if f is None:
                x = self.poly(l[1])
                if x is not None:
                    for n in x[3]:
                        if isinstance(n, tuple):
                            used.add(n[1])
                        elif n not in seen:
                            seen.add(n)
                            cons += self.aux[n]
                    if x[2] and all(round17(c) == c for c in x[0].values()):
                        cons.append(self.s.sexpr(self.expr(x), s))
                    elif not (1 in s and -1 in s):
                        if -1 not in s:
                            cons.append(self.expr(x) >= zq(-self.EPS))
                        if 1 not in s:
                            cons.append(self.expr(x) <= zq(self.EPS))
                continue
            x = z3.Sum([zq(round17(c)) * z3.Real(e.atoms[j].name) for j, c in f[0].items()] + [zq(round17(f[1]))])
            if any(e.atoms[j].kind != "var" or not (j in e.atom_group or (e.atoms[j].lo is not None and e.atoms[j].hi is not None)) for j in f[0]):
                continue
            used |= f[0].keys()
            if f[2]:
                cons.append(self.s.sexpr(x, s))
            elif not (1 in s and -1 in s):
                if -1 not in s:
                    cons.append(x >= zq(-self.EPS))
                if 1 not in s:
                    cons.append(x <= zq(self.EPS))
        groups = [g for g in e.group_atoms if used & set(g)]
        for g in groups:
            used |= set(g)
        cons += self.s.box(e, used, groups)
        e.stats.queries += 1
        sv = z3.SimpleSolver()
        left = ms
        if e.deadline is not None:
            left = max(50, min(ms, int(1000 * (e.deadline - time.time()))))
        sv.set("timeout", left)
        sv.add(cons)
        try:
            alts, todo = [], [goal]
            while todo:
                g = todo.pop()
                if z3.is_or(g) or z3.is_and(g) and g.num_args() == 1:
                    todo += g.children()
                else:
                    alts.append(g)
            for g in alts:
                sv.push()
                sv.add(g)
                r = str(sv.check())
                sv.pop()
                if r != "unsat":
                    break
        except z3.Z3Exception:
            r = "unknown"
        e.stats.time += time.time() - t0
        setattr(e.stats, r, getattr(e.stats, r) + 1)
        if os.environ.get("VF_DEBUG"):
            print("LINEAR", ob[1], r, len(alts), "alternatives", len(cons), "constraints", round(time.time() - t0, 2), "s")
        return r == "unsat"

"""SMT back end: z3 (default and nlsat) and cvc5, over the atoms of an Engine."""
from fractions import Fraction
import time
import z3
from . import terms as tm
from .nf import NF, W, FIELD, ALL, special, Unsupported

z3.set_param("memory_max_size", 6000)


def zq(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}")


# numbers of Q(sqrt 2, sqrt 3): {set of radicands: Fraction}
def fadd(x, y):
    out = dict(x)
    for k, v in y.items():
        v = out.get(k, 0) + v
        if v:
            out[k] = v
        else:
            out.pop(k, None)
    return out


def fmul(x, y):
    out = {}
    for a, u in x.items():
        for b, v in y.items():
            w = u * v
            for n in a & b:
                w *= n
            out = fadd(out, {a ^ b: w})
    return out


def finv(x):
    num = {frozenset(): Fraction(1)}
    for n in (2, 3):
        if any(n in k for k in x):
            c = {k: (-v if n in k else v) for k, v in x.items()}
            num = fmul(num, c)
            x = fmul(x, c)
    (k, v), = x.items()
    return {a: b / v for a, b in num.items()}


def fsign(x):
    """sign of a number (nonzero ones are far above 1e-12 at these sizes; otherwise refuse)"""
    if not x:
        return 0
    t = Fraction(0)
    for k, v in x.items():
        for n in k:
            v = v * {2: SQRT2, 3: SQRT3}[n]
        t += v
    if abs(t) < Fraction(1, 10 ** 15):
        raise Unsupported("tiny multiplier")
    return 1 if t > 0 else -1


SQRT2 = Fraction(14142135623730950488016887242096980785697, 10 ** 40)
SQRT3 = Fraction(17320508075688772935274463415058723669428, 10 ** 40)


def nullvector(M, n):
    """the solution of M x = 0 when the solution space has dimension one, else None"""
    M = [list(r) for r in M]
    piv = []
    row = 0
    for col in range(n):
        p = next((i for i in range(row, len(M)) if M[i][col]), None)
        if p is None:
            continue
        M[row], M[p] = M[p], M[row]
        iv = finv(M[row][col])
        M[row] = [fmul(x, iv) for x in M[row]]
        for i in range(len(M)):
            if i != row and M[i][col]:
                f = {k: -v for k, v in M[i][col].items()}
                M[i] = [fadd(x, fmul(f, y)) for x, y in zip(M[i], M[row])]
        piv.append(col)
        row += 1
        if row == len(M):
            break
    free = [c for c in range(n) if c not in piv]
    if len(free) != 1:
        return None
    x = [{} for _ in range(n)]
    x[free[0]] = {frozenset(): Fraction(1)}
    for i, c in enumerate(piv):
        x[c] = {k: -v for k, v in M[i][free[0]].items()}
    return x


def round17(x):
    """short fractions stay; long ones are rounded to 17 decimals"""
    if x.denominator < 10 ** 12:
        return x
    return Fraction(round(x * 10 ** 17), 10 ** 17)


class Solver:
    def __init__(self, feas_ms=1500, query_ms=20000):
        self.feas_ms = feas_ms
        self.query_ms = query_ms
        self.cache = {}
        self.av = {}
        self.polyc = {}
        self.ndc = {}
        self.bool_terms = {}
        self.hard = 0

    # -- expressions -------------------------------------------------------------
    def atomv(self, e, a):
        v = self.av.get(a.i)
        if v is None:
            nm = f"{a.name}!{a.i}" if a.kind != "var" else a.name
            v = z3.ToReal(z3.Int(nm)) if a.sort == "I" else z3.Real(nm)
            self.av[a.i] = v
        return v

    def poly(self, e, p):
        ts = []
        for m, c in p.items():
            f = []
            i = 0
            while m:
                k = m & FIELD
                if k:
                    v = self.atomv(e, e.atoms[i])
                    f.extend([v] * k)
                m >>= W
                i += 1
            if not f:
                ts.append(zq(c))
            else:
                x = f[0]
                for y in f[1:]:
                    x = x * y
                ts.append(x if c == 1 else zq(c) * x)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def pexpr(self, e, pid):
        x = self.polyc.get(pid)
        if x is None:
            x = self.polyc[pid] = self.poly(e, e.plist[pid])
        return x

    def nfx(self, e, a, cons):
        """z3 expr for NF; auxiliary quotient when it has a denominator"""
        if special(a):
            raise Unsupported("special value in query")
        if not a.den:
            return self.poly(e, a.num)
        k = a.key()
        q = self.ndc.get(k)
        if q is None:
            v = z3.Real(f"quot!{len(self.ndc)}")
            d = None
            for i, ex in a.den:
                x = self.pexpr(e, i)
                for _ in range(ex):
                    d = x if d is None else d * x
            q = self.ndc[k] = (v, z3.And(d != 0, v * d == self.poly(e, a.num)))
        cons.append(q[1])
        return q[0]

    def sexpr(self, x, s):
        s = frozenset(s)
        return {frozenset((1,)): x > 0, frozenset((-1,)): x < 0, frozenset((0,)): x == 0,
                frozenset((0, 1)): x >= 0, frozenset((0, -1)): x <= 0, frozenset((1, -1)): x != 0,
                ALL: z3.BoolVal(True), frozenset(): z3.BoolVal(False)}[s]

    def lit(self, e, l):
        if l[0] == "s":
            return self.sexpr(self.pexpr(e, l[1]), l[2])
        if l[0] == "b":
            t = tm.T[l[1]]
            v = z3.Bool(t.val)
            return v if l[2] else z3.Not(v)
        if l[0] == "z":
            return l[2]
        if l[0] == "m":
            return z3.BoolVal(True)
        raise KeyError(l)

    def lit_atoms(self, e, l):
        if l[0] == "s":
            k = ("pa", l[1])
            r = self.cache.get(k)
            if r is None:
                r = self.cache[k] = frozenset(a.i for a in e.atoms_of_poly(e.plist[l[1]]))
            return r
        if l[0] == "z":
            return l[1]
        return frozenset()

    def defs(self, e, ids):
        """definition constraints for a set of atoms"""
        cons = []
        present = ids
        for i in sorted(ids):
            a = e.atoms[i]
            v = self.atomv(e, a)
            k = a.kind
            if a.lo is not None:
                cons.append(v >= zq(a.lo))
            if a.hi is not None:
                cons.append(v <= zq(a.hi))
            s = e.base_signs.get(e.pid(e.mono(a))[0])
            if s is not None and s != ALL:
                cons.append(self.sexpr(v, s))
            if i in e.rules:
                cons.append(v * v == self.poly(e, e.rules[i]))
            if k == "sqrt":
                cons.append(v >= 0)
            elif k == "root":
                nf, n = a.data
                x = self.nfx(e, nf, cons)
                y = v
                for _ in range(n - 1):
                    y = y * v
                cons.append(y == x)
                cons.append(v >= 0)
            elif k == "cos":
                m, D = a.data
                if self.angle_present(e, m, present):
                    t = self.poly(e, {m: 1}) / D
                    iv = e.interval({m: 1})
                    cons.append(v >= 1 - t * t / 2)
                    cons.append(v <= 1 - t * t / 2 + t * t * t * t / 24)
            elif k == "sin":
                m, D = a.data[0], a.data[1]
                if self.angle_present(e, m, present):
                    t = self.poly(e, {m: 1}) / D
                    t3 = t * t * t
                    cons.append(z3.Implies(t >= 0, z3.And(v <= t, v >= t - t3 / 6, v <= t - t3 / 6 + t3 * t * t / 120)))
                    cons.append(z3.Implies(t <= 0, z3.And(v >= t, v <= t - t3 / 6, v >= t - t3 / 6 + t3 * t * t / 120)))
            elif k == "atan2":
                c, s_ = a.data["cs"]
                x, y = self.nfx(e, c, cons), self.nfx(e, s_, cons)
                pi = self.atomv(e, e.pi)
                cons.append(z3.And(v > -pi, v <= pi))
                cons.append((y > 0) == z3.And(v > 0, v < pi))
                cons.append((y < 0) == (v < 0))
                cons.append(z3.Implies(v == 0, x > 0))
                cons.append((x > 0) == z3.And(2 * v > -pi, 2 * v < pi))
                cons.append((x < 0) == z3.Or(2 * v < -pi, 2 * v > pi))
            elif k == "acos":
                u = self.nfx(e, a.data["u"], cons)
                pi = self.atomv(e, e.pi)
                cons.append(z3.And(v >= 0, v <= pi))
                cons.append((u == 1) == (v == 0))
                cons.append((u > 0) == (2 * v < pi))
                cons.append((u < 0) == (2 * v > pi))
                if "cs" in a.data and not special(a.data["cs"][1]):
                    s_ = self.nfx(e, a.data["cs"][1], cons)
                    cons.append(z3.And(v >= s_, v >= u * s_, z3.Implies(v > 0, z3.And(v > s_, v > u * s_))))
            elif k == "floor":
                x = self.nfx(e, a.data, cons)
                cons.append(z3.And(v <= x, x < v + 1))
            elif k == "idiv":
                x, y = self.nfx(e, a.data[0], cons), self.nfx(e, a.data[1], cons)
                r = x - y * v
                cons.append(z3.And(y != 0, z3.Or(z3.And(y > 0, r >= 0, r < y), z3.And(y < 0, r <= 0, r > y))))
            elif k == "maxn":
                xs = [self.nfx(e, x, cons) for x in a.data]
                for x in xs:
                    cons.append(v >= x)
                cons.append(z3.Or([v == x for x in xs]))
            elif k == "exp":
                x = self.nfx(e, a.data, cons)
                cons.append(v > 0)
                cons.append(v >= 1 + x)
                cons.append(z3.Implies(x < 1, v * (1 - x) <= 1))
            elif k == "log":
                x = self.nfx(e, a.data, cons)
                cons.append(v <= x - 1)
                cons.append(v * x >= x - 1)
        # part of a unit vector
        for g in e.group_atoms:
            h = [i for i in g if i in ids]
            if h and len(h) < len(g):
                cons.append(z3.Sum([self.atomv(e, e.atoms[i]) ** 2 for i in h]) <= 1)
        # monotonicity of acos / log / exp pairs
        for kind, dirn in (("acos", -1), ("log", 1), ("exp", 1)):
            ats = [e.atoms[i] for i in sorted(ids) if e.atoms[i].kind == kind]
            if len(ats) > 8:
                continue
            for x in range(len(ats)):
                for y in range(x + 1, len(ats)):
                    da = ats[x].data["u"] if kind == "acos" else ats[x].data
                    db = ats[y].data["u"] if kind == "acos" else ats[y].data
                    ua, ub = self.nfx(e, da, cons), self.nfx(e, db, cons)
                    va, vb = self.atomv(e, ats[x]), self.atomv(e, ats[y])
                    cons.append((ua < ub) == (va > vb if dirn < 0 else va < vb))
                    cons.append((ua == ub) == (va == vb))
        return cons

    def angle_present(self, e, m, ids):
        j = (m.bit_length() - 1) // W
        return j in ids

    def close(self, e, ids):
        out = set(ids)
        st = list(ids)
        while st:
            a = e.atoms[st.pop()]
            dd = set(a.deps)
            if a.kind in ("atan2", "acos"):
                dd.add(e.pi.i)
            if a.kind == "sin":
                dd.add(a.data[2].i)
            if a.i in e.rules:
                dd |= {x.i for x in e.atoms_of_poly(e.rules[a.i])}
            for d in dd:
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def cone(self, e, lits, goal_lits, full):
        """relevant literals, closed under shared atoms"""
        if full:
            ids = set()
            for l in list(lits) + list(goal_lits):
                ids |= self.lit_atoms(e, l)
            return list(lits), self.close(e, ids)
        ids = set()
        for l in goal_lits:
            ids |= self.lit_atoms(e, l)
        ids = self.close(e, ids)
        rest = [(l, self.lit_atoms(e, l)) for l in lits]
        cid = e.const_bits
        consts = {a.i for a in e.atoms if a.kind == "const"}
        chosen = []
        changed = True
        while changed:
            changed = False
            nr = []
            for l, at in rest:
                cl = self.close(e, at)
                if (cl & ids) - consts or not at:
                    chosen.append(l)
                    ids |= cl
                    changed = True
                else:
                    nr.append((l, at))
            rest = nr
        return chosen, ids

    # -- linear relaxation: every monomial its own variable --------------------------------
    def mvar(self, e, m):
        k = ("mv", m)
        v = self.cache.get(k)
        if v is None:
            j = (m.bit_length() - 1) // W
            if m == 1 << (W * j):
                v = self.atomv(e, e.atoms[j])
            else:
                v = z3.Real(f"mono!{m:x}")
            self.cache[k] = v
        return v

    def lin_poly(self, e, p, monos):
        k = ("lp", frozenset(p.items()))
        r = self.cache.get(k)
        if r is None:
            ts = []
            ms = []
            for m, c in p.items():
                if m == 0:
                    ts.append(zq(c))
                else:
                    ms.append(m)
                    v = self.mvar(e, m)
                    ts.append(v if c == 1 else zq(c) * v)
            r = self.cache[k] = (z3.Sum(ts) if ts else z3.RealVal(0), ms)
        monos.update(r[1])
        return r[0]

    def relax(self, e, lits, ids, ms=400):
        """unsat of the linear relaxation implies unsat"""
        t0 = time.time()
        monos = set()
        cons = []
        for l in lits:
            if l[0] == "s":
                cons.append(self.sexpr(self.lin_poly(e, e.plist[l[1]], monos), l[2]))
            else:
                cons.append(self.lit(e, l))
        for i in ids:
            a = e.atoms[i]
            if i in e.rules and a.kind != "const":
                cons.append(self.lin_poly(e, e.rules[i], monos) >= 0)
            if a.kind == "floor" and not special(a.data) and not a.data.den:
                x = self.lin_poly(e, a.data.num, monos)
                cons.append(z3.And(self.atomv(e, a) <= x, x < self.atomv(e, a) + 1))
            monos.add(1 << (W * i))
        for m in monos:
            v = self.mvar(e, m)
            lo, hi = e.interval({m: 1}) or (None, None)
            j = (m.bit_length() - 1) // W
            if not (m & e.odd_mask) & ~e.nonneg_mask and (lo is None or lo < 0):
                lo = 0
            if lo is not None:
                cons.append(v >= zq(lo))
            if hi is not None:
                cons.append(v <= zq(hi))
            if m == 1 << (W * j):
                s = e.base_signs.get(e.pid({m: 1})[0])
                if s is not None and s != ALL:
                    cons.append(self.sexpr(v, s))
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(cons)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        e.stats.time += time.time() - t0
        return r == "unsat"

    # -- abstraction: polynomials over the input variables become opaque variables ---------------
    def var_mask(self, e):
        n = len(e.atoms)
        c = self.cache.get("vm")
        if c is None or c[0] != n:
            m = 0
            for a in e.atoms:
                if a.kind == "var":
                    m |= FIELD << (W * a.i)
            c = self.cache["vm"] = (n, m)
        return c[1]

    def abs_poly(self, e, p, used):
        k = ("ap", frozenset(p.items()))
        r = self.cache.get(k)
        if r is None:
            vm = self.var_mask(e)
            parts = {}
            for m, c in p.items():
                parts.setdefault(m & ~vm, {})[m & vm] = c
            ts = []
            us = set()
            for h, P in parts.items():
                c0 = P.pop(0, 0)
                x = zq(c0)
                if P:
                    if len(P) == 1:
                        (m, c), = P.items()
                        j = (m.bit_length() - 1) // W
                        if m == 1 << (W * j):
                            d = self.atomv(e, e.atoms[j])
                            us.add(("a", j))
                        else:
                            d = z3.Real(f"am!{m:x}")
                            us.add(("p", e.pid({m: 1})[0]))
                            i = e.pid({m: 1})[0]
                            d = z3.Real(f"D!{i}")
                            c = c
                    else:
                        i, c = e.pid(P)
                        d = z3.Real(f"D!{i}")
                        us.add(("p", i))
                    x = x + zq(c) * d
                if h:
                    f = h
                    i = 0
                    while f:
                        ex = f & FIELD
                        if ex:
                            us.add(("a", i))
                            for _ in range(ex):
                                x = x * self.atomv(e, e.atoms[i])
                        f >>= W
                        i += 1
                ts.append(x)
            r = self.cache[k] = (z3.Sum(ts) if len(ts) != 1 else ts[0], us)
        used |= r[1]
        return r[0]

    def abstract(self, e, lits, ids, ms):
        """unsat of the abstraction implies unsat"""
        t0 = time.time()
        used = set()
        cons = []
        for l in lits:
            cons.append(self.sexpr(self.abs_poly(e, e.plist[l[1]], used), l[2]) if l[0] == "s" else self.lit(e, l))
        todo = True
        done = set()
        while todo:
            todo = False
            for u in list(used):
                if u in done:
                    continue
                done.add(u)
                todo = True
                if u[0] == "a":
                    a = e.atoms[u[1]]
                    v = self.atomv(e, a)
                    if a.lo is not None:
                        cons.append(v >= zq(a.lo))
                    if a.hi is not None:
                        cons.append(v <= zq(a.hi))
                    s = e.base_signs.get(e.pid({1 << (W * a.i): 1})[0])
                    if s is not None and s != ALL:
                        cons.append(self.sexpr(v, s))
                    if a.i in e.rules and a.kind != "var":
                        cons.append(v * v == self.abs_poly(e, e.rules[a.i], used))
                        if a.kind == "sqrt":
                            cons.append(v >= 0)
                else:
                    p = e.plist[u[1]]
                    v = z3.Real(f"D!{u[1]}")
                    iv = e.interval(p)
                    b = e.form_bounds(p)
                    for x in (iv, b):
                        if x is not None:
                            if x[0] is not None:
                                cons.append(v >= zq(x[0]))
                            if x[1] is not None:
                                cons.append(v <= zq(x[1]))
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
        s.set("timeout", ms)
        s.add(cons)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        e.stats.time += time.time() - t0
        return r == "unsat"

    # -- checking --------------------------------------------------------------------
    def feasible(self, e, alts):
        alts = [y for x in alts for y in (x[1] if x[0] == "c" else (x,))]
        # cheap numeric witnesses first
        lits = e.base_lits + e.path.lits
        key = ("f", frozenset(_lk(l) for l in lits), tuple(_lk(a) for a in alts))
        r = self.cache.get(key)
        if r is not None:
            return r
        ch, ids = self.cone(e, lits, alts, False)
        key2 = ("f", frozenset(_lk(l) for l in ch), tuple(_lk(a) for a in alts))
        r = self.cache.get(key2)
        if r is None:
            if e.numeric is not None and e.numeric.witness(ch + list(alts)):
                r = "sat"
                e.stats.numeric = getattr(e.stats, "numeric", 0) + 1
            else:
                r, _ = self.run(e, ch + list(alts), ids, [], self.feas_ms, ("nlsat", "z3"))
            self.cache[key2] = r
        self.cache[key] = r
        return r

    def query(self, e, goal, ms=None, extra=(), engines=("nlsat", "z3", "cvc5"), full=False, also=()):
        lits = e.base_lits + e.path.lits
        ch, ids = self.cone(e, lits, list(goal), full)
        if also:
            ids = self.close(e, set(ids) | set(also))
        ms = ms or self.query_ms
        if self.hard >= 4:
            ms = max(1000, ms // 5)
        return self.run(e, ch + list(goal), ids, list(extra), ms, engines, True)

    def quick(self, e, goal):
        """unsat of the relaxations"""
        ch, ids = self.cone(e, e.base_lits + e.path.lits, list(goal), False)
        e.stats.queries += 1
        try:
            if self.relax(e, ch + list(goal), ids):
                e.stats.unsat += 1
                return True
        except Unsupported:
            pass
        e.stats.unknown += 1
        return False

    # -- cone problems: polynomials linear in the input variables, coefficients in Q(sqrt 2, sqrt 3, ...) ---------
    def const_value(self, e, m):
        """40 digit value of a monomial of constant atoms"""
        x = Fraction(1)
        i = 0
        while m:
            k = m & FIELD
            if k:
                a = e.atoms[i]
                x *= ((a.lo + a.hi) / 2) ** k
            m >>= W
            i += 1
        return x

    def linear_form(self, e, pid):
        """({variable atom: coefficient}, constant, coefficients exact) or None"""
        k = ("lf", pid)
        if k in self.cache:
            return self.cache[k]
        r = None
        vm = self.var_mask(e)
        out = {}
        c0 = Fraction(0)
        exact = True
        for m, c in e.plist[pid].items():
            h, v = m & ~vm, m & vm
            if h and h & ~e.const_bits:
                break
            x = Fraction(c)
            if h:
                x *= self.const_value(e, h)
                exact = False
            if not v:
                c0 += x
                continue
            j = (v.bit_length() - 1) // W
            if v != 1 << (W * j) or e.atoms[j].sort == "I":
                break
            out[j] = out.get(j, 0) + x
        else:
            if sum(abs(x) for x in out.values()) + abs(c0) < (10 ** 6 if exact else 1000):
                r = (out, c0, exact and all(round17(x) == x for x in (*out.values(), c0)))
        self.cache[k] = r
        return r

    def path_signs(self, e, used):
        return [e.base_signs.get(e.pid(e.mono(e.atoms[j]))[0]) for j in sorted(used)]

    def box(self, e, used, groups):
        """bounds of the variables; a unit vector has a component of at least 1/sqrt n"""
        k = ("box", frozenset(used), tuple(self.path_signs(e, used)))
        box = self.cache.get(k)
        if box is not None:
            return box
        box = []
        for j in used:
            a = e.atoms[j]
            v = self.atomv(e, a)
            lo, hi = a.lo, a.hi
            if any(j in g for g in groups):
                lo = -1 if lo is None else max(lo, -1)
                hi = 1 if hi is None else min(hi, 1)
            if lo is not None:
                box.append(v >= zq(lo))
            if hi is not None:
                box.append(v <= zq(hi))
            s = e.base_signs.get(e.pid(e.mono(a))[0])
            if s is not None and s != ALL:
                box.append(self.sexpr(v, s))
        for g in groups:
            h = zq(Fraction(10 ** 6, int(10 ** 6 * len(g) ** 0.5) + 1))
            box.append(z3.Or([z3.Or(self.atomv(e, e.atoms[j]) >= h, self.atomv(e, e.atoms[j]) <= -h) for j in g]))
        self.cache[k] = box
        return box

    def linear(self, e, lits, want_model):
        """decide a conjunction of (almost) linear literals: 'unsat' from a relaxation that contains every solution, 'sat' from a point
        that satisfies every literal with a margin; None when neither applies"""
        forms = []
        used = set()
        for l in lits:
            if l[0] != "s":
                return None
            f = self.linear_form(e, l[1])
            if f is None:
                return None
            forms.append((f, l[2]))
            used |= f[0].keys()
        if not used or any(e.atoms[j].lo is None and e.atoms[j].hi is None and not any(j in g for g in e.group_atoms) for j in used):
            return None
        eps = Fraction(1, 10 ** 12)
        groups = [g for g in e.group_atoms if used & set(g)]
        for g in groups:
            used |= set(g)
        box = self.box(e, used, groups)
        xs = []
        for (f, c0, exact), s in forms:
            k = ("lx", id(f))
            x = self.cache.get(k)
            if x is None:
                x = self.cache[k] = z3.Sum([zq(round17(c)) * self.atomv(e, e.atoms[j]) for j, c in f.items()] + [zq(round17(c0))])
            xs.append((x, frozenset(s), exact, c0))

        def solve(cons):
            sv = z3.SimpleSolver()
            sv.set("timeout", 2000)
            sv.add(box + cons)
            return str(sv.check()), sv
        # every solution satisfies these
        cons = []
        for x, s, exact, c0 in xs:
            k = ("lc", x.get_id(), s)
            y = self.cache.get(k)
            if y is not None:
                if y is not True:
                    cons.append(y)
                continue
            n0 = len(cons)
            if exact:
                cons.append(self.sexpr(x, s))
            elif 1 in s and -1 in s:
                self.cache[k] = True
                continue
            else:
                if -1 not in s:
                    cons.append(x >= zq(-eps))
                if 1 not in s:
                    cons.append(x <= zq(eps))
            cons[n0:] = [z3.And(cons[n0:]) if len(cons) != n0 + 1 else cons[n0]]
            self.cache[k] = cons[-1]
        r, sv = solve(cons)
        if r == "unsat":
            return "unsat", None
        if r != "sat":
            return None
        try:
            if self.farkas(e, lits, used):
                return "unsat", None
        except Unsupported:
            pass
        if not want_model:
            return "sat", None      # perhaps only up to 1e-12: exploring one path too many is harmless
        # a point that satisfies all of them
        for tight, mg in ((False, Fraction(1, 1000)), (True, Fraction(1, 10 ** 6)), (True, Fraction(1, 10 ** 11))):
            cons = []
            for x, s, exact, c0 in xs:
                if s == ALL:
                    continue
                edge = 0 in s and c0 == 0 and (exact or not want_model)
                if s == {0}:
                    if not edge:
                        return None
                    cons.append(x == 0)
                    continue
                m = 0 if tight and edge else mg
                alts = ([x >= zq(m)] if 1 in s else []) + ([x <= zq(-m)] if -1 in s else [])
                cons.append(z3.Or(alts) if len(alts) != 1 else alts[0])
            r, sv = solve(cons)
            if r != "sat":
                continue
            md = sv.model()
            pt = {}
            for j in used:
                v = md.eval(self.atomv(e, e.atoms[j]), model_completion=True)
                pt[j] = v.numerator_as_long() / v.denominator_as_long()
            for g in groups:
                n = sum(pt[j] ** 2 for j in g) ** 0.5
                for j in g:
                    pt[j] /= n
            ok = True
            for j in used:
                a = e.atoms[j]
                if (a.lo is not None and pt[j] < a.lo) or (a.hi is not None and pt[j] > a.hi):
                    ok = False
                s = e.base_signs.get(e.pid(e.mono(a))[0])
                if s is not None and (pt[j] > 0) - (pt[j] < 0) not in s:
                    ok = False
            for (f, c0, exact), s in forms:
                x = float(c0) + sum(float(c) * pt[j] for j, c in f.items())
                if abs(x) < 1e-13:
                    ok = ok and 0 in s and c0 == 0 and (exact or not want_model)
                elif (1 if x > 0 else -1) not in s:
                    ok = False
                if not ok:
                    break
            if ok:
                if e.numeric is not None and len(e.numeric.samples) < 400 and all(e.atoms[j].kind == "var" for j in used):
                    env = dict(e.numeric.samples[0]) if e.numeric.samples else {}
                    env.update({e.atoms[j].name: x for j, x in pt.items()})
                    e.numeric.add(env)
                return "sat", ({e.atoms[j].name: x for j, x in pt.items()} if want_model else None)
        return None

    def exact_row(self, e, pid):
        """coefficients over Q(sqrt 2, sqrt 3) of a homogeneous linear literal: {variable: {constant monomial: Fraction}} or None"""
        k = ("er", pid)
        if k in self.cache:
            return self.cache[k]
        vm = self.var_mask(e)
        out = {}
        for m, c in e.plist[pid].items():
            h, v = m & ~vm, m & vm
            x = {frozenset(): Fraction(c)}
            i = 0
            while h and x is not None:
                n = h & FIELD
                if n:
                    r = e.rules.get(i)
                    if r is None or list(r) != [0] or r[0] not in (2, 3):
                        x = None
                        break
                    for _ in range(n):
                        x = fmul(x, {frozenset((int(r[0]),)): Fraction(1)})
                h >>= W
                i += 1
            if x is None or not v:
                out = None
                break
            j = (v.bit_length() - 1) // W
            out[j] = fadd(out.get(j, {}), x)
        self.cache[k] = out
        return out

    def farkas(self, e, lits, used):
        """exact certificate that the homogeneous literals contradict each other: the solver finds the conflicting subset on 17 digit
        coefficients, the multipliers are recomputed exactly and checked"""
        rows = []
        for l in lits:
            s = frozenset(l[2])
            if s == ALL or s == {1, -1}:
                continue
            r = self.exact_row(e, l[1])
            if r is None:
                continue
            if -1 not in s:
                rows.append((r, 1, 0 not in s, self.linear_form(e, l[1])))
            if 1 not in s:
                rows.append((r, -1, 0 not in s, self.linear_form(e, l[1])))
        for j in used:
            s = e.base_signs.get(e.pid(e.mono(e.atoms[j]))[0])
            if s is not None and s != ALL:
                s = frozenset(s)
                f = ({j: Fraction(1)}, 0, True)
                if -1 not in s:
                    rows.append(({j: {frozenset(): Fraction(1)}}, 1, 0 not in s, f))
                if 1 not in s:
                    rows.append(({j: {frozenset(): Fraction(1)}}, -1, 0 not in s, f))
        sv = z3.SimpleSolver()
        sv.set("timeout", 2000)
        sv.set("core.minimize", True)
        for i, (r, sg, strict, f) in enumerate(rows):
            x = self.cache.get(("lx", id(f[0])))
            if x is None:
                x = z3.Sum([zq(round17(c)) * self.atomv(e, e.atoms[j]) for j, c in f[0].items()])
            if sg < 0:
                x = -x
            sv.assert_and_track(x > 0 if strict else x >= 0, f"c{i}")
        if str(sv.check()) != "unsat":
            return False
        core = [rows[int(str(t)[1:])] for t in sv.unsat_core()]
        if len(core) > 1 + len({j for r in core for j in r[0]}):
            # not minimal
            i = 0
            while i < len(core):
                s2 = z3.SimpleSolver()
                s2.set("timeout", 500)
                for r, sg, strict, f in core[:i] + core[i + 1:]:
                    x = z3.Sum([zq(round17(c * sg)) * self.atomv(e, e.atoms[j]) for j, c in f[0].items()])
                    s2.add(x > 0 if strict else x >= 0)
                if str(s2.check()) == "unsat":
                    core.pop(i)
                else:
                    i += 1
        if not any(r[2] for r in core) or len(core) > 12:
            return False
        cols = sorted({j for r in core for j in r[0]})
        # equations: sum_i lam_i a_ij = 0
        M = [[{k: v * r[1] for k, v in r[0].get(j, {}).items()} for r in core] for j in cols]
        lam = nullvector(M, len(core))
        if lam is None:
            return False
        sg = [fsign(x) for x in lam]
        if all(x >= 0 for x in sg):
            pass
        elif all(x <= 0 for x in sg):
            pass
        else:
            return False
        return any(x and r[2] for x, r in zip(sg, core))

    def run(self, e, lits, ids, extra, ms, engines, want_model=False):
        t0 = time.time()
        e.stats.queries += 1
        if not extra:
            r = self.linear(e, lits, want_model)
            if r is not None:
                setattr(e.stats, r[0], getattr(e.stats, r[0]) + 1)
                e.stats.time += time.time() - t0
                return r
        try:
            if not extra and self.relax(e, lits, ids):
                e.stats.unsat += 1
                return "unsat", None
            if not extra and not any(e.atoms[i].sort == "I" for i in ids) and self.abstract(e, lits, ids, max(300, min(1500, ms // 5))):
                e.stats.unsat += 1
                return "unsat", None
            cons = [self.lit(e, l) for l in lits] + self.defs(e, ids) + extra
        except Unsupported:
            return "unknown", None
        hasint = any(e.atoms[i].sort == "I" for i in ids)
        res, model = "unknown", None
        n = max(1, len(engines))
        for eng in engines:
            left = ms
            if e.deadline is not None:
                left = min(ms, int(1000 * (e.deadline - time.time())))
                if left < 20:
                    break
            if eng == "nlsat":
                if hasint:
                    continue
                s = z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
                s.set("timeout", left if n == 1 else max(200, left // 2))
            elif eng == "z3":
                s = z3.Solver()
                s.set("timeout", left)
            elif eng == "cvc5":
                res, model = self.run_cvc5(e, cons, left)
                if res != "unknown":
                    break
                continue
            try:
                s.add(cons)
                r = str(s.check())
            except z3.Z3Exception as ex:
                r = "unknown"
            if r != "unknown":
                res = r
                if r == "sat":
                    model = s.model() if want_model else None
                break
        if res == "unknown" and want_model:
            self.hard += 1
        setattr(e.stats, res, getattr(e.stats, res) + 1)
        e.stats.time += time.time() - t0
        return res, model

    def run_cvc5(self, e, cons, ms):
        import subprocess, shutil
        s = z3.Solver()
        s.add(cons)
        txt = s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--nl-cov", f"--tlimit={ms}"], input="(set-logic ALL)\n" + txt.replace("(set-info :status unknown)", ""),
                               capture_output=True, text=True, timeout=ms / 1000 + 5)
            out = p.stdout.strip().splitlines()
            if out and out[-1] == "unsat":
                return "unsat", None
        except Exception:
            pass
        return "unknown", None

    def model_values(self, e, model):
        """values of the declared variables in a model; missing ones are absent"""
        if isinstance(model, dict):
            return dict(model)
        out = {}
        for a in e.atoms:
            if a.kind != "var":
                continue
            if a.sort == "I":
                v = model.eval(z3.Int(a.name))
            else:
                v = model.eval(z3.Real(a.name))
            if z3.is_int_value(v):
                out[a.name] = v.as_long()
            elif z3.is_rational_value(v):
                out[a.name] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_algebraic_value(v):
                x = v.approx(20)
                out[a.name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        for d in model.decls():
            if d.range().kind() == z3.Z3_BOOL_SORT and d.arity() == 0:
                out[d.name()] = bool(model[d])
        return out


def _lk(l):
    return l if l[0] != "z" else ("z", l[1], l[2].sexpr())

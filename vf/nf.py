"""Rational-function normal forms over algebraic/transcendental atoms, with path decisions.

A Path holds the decisions (sign conditions of polynomials, boolean atoms) of one leaf.
Engine.nf(term) turns a Term into an NF (num/den over interned factor polynomials) or a
special IEEE value ('nan','+inf','-inf'), asking the solver for undetermined conditions and
forking when both outcomes are feasible.
"""
from fractions import Fraction
import math
import time
import mpmath
from . import terms as tm

W = 8
FIELD = 0xFF


class Unsupported(Exception):
    pass


class Infeasible(BaseException):
    """the current path turned out to be impossible"""


class PathLimit(BaseException):
    pass


# ---------------------------------------------------------------------------
# polynomials: dict packed-monomial -> int/Fraction
# ---------------------------------------------------------------------------
def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for k, v in b.items():
        x = r.get(k)
        if x is None:
            r[k] = v
        else:
            x = norm_c(x + v)
            if x:
                r[k] = x
            else:
                del r[k]
    return r


def pneg(a):
    return {k: -v for k, v in a.items()}


def pscale(a, c):
    if c == 1:
        return a
    if not c:
        return {}
    return {k: norm_c(v * c) for k, v in a.items()}


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for k, v in a.items():
        for k2, v2 in b.items():
            m = k + k2
            x = r.get(m)
            r[m] = v * v2 if x is None else x + v * v2
    return {k: norm_c(v) for k, v in r.items() if v}


PONE = {0: 1}


class Atom:
    __slots__ = ("i", "kind", "name", "data", "sort", "lo", "hi", "deps", "nonneg")

    def __repr__(self):
        return self.name


class NF:
    __slots__ = ("num", "den", "_k")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den if num else ()
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.num.items()), self.den)
        return self._k

    def __eq__(self, o):
        return isinstance(o, NF) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


NAN, PINF, NINF = "nan", "+inf", "-inf"


def special(x):
    return type(x) is str


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.splits = 0
        self.paths = 0
        self.trivial = 0


class Path:
    """one leaf of the exploration: a set of literals, plus everything derived under them"""

    def __init__(self, lits=(), parent=None):
        self.taken = []
        self.pending = []
        self.shared = None     # states keyed by set of literals (memo sharing between obligations)
        if parent is None:
            self.signs, self.bools, self.memo, self.bmemo, self.lits = {}, {}, {}, {}, []
        else:
            self.signs, self.bools = dict(parent.signs), dict(parent.bools)
            self.memo, self.bmemo, self.lits = dict(parent.memo), dict(parent.bmemo), list(parent.lits)
        for l in lits:
            self.assume(l)
            self.taken.append(l)

    def assume(self, a):
        if a[0] == "c":
            for x in a[1]:
                self.assume(x)
        elif a[0] == "s":
            _, i, s = a
            old = self.signs.get(i)
            self.signs[i] = s if old is None else (s & old)
            if not self.signs[i]:
                raise Infeasible()
            self.lits.append(a)
        elif a[0] == "m":
            # an outcome decided by overlapping conditions: remember which
            self.memo[a[1]] = a[2]
        elif a[0] == "b":
            _, tid, v = a
            if self.bools.get(tid, v) != v:
                raise Infeasible()
            self.bools[tid] = v
            self.lits.append(a)


ALL = frozenset((-1, 0, 1))


class Engine:
    def __init__(self, solver_factory=None, max_poly=60000):
        self.atoms = []
        self.akey = {}
        self.rules = {}
        self.mask = 0
        self.tight = {}
        self.guard = 0
        self.nonneg_mask = 0
        self.odd_mask = 0
        self.ptab = {}
        self.plist = []
        self.known = []      # known polys for trial factoring: list of (poly, kind, atom)
        self.base_signs = {}  # pid -> allowed sign set (assumptions)
        self.base_lits = []
        self.base_set = set()
        self.numeric = None
        self.groups = []
        self.gmemo = {}
        self.qmemo = {}
        self.atom_group = {}
        self.group_atoms = []
        self.fmemo = {}
        self.smemo = {}
        self.stats = Stats()
        self.path = Path()
        self.solver = None
        self.max_poly = max_poly
        self.angle_den = {}   # monomial(frozenset key) -> base denominator
        self.var_angle_den = {}
        self.deadline = None
        self.pi = self.const_atom("pi", mpmath.pi)
        self.s2 = self.const_atom("s2", mpmath.sqrt(2))
        self.s3 = self.const_atom("s3", mpmath.sqrt(3))
        self.q3 = self.const_atom("q3", mpmath.mpf(3) ** mpmath.mpf("0.25"))
        self.sp = self.const_atom("sp", mpmath.sqrt(mpmath.pi))
        self.rules[self.s2.i] = {0: 2}
        self.rules[self.s3.i] = {0: 3}
        self.rules[self.q3.i] = self.mono(self.s3)
        self.rules[self.sp.i] = self.mono(self.pi)
        for a in (self.s2, self.s3, self.q3, self.sp):
            self.mask |= 0xFE << (W * a.i)
        self.const_bits = FIELD << 0
        self.const_bits = 0
        for a in self.atoms:
            self.const_bits |= FIELD << (W * a.i)

    # -- atoms ---------------------------------------------------------------
    def new_atom(self, kind, name, data=None, sort="R", lo=None, hi=None, nonneg=False, deps=()):
        a = Atom()
        a.i = len(self.atoms)
        a.kind, a.name, a.data, a.sort, a.lo, a.hi, a.nonneg = kind, name, data, sort, lo, hi, nonneg
        a.deps = frozenset(deps)
        self.atoms.append(a)
        self.guard |= 0x80 << (W * a.i)
        self.odd_mask |= 1 << (W * a.i)
        if nonneg:
            self.nonneg_mask |= FIELD << (W * a.i)
        return a

    def const_atom(self, name, v):
        f = Fraction(str(mpmath.nstr(v, 40)))
        a = self.new_atom("const", name, v, lo=f - Fraction(1, 10 ** 35), hi=f + Fraction(1, 10 ** 35), nonneg=True)
        return a

    def mono(self, atom, e=1):
        return {e << (W * atom.i): 1}

    def atoms_of_poly(self, p):
        allm = 0
        for m in p:
            allm |= m
        out = []
        i = 0
        while allm:
            if allm & FIELD:
                out.append(self.atoms[i])
            allm >>= W
            i += 1
        return out

    def add_rule(self, atom, poly):
        """atom^2 -> poly"""
        self.rules[atom.i] = poly
        self.mask |= 0xFE << (W * atom.i)

    # -- reduction -----------------------------------------------------------
    def reduce(self, d):
        mask = self.mask
        bad = [m for m in d if m & mask]
        if not bad:
            return d
        d = dict(d)
        work = bad
        n = 0
        while work:
            nxt = set()
            for m in work:
                c = d.pop(m, None)
                if c is None:
                    continue
                x = m & mask
                i = (x.bit_length() - 1) // W
                e = (m >> (W * i)) & FIELD
                k = e // 2
                base = m - ((2 * k) << (W * i))
                rp = self.rules[i]
                pk = rp
                for _ in range(k - 1):
                    pk = self.reduce(pmul_raw(pk, rp))
                for m2, c2 in pk.items():
                    mm = base + m2
                    v = d.get(mm)
                    if v is None:
                        d[mm] = norm_c(c * c2)
                    else:
                        v = norm_c(v + c * c2)
                        if v:
                            d[mm] = v
                        else:
                            del d[mm]
                    if mm & mask:
                        nxt.add(mm)
            work = [m for m in nxt if m in d]
            n += len(work)
            if len(d) > self.max_poly:
                raise Unsupported("polynomial blow-up")
        return d

    def pmul(self, a, b):
        if len(a) * len(b) > self.max_poly * 40:
            raise Unsupported("polynomial blow-up")
        if len(a) == 1 and 0 in a:
            return pscale(b, a[0])
        if len(b) == 1 and 0 in b:
            return pscale(a, b[0])
        r = pmul_raw(a, b)
        for m in r:
            if m & self.guard:
                raise Unsupported("degree overflow")
        return self.reduce(r)

    def ppow(self, a, n):
        r = PONE
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    # -- interning -----------------------------------------------------------
    def pid(self, p):
        """(id, scale) with p = scale * plist[id]; leading coefficient of plist[id] is 1"""
        lead = p[max(p)]
        if lead != 1:
            inv = Fraction(1) / lead
            q = {k: norm_c(v * inv) for k, v in p.items()}
        else:
            q = p
        key = frozenset(q.items())
        i = self.ptab.get(key)
        if i is None:
            i = len(self.plist)
            self.ptab[key] = i
            self.plist.append(q)
        return i, lead

    def pdivmod_exact(self, a, b):
        """exact division a/b or None (b leading coef any)"""
        lb = max(b)
        cb = b[lb]
        g = self.guard
        cb_ = False
        for m in b:
            if m & self.const_bits & ~FIELD and m != lb:
                cb_ = True
                break
        a = dict(a)
        q = {}
        steps = 0
        lim = 4 * len(a) + 50
        while a:
            la = max(a)
            t = (la | g) - lb
            if t & g != g:
                if cb_:
                    # the divisor has algebraic constants: divide modulo their rules
                    r = self.reduce(a)
                    if r is not a:
                        a = dict(r)
                        continue
                return None
            m = t & ~g
            c = a[la]
            c = c if cb == 1 else norm_c(Fraction(c) / cb)
            q[m] = c
            for k, v in b.items():
                kk = k + m
                x = a.get(kk)
                if x is None:
                    a[kk] = -c * v
                else:
                    x = norm_c(x - c * v)
                    if x:
                        a[kk] = x
                    else:
                        del a[kk]
            steps += 1
            if steps > lim:
                return None
        return q

    def monogcd(self, p):
        it = iter(p)
        g = next(it)
        for m in it:
            if not g:
                return 0
            # fieldwise min
            r = 0
            i = 0
            x, y = g, m
            sh = 0
            while x:
                e = min(x & FIELD, y & FIELD)
                if e:
                    r |= e << sh
                x >>= W
                y >>= W
                sh += W
            g = r
        return g

    # -- NF arithmetic ---------------------------------------------------------
    def nconst(self, c):
        if isinstance(c, tm.Const):
            num = NF({})
            for m, q in c.d.items():
                p, a, b, k, s = m
                mono = (a << (W * self.s2.i)) + (b << (W * self.s3.i)) + (k << (W * self.q3.i)) + (s << (W * self.sp.i))
                if p >= 0:
                    mono += p << (W * self.pi.i)
                    num = self.nadd(num, NF({mono: norm_c(q)}))
                else:
                    i, _ = self.pid(self.mono(self.pi))
                    num = self.nadd(num, NF({mono: norm_c(q)}, ((i, -p),)))
            return num
        c = norm_c(Fraction(c))
        return NF({0: c} if c else {})

    def nadd(self, a, b):
        if special(a) or special(b):
            return spec_add(a, b)
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            num = padd(a.num, b.num)
            if not a.den:
                return NF(num)
            return self.cancel(num, dict(a.den))
        da, db = dict(a.den), dict(b.den)
        na, nb = a.num, b.num
        out = dict(da)
        for i, e in db.items():
            out[i] = max(out.get(i, 0), e)
        for i, e in out.items():
            k = e - da.get(i, 0)
            for _ in range(k):
                na = self.pmul(na, self.plist[i])
            k = e - db.get(i, 0)
            for _ in range(k):
                nb = self.pmul(nb, self.plist[i])
        num = padd(na, nb)
        if len(num) > self.max_poly:
            raise Unsupported("polynomial blow-up")
        return self.cancel(num, out)

    def cancel(self, num, den):
        if not num:
            return NF({})
        for i in list(den):
            f = self.plist[i]
            if len(num) > 3000:
                break
            while den[i] > 0:
                q = self.pdivmod_exact(num, f)
                if q is None:
                    break
                num = q
                den[i] -= 1
            if den[i] == 0:
                del den[i]
        # sqrt-atom denominators: y in den and num divisible by y^2 = P (as poly)
        for i in list(den):
            f = self.plist[i]
            if len(f) == 1:
                (m, c), = f.items()
                j = (m.bit_length() - 1) // W
                if m == 1 << (W * j) and j in self.rules and len(num) <= 3000:
                    q = self.pdivmod_exact(num, self.rules[j])
                    if q is not None:
                        num = self.pmul(q, {m: 1})
                        den[i] -= 1
                        while den[i] > 0:
                            q = self.pdivmod_exact(num, f)
                            if q is None:
                                break
                            num = q
                            den[i] -= 1
                        if den[i] == 0:
                            del den[i]
        return NF(num, tuple(sorted(den.items())))

    def nneg(self, a):
        if special(a):
            return {NAN: NAN, PINF: NINF, NINF: PINF}[a]
        return NF(pneg(a.num), a.den)

    def nsub(self, a, b):
        return self.nadd(a, self.nneg(b))

    def nmul(self, a, b):
        if special(a) or special(b):
            if a == NAN or b == NAN:
                return NAN
            sa, sb = self.nsign(a), self.nsign(b)
            if sa * sb == 0:
                return NAN
            return PINF if sa * sb > 0 else NINF
        if not a.num or not b.num:
            return NF({})
        den = {}
        na, nb = a.num, b.num
        if a.den or b.den:
            # cross-cancel
            da, db = dict(a.den), dict(b.den)
            for (dd, which) in ((db, 0), (da, 1)):
                for i in list(dd):
                    f = self.plist[i]
                    n = na if which == 0 else nb
                    while dd.get(i, 0) > 0 and len(n) <= 2000:
                        q = self.pdivmod_exact(n, f)
                        if q is None:
                            break
                        n = q
                        dd[i] -= 1
                    if dd[i] == 0:
                        del dd[i]
                    if which == 0:
                        na = n
                    else:
                        nb = n
            den = da
            for i, e in db.items():
                den[i] = den.get(i, 0) + e
        num = self.pmul(na, nb)
        if len(num) > self.max_poly:
            raise Unsupported("polynomial blow-up")
        if den:
            return self.cancel(num, den)
        return NF(num)

    def factor(self, p):
        """partial factorisation: returns (scalar, {pid: exp}); memoised so that re-execution is deterministic"""
        k = frozenset(p.items())
        r = self.fmemo.get(k)
        if r is None:
            r = self.fmemo[k] = self._factor(p)
        return r[0], dict(r[1])

    def _factor(self, p):
        out = {}
        sc = Fraction(1)
        g = self.monogcd(p)
        if g:
            p = {m - g: c for m, c in p.items()}
            i = 0
            x = g
            while x:
                e = x & FIELD
                if e:
                    k, _ = self.pid(self.mono(self.atoms[i]))
                    out[k] = out.get(k, 0) + e
                x >>= W
                i += 1
        if len(p) > 1 and len(p) < 1500:
            changed = True
            while changed and len(p) > 1:
                changed = False
                for kp in self.known:
                    if len(kp) > len(p) * 2 + 4 or len(kp) < 2:
                        continue
                    q = self.pdivmod_exact(p, kp)
                    if q is not None:
                        k, s = self.pid(kp)
                        sc *= s
                        out[k] = out.get(k, 0) + 1
                        p = q
                        changed = True
                        break
        if len(p) > 1 and len(p) < 400:
            s = self.poly_sqrt(p)
            if s is not None:
                c, r = s
                k, s1 = self.pid(r)
                sc *= c * s1 * s1
                out[k] = out.get(k, 0) + 2
                return norm_c(sc), out
        if len(p) == 1 and 0 in p:
            sc *= p[0]
        else:
            k, s = self.pid(p)
            sc *= s
            out[k] = out.get(k, 0) + 1
        return norm_c(sc), out

    def poly_sqrt(self, p):
        """p = c * r^2 with c rational constant, r poly; or None"""
        lm = max(p)
        if lm & self.odd_mask:
            return None
        # c so that leading coefficient is 1
        c = p[lm]
        inv = Fraction(1) / c
        rem = {k: norm_c(v * inv) for k, v in p.items()}
        lead = self._halfmono(lm)
        if lead is None:
            return None
        r = {lead: 1}
        rem = padd(rem, {lm: -1})
        steps = 0
        g = self.guard
        while rem:
            m = max(rem)
            t = (m | g) - lead
            if t & g != g:
                return None
            q = t & ~g
            if q >= lead:
                return None
            cc = norm_c(Fraction(rem[m]) / 2)
            # rem -= 2*cc*q*r + cc^2 q^2
            sub = {}
            for k, v in r.items():
                sub[k + q] = sub.get(k + q, 0) - 2 * cc * v
            sub[q + q] = sub.get(q + q, 0) - cc * cc
            rem = padd(rem, {k: norm_c(v) for k, v in sub.items() if v})
            r[q] = cc
            steps += 1
            if steps > len(p) + 2:
                return None
        return norm_c(Fraction(c)), r

    def _halfmono(self, m):
        r = 0
        i = 0
        while m:
            e = m & FIELD
            if e & 1:
                return None
            r |= (e // 2) << (W * i)
            m >>= W
            i += 1
        return r

    def ninv(self, a):
        """1/a, a known nonzero"""
        sc, fac = self.factor(a.num)
        num = {0: norm_c(Fraction(1) / sc)}
        for i, e in a.den:
            num = self.pmul(num, self.ppow(self.plist[i], e))
        # constant atoms: rationalise s2,s3,q3
        den = {}
        for i, e in fac.items():
            f = self.plist[i]
            done = False
            if len(f) == 1:
                (m, c), = f.items()
                j = (m.bit_length() - 1) // W
                if j in (self.s2.i, self.s3.i):
                    n2 = self.rules[j][0]
                    for _ in range(e):
                        num = pscale(self.pmul(num, {m: 1}), Fraction(1, n2))
                    done = True
            if not done:
                # canonical leading monomial: free of sqrt2, sqrt3
                for at in (self.s2, self.s3):
                    if len(f) > 1 and (max(f) >> (W * at.i)) & FIELD:
                        r = self.mono(at)
                        i, sc2 = self.pid(self.pmul(f, r))
                        f = self.plist[i]
                        num = pscale(self.pmul(num, self.ppow(r, e)), Fraction(1) / Fraction(sc2) ** e)
                den[i] = den.get(i, 0) + e
        if not den:
            return NF(num)
        return self.cancel(num, den)

    def ndiv(self, a, b):
        if special(b):
            if b == NAN or special(a):
                return NAN
            return NF({})
        s = self.nonzero(b)
        if not s:
            if special(a):
                return a  # inf/0 = inf (sign of zero ignored), nan/0 nan
            sa = self.nsign(a)
            return NAN if sa == 0 else (PINF if sa > 0 else NINF)
        if special(a):
            return self.nmul(a, self.nconst(self.nsign(b)))
        return self.nmul(a, self.ninv(b))

    # -- signs -------------------------------------------------------------------
    def quick_signs(self, p):
        """set of possible signs by syntactic/interval reasoning"""
        if not p:
            return frozenset((0,))
        if all(m & ~self.const_bits == 0 for m in p):
            v = mpmath.mpf(0)
            for m, c in p.items():
                t = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
                i = 0
                while m:
                    e = m & FIELD
                    if e:
                        t *= self.atoms[i].data ** e
                    m >>= W
                    i += 1
                v += t
            if abs(v) < mpmath.mpf(10) ** -40:
                return frozenset((0,))
            return frozenset((1 if v > 0 else -1,))
        pos = neg = False
        okk = True
        c0 = p.get(0, 0)
        for m, c in p.items():
            if (m & self.odd_mask) & ~self.nonneg_mask:
                # odd power of a possibly negative atom
                okk = False
                break
            if c > 0:
                pos = True
            else:
                neg = True
        if okk and not (pos and neg):
            if pos:
                return frozenset((1,)) if c0 > 0 else frozenset((0, 1))
            return frozenset((-1,)) if c0 < 0 else frozenset((0, -1))
        iv = self.interval(p)
        if iv is not None:
            lo, hi = iv
            s = set(ALL)
            if lo is not None:
                if lo > 0:
                    s -= {0, -1}
                elif lo >= 0:
                    s -= {-1}
            if hi is not None:
                if hi < 0:
                    s -= {0, 1}
                elif hi <= 0:
                    s -= {1}
            if len(s) < 3:
                return frozenset(s)
        if self.atom_group:
            s = self.sphere_signs(p)
            if s is not None:
                return s
        return ALL

    def form_bounds(self, p):
        return self.sphere_signs(p, True) if self.atom_group else None

    def sphere_signs(self, p, bounds=False):
        """sign set of a linear, quadratic or bilinear form in one or two unit vectors (groups), else None"""
        if len(p) > 40 or len(p) < 2:
            return None
        am = 0
        for m in p:
            am |= m
        am &= ~self.const_bits
        gs = []
        i = 0
        while am:
            if am & FIELD:
                g = self.atom_group.get(i)
                if g is None:
                    return None
                if g not in gs:
                    gs.append(g)
                    if len(gs) > 2:
                        return None
            am >>= W
            i += 1
        mp = mpmath.mpf
        c0 = mp(0)
        idx = {}
        for k, g in enumerate(gs):
            for r, i in enumerate(self.group_atoms[g]):
                idx[i] = (k, r)
        lin, quad, bil = {}, {}, {}
        for m, c in p.items():
            v = mp(Fraction(c).numerator) / Fraction(c).denominator
            at = []
            i = 0
            while m:
                e = m & FIELD
                if e:
                    if self.atoms[i].kind == "const":
                        v *= self.atoms[i].data ** e
                    else:
                        at += [i] * e
                        if len(at) > 2:
                            return None
                m >>= W
                i += 1
            if not at:
                c0 += v
            elif len(at) == 1:
                lin[at[0]] = lin.get(at[0], 0) + v
            else:
                x, y = idx[at[0]], idx[at[1]]
                if x[0] == y[0]:
                    quad[(x, y)] = quad.get((x, y), 0) + v
                else:
                    if x[0] > y[0]:
                        x, y = y, x
                    bil[(x[1], y[1])] = bil.get((x[1], y[1]), 0) + v
        if lin and not quad and not bil and len(gs) == 1:
            b = mpmath.sqrt(sum(v * v for v in lin.values()))
            lo, hi = c0 - b, c0 + b
        elif quad and not lin and not bil and len(gs) == 1:
            n = len(self.group_atoms[gs[0]])
            M = mpmath.zeros(n)
            for (x, y), v in quad.items():
                M[x[1], y[1]] += v / 2
                M[y[1], x[1]] += v / 2
            ev = mpmath.eigsy(M, eigvals_only=True)
            ev = [ev[k] for k in range(n)]
            lo, hi = c0 + min(ev), c0 + max(ev)
        elif bil and not lin and not quad and len(gs) == 2:
            n1, n2 = len(self.group_atoms[gs[0]]), len(self.group_atoms[gs[1]])
            M = mpmath.zeros(n1, n2)
            for (x, y), v in bil.items():
                M[x, y] += v
            ev = mpmath.eigsy(M.T * M, eigvals_only=True)
            b = mpmath.sqrt(max(abs(ev[k]) for k in range(n2)))
            lo, hi = c0 - b, c0 + b
        else:
            return None
        if bounds:
            q = lambda x: Fraction(str(mpmath.nstr(x, 30)))
            return q(lo) - Fraction(1, 10 ** 25), q(hi) + Fraction(1, 10 ** 25)
        e = mp(10) ** -20
        s = set(ALL)
        if lo > -e:
            s.discard(-1)
            if lo > e:
                s.discard(0)
        if hi < e:
            s.discard(1)
            if hi < -e:
                s.discard(0)
        return frozenset(s)

    def interval(self, p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            tl = th = Fraction(1)
            i = 0
            while m:
                e = m & FIELD
                if e:
                    a = self.atoms[i]
                    al, ah = a.lo, a.hi
                    if e % 2 == 0:
                        if al is None or ah is None:
                            el, eh = Fraction(0), None
                            if al is not None and al > 0:
                                el = al ** e
                        elif al >= 0:
                            el, eh = al ** e, ah ** e
                        elif ah <= 0:
                            el, eh = ah ** e, al ** e
                        else:
                            el, eh = Fraction(0), max(-al, ah) ** e
                    else:
                        el = None if al is None else al ** e
                        eh = None if ah is None else ah ** e
                    tl, th = _imul(tl, th, el, eh)
                    if tl is None and th is None:
                        return None
                m >>= W
                i += 1
            if c > 0:
                tl, th = (None if tl is None else tl * c), (None if th is None else th * c)
            else:
                tl, th = (None if th is None else th * c), (None if tl is None else tl * c)
            lo = None if lo is None or tl is None else lo + tl
            hi = None if hi is None or th is None else hi + th
            if lo is None and hi is None:
                return None
        return lo, hi

    def psigns(self, p):
        """possible signs of polynomial p on the current path, without the solver"""
        if not p:
            return frozenset((0,))
        i, sc = self.pid(p)
        s = self.path.signs.get(i)
        if s is None:
            s = self.base_signs.get(i)
            q = self.qmemo.get(i)
            if q is None:
                q = self.qmemo[i] = self.quick_signs(self.plist[i])
            s = q if s is None else (s & q)
            self.path.signs[i] = s
        if sc < 0:
            s = frozenset(-x for x in s)
        return s

    def psign_decide(self, p, groups):
        """decide which group (list of frozensets partitioning signs) p's sign falls in"""
        s = self.psigns(p)
        opts = [k for k, g in enumerate(groups) if g & s]
        if len(opts) == 1:
            return opts[0]
        if not opts:
            raise Infeasible()
        i, sc = self.pid(p)
        fl = (lambda g: g) if sc > 0 else (lambda g: frozenset(-x for x in g))
        # atom product? signs of factors may already be known
        k = self.fork([("s", i, fl(groups[o] & s)) for o in opts])
        return opts[k]

    def fork(self, alts):
        """alts: list of constraints; returns chosen index, recording on path"""
        path = self.path
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("deadline")
        feas = []
        for k, a in enumerate(alts):
            if k == len(alts) - 1 and not feas:
                feas.append(k)  # path itself assumed feasible
                break
            r = self.solver.feasible(self, [a])
            if r != "unsat":
                feas.append(k)
        k = feas[0]
        if len(feas) > 1:
            self.stats.splits += 1
            for o in feas[1:]:
                path.pending.append(list(path.taken) + [alts[o]])
            path.taken.append(alts[k])
            if path.shared is not None:
                key = frozenset(path.taken)
                st = path.shared.get(key)
                if st is None:
                    st = path.shared[key] = (dict(path.signs), dict(path.bools), dict(path.memo), dict(path.bmemo), list(path.lits))
                    path.signs, path.bools, path.memo, path.bmemo, path.lits = st
                    path.assume(alts[k])
                else:
                    path.signs, path.bools, path.memo, path.bmemo, path.lits = st
            else:
                path.assume(alts[k])
        else:
            # implied: no new information for the solver, only recorded as known
            for a in alts[k][1] if alts[k][0] == "c" else (alts[k],):
                if a[0] == "s":
                    old = path.signs.get(a[1])
                    path.signs[a[1]] = a[2] if old is None else (a[2] & old)
                else:
                    path.bools[a[1]] = a[2]
        return k

    def argbest(self, row, largest):
        """index of the first largest (smallest) of the terms, by one n-way fork; None when the entries do not fit"""
        if len(row) < 3:
            return None
        key = ("argbest", largest, tuple(t.id for t in row))
        r = self.path.memo.get(key)
        if r is not None:
            return r
        fs = []
        for t in row:
            ab = t.op == "abs"
            if ab and not largest:
                return None
            a = self.nf(t.args[0] if ab else t)
            if special(a) or a.den:
                return None
            fs.append((a.num, ab))
        alts, idx = [], []
        for i, (p, ab) in enumerate(fs):
            for s in ((1, -1) if ab else (1,)):
                x = p if s > 0 else pneg(p)
                lits = []
                ok = True
                want = [(x, {0, 1})] if ab else []
                for j, (q, abj) in enumerate(fs):
                    if j != i:
                        for u in ((1, -1) if abj else (1,)):
                            d = padd(x, pneg(q) if u > 0 else q)
                            want.append((d if largest else pneg(d), {1} if j < i else {0, 1}))
                for d, w in want:
                    if not d:
                        ok = ok and 0 in w
                        continue
                    w = frozenset(w)
                    have = self.psigns(d)
                    if not have & w:
                        ok = False
                        break
                    if have <= w:
                        continue
                    k, sc = self.pid(d)
                    lits.append(("s", k, w if sc > 0 else frozenset(-v for v in w)))
                if not ok:
                    continue
                if not lits:
                    # certainly the best one
                    alts, idx = [], [i]
                    break
                alts.append(("c", tuple(lits)))
                idx.append(i)
            else:
                continue
            break
        if not idx:
            raise Infeasible()
        k = self.fork(alts) if alts else 0
        self.path.memo[key] = idx[k]
        return idx[k]

    def add_group(self, names):
        """components of a unit vector"""
        if names in self.groups:
            return
        self.groups.append(names)
        g = len(self.group_atoms)
        self.group_atoms.append([self.var_atom(n).i for n in names])
        for i in self.group_atoms[g]:
            self.atom_group[i] = g
        if len(names) == 4:
            ats = [self.var_atom(n) for n in names[1:]]
            for j in range(3):
                for k in range(j):
                    q = padd(self.mono(ats[j], 2), self.mono(ats[k], 2))
                    self.known += [q, padd({0: 1}, pneg(q))]

    # -- assumptions ---------------------------------------------------------------
    def base_poly(self, p, signs):
        i, sc = self.pid(p)
        s = frozenset(signs) if sc > 0 else frozenset(-x for x in signs)
        old = self.base_signs.get(i)
        self.base_signs[i] = s if old is None else (old & s)
        l = ("s", i, s)
        if l not in self.base_set:
            self.base_set.add(l)
            self.base_lits.append(l)

    def base_nf(self, rel, atom, c):
        p = {k: norm_c(v) for k, v in {1 << (W * atom.i): 1, 0: -c}.items() if v}
        self.base_poly(p, {0, 1} if rel == "ge" else {0, -1})

    def assume(self, t):
        for x in self.conjuncts(t):
            neg = x.op == "not"
            y = x.args[0] if neg else x
            if y.op in ("lt", "le", "eq") and not y.hasite:
                a, b = self.nf(y.args[0]), self.nf(y.args[1])
                if not special(a) and not special(b):
                    d = self.nsub(a, b)
                    if y.op != "eq":
                        d = self.cmp_angles(d)
                    p = self.sgn_poly(d)
                    al = {"lt": {-1}, "le": {-1, 0}, "eq": {0}}[y.op]
                    if neg:
                        al = {-1, 0, 1} - al
                    s = self.psigns(p)
                    if not (s & al):
                        raise Infeasible()
                    if s <= al:
                        continue
                    i, sc = self.pid(p)
                    g = frozenset(al) if sc > 0 else frozenset(-v for v in al)
                    self.path.assume(("s", i, g & self.path.signs[i]))
                    continue
            if not self.truth(x):
                raise Infeasible()
        self.path.memo, self.path.bmemo = dict(self.path.memo), dict(self.path.bmemo)

    def concretise(self, t):
        """fork over the values of an integer term"""
        a = self.nf(t)
        iv = self.interval(a.num) if not a.den else None
        if (iv is None or iv[0] is None or iv[1] is None or iv[1] - iv[0] > 4096):
            # search outwards from zero, each step a solver decision
            ge = (lambda v: self.truth(tm.ge(t.args[0], tm.const(v, "R")))) if t.op == "floor" else (lambda v: self.truth(tm.ge(t, tm.const(v, t.sort))))
            lo, hi, s = (0, None, 1) if ge(0) else (None, 0, 1)
            while hi is None and s <= 4096:
                if ge(lo + s):
                    lo, s = lo + s, 2 * s
                else:
                    hi = lo + s
            while lo is None and s <= 4096:
                if ge(hi - s):
                    lo = hi - s
                else:
                    hi, s = hi - s, 2 * s
            if lo is not None and hi is not None:
                while hi - lo > 1:
                    m = (lo + hi) // 2
                    if ge(m):
                        lo = m
                    else:
                        hi = m
                return lo
        if iv is None or iv[0] is None or iv[1] is None or iv[1] - iv[0] > 4096:
            raise Unsupported("unbounded integer value needed: " + tm.show(t)[:160])
        lo, hi = -((-iv[0]) // 1), iv[1] // 1
        lo, hi = int(lo), int(hi)
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if self.truth(tm.ge(t, tm.const(mid, "I"))):
                lo = mid
            else:
                hi = mid - 1
        return lo

    def sgn_poly(self, a):
        """polynomial with the same sign as NF a"""
        p = a.num
        for i, e in a.den:
            if e % 2:
                f = self.plist[i]
                s = self.psigns(f)
                if 0 in s:
                    s = s - {0}  # denominators are nonzero on this path
                if s == {1}:
                    continue
                if s == {-1}:
                    p = pneg(p)
                    continue
                p = self.pmul(p, f)
        return self.strip(p)

    def strip(self, p):
        """drop factors of known sign (monomial factors)"""
        if not p:
            return p
        g = self.monogcd(p)
        if g:
            keep = 0
            i = 0
            x = g
            flip = 1
            drop = 0
            while x:
                e = x & FIELD
                if e:
                    s = self.psigns(self.mono(self.atoms[i]))
                    if 0 not in s:
                        if e % 2 == 0 or s == {1}:
                            drop |= e << (W * i)
                        elif s == {-1}:
                            drop |= e << (W * i)
                            flip = -flip
                        elif e > 2:
                            drop |= (e - 1) // 2 * 2 << (W * i)
                x >>= W
                i += 1
            if drop:
                p = {m - drop: (c if flip > 0 else -c) for m, c in p.items()}
        return p

    def nsign(self, a):
        if a == PINF:
            return 1
        if a == NINF:
            return -1
        p = self.sgn_poly(a)
        k = self.psign_decide(p, [frozenset((1,)), frozenset((-1,)), frozenset((0,))])
        return (1, -1, 0)[k]

    def nonneg(self, a):
        """decide a >= 0"""
        if special(a):
            return a == PINF
        return self.psign_decide(self.sgn_poly(a), [frozenset((0, 1)), frozenset((-1,))]) == 0

    def positive(self, a):
        if special(a):
            return a == PINF
        return self.psign_decide(self.sgn_poly(a), [frozenset((1,)), frozenset((0, -1))]) == 0

    def nonzero(self, a):
        if special(a):
            return True
        if not a.num:
            return False
        sc, fac = self.factor(a.num) if len(a.num) < 400 else (1, {self.pid(a.num)[0]: 1})
        for i in fac:
            if self.psign_decide(self.plist[i], [frozenset((1, -1)), frozenset((0,))]) != 0:
                return False
        return True

    # -- term -> NF ------------------------------------------------------------------
    def nf(self, t):
        memo = self.path.memo
        g = self.gmemo
        r = memo.get(t.id)
        if r is not None:
            return r
        r = g.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo or x.id in g:
                stack.pop()
                continue
            if x.op == "ite":
                c = self.truth(x.args[0])
                memo = self.path.memo
                br = x.args[1] if c else x.args[2]
                v = memo.get(br.id)
                if v is None:
                    v = g.get(br.id)
                if v is None:
                    stack.append(br)
                    continue
                memo[x.id] = v
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo and a.id not in g and a.sort != "B"]
            if todo:
                stack.extend(reversed(todo))
                continue
            args = [memo[a.id] if a.id in memo else g.get(a.id) for a in x.args]
            v = self.nfstep(x, args)
            memo = self.path.memo
            if x.total and not x.hasite and x.op in ("const", "var", "add", "mul", "neg", "toreal") and all(a.id in g for a in x.args):
                g[x.id] = v
            else:
                memo[x.id] = v
            stack.pop()
        r = memo.get(t.id)
        return r if r is not None else g[t.id]

    def nfstep(self, t, a):
        op = t.op
        if op == "const":
            return self.nconst(t.val)
        if op == "var":
            return NF(self.mono(self.var_atom(t.val, t.sort)))
        if op == "add":
            return self.nadd(a[0], a[1])
        if op == "neg":
            return self.nneg(a[0])
        if op == "mul":
            return self.nmul(a[0], a[1])
        if op == "toreal":
            return a[0]
        if op == "div":
            return self.ndiv(a[0], a[1])
        if op == "nan":
            return NAN
        if op == "inf":
            return PINF if t.val else NINF
        if op == "sqrt":
            return self.nsqrt(a[0])
        if op == "root":
            return self.nroot(a[0], t.val)
        if op == "abs":
            if special(a[0]):
                return NAN if a[0] == NAN else PINF
            return a[0] if self.nonneg(a[0]) else self.nneg(a[0])
        if op in ("sin", "cos"):
            if special(a[0]):
                return NAN
            return self.ntrig(op, a[0])
        if op in ("acos", "asin"):
            return self.nacos(op, a[0])
        if op == "atan2":
            return self.natan2(a[0], a[1])
        if op in ("exp", "log", "lgamma", "tanh"):
            return self.nfn(op, a[0])
        if op == "floor":
            return self.nfloor(a[0])
        if op in ("idiv", "imod"):
            return self.nint(op, a[0], a[1])
        if op == "maxn":
            return self.nmaxn(a)
        raise Unsupported("nf of " + op)

    def var_atom(self, name, sort="R"):
        a = self.akey.get(("var", name))
        if a is None:
            a = self.new_atom("var", name, None, sort)
            self.akey[("var", name)] = a
        return a

    # sqrt -------------------------------------------------------------------------
    def nsqrt(self, a):
        if special(a):
            return a if a == PINF else NAN
        if not a.num:
            return a
        if not self.nonneg(a):
            return NAN
        # sqrt(num/den) ; make den part: sqrt(n * prod den_odd) / |prod den^ceil|
        num = a.num
        outden = NF(PONE)
        for i, e in a.den:
            f = self.plist[i]
            if e % 2:
                num = self.pmul(num, f)
                e += 1
            x = NF(self.ppow(f, e // 2))
            if not self.nonneg(x):
                x = self.nneg(x)
            outden = self.nmul(outden, x)
        r = self.psqrt(num)
        if len(outden.num) == 1 and 0 in outden.num and outden.num[0] == 1:
            return r
        return self.nmul(r, self.ninv(outden))

    def psqrt(self, p):
        """sqrt of a polynomial known >= 0 on the path"""
        if not p:
            return NF({})
        sc, fac = self.factor(p)
        sc = Fraction(sc)
        if sc < 0:
            # fold the sign into some odd factor
            res = {}
            done = False
            neg = None
            for i, e in fac.items():
                if e % 2 and not done:
                    neg = i
                    done = True
            if neg is None:
                # -square >= 0  => zero
                return NF({})
        else:
            neg = None
        out = self.const_sqrt(abs(sc))
        rest = []
        for i, e in sorted(fac.items()):
            f = self.plist[i]
            if e >= 2:
                x = NF(self.ppow(f, e // 2))
                if not self.nonneg(x):
                    x = self.nneg(x)
                out = self.nmul(out, x)
            if e % 2:
                f2 = pneg(f) if i == neg else f
                rest.append(f2)
        # (1 - cos)(1 + cos) and the like: the square of a rule atom in two factors
        again = 1 < len(rest) <= 8
        while again:
            again = False
            for i in range(len(rest)):
                for j in range(i):
                    if len(rest[i]) > 3 or len(rest[j]) > 3:
                        continue
                    p = self.pmul(rest[i], rest[j])
                    hit = self.rule_square(p)
                    if hit[0] is None:
                        continue
                    x = NF(self.mono(self.atoms[hit[0]]))
                    if not self.nonneg(x):
                        x = self.nneg(x)
                    out = self.nmul(out, self.nmul(self.const_sqrt(hit[1]), x))
                    rest = [f for k, f in enumerate(rest) if k not in (i, j)]
                    again = len(rest) > 1
                    break
                else:
                    continue
                break
        # each remaining factor: if it is known >= 0 take its root separately
        joint = []
        for f in rest:
            if len(rest) == 1 or self.psigns(f) <= {0, 1}:
                out = self.nmul(out, self.sqrt_atom(f))
            else:
                joint.append(f)
        if joint:
            # decide the sign of each one; overall product is >= 0
            for f in joint:
                nn = self.psign_decide(f, [frozenset((0, 1)), frozenset((-1,))]) == 0
                out = self.nmul(out, self.sqrt_atom(f if nn else pneg(f)))
        return out

    def const_sqrt(self, q):
        q = Fraction(q)
        c = tm.const_sqrt(tm.crat(q)) if q else tm.crat(0)
        if c is not None:
            return self.nconst(c)
        n = q.numerator * q.denominator
        # squarefree part
        sq, sf = 1, n
        d = 2
        while d * d <= sf and d < 2000:
            while sf % (d * d) == 0:
                sf //= d * d
                sq *= d
            d += 1
        k = ("csqrt", sf)
        a = self.akey.get(k)
        if a is None:
            v = mpmath.sqrt(sf)
            a = self.const_atom(f"sqrt{sf}", v)
            self.akey[k] = a
            self.const_bits |= FIELD << (W * a.i)
            self.add_rule(a, {0: sf})
        return NF(pscale(self.mono(a), Fraction(sq, q.denominator)))

    def rule_square(self, p):
        """is p a positive multiple of the square of a rule atom: (atom, multiple)"""
        fk = frozenset(p.items())
        hit = self.smemo.get(fk)
        if hit is None:
            hit = (None, None)
            for j, rp in self.rules.items():
                if self.atoms[j].kind == "const" and len(rp) == 1 and 0 in rp:
                    continue
                if len(rp) == len(p):
                    mx = max(rp)
                    if mx in p:
                        c = Fraction(p[mx]) / rp[mx]
                        if c > 0 and all(rp.get(m) is not None and rp[m] * c == v for m, v in p.items()):
                            hit = (j, c)
                            break
            self.smemo[fk] = hit
        return hit

    def sqrt_atom(self, p):
        """root of polynomial p (p>=0 known); simplification through rule atoms"""
        if all(m & ~self.const_bits == 0 for m in p):
            if len(p) == 1:
                (m, c), = p.items()
                if m == 0:
                    return self.const_sqrt(c)
        hit = self.rule_square(p)
        if hit[0] is not None:
            j, c = hit
            x = NF(self.mono(self.atoms[j]))
            if not self.nonneg(x):
                x = self.nneg(x)
            return self.nmul(self.const_sqrt(c), x)
        # make primitive
        lead = Fraction(abs(p[max(p)]))
        if lead != 1:
            c = lead
            p = pscale(p, Fraction(1) / lead)
        else:
            c = Fraction(1)
        key = ("sqrt", frozenset(p.items()))
        a = self.akey.get(key)
        if a is None:
            a = self.new_atom("sqrt", f"sqrt{len(self.atoms)}", p, nonneg=True, lo=Fraction(0),
                              deps=[x.i for x in self.atoms_of_poly(p)])
            iv = self.interval(p)
            if iv is not None and iv[1] is not None:
                a.hi = max(Fraction(1), iv[1])
            cv = self.const_value(NF(p))
            if cv is not None and cv > 0:
                self.tighten(a, mpmath.sqrt(cv))
            self.akey[key] = a
            self.add_rule(a, p)
            if len(p) > 1 and not any(kp == p for kp in self.known):
                self.known.append(p)
        # sign of atom follows radicand
        s = self.psigns(p)
        i, _ = self.pid(self.mono(a))
        if i not in self.path.signs:
            self.path.signs[i] = frozenset(x for x in (s & {0, 1}))
        r = NF(self.mono(a))
        if c != 1:
            r = self.nmul(self.const_sqrt(c), r)
        return r

    def root_known(self, p):
        """sqrt(p) needs no new atom"""
        sc, fac = self.factor(p)
        for i, e in fac.items():
            if e % 2:
                f = self.plist[i]
                if not any(len(rp) == len(f) and max(rp) in f and all(m in f and f[m] * rp[max(rp)] == v * f[max(rp)] for m, v in rp.items())
                           for rp in self.rules.values()):
                    return False
        return True

    def nroot(self, a, k):
        if special(a):
            return a if a == PINF else NAN
        if not a.num:
            return a
        if not self.nonneg(a):
            return NAN
        key = ("root", k, a.key())
        at = self.akey.get(key)
        if at is None:
            at = self.new_atom("root", f"root{k}_{len(self.atoms)}", (a, k), nonneg=True, lo=Fraction(0),
                               deps=self.nf_deps(a))
            self.akey[key] = at
        s = self.psigns(self.sgn_poly(a)) & {0, 1}
        i, _ = self.pid(self.mono(at))
        if i not in self.path.signs:
            self.path.signs[i] = frozenset(s)
        return NF(self.mono(at))

    def nf_deps(self, a):
        if special(a):
            return set()
        s = {x.i for x in self.atoms_of_poly(a.num)}
        for i, _ in a.den:
            s |= {x.i for x in self.atoms_of_poly(self.plist[i])}
        return s

    # trigonometry --------------------------------------------------------------------
    def lin_angle(self, a):
        """write NF as r*pi + sum coef * angle-monomial;  returns (r, [(mono_key, coef)])"""
        if a.den:
            return None
        r = Fraction(0)
        lin = []
        for m, c in a.num.items():
            if m == 1 << (W * self.pi.i):
                r += c
            else:
                lin.append((m, Fraction(c)))
        lin.sort()
        return r, lin

    def ntrig(self, op, a):
        l = self.lin_angle(a)
        if l is None:
            # opaque angle
            key = ("angnf", a.key())
            at = self.akey.get(key)
            if at is None:
                at = self.new_atom("angnf", f"angnf{len(self.atoms)}", a, deps=self.nf_deps(a))
                self.akey[key] = at
            l = (Fraction(0), [(1 << (W * at.i), Fraction(1))])
        r, lin = l
        c, s = self.nconst_trig(r)
        for m, q in lin:
            c2, s2 = self.trig_multiple(m, q)
            c, s = (self.nsub(self.nmul(c, c2), self.nmul(s, s2)), self.nadd(self.nmul(s, c2), self.nmul(c, s2)))
        return c if op == "cos" else s

    def nconst_trig(self, r):
        c = tm.exact_trig("cos", r)
        s = tm.exact_trig("sin", r)
        if c is not None:
            return self.nconst(c), self.nconst(s)
        # generic rational multiple of pi: constant atoms with rule
        r = r % 2
        sg = 1
        if r > 1:
            r = 2 - r
            sg = -1
        key = ("ctrig", r)
        got = self.akey.get(key)
        if got is None:
            cv = mpmath.cos(mpmath.pi * r.numerator / r.denominator)
            sv = mpmath.sin(mpmath.pi * r.numerator / r.denominator)
            f = Fraction(str(mpmath.nstr(cv, 40)))
            g = Fraction(str(mpmath.nstr(sv, 40)))
            eps = Fraction(1, 10 ** 35)
            ca = self.new_atom("ctrig", f"cos({r}pi)", cv, lo=f - eps, hi=f + eps, nonneg=cv > 0)
            sa = self.new_atom("ctrig", f"sin({r}pi)", sv, lo=g - eps, hi=g + eps, nonneg=True)
            self.add_rule(sa, padd({0: 1}, pneg(self.mono(ca, 2))))
            got = (ca, sa)
            self.akey[key] = got
        return NF(self.mono(got[0])), NF(pscale(self.mono(got[1]), sg))

    def trig_multiple(self, m, q):
        """cos,sin of q * (monomial m)"""
        j = (m.bit_length() - 1) // W
        at = self.atoms[j]
        if m == 1 << (W * j) and at.kind in ("atan2", "acos"):
            den = q.denominator
            n = q.numerator
            if den == 1:
                c, s = at.data["cs"]
            elif den == 2:
                c, s = self.half_cs(at)
            else:
                c, s = self.base_trig(m, den)
            return self.cheb(c, s, n)
        D = self.angle_den.get(m)
        if D is None:
            D = 2
            if m == 1 << (W * j):
                D = self.var_angle_den.get(at.name, 2)
            self.angle_den[m] = D
        if (q * D).denominator == 1:
            c, s = self.base_trig(m, D)
            return self.cheb(c, s, int(q * D))
        c, s = self.base_trig(m, q.denominator)
        return self.cheb(c, s, q.numerator)

    def base_trig(self, m, D):
        key = ("trig", m, D)
        got = self.akey.get(key)
        if got is None:
            nm = self.mono_name(m)
            deps = []
            ca = self.new_atom("cos", f"cos({nm}/{D})", (m, D), lo=Fraction(-1), hi=Fraction(1))
            sa = self.new_atom("sin", f"sin({nm}/{D})", (m, D, ca), lo=Fraction(-1), hi=Fraction(1))
            self.add_rule(sa, padd({0: 1}, pneg(self.mono(ca, 2))))
            self.known.append(padd({0: 1}, self.mono(ca)))
            self.known.append(padd({0: 1}, pneg(self.mono(ca))))
            got = (NF(self.mono(ca)), NF(self.mono(sa)))
            self.akey[key] = got
            self.trig_signs(m, D, ca, sa)
        return got

    def trig_signs(self, m, D, ca, sa):
        """sign facts from the declared range of the angle"""
        iv = self.interval({m: 1})
        if iv is None or iv[0] is None or iv[1] is None:
            return
        lo, hi = iv[0] / D, iv[1] / D
        PI = self.pi.data
        e = mpmath.mpf(10) ** -20
        flo, fhi = mpmath.mpf(lo.numerator) / lo.denominator, mpmath.mpf(hi.numerator) / hi.denominator
        def put(at, s, lo=None):
            i, _ = self.pid(self.mono(at))
            self.base_signs[i] = frozenset(s)
            if s <= {0, 1}:
                self.nonneg_mask |= FIELD << (W * at.i)
                at.nonneg = True
                at.lo = lo
        def rng(f, off):
            # range of f = cos(x - off) on [flo, fhi]
            v = [f(flo), f(fhi)]
            k = mpmath.ceil((flo - off) / PI)
            while off + k * PI <= fhi:
                v.append(mpmath.mpf(1 if int(k) % 2 == 0 else -1))
                k += 1
                if len(v) > 8:
                    return mpmath.mpf(-1), mpmath.mpf(1)
            return min(v), max(v)
        for at, f, off in ((ca, mpmath.cos, 0), (sa, mpmath.sin, PI / 2)):
            l, h = rng(f, off)
            lq = Fraction(str(mpmath.nstr(l, 25))) - Fraction(1, 10 ** 22)
            hq = Fraction(str(mpmath.nstr(h, 25))) + Fraction(1, 10 ** 22)
            at.lo, at.hi = max(at.lo, lq), min(at.hi, hq)
            if l > e:
                put(at, {1}, at.lo)
            elif l >= -e:
                put(at, {0, 1}, Fraction(0))
            elif h < -e:
                put(at, {-1})
            elif h <= e:
                put(at, {0, -1})

    def mono_name(self, m):
        out = []
        i = 0
        while m:
            e = m & FIELD
            if e:
                out.append(self.atoms[i].name + (f"^{e}" if e > 1 else ""))
            m >>= W
            i += 1
        return "*".join(out)

    def show_poly(self, p, n=12):
        it = sorted(p.items(), reverse=True)
        return " + ".join(f"{c}*{self.mono_name(m)}" if m else str(c) for m, c in it[:n]) + (f" +...({len(it)})" if len(it) > n else "")

    def show_path(self, extra=()):
        out = []
        for l in self.path.lits + list(extra):
            if l[0] == "s":
                out.append(f"  {self.show_poly(self.plist[l[1]])}  in {sorted(l[2])}")
            else:
                out.append("  " + str(l)[:200])
        used = set()
        for l in self.path.lits + list(extra):
            if l[0] == "s":
                used |= {a.i for a in self.atoms_of_poly(self.plist[l[1]])}
        for i in sorted(used):
            a = self.atoms[i]
            if a.kind not in ("var", "const"):
                d = self.show_poly(a.data) if isinstance(a.data, dict) and a.kind == "sqrt" else str(a.data)[:200]
                out.append(f"     {a.name}: {a.kind} {d}")
        return "\n".join(out)

    def cheb(self, c, s, n):
        if n == 0:
            return NF(PONE), NF({})
        sg = 1
        if n < 0:
            sg, n = -1, -n
        if n > 64:
            raise Unsupported("large angle multiple")
        rc, rs = c, s
        bc, bs = None, None
        k = n
        pc, ps = c, s
        rc = rs = None
        while k:
            if k & 1:
                if rc is None:
                    rc, rs = pc, ps
                else:
                    rc, rs = (self.nsub(self.nmul(rc, pc), self.nmul(rs, ps)), self.nadd(self.nmul(rs, pc), self.nmul(rc, ps)))
            k >>= 1
            if k:
                pc, ps = (self.nsub(self.nmul(pc, pc), self.nmul(ps, ps)), self.nmul(self.nconst(2), self.nmul(pc, ps)))
        return rc, (rs if sg > 0 else self.nneg(rs))

    def half_cs(self, at):
        if "half" in at.data:
            pass
        c, s = at.data["cs"]
        half = Fraction(1, 2)
        # cos(a/2) = sqrt((1+c)/2) >= 0 as a in (-pi, pi] (or [0,pi])
        ch = self.nsqrt(self.nmul(self.nconst(half), self.nadd(self.nconst(1), c)))
        sh = self.nsqrt(self.nmul(self.nconst(half), self.nsub(self.nconst(1), c)))
        if not self.nonneg(s):
            sh = self.nneg(sh)
        return ch, sh

    def const_value(self, u):
        """numeric value of an NF in constants only, else None"""
        if special(u):
            return None
        cb = self.const_bits
        for i in self.tight:
            cb |= FIELD << (W * i)

        def ev(p):
            v = mpmath.mpf(0)
            for m, c in p.items():
                if m & ~cb:
                    return None
                c = Fraction(c)
                t_ = mpmath.mpf(c.numerator) / c.denominator
                i = 0
                while m:
                    x = m & FIELD
                    if x:
                        t_ *= (self.tight[i] if i in self.tight else self.atoms[i].data) ** x
                    m >>= W
                    i += 1
                v += t_
            return v
        v = ev(u.num)
        if v is None:
            return None
        for i, k in u.den:
            d = ev(self.plist[i])
            if d is None:
                return None
            v /= d ** k
        return v

    def tighten(self, at, v):
        """an atom with a constant value"""
        self.tight[at.i] = v
        f = Fraction(str(mpmath.nstr(v, 40)))
        at.lo, at.hi = f - Fraction(1, 10 ** 30), f + Fraction(1, 10 ** 30)

    def nacos(self, op, u):
        if special(u):
            return NAN
        one = self.nconst(1)
        if not self.nonneg(self.nsub(one, u)) or not self.nonneg(self.nadd(one, u)):
            return NAN
        if op == "asin":
            return self.nsub(NF(pscale(self.mono(self.pi), Fraction(1, 2))), self.nacos("acos", u))
        cv = self.const_value(u)
        if cv is not None:
            r = mpmath.acos(min(max(cv, -1), 1)) / mpmath.pi
            q = Fraction(float(r)).limit_denominator(24)
            if abs(mpmath.mpf(q.numerator) / q.denominator - r) < mpmath.mpf(10) ** -25:
                return NF(pscale(self.mono(self.pi), q)) if q else NF({})
        # canonical sign: acos(-u) = pi - acos(u)
        lead = u.num[max(u.num)] if u.num else 0
        if lead < 0:
            return self.nsub(NF(self.mono(self.pi)), self.nacos("acos", self.nneg(u)))
        if not u.num:
            return NF(pscale(self.mono(self.pi), Fraction(1, 2)))
        # acos(cos(base)) with base range [0,pi]
        if not u.den and len(u.num) == 1:
            (m, c), = u.num.items()
            j = (m.bit_length() - 1) // W
            if c == 1 and m == 1 << (W * j) and self.atoms[j].kind == "cos":
                mm, D = self.atoms[j].data
                iv = self.interval({mm: 1})
                if iv and iv[0] is not None and iv[0] >= 0 and iv[1] is not None and iv[1] / D <= self.pi.hi:
                    return NF({mm: norm_c(Fraction(1, D))})
        at = self.double_cos(u)
        if at is not None:
            mm, D = at.data
            iv = self.interval({mm: 1})
            if iv and iv[0] is not None and iv[0] >= 0 and iv[1] is not None and 2 * iv[1] / D <= self.pi.hi:
                return NF({mm: norm_c(Fraction(2, D))})
        key = ("acos", u.key())
        at = self.akey.get(key)
        if at is None:
            at = self.new_atom("acos", f"acos{len(self.atoms)}", {"u": u}, lo=Fraction(0), hi=self.pi.hi, nonneg=True,
                               deps=self.nf_deps(u))
            self.akey[key] = at
            if cv is not None:
                self.tighten(at, mpmath.acos(min(max(cv, -1), 1)))
        w = self.nsub(one, self.nmul(u, u))
        if len(u.num) > 2 and w.num and not self.root_known(w.num):
            s = self.nmul(self.nsqrt(self.nsub(one, u)), self.nsqrt(self.nadd(one, u)))
        else:
            s = self.nsqrt(w)
        at.data["cs"] = (u, s)
        # zero iff u == 1
        sg = self.psigns(self.sgn_poly(self.nsub(one, u))) if self.nsub(one, u).num else frozenset((0,))
        i, _ = self.pid(self.mono(at))
        if i not in self.path.signs:
            self.path.signs[i] = frozenset(sg & {0, 1})
        # theta >= sin theta cos theta, theta >= sin theta, with equality only at 0
        if cv is None and not special(s) and len(s.num) <= 20:
            th = NF(self.mono(at))
            for x in (self.nmul(u, s), s):
                d = self.nsub(th, x)
                if d.num and all(e % 2 == 0 or self.psigns(self.plist[j]) <= {1, 0} for j, e in d.den):
                    i, sc = self.pid(self.strip(d.num))
                    if i not in self.path.signs and i not in self.base_signs:
                        self.path.signs[i] = frozenset((1 if sc > 0 else -1,)) if 0 not in self.path.signs.get(self.pid(self.mono(at))[0], {0}) \
                            else frozenset((0, 1 if sc > 0 else -1))
        return NF(self.mono(at))

    def natan2(self, y, x):
        if special(y) or special(x):
            return NAN
        pi = NF(self.mono(self.pi))
        if not y.num:
            return NF({}) if self.nonneg(x) else pi
        # pull common positive structure: rho
        rho2 = self.nadd(self.nmul(x, x), self.nmul(y, y))
        if not self.nonzero(rho2):
            return NF({})
        rho = self.nsqrt(rho2)
        ir = self.ninv(rho)
        c, s = self.nmul(x, ir), self.nmul(y, ir)
        return self.angle_of(c, s)

    def double_cos(self, u):
        """the atom C = cos(x/D) if u is 2 C^2 - 1"""
        if u.den or len(u.num) != 2 or u.num.get(0) != -1:
            return None
        m = max(u.num)
        j = ((m.bit_length() - 1) // W)
        if m == 2 << (W * j) and u.num[m] == 2 and self.atoms[j].kind == "cos":
            return self.atoms[j]
        return None

    def angle_of(self, c, s):
        """the angle in (-pi,pi] with this cos, sin"""
        pi = NF(self.mono(self.pi))
        if not s.num:
            return NF({}) if self.nonneg(c) else pi
        if not c.num:
            sg = self.nsign(s)
            return NF(pscale(self.mono(self.pi), Fraction(sg, 2)))
        # multiples of 30 and 45 degrees
        c2 = self.nmul(c, c)
        if not c2.den and set(c2.num) == {0}:
            base = {Fraction(1, 4): Fraction(1, 3), Fraction(1, 2): Fraction(1, 4), Fraction(3, 4): Fraction(1, 6)}.get(Fraction(c2.num[0]))
            if base is not None:
                a = base if self.nsign(c) > 0 else 1 - base
                return NF(pscale(self.mono(self.pi), norm_c(a * self.nsign(s))))
        # plain trig atoms with declared range
        if not c.den and not s.den and len(c.num) == 1 and len(s.num) == 1:
            (mc, cc), = c.num.items()
            (ms, cs_), = s.num.items()
            jc, js = (mc.bit_length() - 1) // W, (ms.bit_length() - 1) // W
            ac, as_ = self.atoms[jc], self.atoms[js]
            if ac.kind == "cos" and as_.kind == "sin" and ac.data == as_.data[:2] and mc == 1 << (W * jc) and ms == 1 << (W * js) and cc == 1 and abs(cs_) == 1:
                m, D = ac.data
                iv = self.interval({m: 1})
                if iv and iv[0] is not None and iv[1] is not None and iv[0] / D > -self.pi.lo and iv[1] / D <= self.pi.hi:
                    return NF({m: norm_c(Fraction(1, D) * cs_)})
        ac = self.double_cos(c)
        if ac is not None and not s.den and len(s.num) == 1:
            m, D = ac.data
            as_ = next((a for a in self.atoms if a.kind == "sin" and a.data[:2] == (m, D)), None)
            if as_ is not None:
                (ms, cs_), = s.num.items()
                iv = self.interval({m: 1})
                if ms == (1 << (W * ac.i)) + (1 << (W * as_.i)) and abs(cs_) == 2 and iv and iv[0] is not None and iv[1] is not None \
                        and 2 * iv[0] / D > -self.pi.lo and 2 * iv[1] / D <= self.pi.hi:
                    return NF({m: norm_c(Fraction(cs_, D))})
        key = ("atan2", c.key(), s.key())
        at = self.akey.get(key)
        if at is None:
            at = self.new_atom("atan2", f"atan2_{len(self.atoms)}", {"cs": (c, s)}, lo=-self.pi.hi, hi=self.pi.hi,
                               deps=self.nf_deps(c) | self.nf_deps(s))
            self.akey[key] = at
        # sign of the angle = sign of s, when s != 0
        sp = self.psigns(self.sgn_poly(s))
        i, _ = self.pid(self.mono(at))
        if i not in self.path.signs:
            if sp == {1}:
                self.path.signs[i] = frozenset((1,))
            elif sp == {-1}:
                self.path.signs[i] = frozenset((-1,))
            elif sp <= {0, 1}:
                self.path.signs[i] = frozenset((0, 1))
        return NF(self.mono(at))

    def nfn(self, op, a):
        if special(a):
            if op == "exp":
                return a if a == PINF else (NF({}) if a == NINF else NAN)
            if op == "log":
                return a if a == PINF else NAN
            return NAN
        if op == "log":
            s = self.nsign(a)
            if s == 0:
                return NINF
            if s < 0:
                return NAN
        if not a.num and op == "exp":
            return NF(PONE)
        if not a.num and op == "tanh":
            return a
        if op == "log" and not a.den and a.num == PONE:
            return NF({})
        if op == "log" and not a.den and set(a.num) == {0}:
            # logarithm of a number: 40 digits of it
            with mpmath.workdps(50):
                c = Fraction(a.num[0])
                v = mpmath.log(mpmath.mpf(c.numerator) / c.denominator)
                return NF({0: Fraction(int(mpmath.nint(v * 10 ** 40)), 10 ** 40)})
        if op == "exp" and not a.den and set(a.num) == {0}:
            # exponential of a number: 40 digits of it
            c = Fraction(a.num[0])
            if c < 0:
                return self.ninv(self.nfn("exp", NF({0: -c})))
            if c < 2000:
                with mpmath.workdps(50):
                    v = mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)
                    n = 40 - int(mpmath.log10(v))
                    if n > 0:
                        return NF({0: Fraction(int(mpmath.nint(v * mpmath.mpf(10) ** n)), 10 ** n)})
                    return NF({0: Fraction(int(mpmath.nint(v / mpmath.mpf(10) ** -n)) * 10 ** -n)})
        if op == "exp" and not a.den and len(a.num) == 1:
            (m, c), = a.num.items()
            j = (m.bit_length() - 1) // W
            if m == 1 << (W * j) and self.atoms[j].kind == "log" and c == 1:
                return self.atoms[j].data
        if op == "exp" and len(a.num) > 1 and not a.den:
            # exp(sum) = product of exps (canonical)
            r = NF(PONE)
            for m, c in sorted(a.num.items()):
                r = self.nmul(r, self.nfn("exp", NF({m: c})))
            return r
        if op == "exp":
            lead = a.num[max(a.num)]
            if lead < 0:
                return self.ninv(self.nfn("exp", self.nneg(a)))
        key = (op, a.key())
        at = self.akey.get(key)
        if at is None:
            lo = hi = None
            nn = False
            if op == "exp":
                lo, nn = Fraction(0), True
            if op == "tanh":
                lo, hi = Fraction(-1), Fraction(1)
            at = self.new_atom(op, f"{op}{len(self.atoms)}", a, lo=lo, hi=hi, nonneg=nn, deps=self.nf_deps(a))
            self.akey[key] = at
        if op == "exp":
            i, _ = self.pid(self.mono(at))
            self.base_signs[i] = frozenset((1,))
        return NF(self.mono(at))

    def nfloor(self, a):
        if special(a):
            raise Unsupported("floor of special")
        if not a.den and all(m & ~self.const_bits == 0 for m in a.num):
            iv = self.interval(a.num)
            if iv[0].__floor__() == iv[1].__floor__():
                return self.nconst(iv[0].__floor__())
        # integer part out
        key = ("floor", a.key())
        at = self.akey.get(key)
        if at is None:
            lo = hi = None
            if not a.den:
                iv = self.interval(a.num)
                if iv:
                    lo = None if iv[0] is None else Fraction(iv[0].__floor__())
                    hi = None if iv[1] is None else Fraction(iv[1].__floor__())
            at = self.new_atom("floor", f"floor{len(self.atoms)}", a, sort="I", lo=lo, hi=hi, nonneg=lo is not None and lo >= 0, deps=self.nf_deps(a))
            self.akey[key] = at
        if at.lo is not None and at.lo == at.hi:
            return self.nconst(at.lo)
        return NF(self.mono(at))

    def nint(self, op, a, b):
        key = ("idiv", a.key(), b.key())
        q = self.akey.get(key)
        if q is None:
            q = self.new_atom("idiv", f"idiv{len(self.atoms)}", (a, b), sort="I", deps=self.nf_deps(a) | self.nf_deps(b))
            self.akey[key] = q
        if op == "idiv":
            return NF(self.mono(q))
        return self.nsub(a, self.nmul(b, NF(self.mono(q))))

    def nmaxn(self, args):
        if any(special(x) for x in args):
            if any(x == NAN for x in args):
                return NAN
            if PINF in [x for x in args if special(x)]:
                return PINF
            args = [x for x in args if not special(x)]
        args = list({x.key(): x for x in args}.values())
        if len(args) == 1:
            return args[0]
        if len(args) <= 10 and not any(x.den for x in args):
            # entries another one is never below
            k = 0
            while k < len(args):
                if any(j != k and self.quick_signs(self.nsub(args[j], args[k]).num) <= {0, 1} for j in range(len(args))):
                    args = args[:k] + args[k + 1:]
                else:
                    k += 1
            if len(args) == 1:
                return args[0]
        key = ("maxn", frozenset(x.key() for x in args))
        at = self.akey.get(key)
        if at is None:
            deps = set()
            for x in args:
                deps |= self.nf_deps(x)
            at = self.new_atom("maxn", f"max{len(self.atoms)}", args, deps=deps)
            ivs = [self.interval(x.num) if not x.den else None for x in args]
            if all(v is not None for v in ivs):
                if all(v[1] is not None for v in ivs):
                    at.hi = max(v[1] for v in ivs)
            los = [v[0] for v in ivs if v is not None and v[0] is not None]
            if los:
                at.lo = max(los)
            if at.lo is not None and at.lo >= 0:
                at.nonneg = True
                self.nonneg_mask |= FIELD << (W * at.i)
            self.akey[key] = at
        return NF(self.mono(at))

    # -- booleans ----------------------------------------------------------------------
    def truth(self, t):
        bm = self.path.bmemo
        r = bm.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "bconst":
            return t.val
        if op == "not":
            r = not self.truth(t.args[0])
        elif op == "and":
            # iterative for deep conjunctions
            r = True
            for x in self.conjuncts(t):
                if not self.truth(x):
                    r = False
                    break
        elif op == "var":
            r = self.path.bools.get(t.id)
            if r is None:
                k = self.fork([("b", t.id, True), ("b", t.id, False)])
                r = k == 0
        elif op == "isnan":
            r = self.nf(t.args[0]) == NAN if True else None
        elif op == "isinf":
            r = self.nf(t.args[0]) in (PINF, NINF)
        elif op in ("lt", "le", "eq"):
            a, b = self.nf(t.args[0]), self.nf(t.args[1])
            r = self.cmp(op, a, b)
        else:
            raise Unsupported("truth of " + op)
        self.path.bmemo[t.id] = r
        return r

    def conjuncts(self, t):
        out, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if x.op == "and":
                st.extend(reversed(x.args))
            elif x.id not in seen:
                seen.add(x.id)
                out.append(x)
        return out

    def cmp(self, op, a, b):
        if special(a) or special(b):
            if a == NAN or b == NAN:
                return False
            va = {PINF: 1, NINF: -1}.get(a, 0) if special(a) else 0
            vb = {PINF: 1, NINF: -1}.get(b, 0) if special(b) else 0
            return {"lt": va < vb, "le": va <= vb, "eq": va == vb}[op]
        d = self.nsub(a, b)
        if op != "eq":
            r = self.cmp_tolerant(d if op == "lt" else self.nneg(d))
            if r is not None:
                return not r if op == "lt" else r
        if op == "eq":
            return not self.nonzero(self.cmp_angles(d))
        if op == "lt":
            return not self.nonneg(self.cmp_half(self.cmp_angles(d)))
        return self.nonneg(self.cmp_half(self.nneg(self.cmp_angles(d))))

    def cmp_half(self, d):
        """c * atan2(s, x) >= 0 in terms of the signs of s and x (only whether it is >= 0 is kept)"""
        if d.den or len(d.num) != 1:
            return d
        (m, c), = d.num.items()
        if not m:
            return d
        j = (m.bit_length() - 1) // W
        if m != 1 << (W * j) or self.atoms[j].kind != "atan2":
            return d
        x, s = self.atoms[j].data["cs"]
        if c > 0:
            return s
        g = self.nsign(s)
        if g:
            return self.nconst(-g)
        return self.nconst(0) if self.nonneg(x) else self.nconst(-1)

    def cmp_tolerant(self, d):
        """d >= 0 where d is an angle or a difference of angles plus a tiny constant k (a tolerance). Cosines and sines are 1-Lipschitz, so
        the outcome implies one of two overlapping polynomial conditions without k; None when d has another form"""
        k = d.num.get(0) if not d.den else None
        if k is None or abs(Fraction(k)) >= Fraction(1, 10 ** 9) or len(d.num) < 2:
            return None
        k = Fraction(k)
        d0 = NF({m: c for m, c in d.num.items() if m})
        cs = []
        for m, c in d0.num.items():
            j = (m.bit_length() - 1) // W
            if m == 1 << (W * j) and self.atoms[j].kind in ("acos", "atan2"):
                cs.append(abs(Fraction(c)))
            elif m != 1 << (W * self.pi.i):
                return None
        if len(cs) < 2:
            return None
        r = self.cmp_angles(d0)
        if r is d0:
            return None
        key = ("tol", d.key())
        b = self.path.memo.get(key)
        if b is not None:
            return b
        M = NF(self.nconst(abs(k) / min(cs)).num)
        p = self.sgn_poly(self.nadd(r, M) if k > 0 else r)
        n = self.sgn_poly(r if k > 0 else self.nsub(r, M))
        sp, sn = self.psigns(p), self.psigns(n)
        if not sp & {0, 1}:
            b = False
        elif not sn & {0, -1}:
            b = True
        else:
            def lit(q, s):
                i, sc = self.pid(q)
                return ("s", i, frozenset(s) if sc > 0 else frozenset(-v for v in s))
            b = self.fork([("c", (lit(p, {0, 1}), ("m", key, True))), ("c", (lit(n, {0, -1}), ("m", key, False)))]) == 0
        self.path.memo[key] = b
        return b

    def cmp_angles(self, d):
        """a single acos/atan2 atom against a constant, or two acos atoms: compare cosines.
        The result is >= 0 (== 0) exactly when d is."""
        if d.den:
            return d
        pm = 1 << (W * self.pi.i)
        pc, k = Fraction(d.num.get(pm, 0)), Fraction(d.num.get(0, 0))
        ats = []
        for m, c in d.num.items():
            if m == pm or m == 0:
                continue
            j = (m.bit_length() - 1) // W
            if m == 1 << (W * j) and self.atoms[j].kind in ("acos", "atan2"):
                ats.append((self.atoms[j], Fraction(c)))
            else:
                return d
        if len(ats) == 1:
            at, c = ats[0]
            # c*a + pc*pi + k >= 0  <=> a >= tau (c>0)
            sg = 1 if c > 0 else -1
            piv = self.pi.lo
            tau = (-pc * piv - k) / c
            thr = -pc / c if k == 0 else None
            one = self.nconst(1)
            if at.kind == "acos":
                if thr == 0 or (thr is None and tau <= 0):
                    return d if thr == 0 else self.nconst(sg)
                if thr is not None and thr > 1 or tau > self.pi.hi:
                    return self.nconst(-sg)
                if tau < 0:
                    return self.nconst(sg)
                cv = self.trig_const("cos", thr, tau)
                r = self.nsub(cv, at.data["u"])
                return r if sg > 0 else self.nneg(r)
            cc, ss = at.data["cs"]
            if thr == 0:
                return d
            if tau > self.pi.hi or (thr is not None and thr > 1):
                return self.nconst(-sg)
            if tau <= -self.pi.lo or (thr is not None and thr <= -1):
                return self.nconst(sg)
            if thr == 1:
                return d
            neg = not self.nonneg(ss)
            if tau > 0 and neg:
                return self.nconst(-sg)
            if tau < 0 and not neg:
                return self.nconst(sg)
            r = self.nsub(self.nmul(ss, self.trig_const("cos", thr, tau)), self.nmul(cc, self.trig_const("sin", thr, tau)))
            return r if sg > 0 else self.nneg(r)
        if len(ats) == 2 and pc == 0 and k == 0 and ats[0][1] == -ats[1][1] and ats[0][0].kind == ats[1][0].kind == "acos":
            (a, c), (b, _) = ats
            r = self.nsub(b.data["u"], a.data["u"])
            return r if c > 0 else self.nneg(r)
        return d

    def trig_const(self, fn, thr, tau):
        """cos/sin of thr*pi (exact when closed form) or of the number tau (to 40 digits)"""
        if thr is not None:
            v = tm.exact_trig(fn, thr)
            if v is not None:
                return self.nconst(v)
            tau = thr * self.pi.lo
        x = mpmath.mpf(tau.numerator) / tau.denominator
        return self.nconst(Fraction(str(mpmath.nstr(getattr(mpmath, fn)(x), 40))))


def _imul(al, ah, bl, bh):
    if al is not None and ah is not None and bl is not None and bh is not None:
        v = (al * bl, al * bh, ah * bl, ah * bh)
        return min(v), max(v)
    # one-sided: only nonneg * nonneg
    if al is not None and bl is not None and al >= 0 and bl >= 0:
        return al * bl, None
    if ah is not None and bl is not None and ah <= 0 and bl >= 0:
        return None, ah * bl
    if al is not None and bh is not None and al >= 0 and bh <= 0:
        return None, al * bh
    return None, None


def spec_add(a, b):
    if a == NAN or b == NAN:
        return NAN
    if special(a) and special(b):
        return a if a == b else NAN
    return a if special(a) else b

"""Hash-consed symbolic terms.  A term id (int) is what the shadow tensors hold."""
from fractions import Fraction
import math
import mpmath

mpmath.mp.dps = 60

# ---------------------------------------------------------------------------
# exact constants: polynomials in a few algebraic/transcendental symbols
# monomial = (pi, s2, s3, q3, sp) exponents; s2^2=2, s3^2=3, q3^2=s3, sp^2=pi
# value: dict monomial -> Fraction.  pi may have negative exponent.
# ---------------------------------------------------------------------------
MP = (mpmath.pi, mpmath.sqrt(2), mpmath.sqrt(3), mpmath.mpf(3) ** mpmath.mpf("0.25"), mpmath.sqrt(mpmath.pi))
ZERO_M = (0, 0, 0, 0, 0)


def cm_reduce(m, c):
    p, a, b, q, s = m
    if s >= 2 or s < 0:
        k = s // 2
        p += k
        s -= 2 * k
    if q >= 2 or q < 0:
        k = q // 2
        b += k
        q -= 2 * k
    if b >= 2 or b < 0:
        k = b // 2
        c = c * Fraction(3) ** k
        b -= 2 * k
    if a >= 2 or a < 0:
        k = a // 2
        c = c * Fraction(2) ** k
        a -= 2 * k
    return (p, a, b, q, s), c


class Const:
    __slots__ = ("d", "_f", "_h")

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v != 0}
        self._f = None
        self._h = hash(frozenset(self.d.items()))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Const) and self.d == o.d

    def is_rat(self):
        return not self.d or (len(self.d) == 1 and ZERO_M in self.d)

    def rat(self):
        return self.d.get(ZERO_M, Fraction(0))

    def mp(self):
        if self._f is None:
            t = mpmath.mpf(0)
            for m, c in self.d.items():
                x = mpmath.mpf(c.numerator) / c.denominator
                for b, e in zip(MP, m):
                    if e:
                        x *= b ** e
                t += x
            self._f = t
        return self._f

    def __float__(self):
        if self.is_rat():
            r = self.rat()
            return r.numerator / r.denominator
        return float(self.mp())

    def sgn(self):
        if not self.d:
            return 0
        if self.is_rat():
            return 1 if self.rat() > 0 else -1
        v = self.mp()
        if abs(v) < mpmath.mpf(10) ** -45:
            return 0
        return 1 if v > 0 else -1

    def add(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Const(d)

    def neg(self):
        return Const({k: -v for k, v in self.d.items()})

    def mul(self, o):
        d = {}
        for k, v in self.d.items():
            for k2, v2 in o.d.items():
                m, c = cm_reduce(tuple(x + y for x, y in zip(k, k2)), v * v2)
                d[m] = d.get(m, 0) + c
        return Const(d)

    def inv(self):
        """only monomials"""
        if len(self.d) != 1:
            return None
        (m, c), = self.d.items()
        m2, c2 = cm_reduce(tuple(-x for x in m), 1 / c)
        return Const({m2: c2})

    def __repr__(self):
        if self.is_rat():
            return str(self.rat())
        return "+".join(f"{c}*{m}" for m, c in self.d.items())


def crat(q):
    q = Fraction(q)
    return Const({ZERO_M: q} if q else {})


PI_C = Const({(1, 0, 0, 0, 0): Fraction(1)})

_RECOG = []
for p in range(-2, 4):
    for a in (0, 1):
        for b in (0, 1):
            for q in (0, 1):
                for s in (0, 1):
                    m = (p, a, b, q, s)
                    if m == ZERO_M:
                        continue
                    w = abs(p) + 2 * a + 2 * b + 3 * q + 3 * s
                    v = 1.0
                    x = mpmath.mpf(1)
                    for bb, e in zip(MP, m):
                        x *= bb ** e
                    _RECOG.append((w, m, float(x)))
_RECOG.sort()
_float_cache = {}


def const_of_float(x, rel=6e-16, single=False):
    """Idealise a double: short decimals/rationals and small multiples of pi^i*sqrt2^j*...
    are read as the number they approximate; everything else is the exact double."""
    key = (x, single)
    r = _float_cache.get(key)
    if r is not None:
        return r
    r = _const_of_float(x, 3e-8 if single else rel, single)
    _float_cache[key] = r
    return r


# cos and sin of the doubles nearest to multiples of pi/2
ROUNDED_ZERO = {abs(f(i * math.pi / 2)) for i in range(1, 9) for f in (math.cos, math.sin)}
ROUNDED_ZERO = {x for x in ROUNDED_ZERO if x < 1e-14}


def _const_of_float(x, rel, single):
    if x == 0:
        return crat(0)
    if x == int(x) and abs(x) < 1e15:
        return crat(int(x))
    if abs(x) in ROUNDED_ZERO:
        return crat(0)
    fx = Fraction(x)
    # short decimal in repr
    q = fx.limit_denominator(5040)
    if abs(float(q) - x) <= rel * abs(x) and abs(q.numerator) < 10 ** 6:
        return crat(q)
    ax = abs(x)
    if 1e-4 < ax < 1e4:
        for w, m, v in _RECOG:
            t = ax / v
            if t < 1e-4 or t > 1e4:
                continue
            q = Fraction(t).limit_denominator(64)
            if q == 0 or abs(q.numerator) > (36 if single else 400):
                continue
            if abs(float(q) - t) <= 1.5 * rel * t:
                if single and w > 2:
                    continue
                return Const({m: q if x > 0 else -q})
    s = repr(x)
    if not single and len(s.replace("-", "").replace(".", "").lstrip("0")) <= 12:
        return crat(Fraction(s))
    return crat(fx)


# ---------------------------------------------------------------------------
# terms
# ---------------------------------------------------------------------------
class Term:
    __slots__ = ("id", "op", "args", "val", "sort", "total", "hasite")

    def __repr__(self):
        return show(self)


T = []
_cons = {}


def reset():
    T.clear()
    _cons.clear()
    global TRUE, FALSE
    TRUE = mk("bconst", (), True, "B")
    FALSE = mk("bconst", (), False, "B")


PARTIAL = {"div", "sqrt", "acos", "asin", "log", "rpow", "uninit", "nan", "inf"}


def mk(op, args=(), val=None, sort="R"):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _cons.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
        t.total = op not in PARTIAL and all(a.total for a in args)
        t.hasite = op == "ite" or any(a.hasite for a in args)
        t.id = len(T)
        T.append(t)
        _cons[key] = t
    return t


def show(t, d=0):
    if t.op == "const":
        return repr(t.val)
    if t.op == "bconst":
        return str(t.val)
    if t.op == "var":
        return t.val
    if d > 6:
        return f"#{t.id}"
    return f"{t.op}({', '.join(show(a, d + 1) for a in t.args)}{'' if t.val is None else ';' + str(t.val)})"


def const(c, sort="R"):
    if not isinstance(c, Const):
        c = crat(c)
    return mk("const", (), c, sort)


def num(x, sort=None, single=False):
    """python number -> const term"""
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return const(crat(x), sort or "I")
    if isinstance(x, Fraction):
        return const(crat(x), sort or "R")
    x = float(x)
    if math.isnan(x):
        return mk("nan")
    if math.isinf(x):
        return mk("inf", (), x > 0)
    return const(const_of_float(x, single=single), sort or "R")


def var(name, sort="R"):
    return mk("var", (), name, sort)


def isc(t):
    return t.op == "const"


def _s(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def add(a, b):
    if isc(a) and isc(b):
        return const(a.val.add(b.val), _s(a, b))
    if isc(a) and not a.val.d and (b.sort == _s(a, b)):
        return b
    if isc(b) and not b.val.d and (a.sort == _s(a, b)):
        return a
    if a.op in ("nan", "inf") or b.op in ("nan", "inf"):
        return _infarith("add", a, b)
    return mk("add", (a, b), None, _s(a, b))


def _infarith(op, a, b):
    if a.op == "nan" or b.op == "nan":
        return mk("nan")
    if op == "add":
        if a.op == "inf" and b.op == "inf":
            return a if a is b else mk("nan")
        return a if a.op == "inf" else b
    if op == "mul":
        def sg(t):
            if t.op == "inf":
                return 1 if t.val else -1
            if isc(t):
                return t.val.sgn()
            return None
        x, y = sg(a), sg(b)
        if x is None or y is None or x * y == 0:
            return mk("nan")
        return mk("inf", (), x * y > 0)
    return mk("nan")


def neg(a):
    if isc(a):
        return const(a.val.neg(), a.sort)
    if a.op == "neg":
        return a.args[0]
    if a.op == "inf":
        return mk("inf", (), not a.val)
    if a.op == "nan":
        return a
    return mk("neg", (a,), None, a.sort)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isc(a) and isc(b):
        return const(a.val.mul(b.val), _s(a, b))
    if isc(b):
        a, b = b, a
    if a.op in ("nan", "inf") or b.op in ("nan", "inf"):
        return _infarith("mul", a, b)
    if isc(a):
        if not a.val.d and b.total:
            return const(crat(0), _s(a, b))
        if a.val.is_rat():
            if a.val.rat() == 1 and b.sort == _s(a, b):
                return b
            if a.val.rat() == -1 and b.sort == _s(a, b):
                return neg(b)
    if a is b and a.sort == "R" and (a.hasite or a.op in ("neg", "abs")):
        r = tabs(a)
        r = r.args[0] if r.op == "abs" else r
        if r is not a:
            return mul(r, r)
    if not isc(a) and a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), None, _s(a, b))


def div(a, b):
    if b.op == "inf":
        return const(0) if a.op != "inf" else mk("nan")
    if a.op in ("nan", "inf") or b.op == "nan":
        if a.op == "inf" and isc(b) and b.val.sgn():
            return a if b.val.sgn() > 0 else neg(a)
        return mk("nan")
    if isc(b):
        if not b.val.d:
            if isc(a):
                s = a.val.sgn()
                return mk("nan") if s == 0 else mk("inf", (), s > 0)
            return mk("div", (a, b))
        iv = b.val.inv()
        if iv is not None:
            return mul(const(iv), toreal(a))
    if isc(a) and not a.val.d and b.total and False:
        return const(0)
    return mk("div", (a, b))


def toreal(a):
    if a.sort == "R":
        return a
    if a.sort == "B":
        return ite(a, const(1), const(0))
    if isc(a):
        return const(a.val, "R")
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return mk("toreal", (a,), None, "R")


def toint(a):
    """truncate toward zero"""
    if a.sort == "I":
        return a
    if a.sort == "B":
        return ite(a, const(1, "I"), const(0, "I"))
    if a.op == "toreal":
        return a.args[0]
    if isc(a):
        v = a.val.mp()
        return const(int(v), "I")
    if a.op == "ite" and all(isc(x) for x in a.args[1:]):
        return ite(a.args[0], toint(a.args[1]), toint(a.args[2]))
    return ite(ge(a, const(0)), floor(a), neg(floor(neg(a))))


def floor(a):
    """real -> int"""
    if a.sort == "I":
        return a
    if a.op == "toreal":
        return a.args[0]
    if isc(a):
        if a.val.is_rat():
            r = a.val.rat()
            return const(r.numerator // r.denominator, "I")
        return const(int(mpmath.floor(a.val.mp())), "I")
    return mk("floor", (a,), None, "I")


def roundhe(a):
    """round half to even -> int"""
    if a.sort == "I":
        return a
    if a.op == "toreal":
        return a.args[0]
    if isc(a):
        return const(round(a.val.rat()) if a.val.is_rat() else int(mpmath.nint(a.val.mp())), "I")
    f = floor(a)
    fr = sub(a, toreal(f))
    half = const(Fraction(1, 2))
    even = eq(imod(f, const(2, "I")), const(0, "I"))
    return ite(lt(fr, half), f, ite(lt(half, fr), add(f, const(1, "I")), ite(even, f, add(f, const(1, "I")))))


def idiv(a, b):
    """floor division on ints"""
    if isc(a) and isc(b) and b.val.d:
        return const(a.val.rat() // b.val.rat(), "I")
    if isc(b) and b.val.is_rat() and b.val.rat() == 1:
        return a
    return mk("idiv", (a, b), None, "I")


def imod(a, b):
    if isc(a) and isc(b) and b.val.d:
        return const(a.val.rat() % b.val.rat(), "I")
    return mk("imod", (a, b), None, "I")


def sqrt(a):
    a = toreal(a)
    if isc(a):
        s = a.val.sgn()
        if s == 0:
            return a
        if s < 0:
            return mk("nan")
        r = const_sqrt(a.val)
        if r is not None:
            return const(r)
    if a.op == "inf" and a.val:
        return a
    return mk("sqrt", (a,))


def _isq(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def const_sqrt(c):
    """exact sqrt of a monomial constant when expressible"""
    if len(c.d) != 1:
        return None
    (m, q), = c.d.items()
    if q < 0:
        return None
    p, a, b, k, s = m
    if a or s or k:
        return None
    # q = u/v
    u, v = q.numerator, q.denominator
    n = u * v
    out = Fraction(1, v)
    for base, (e2, e3) in (((1), (0, 0)), ((2), (1, 0)), ((3), (0, 1)), ((6), (1, 1))):
        if n % base == 0:
            r = _isq(n // base)
            if r is not None:
                ex = [0, e2, e3, 0, 0]
                if b:
                    ex[3] += 1
                if p % 2:
                    ex[4] += 1
                    ex[0] = (p - 1) // 2
                else:
                    ex[0] = p // 2
                mm, cc = cm_reduce(tuple(ex), out * r)
                return Const({mm: cc})
    return None


def powi(a, n):
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return div(const(1), powi(toreal(a), -n))
    r = None
    base = a
    k = n
    while k:
        if k & 1:
            r = base if r is None else mul(r, base)
        k >>= 1
        if k:
            base = mul(base, base)
    return r


def power(a, e):
    """a ** e with e python number or term"""
    if isinstance(e, Term):
        if isc(e) and e.val.is_rat():
            e = e.val.rat()
        else:
            if isc(a) and a.val.is_rat() and a.val.rat() == -1 and e.sort == "I":
                return ite(eq(imod(e, const(2, "I")), const(0, "I")), const(1, a.sort), const(-1, a.sort))
            if isc(a) and a.val.is_rat() and a.val.rat() == -1 and e.op == "toreal":
                return ite(eq(imod(e.args[0], const(2, "I")), const(0, "I")), const(1), const(-1))
            return fn("exp", mul(e, fn("log", a)))
    q = Fraction(e).limit_denominator(1000) if not isinstance(e, Fraction) else e
    if abs(float(q) - float(e)) > 1e-14:
        return fn("exp", mul(num(float(e)), fn("log", a)))
    if q.denominator == 1:
        return powi(a, int(q))
    if q.denominator == 2:
        s = sqrt(a)
        return powi(s, q.numerator) if q.numerator > 0 else div(const(1), powi(s, -q.numerator))
    # rational power: root with y>=0
    if isc(a):
        v = mpmath.mpf(a.val.mp()) ** (mpmath.mpf(q.numerator) / q.denominator)
        return num(float(v))
    r = mk("root", (toreal(a),), q.denominator)
    return powi(r, q.numerator)


MPF = {
    "sin": mpmath.sin, "cos": mpmath.cos, "exp": mpmath.exp, "log": mpmath.log, "acos": mpmath.acos,
    "asin": mpmath.asin, "atan": mpmath.atan, "tan": mpmath.tan, "tanh": mpmath.tanh, "lgamma": mpmath.loggamma,
    "sinh": mpmath.sinh, "cosh": mpmath.cosh,
}


def fn(name, a):
    a = toreal(a)
    if a.op == "ite" and all(isc(x) for x in a.args[1:]):
        return ite(a.args[0], fn(name, a.args[1]), fn(name, a.args[2]))
    if a.op == "nan":
        return a
    if a.op == "inf":
        if name == "exp":
            return a if a.val else const(0)
        if name == "log" and a.val:
            return a
        if name == "atan":
            return const(PI_C.mul(crat(Fraction(1 if a.val else -1, 2))))
        return mk("nan")
    if isc(a):
        c = a.val
        if not c.d:
            return {"sin": const(0), "cos": const(1), "tan": const(0), "exp": const(1), "acos": const(PI_C.mul(crat(Fraction(1, 2)))),
                    "asin": const(0), "atan": const(0), "tanh": const(0), "sinh": const(0), "cosh": const(1),
                    "log": mk("inf", (), False), "lgamma": mk("inf", (), True)}[name]
        if name in ("sin", "cos", "tan"):
            if set(c.d) == {(1, 0, 0, 0, 0)}:
                r = c.d[(1, 0, 0, 0, 0)]
                e = exact_trig(name, r)
                if e is not None:
                    return const(e)
        if name in ("acos", "asin") and abs(c.mp()) > 1:
            return mk("nan")
        if name == "log" and c.sgn() < 0:
            return mk("nan")
        v = MPF[name](c.mp())
        return num(float(v))
    if name == "tan":
        return div(fn("sin", a), fn("cos", a))
    if name == "atan":
        return atan2(a, const(1))
    if name == "sinh":
        return mul(const(Fraction(1, 2)), sub(fn("exp", a), fn("exp", neg(a))))
    if name == "cosh":
        return mul(const(Fraction(1, 2)), add(fn("exp", a), fn("exp", neg(a))))
    if name == "exp" and a.op == "log":
        return a.args[0]
    if name == "log" and a.op == "exp":
        return a.args[0]
    return mk(name, (a,))


def exact_trig(name, r):
    """r in units of pi"""
    r = r % 2
    if (r * 12).denominator != 1:
        return None
    k = int(r * 12)  # multiples of 15 degrees

    def cs(k):
        k %= 24
        if k > 12:
            k = 24 - k
        sg = 1
        if k > 6:
            k = 12 - k
            sg = -1
        tab = {
            0: {ZERO_M: Fraction(1)},
            1: {(0, 1, 1, 0, 0): Fraction(1, 4), (0, 1, 0, 0, 0): Fraction(1, 4)},
            2: {(0, 0, 1, 0, 0): Fraction(1, 2)},
            3: {(0, 1, 0, 0, 0): Fraction(1, 2)},
            4: {ZERO_M: Fraction(1, 2)},
            5: {(0, 1, 1, 0, 0): Fraction(1, 4), (0, 1, 0, 0, 0): Fraction(-1, 4)},
            6: {},
        }
        return Const({m: c * sg for m, c in tab[k].items()})

    if name == "cos":
        return cs(k)
    if name == "sin":
        return cs(k - 6)
    c, s = cs(k), cs(k - 6)
    if not c.d:
        return None
    iv = c.inv()
    return None if iv is None else s.mul(iv)


def atan2(y, x):
    y, x = toreal(y), toreal(x)
    if isc(y) and isc(x):
        sy, sx = y.val.sgn(), x.val.sgn()
        if sy == 0:
            return const(0) if sx >= 0 else const(PI_C)
        if sx == 0:
            return const(PI_C.mul(crat(Fraction(sy, 2))))
        return num(float(mpmath.atan2(y.val.mp(), x.val.mp())))
    return mk("atan2", (y, x))


# booleans -------------------------------------------------------------------
def bnot(a):
    if a.op == "bconst":
        return FALSE if a.val else TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), None, "B")


def band(a, b):
    if a.op == "bconst":
        return b if a.val else a
    if b.op == "bconst":
        return a if b.val else b
    if a is b:
        return a
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("and", (a, b), None, "B")


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if a.op == "bconst":
        return bnot(b) if a.val else b
    if b.op == "bconst":
        return bnot(a) if b.val else a
    return ite(a, bnot(b), b)


def band_all(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def bor_all(xs):
    return bnot(band_all([bnot(x) for x in xs]))


def _cmpconst(a, b):
    return a.val.add(b.val.neg()).sgn()


def _cmp_special(op, a, b):
    if a.op == "nan" or b.op == "nan":
        return FALSE
    if a.op == "inf" or b.op == "inf":
        va = (1 if a.val else -1) if a.op == "inf" else 0
        vb = (1 if b.val else -1) if b.op == "inf" else 0
        r = {"lt": va < vb, "le": va <= vb, "eq": va == vb}[op]
        return TRUE if r else FALSE
    return None


def _pull_ite(opf, a, b):
    # comparison of an ite with constant branches against a constant
    if a.op == "ite" and isc(b) and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], opf(a.args[1], b), opf(a.args[2], b))
    if b.op == "ite" and isc(a) and isc(b.args[1]) and isc(b.args[2]):
        return ite(b.args[0], opf(a, b.args[1]), opf(a, b.args[2]))
    return None


def _int_cmp(op, a, b):
    """comparison of an integer-valued term built from floors with a constant, moved to the reals below the floors"""
    if isc(b):
        return _int_side(op, a, b, False)
    if isc(a):
        return _int_side(op, b, a, True)
    return None


def _has_floor(t, depth=6):
    if t.op == "floor":
        return True
    return depth > 0 and t.op in ("neg", "ite", "toreal") and any(_has_floor(x, depth - 1) for x in t.args if x.sort != "B")


def _int_side(op, t, k, flip):
    """t op k (k op t when flipped)"""
    if t.op == "toreal":
        t = t.args[0]
    if t.sort != "I" or t.op not in ("floor", "neg", "ite") or not k.val.is_rat() or not _has_floor(t):
        return None
    return _int_push(op, t, k.val.rat(), flip)


def _int_push(op, t, r, flip):
    k = const(r, t.sort)
    if isc(t):
        f = {"lt": lt, "le": le, "eq": eq}[op]
        return f(k, t) if flip else f(t, k)
    if t.op == "floor":
        x = t.args[0]
        fl = r.numerator // r.denominator
        whole = r.denominator == 1
        if op == "eq":
            return band(le(const(fl), x), lt(x, const(fl + 1))) if whole else FALSE
        if op == "le":
            return le(const(fl if whole else fl + 1), x) if flip else lt(x, const(fl + 1))
        return le(const(fl + 1), x) if flip else lt(x, const(fl if whole else fl + 1))
    if t.op == "neg":
        return _int_push(op, t.args[0], -r, not flip if op != "eq" else flip)
    if t.op == "ite" and _has_floor(t):
        return ite(t.args[0], _int_push(op, t.args[1], r, flip), _int_push(op, t.args[2], r, flip))
    f = {"lt": lt, "le": le, "eq": eq}[op]
    return f(const(r), toreal(t)) if flip else f(toreal(t), const(r))


def lt(a, b):
    a, b = num2(a), num2(b)
    s = _cmp_special("lt", a, b)
    if s is not None:
        return s
    if isc(a) and isc(b):
        return TRUE if _cmpconst(a, b) < 0 else FALSE
    if a is b and a.total:
        return FALSE
    p = _pull_ite(lt, a, b)
    if p is None:
        p = _int_cmp("lt", a, b)
    if p is not None:
        return p
    if a.op == "maxn" and len(a.args) <= 64 and all(x.total for x in a.args):
        return band_all([lt(x, b) for x in a.args])
    return mk("lt", (a, b), None, "B")


def le(a, b):
    a, b = num2(a), num2(b)
    s = _cmp_special("le", a, b)
    if s is not None:
        return s
    if isc(a) and isc(b):
        return TRUE if _cmpconst(a, b) <= 0 else FALSE
    if a is b and a.total:
        return TRUE
    p = _pull_ite(le, a, b)
    if p is None:
        p = _int_cmp("le", a, b)
    if p is not None:
        return p
    if a.op == "maxn" and len(a.args) <= 64 and all(x.total for x in a.args):
        return band_all([le(x, b) for x in a.args])
    return mk("le", (a, b), None, "B")


def num2(a):
    if a.sort == "B":
        return toint(a)
    return a


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return bnot(bxor(a, b))
    a, b = num2(a), num2(b)
    s = _cmp_special("eq", a, b)
    if s is not None:
        return s
    if isc(a) and isc(b):
        return TRUE if _cmpconst(a, b) == 0 else FALSE
    if a is b and a.total:
        return TRUE
    p = _pull_ite(eq, a, b)
    if p is None:
        p = _int_cmp("eq", a, b)
    if p is not None:
        return p
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), None, "B")


def ne(a, b):
    return bnot(eq(a, b))


def ite(c, a, b):
    if c.op == "bconst":
        return a if c.val else b
    if a is b:
        return a
    if a.sort != b.sort:
        if "B" in (a.sort, b.sort):
            a, b = num2(a), num2(b)
        if a.sort != b.sort:
            a, b = toreal(a), toreal(b)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        return bor(band(c, a), band(bnot(c), b))
    # collapse same condition nests
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), None, a.sort)


def tabs(a):
    if isc(a):
        return const(a.val if a.val.sgn() >= 0 else a.val.neg(), a.sort)
    if a.op == "inf":
        return mk("inf", (), True)
    if a.op == "nan":
        return a
    if a.op == "neg":
        a = a.args[0]
    if a.op in ("abs", "sqrt"):
        return a
    # |sign * x| = |x| for a sign chosen by a condition: where(c, x, -x)
    for _ in range(8):
        c = _flip_cond(a)
        if c is None:
            break
        b = _unflip(a, c, {})
        if b is None:
            break
        a = b
        if a.op == "neg":
            a = a.args[0]
        if isc(a) or a.op in ("abs", "sqrt"):
            return tabs(a)
    return mk("abs", (a,), None, a.sort)


def _flip_cond(a):
    """condition of the leftmost where(c, x, -x) reached through sums, products and negations"""
    for _ in range(200):
        if a.op == "ite":
            return a.args[0] if neg(a.args[1]) is a.args[2] else None
        if a.op in ("add", "neg"):
            a = a.args[0]
        elif a.op == "mul":
            x, y = a.args
            a = y if isc(x) else x
        else:
            return None
    return None


def _unflip(a, c, memo):
    """a with where(c, x, -x) replaced by x, when all of a changes sign with c; else None"""
    r = memo.get(a.id, 0)
    if r != 0:
        return r
    r = None
    if a.op == "ite":
        if a.args[0] is c and neg(a.args[1]) is a.args[2]:
            r = a.args[1]
    elif a.op == "neg":
        x = _unflip(a.args[0], c, memo)
        r = None if x is None else neg(x)
    elif a.op == "add":
        x = _unflip(a.args[0], c, memo)
        if x is not None:
            y = _unflip(a.args[1], c, memo)
            r = None if y is None else add(x, y)
    elif a.op == "mul":
        x, y = a.args
        u = _unflip(y, c, memo) if isc(x) or not _mentions(x, c) else None
        if u is not None:
            r = mul(x, u)
        elif isc(y) or not _mentions(y, c):
            u = _unflip(x, c, memo)
            r = None if u is None else mul(u, y)
    if r is None and a.op == "const" and a.val.sgn() == 0:
        r = a
    memo[a.id] = r
    return r


def _mentions(a, c, limit=3000):
    st, seen = [a], set()
    while st:
        x = st.pop()
        if x is c:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > limit:
            return True
        st.extend(x.args)
    return False


def tmax(a, b):
    if isc(a) and isc(b):
        return a if _cmpconst(a, b) >= 0 else b
    if isc(b) and a.op == "neg" and a.args[0].op == "maxn" or a.op == "maxn" and isc(b):
        return mk("maxn", (a, b), None, "R")
    return ite(ge(a, b), a, b)


def tmin(a, b):
    if isc(a) and isc(b):
        return a if _cmpconst(a, b) <= 0 else b
    if isc(b) and a.op == "maxn":
        return neg(tmax(neg(a), neg(b)))
    return ite(le(a, b), a, b)


def maxn(xs):
    xs = list(dict.fromkeys(xs))
    if len(xs) == 1:
        return xs[0]
    if len(xs) == 2:
        return tmax(*xs)
    if all(isc(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = tmax(r, x)
        return r
    s = "I" if all(x.sort == "I" for x in xs) else "R"
    if any(x.op == "abs" for x in xs):
        xs = list(dict.fromkeys(z for x in xs for z in ((x.args[0], neg(x.args[0])) if x.op == "abs" else (x,))))
    return mk("maxn", tuple(sorted(xs, key=lambda t: t.id)), None, s)


def minn(xs):
    return neg(maxn([neg(x) for x in xs]))


def isnan(a):
    if a.total:
        return FALSE
    if a.op == "nan":
        return TRUE
    if a.op == "inf":
        return FALSE
    return mk("isnan", (a,), None, "B")


def isinf(a):
    if a.total or a.op == "nan":
        return FALSE
    if a.op == "inf":
        return TRUE
    return mk("isinf", (a,), None, "B")


def sign(a):
    z = const(0, a.sort)
    o = const(1, a.sort)
    return ite(gt(a, z), o, ite(lt(a, z), neg(o), z))


def copysign(a, b):
    m = tabs(toreal(a))
    return ite(lt(b, const(0, b.sort)), neg(m), m)


def cpx(re, im):
    return mk("cpx", (re, im), None, "C")


def cparts(t):
    if t.op == "cpx":
        return t.args
    return toreal(t), const(0)


def cadd(a, b):
    (x, y), (u, v) = cparts(a), cparts(b)
    return cpx(add(x, u), add(y, v))


def cneg(a):
    x, y = cparts(a)
    return cpx(neg(x), neg(y))


def cmul(a, b):
    if a.sort != "C":
        x, y = cparts(b)
        return cpx(mul(toreal(a), x), mul(toreal(a), y))
    if b.sort != "C":
        return cmul(b, a)
    (x, y), (u, v) = cparts(a), cparts(b)
    return cpx(sub(mul(x, u), mul(y, v)), add(mul(x, v), mul(y, u)))


def conj(a):
    if a.sort != "C":
        return a
    x, y = a.args
    return cpx(x, neg(y))


TRUE = FALSE = None
reset()


# ---------------------------------------------------------------------------
# float evaluation of terms under an assignment (translation validation)
# ---------------------------------------------------------------------------
def evaluate(t, env, memo=None):
    """numeric value (python float/bool/int) of t; env: var name -> number"""
    memo = {} if memo is None else memo
    nan = float("nan")

    def ev(root):
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            if t.op == "ite":
                c = t.args[0]
                if c.id not in memo:
                    stack.append(c)
                    continue
                br = t.args[1] if memo[c.id] else t.args[2]
                if br.id not in memo:
                    stack.append(br)
                    continue
                memo[t.id] = memo[br.id]
                stack.pop()
                continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[t.id] = step(t, [memo[a.id] for a in t.args])
            stack.pop()
        return memo[root.id]

    def step(t, a):
        op = t.op
        try:
            if op == "const":
                return int(t.val.rat()) if t.sort == "I" else float(t.val)
            if op == "bconst":
                return t.val
            if op == "var":
                return env[t.val]
            if op == "uninit":
                return nan
            if op == "nan":
                return nan
            if op == "inf":
                return math.inf if t.val else -math.inf
            if op == "add":
                return a[0] + a[1]
            if op == "neg":
                return -a[0]
            if op == "mul":
                return a[0] * a[1]
            if op == "div":
                if a[1] == 0:
                    return nan if (a[0] == 0 or a[0] != a[0]) else math.copysign(math.inf, a[0])
                return a[0] / a[1]
            if op == "sqrt":
                return math.sqrt(a[0]) if a[0] >= 0 else nan
            if op == "root":
                return a[0] ** (1.0 / t.val) if a[0] >= 0 else nan
            if op == "toreal":
                return float(a[0])
            if op == "floor":
                return math.floor(a[0])
            if op == "idiv":
                return a[0] // a[1]
            if op == "imod":
                return a[0] % a[1]
            if op in ("sin", "cos", "exp", "tanh", "lgamma"):
                return getattr(math, op)(a[0])
            if op == "log":
                return math.log(a[0]) if a[0] > 0 else (-math.inf if a[0] == 0 else nan)
            if op in ("acos", "asin"):
                return getattr(math, op)(a[0]) if abs(a[0]) <= 1 else nan
            if op == "atan2":
                return math.atan2(a[0], a[1])
            if op == "abs":
                return abs(a[0])
            if op == "maxn":
                return max(a)
            if op == "not":
                return not a[0]
            if op == "and":
                return a[0] and a[1]
            if op == "lt":
                return a[0] < a[1]
            if op == "le":
                return a[0] <= a[1]
            if op == "eq":
                return a[0] == a[1]
            if op == "isnan":
                return a[0] != a[0]
            if op == "isinf":
                return abs(a[0]) == math.inf
            if op == "cpx":
                return complex(a[0], a[1])
        except (OverflowError, ValueError):
            return nan
        raise NotImplementedError(op)

    return ev(t)

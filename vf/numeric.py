"""Float evaluation of engine atoms on sample assignments (used only to skip solver calls
that would obviously answer 'sat', and to seed model search)."""
import math
from .nf import W, FIELD, special


class Numeric:
    def __init__(self, engine):
        self.e = engine
        self.samples = []
        self.vals = []
        self.pvals = []
        self.bools = []

    def add(self, env):
        self.samples.append(env)
        self.vals.append({})
        self.pvals.append({})

    def atom(self, k, i):
        v = self.vals[k].get(i)
        if v is None:
            try:
                v = self._atom(k, self.e.atoms[i])
            except (ValueError, OverflowError, ZeroDivisionError, KeyError):
                v = float("nan")
            self.vals[k][i] = v
        return v

    def poly(self, k, p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            i = 0
            while m:
                e = m & FIELD
                if e:
                    x *= self.atom(k, i) ** e
                m >>= W
                i += 1
            t += x
        return t

    def nf(self, k, a):
        if special(a):
            return {"nan": math.nan, "+inf": math.inf, "-inf": -math.inf}[a]
        n = self.poly(k, a.num)
        for i, e in a.den:
            n /= self.poly(k, self.e.plist[i]) ** e
        return n

    def _atom(self, k, a):
        kd = a.kind
        if kd in ("const", "ctrig"):
            return float(a.data)
        if kd == "var":
            return float(self.samples[k][a.name])
        if kd == "sqrt":
            p = self.poly(k, a.data)
            return math.sqrt(p) if p > 0 else (0.0 if p > -1e-12 else math.nan)
        if kd == "root":
            return self.nf(k, a.data[0]) ** (1.0 / a.data[1])
        if kd == "cos":
            return math.cos(self.poly(k, {a.data[0]: 1}) / a.data[1])
        if kd == "sin":
            return math.sin(self.poly(k, {a.data[0]: 1}) / a.data[1])
        if kd == "atan2":
            c, s = a.data["cs"]
            return math.atan2(self.nf(k, s), self.nf(k, c))
        if kd == "acos":
            u = self.nf(k, a.data["u"])
            return math.acos(max(-1.0, min(1.0, u)))
        if kd == "exp":
            return math.exp(self.nf(k, a.data))
        if kd == "log":
            return math.log(self.nf(k, a.data))
        if kd == "tanh":
            return math.tanh(self.nf(k, a.data))
        if kd == "lgamma":
            return math.lgamma(self.nf(k, a.data))
        if kd == "floor":
            return math.floor(self.nf(k, a.data))
        if kd == "idiv":
            return self.nf(k, a.data[0]) // self.nf(k, a.data[1])
        if kd == "maxn":
            return max(self.nf(k, x) for x in a.data)
        if kd == "angnf":
            return self.nf(k, a.data)
        raise KeyError(kd)

    def holds(self, k, lits, eps=1e-9):
        e = self.e
        for l in lits:
            if l[0] == "s":
                v = self.pvals[k].get(l[1])
                if v is None:
                    v = self.pvals[k][l[1]] = self.poly(k, e.plist[l[1]])
                if v != v:
                    return False
                s = l[2]
                z = abs(v) <= 1e-13
                if z:
                    if 0 not in s:
                        return False
                elif v > 0:
                    if 1 not in s or v < eps and 0 not in s:
                        return False
                else:
                    if -1 not in s or -v < eps and 0 not in s:
                        return False
            elif l[0] == "b":
                from . import terms as tm
                nm = tm.T[l[1]].val
                if self.samples[k].get(nm) is not l[2]:
                    return False
            elif l[0] != "m":
                return False
        return True

    def witness(self, lits):
        for k in range(len(self.samples)):
            if self.holds(k, lits):
                return True
        return False

    def find(self, lits):
        for k in range(len(self.samples)):
            if self.holds(k, lits):
                return k
        return None

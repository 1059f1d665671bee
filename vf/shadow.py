"""Symbolic execution of PyTorch code: a TorchDispatchMode that keeps, for every symbolic
storage, a parallel int64 array of term ids.  Views, strides and aliasing are PyTorch's own;
only the element arithmetic is replaced by term construction."""
import math
from fractions import Fraction
import itertools
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map
from . import terms as tm
from .nf import Unsupported

aten = torch.ops.aten
REG = {}          # storage cdata -> (storage, shadow int64 tensor, itemsize)
STATE = None      # current Exec


def T(i):
    return tm.T[i]


class Exec:
    """what symbolic execution needs from the outside: path decisions and fresh inputs"""

    def __init__(self, engine):
        self.engine = engine
        self.nfresh = 0
        self.rng = []          # (name, shape, kind) of RNG draws, in order
        self.rng_kind = "sym"
        self.rng_cb = None
        self.ops = {}

    def decide(self, term):
        return self.engine.truth(term)

    def fresh(self, base, sort="R"):
        self.nfresh += 1
        return tm.var(f"{base}{self.nfresh}", sort)


def key(t):
    return t.untyped_storage()._cdata


def is_sym(t):
    return isinstance(t, torch.Tensor) and t.device.type == "cpu" and key(t) in REG


def sort_of(dtype):
    if dtype == torch.bool:
        return "B"
    if dtype.is_complex:
        return "C"
    if dtype.is_floating_point:
        return "R"
    return "I"


def coerce(t, dtype):
    s = sort_of(dtype)
    if t.sort == s:
        if s == "I" and dtype == torch.uint8:
            return t
        return t
    if s == "R":
        if t.sort == "C":
            return t.args[0]
        return tm.toreal(t)
    if s == "C":
        return tm.cpx(tm.toreal(t), tm.const(0))
    if s == "I":
        if t.sort == "C":
            t = t.args[0]
        return tm.toint(t)
    if s == "B":
        if t.sort == "C":
            return tm.bor(tm.ne(t.args[0], tm.const(0)), tm.ne(t.args[1], tm.const(0)))
        return tm.ne(t, tm.const(0, t.sort))
    raise Unsupported(str(dtype))


def lift_value(v, single=False):
    if isinstance(v, complex):
        return tm.cpx(tm.num(v.real, single=single), tm.num(v.imag, single=single))
    return tm.num(v, single=single)


def lift_ids(t):
    """ids for a plain tensor (its own shape)"""
    single = t.dtype in (torch.float32, torch.complex64, torch.float16, torch.bfloat16)
    vals = t.detach().resolve_conj().resolve_neg().reshape(-1).tolist()
    memo = {}
    out = []
    for v in vals:
        k = (type(v), v) if v == v and v != 0 else None
        i = memo.get(k) if k is not None else None
        if i is None:
            i = lift_value(v, single).id
            if k is not None:
                memo[k] = i
        out.append(i)
    return torch.tensor(out, dtype=torch.int64).reshape(t.shape)


def ids(t):
    """int64 tensor of term ids with the shape of t"""
    r = REG.get(key(t)) if t.device.type == "cpu" else None
    if r is None:
        return lift_ids(t)
    sh = r[1].as_strided(t.size(), t.stride(), t.storage_offset())
    if t.is_conj():
        return map_ids(lambda x: tm.conj(x), sh)
    if t.is_neg():
        return map_ids(neg, sh)
    return sh


def register(t, idt):
    """attach ids to the fresh contiguous tensor t"""
    n = t.untyped_storage().nbytes() // max(1, t.element_size())
    sh = torch.full((n,), tm.const(0).id, dtype=torch.int64)
    sh.as_strided(t.size(), t.stride(), t.storage_offset()).copy_(idt)
    st = t.untyped_storage()
    REG[st._cdata] = (st, sh)
    return t


def sentinel(shape, dtype):
    if dtype.is_floating_point or dtype.is_complex:
        return torch.full(shape, float("nan"), dtype=dtype)
    if dtype == torch.bool:
        return torch.zeros(shape, dtype=dtype)
    return torch.zeros(shape, dtype=dtype)


def mk(idt, dtype):
    """new symbolic tensor; plain tensor when every element is a constant"""
    return register(sentinel(tuple(idt.shape), dtype), idt)


def promote(t):
    if key(t) in REG:
        return
    st = t.untyped_storage()
    n = st.nbytes() // t.element_size()
    flat = torch.empty(0, dtype=t.dtype)
    flat.set_(st, 0, (n,), (1,))
    REG[st._cdata] = (st, lift_ids(flat).reshape(-1).clone())


def write(dst, idt):
    """write ids (any sort) into dst, coerced to its dtype"""
    promote(dst)
    st, sh = REG[key(dst)]
    dt = dst.dtype
    s = sort_of(dt)
    view = sh.as_strided(dst.size(), dst.stride(), dst.storage_offset())
    src = map_ids(lambda x: coerce(x, dt), idt) if any_sort(idt, s) else idt
    view.copy_(src.expand(dst.shape) if src.shape != dst.shape else src)
    return dst


def any_sort(idt, s):
    return any(T(i).sort != s for i in set(idt.reshape(-1).tolist()))


def map_ids(f, *xs):
    if len(xs) > 1:
        xs = torch.broadcast_tensors(*xs)
    shape = xs[0].shape
    ls = [x.reshape(-1).tolist() for x in xs]
    memo = {}
    out = []
    for tup in zip(*ls):
        r = memo.get(tup)
        if r is None:
            r = memo[tup] = f(*[T(i) for i in tup]).id
        out.append(r)
    return torch.tensor(out, dtype=torch.int64).reshape(shape)


# ---------------------------------------------------------------------------
# scalar operations, complex aware
# ---------------------------------------------------------------------------
def add(a, b):
    if a.sort == "C" or b.sort == "C":
        return tm.cadd(a, b)
    return tm.add(num(a), num(b))


def neg(a):
    return tm.cneg(a) if a.sort == "C" else tm.neg(num(a))


def num(a):
    return tm.toint(a) if a.sort == "B" else a


def mul(a, b):
    if a.sort == "C" or b.sort == "C":
        return tm.cmul(a, b)
    if a.sort == "B" and b.sort == "B":
        return tm.band(a, b)
    if a.sort == "B":
        return tm.ite(a, b, tm.const(0, b.sort)) if b.total else tm.mul(num(a), b)
    if b.sort == "B":
        return mul(b, a)
    return tm.mul(a, b)


def div(a, b):
    if a.sort == "C" or b.sort == "C":
        if b.sort != "C":
            x, y = a.args
            b = tm.toreal(num(b))
            return tm.cpx(tm.div(x, b), tm.div(y, b))
        u, v = b.args
        n = tm.add(tm.mul(u, u), tm.mul(v, v))
        p = tm.cmul(a, tm.conj(b))
        x, y = p.args
        return tm.cpx(tm.div(x, n), tm.div(y, n))
    return tm.div(tm.toreal(num(a)), tm.toreal(num(b)))


def cabs(a):
    if a.sort == "C":
        x, y = a.args
        return tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y)))
    return tm.tabs(num(a))


def floordiv(a, b):
    a, b = num(a), num(b)
    if a.sort == "I" and b.sort == "I":
        return tm.idiv(a, b)
    return tm.toreal(tm.floor(tm.div(tm.toreal(a), tm.toreal(b))))


def truncdiv(a, b):
    a, b = num(a), num(b)
    if a.sort == "I" and b.sort == "I":
        if tm.isc(a) and tm.isc(b) and b.val.d:
            x, y = a.val.rat(), b.val.rat()
            return tm.const(int(Fraction(x) / y), "I")
        z = tm.const(0, "I")
        q = tm.idiv(a, b)
        exact = tm.eq(tm.mul(q, b), a)
        return tm.ite(tm.bor(exact, tm.ge(q, z)), q, tm.add(q, tm.const(1, "I")))
    return tm.toreal(tm.toint(tm.div(tm.toreal(a), tm.toreal(b))))


def remainder(a, b):
    a, b = num(a), num(b)
    if a.sort == "I" and b.sort == "I":
        return tm.imod(a, b)
    a, b = tm.toreal(a), tm.toreal(b)
    if tm.isc(a) and tm.isc(b) and a.val.is_rat() and b.val.is_rat() and b.val.d:
        return tm.const(a.val.rat() % b.val.rat())
    return tm.sub(a, tm.mul(b, tm.toreal(tm.floor(tm.div(a, b)))))


def fmod(a, b):
    a, b = num(a), num(b)
    return tm.sub(a, tm.mul(b, truncdiv(a, b) if a.sort == "I" else tm.toreal(tm.toint(tm.div(tm.toreal(a), tm.toreal(b))))))


def cmpop(f):
    def g(a, b):
        if a.sort == "C" or b.sort == "C":
            (x, y), (u, v) = tm.cparts(a), tm.cparts(b)
            e = tm.band(tm.eq(x, u), tm.eq(y, v))
            if f is tm.eq:
                return e
            if f is tm.ne:
                return tm.bnot(e)
            raise Unsupported("complex order")
        return f(a, b)
    return g


def realf(name):
    def g(a):
        if a.sort == "C":
            x, y = a.args
            if name == "exp":
                e = tm.fn("exp", x)
                return tm.cpx(tm.mul(e, tm.fn("cos", y)), tm.mul(e, tm.fn("sin", y)))
            raise Unsupported("complex " + name)
        return tm.fn(name, tm.toreal(num(a)))
    return g


def tsqrt(a):
    if a.sort == "C":
        raise Unsupported("complex sqrt")
    return tm.sqrt(tm.toreal(num(a)))


def power(a, b):
    if a.sort == "C":
        if tm.isc(b) and b.val.is_rat() and b.val.rat().denominator == 1:
            n = int(b.val.rat())
            if n < 0:
                return div(tm.cpx(tm.const(1), tm.const(0)), power(a, tm.const(-n, "I")))
            r = tm.cpx(tm.const(1), tm.const(0))
            for _ in range(n):
                r = tm.cmul(r, a)
            return r
        if tm.isc(a.args[0]) and not a.args[0].val.d and tm.isc(a.args[1]) and a.args[1].val.is_rat() and a.args[1].val.rat() == 1:
            # (i)^n with symbolic n is not needed
            pass
        raise Unsupported("complex pow")
    return tm.power(num(a), num(b))


def where(c, a, b):
    if c.sort != "B":
        c = tm.ne(c, tm.const(0, c.sort))
    if a.sort == "C" or b.sort == "C":
        (x, y), (u, v) = tm.cparts(a), tm.cparts(b)
        return tm.cpx(tm.ite(c, x, u), tm.ite(c, y, v))
    return tm.ite(c, a, b)


def mx(a, b):
    return tm.tmax(num(a), num(b))


def mn(a, b):
    return tm.tmin(num(a), num(b))


def fmaxnan(f):
    return f


def tround(a):
    return a if a.sort == "I" else tm.toreal(tm.roundhe(a))


def sgn(a):
    if a.sort == "C":
        m = cabs(a)
        x, y = a.args
        z = tm.eq(m, tm.const(0))
        return tm.cpx(tm.ite(z, tm.const(0), tm.div(x, m)), tm.ite(z, tm.const(0), tm.div(y, m)))
    if a.sort == "B":
        return a
    return tm.sign(a)


UN = {
    "neg": neg, "abs": cabs, "sqrt": tsqrt, "rsqrt": lambda a: tm.div(tm.const(1), tsqrt(a)),
    "square": lambda a: mul(a, a), "reciprocal": lambda a: div(tm.const(1), a),
    "sin": realf("sin"), "cos": realf("cos"), "tan": realf("tan"), "exp": realf("exp"), "log": realf("log"),
    "acos": realf("acos"), "asin": realf("asin"), "atan": realf("atan"), "tanh": realf("tanh"), "lgamma": realf("lgamma"),
    "sinh": realf("sinh"), "cosh": realf("cosh"),
    "arccos": realf("acos"), "arcsin": realf("asin"), "arctan": realf("atan"),
    "exp2": lambda a: tm.fn("exp", tm.mul(tm.toreal(a), tm.fn("log", tm.const(2)))),
    "log2": lambda a: tm.div(tm.fn("log", tm.toreal(num(a))), tm.fn("log", tm.const(2))),
    "log10": lambda a: tm.div(tm.fn("log", tm.toreal(num(a))), tm.fn("log", tm.const(10))),
    "log1p": lambda a: tm.fn("log", tm.add(tm.const(1), tm.toreal(num(a)))),
    "expm1": lambda a: tm.sub(tm.fn("exp", tm.toreal(a)), tm.const(1)),
    "sigmoid": lambda a: tm.div(tm.const(1), tm.add(tm.const(1), tm.fn("exp", tm.neg(tm.toreal(a))))),
    "relu": lambda a: tm.tmax(num(a), tm.const(0, a.sort)),
    "floor": lambda a: a if a.sort == "I" else tm.toreal(tm.floor(a)),
    "ceil": lambda a: a if a.sort == "I" else tm.toreal(tm.neg(tm.floor(tm.neg(a)))),
    "trunc": lambda a: a if a.sort == "I" else tm.toreal(tm.toint(a)),
    "frac": lambda a: tm.sub(a, tm.toreal(tm.toint(a))),
    "round": tround, "sign": sgn, "sgn": sgn,
    "logical_not": lambda a: tm.bnot(coerce(a, torch.bool)),
    "bitwise_not": lambda a: tm.bnot(a) if a.sort == "B" else tm.sub(tm.const(-1, "I"), a),
    "isnan": lambda a: tm.bor(tm.isnan(a.args[0]), tm.isnan(a.args[1])) if a.sort == "C" else (tm.FALSE if a.sort in "IB" else tm.isnan(a)),
    "isinf": lambda a: tm.FALSE if a.sort in "IB" else tm.isinf(a),
    "isfinite": lambda a: tm.TRUE if a.sort in "IB" else tm.bnot(tm.bor(tm.isnan(a), tm.isinf(a))),
    "conj_physical": tm.conj, "_conj": tm.conj, "real": lambda a: tm.cparts(a)[0], "imag": lambda a: tm.cparts(a)[1],
    "positive": lambda a: a, "deg2rad": lambda a: tm.mul(tm.toreal(a), tm.mul(tm.num(math.pi), tm.num(Fraction(1, 180)))),
    "rad2deg": lambda a: tm.div(tm.mul(tm.toreal(a), tm.num(Fraction(180))), tm.num(math.pi)),
    "angle": lambda a: tm.atan2(a.args[1], a.args[0]) if a.sort == "C" else tm.ite(tm.lt(a, tm.const(0, a.sort)), tm.num(math.pi), tm.const(0)),
}


def bitw(f_bool, name):
    def g(a, b):
        if a.sort == "B" and b.sort == "B":
            return f_bool(a, b)
        a, b = num(a), num(b)
        if tm.isc(a) and tm.isc(b):
            x, y = int(a.val.rat()), int(b.val.rat())
            return tm.const({"and": x & y, "or": x | y, "xor": x ^ y}[name], "I")
        if name == "and":
            for m, v in ((a, b), (b, a)):
                if tm.isc(m) and (k := int(m.val.rat())) >= 0 and k & (k + 1) == 0:
                    return tm.imod(v, tm.const(k + 1, "I"))
        raise Unsupported("bitwise int")
    return g


def shift(left):
    def g(a, b):
        a, b = num(a), num(b)
        if not tm.isc(b):
            raise Unsupported("shift")
        k = tm.const(1 << int(b.val.rat()), "I")
        return tm.mul(a, k) if left else tm.idiv(a, k)
    return g


BIN = {
    "mul": mul, "atan2": lambda a, b: tm.atan2(tm.toreal(num(a)), tm.toreal(num(b))),
    "arctan2": lambda a, b: tm.atan2(tm.toreal(num(a)), tm.toreal(num(b))),
    "maximum": mx, "minimum": mn, "fmax": mx, "fmin": mn,
    "eq": cmpop(tm.eq), "ne": cmpop(tm.ne), "lt": cmpop(tm.lt), "le": cmpop(tm.le), "gt": cmpop(tm.gt), "ge": cmpop(tm.ge),
    "remainder": remainder, "fmod": fmod, "pow": power, "floor_divide": floordiv,
    "logical_and": lambda a, b: tm.band(coerce(a, torch.bool), coerce(b, torch.bool)),
    "logical_or": lambda a, b: tm.bor(coerce(a, torch.bool), coerce(b, torch.bool)),
    "logical_xor": lambda a, b: tm.bxor(coerce(a, torch.bool), coerce(b, torch.bool)),
    "bitwise_left_shift": shift(True), "bitwise_right_shift": shift(False), "__lshift__": shift(True), "__rshift__": shift(False),
    "bitwise_and": bitw(tm.band, "and"), "bitwise_or": bitw(tm.bor, "or"), "bitwise_xor": bitw(tm.bxor, "xor"),
    "__and__": bitw(tm.band, "and"), "__or__": bitw(tm.bor, "or"), "__xor__": bitw(tm.bxor, "xor"),
    "hypot": lambda a, b: tm.sqrt(tm.add(tm.mul(a, a), tm.mul(b, b))),
    "copysign": lambda a, b: tm.copysign(num(a), num(b)),
    "true_divide": div,
    "complex": lambda a, b: tm.cpx(a, b),
    "polar": lambda a, b: tm.cpx(tm.mul(a, tm.fn("cos", b)), tm.mul(a, tm.fn("sin", b))),
}


def idof(x):
    """ids (0-d or nd) for tensor or python scalar"""
    if isinstance(x, torch.Tensor):
        return ids(x)
    return torch.tensor(lift_value(x).id, dtype=torch.int64)


def meta(t):
    if isinstance(t, torch.Tensor):
        return t.detach().to("meta") if t.device.type != "meta" else t
    return t


def result_dtype(*xs, floaty=False):
    d = None
    args = [x for x in xs if isinstance(x, (torch.Tensor, bool, int, float, complex))]
    if len(args) == 1:
        a = args[0]
        d = a.dtype if isinstance(a, torch.Tensor) else torch.tensor(a).dtype
    else:
        d = args[0]
        # pairwise promotion keeping 0-d semantics
        ts = [x for x in args if isinstance(x, torch.Tensor) and x.dim() > 0]
        zs = [x for x in args if isinstance(x, torch.Tensor) and x.dim() == 0]
        d = None
        for a in args:
            d = a if d is None else torch.result_type(d, a) if not isinstance(d, torch.dtype) else _promo(d, a, ts)
        if not isinstance(d, torch.dtype):
            d = d.dtype if isinstance(d, torch.Tensor) else torch.tensor(d).dtype
    if floaty and not (d.is_floating_point or d.is_complex):
        d = torch.get_default_dtype()
    return d


def _promo(d, a, ts):
    x = torch.empty((1,) if ts else (), dtype=d)
    return torch.result_type(x, a)


FLOATY = {"sqrt", "rsqrt", "reciprocal", "sin", "cos", "tan", "exp", "log", "acos", "asin", "atan", "tanh", "lgamma", "log2", "log10",
          "log1p", "expm1", "sigmoid", "arccos", "arcsin", "arctan", "deg2rad", "rad2deg", "atan2", "arctan2", "true_divide", "hypot", "copysign", "sinh", "cosh", "exp2", "angle"}
BOOLY = {"eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "logical_xor", "logical_not", "isnan", "isinf", "isfinite"}

H = {}


def h(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def conv(idt, dtype):
    s = sort_of(dtype)
    if any_sort(idt, s):
        return map_ids(lambda x: coerce(x, dtype), idt)
    return idt


def out(idt, dtype):
    return mk(conv(idt, dtype), dtype)


def sum_terms(ts):
    r = None
    for t in ts:
        r = t if r is None else add(r, t)
    return r


def normdims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return list(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return [d % max(nd, 1) for d in dim]


def reduce_(idt, dim, keepdim, f, empty):
    """f: list of Terms -> Term"""
    nd = idt.dim()
    dims = normdims(dim, nd)
    keep = [d for d in range(nd) if d not in dims]
    x = idt.permute(keep + [d for d in dims if d < nd]) if nd else idt
    ks = [idt.shape[d] for d in keep]
    n = 1
    for d in dims:
        if d < nd:
            n *= idt.shape[d]
    rows = x.reshape(-1, n).tolist() if n and x.numel() else []
    cnt = 1
    for k in ks:
        cnt *= k
    if n == 0:
        vals = [empty.id] * cnt
    else:
        memo = {}
        vals = []
        for r in rows:
            k = tuple(r)
            v = memo.get(k)
            if v is None:
                v = memo[k] = f([T(i) for i in r]).id
            vals.append(v)
    res = torch.tensor(vals, dtype=torch.int64).reshape(ks)
    if keepdim:
        for d in sorted(dims):
            res = res.unsqueeze(d)
    return res


def alpha_add(a, b, alpha, sub):
    if isinstance(alpha, (int, float)) and alpha == 1:
        pass
    else:
        b = mul(b, lift_value(alpha))
    return add(a, neg(b)) if sub else add(a, b)


@h("add", "sub", "rsub", "subtract")
def _add(name, a, b, alpha=1):
    if name == "rsub":
        a, b = b, a
    sub = name in ("sub", "rsub", "subtract")
    dt = result_dtype(a, b)
    boolor = dt == torch.bool
    if boolor:
        return out(map_ids(tm.bor, idof(a), idof(b)), dt)
    return out(map_ids(lambda x, y: alpha_add(x, y, alpha, sub), idof(a), idof(b)), dt)


@h("div", "divide")
def _div(name, a, b, rounding_mode=None):
    if rounding_mode is None:
        return out(map_ids(div, idof(a), idof(b)), result_dtype(a, b, floaty=True))
    f = floordiv if rounding_mode == "floor" else truncdiv
    return out(map_ids(f, idof(a), idof(b)), result_dtype(a, b))


def elementwise(name, args, kwargs):
    if name in UN:
        a = args[0]
        dt = torch.bool if name in BOOLY else result_dtype(a, floaty=name in FLOATY)
        if name in ("abs", "real", "imag", "angle") and dt.is_complex:
            dt = torch.float64 if dt == torch.complex128 else torch.float32
        if name == "round" and kwargs.get("decimals"):
            raise Unsupported("round decimals")
        return out(map_ids(UN[name], idof(a)), dt)
    a, b = args[0], args[1]
    if name in ("complex", "polar"):
        dt = torch.complex128 if a.dtype == torch.float64 else torch.complex64
    else:
        dt = torch.bool if name in BOOLY else result_dtype(a, b, floaty=name in FLOATY)
    return out(map_ids(BIN[name], idof(a), idof(b)), dt)


@h("_to_copy", "to")
def _to_copy(name, a, dtype=None, **kw):
    return out(ids(a).clone(), dtype or a.dtype)


@h("clone", "contiguous", "lift_fresh", "lift_fresh_copy", "alias", "detach_copy")
def _clone(name, a, **kw):
    return mk(ids(a).clone(), a.dtype)


@h("detach")
def _detach(name, a):
    return a.view(a.shape) if a.is_contiguous() else a.as_strided(a.size(), a.stride(), a.storage_offset())


@h("where")
def _where(name, c, a=None, b=None):
    if a is None:
        return _nonzero(name, c, as_tuple=True)
    return out(map_ids(where, idof(c), idof(a), idof(b)), result_dtype(a, b))


@h("masked_fill")
def _masked_fill(name, a, m, v):
    return out(map_ids(lambda x, c, y: where(c, y, x), *torch.broadcast_tensors(ids(a), ids(m), idof(v))), a.dtype)


@h("clamp", "clip")
def _clamp(name, a, min=None, max=None):
    r = ids(a)
    if min is not None:
        r = map_ids(mx, r, idof(min))
    if max is not None:
        r = map_ids(mn, r, idof(max))
    return out(r, result_dtype(*[x for x in (a, min, max) if x is not None]))


@h("clamp_min")
def _clamp_min(name, a, m):
    return _clamp(name, a, m, None)


@h("clamp_max")
def _clamp_max(name, a, m):
    return _clamp(name, a, None, m)


@h("lerp")
def _lerp(name, a, b, w):
    return out(map_ids(lambda x, y, z: add(x, mul(z, add(y, neg(x)))), idof(a), idof(b), idof(w)), a.dtype)


@h("addcmul")
def _addcmul(name, s, a, b, value=1):
    return out(map_ids(lambda x, y, z: add(x, mul(lift_value(value), mul(y, z))), ids(s), ids(a), ids(b)), s.dtype)


@h("addcdiv")
def _addcdiv(name, s, a, b, value=1):
    return out(map_ids(lambda x, y, z: add(x, mul(lift_value(value), div(y, z))), ids(s), ids(a), ids(b)), s.dtype)


# reductions -----------------------------------------------------------------
def intsum(a, dtype):
    if dtype is not None:
        return dtype
    return torch.int64 if not (a.dtype.is_floating_point or a.dtype.is_complex) else a.dtype


@h("sum", "nansum")
def _sum(name, a, dim=None, keepdim=False, dtype=None):
    return out(reduce_(ids(a), dim, keepdim, lambda ts: sum_terms([num(t) for t in ts]), tm.const(0)), intsum(a, dtype))


@h("mean")
def _mean(name, a, dim=None, keepdim=False, dtype=None):
    def f(ts):
        n = tm.const(Fraction(1, len(ts)))
        return mul(n, sum_terms(ts))
    return out(reduce_(ids(a), dim, keepdim, f, tm.mk("nan")), dtype or a.dtype)


@h("prod")
def _prod(name, a, dim=None, keepdim=False, dtype=None):
    def f(ts):
        r = num(ts[0])
        for t in ts[1:]:
            r = mul(r, num(t))
        return r
    return out(reduce_(ids(a), dim, keepdim, f, tm.const(1)), intsum(a, dtype))


@h("any")
def _any(name, a, dim=None, keepdim=False):
    return out(reduce_(conv(ids(a), torch.bool), dim, keepdim, tm.bor_all, tm.FALSE), torch.bool)


@h("all")
def _all(name, a, dim=None, keepdim=False):
    return out(reduce_(conv(ids(a), torch.bool), dim, keepdim, tm.band_all, tm.TRUE), torch.bool)


@h("amax")
def _amax(name, a, dim=(), keepdim=False):
    return out(reduce_(ids(a), dim, keepdim, lambda ts: maxterms([num(t) for t in ts]), tm.mk("nan")), a.dtype)


@h("amin")
def _amin(name, a, dim=(), keepdim=False):
    return out(reduce_(ids(a), dim, keepdim, lambda ts: tm.neg(maxterms([tm.neg(num(t)) for t in ts])), tm.mk("nan")), a.dtype)


def maxterms(ts):
    return tm.maxn(ts)


def order_ids(row, largest, stable=True):
    """fork on comparisons until row (list of Terms) is sorted; returns index order"""
    idx = list(range(len(row)))
    # insertion sort by decisions
    outl = []
    for i in idx:
        lo, hi = 0, len(outl)
        while lo < hi:
            mid = (lo + hi) // 2
            j = outl[mid]
            before = tm.gt(row[i], row[j]) if largest else tm.lt(row[i], row[j])
            if STATE.decide(before):
                hi = mid
            else:
                lo = mid + 1
        outl.insert(lo, i)
    return outl


def argbest(row, largest):
    if not all(tm.isc(x) for x in row):
        b = STATE.engine.argbest(row, largest)
        if b is not None:
            return b
    b = 0
    for i in range(1, len(row)):
        c = tm.gt(row[i], row[b]) if largest else tm.lt(row[i], row[b])
        if STATE.decide(c):
            b = i
    return b


def arg_terms(row, largest, last=False):
    """(index term, value term) of first best element without forking"""
    if all(tm.isc(x) for x in row):
        b = argbest(row, largest)
        return tm.const(b, "I"), row[b]
    bi, bv = tm.const(0, "I"), row[0]
    for i in range(1, len(row)):
        c = tm.gt(row[i], bv) if largest else tm.lt(row[i], bv)
        bi = tm.ite(c, tm.const(i, "I"), bi)
        bv = tm.ite(c, row[i], bv)
    return bi, bv


def _dim_arg(idt, dim, keepdim, largest):
    iv = reduce_(idt, [dim], keepdim, lambda ts: tm.const(argbest([num(t) for t in ts], largest), "I"), tm.const(0, "I"))
    return iv


def _gather_arg(a, dim, keepdim, largest):
    idt = ids(a)
    iv = _dim_arg(idt, dim, True, largest)
    vals = torch.tensor([int(T(i).val.rat()) for i in iv.reshape(-1).tolist()], dtype=torch.int64).reshape(iv.shape)
    res = torch.gather(idt, dim % max(idt.dim(), 1), vals) if idt.dim() else idt
    if not keepdim and idt.dim():
        res, vals = res.squeeze(dim), vals.squeeze(dim)
    return res, vals


@h("max", "min")
def _max(name, a, dim=None, keepdim=False):
    big = name == "max"
    if isinstance(dim, torch.Tensor):
        return elementwise("maximum" if big else "minimum", (a, dim), {})
    if dim is None:
        return _amax(name, a) if big else _amin(name, a)
    res, iv = _gather_arg(a, dim, keepdim, big)
    return mk(res, a.dtype), iv


@h("argmax", "argmin")
def _argmax(name, a, dim=None, keepdim=False):
    big = name == "argmax"
    if dim is None:
        row = [num(T(i)) for i in ids(a).reshape(-1).tolist()]
        return torch.tensor(argbest(row, big))
    return _gather_arg(a, dim, keepdim, big)[1]


@h("aminmax")
def _aminmax(name, a, dim=None, keepdim=False):
    d = () if dim is None else [dim]
    return _amin(name, a, d, keepdim), _amax(name, a, d, keepdim)


@h("sort")
def _sort(name, a, dim=-1, descending=False, stable=False):
    if isinstance(dim, bool):
        stable, dim = dim, -1
    idt = ids(a)
    if idt.dim() == 0:
        return mk(idt.clone(), a.dtype), torch.tensor(0)
    d = dim % idt.dim()
    x = idt.movedim(d, -1)
    rows = x.reshape(-1, x.shape[-1]).tolist()
    o = [order_ids([num(T(i)) for i in r], descending) for r in rows]
    ix = torch.tensor(o, dtype=torch.int64).reshape(x.shape).movedim(-1, d)
    return mk(torch.gather(idt, d, ix), a.dtype), ix.contiguous()


@h("argsort")
def _argsort(name, a, dim=-1, descending=False, stable=False):
    return _sort(name, a, dim, descending)[1]


@h("topk")
def _topk(name, a, k, dim=-1, largest=True, sorted=True):
    v, i = _sort(name, a, dim, largest)
    d = dim % max(1, a.dim())
    if k > a.shape[d]:
        raise RuntimeError("selected index k out of range")
    vi = ids(v).narrow(d, 0, k).clone()
    return mk(vi, a.dtype), i.narrow(d, 0, k).contiguous()


@h("kthvalue")
def _kth(name, a, k, dim=-1, keepdim=False):
    v, i = _sort(name, a, dim, False)
    d = dim % a.dim()
    vi, ii = ids(v).select(d, k - 1), i.select(d, k - 1)
    if keepdim:
        vi, ii = vi.unsqueeze(d), ii.unsqueeze(d)
    return mk(vi.clone(), a.dtype), ii


@h("median")
def _median(name, a, dim=None, keepdim=False):
    if dim is None:
        f = ids(a).reshape(-1)
        o = order_ids([T(i) for i in f.tolist()], False)
        return mk(f[o[(len(o) - 1) // 2]].clone(), a.dtype)
    return _kth(name, a, (a.shape[dim] - 1) // 2 + 1, dim, keepdim)


@h("var", "std")
def _var(name, a, dim=None, correction=1, keepdim=False, unbiased=None):
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    if isinstance(correction, bool):
        correction = int(correction)
    if unbiased is not None:
        correction = 1 if unbiased else 0
    if correction is None:
        correction = 1
    def f(ts):
        n = len(ts)
        m = mul(tm.const(Fraction(1, n)), sum_terms(ts))
        s = sum_terms([mul(add(t, neg(m)), add(t, neg(m))) for t in ts])
        if n - correction <= 0:
            return tm.mk("nan")
        v = mul(tm.const(Fraction(1) / Fraction(n - correction)), s)
        return tsqrt(v) if name == "std" else v
    return out(reduce_(ids(a), dim, keepdim, f, tm.mk("nan")), a.dtype)


@h("var_mean", "std_mean")
def _var_mean(name, a, dim=None, correction=1, keepdim=False, **k):
    return _var(name[:3], a, dim, correction, keepdim, **k), _mean("mean", a, dim, keepdim)


@h("linalg_vector_norm")
def _vnorm(name, a, ord=2, dim=None, keepdim=False, dtype=None):
    def f(ts):
        if ord == 2:
            sq = []
            for t in ts:
                if t.sort == "C":
                    x, y = t.args
                    sq.append(add(mul(x, x), mul(y, y)))
                else:
                    sq.append(mul(t, t))
            if len(sq) == 1 and ts[0].sort != "C":
                return cabs(ts[0])
            return tm.sqrt(sum_terms(sq))
        if ord == 1:
            return sum_terms([cabs(t) for t in ts])
        if ord == math.inf:
            return maxterms([cabs(t) for t in ts])
        if ord == -math.inf:
            return tm.neg(maxterms([tm.neg(cabs(t)) for t in ts]))
        if ord == 0:
            return sum_terms([tm.toreal(tm.ne(t, tm.const(0))) for t in ts])
        raise Unsupported(f"norm {ord}")
    dt = a.dtype
    if dt.is_complex:
        dt = torch.float64 if dt == torch.complex128 else torch.float32
    return out(reduce_(ids(a), dim, keepdim, f, tm.const(0)), dtype or dt)


@h("norm")
def _norm(name, a, p=2, dim=None, keepdim=False, dtype=None):
    if isinstance(p, torch.Tensor):
        raise Unsupported("norm")
    return _vnorm(name, a, 2 if p is None else p, dim, keepdim, dtype)


@h("cumsum")
def _cumsum(name, a, dim, dtype=None):
    return _cum(a, dim, add, intsum(a, dtype))


@h("cumprod")
def _cumprod(name, a, dim, dtype=None):
    return _cum(a, dim, mul, intsum(a, dtype))


def _cum(a, dim, f, dt):
    idt = ids(a)
    if idt.dim() == 0:
        return out(idt.clone(), dt)
    d = dim % idt.dim()
    x = idt.movedim(d, -1)
    rows = x.reshape(-1, x.shape[-1]).tolist()
    res = []
    for r in rows:
        acc = None
        o = []
        for i in r:
            t = num(T(i))
            acc = t if acc is None else f(acc, t)
            o.append(acc.id)
        res.append(o)
    return out(torch.tensor(res, dtype=torch.int64).reshape(x.shape).movedim(-1, d), dt)


@h("logsumexp")
def _lse(name, a, dim, keepdim=False):
    return out(reduce_(ids(a), dim, keepdim, lambda ts: tm.fn("log", sum_terms([tm.fn("exp", t) for t in ts])), tm.mk("nan")), a.dtype)


@h("_softmax", "softmax")
def _softmax(name, a, dim, x=None):
    idt = map_ids(realf("exp"), ids(a))
    s = reduce_(idt, [dim], True, sum_terms, tm.const(0))
    return out(map_ids(div, idt, s), a.dtype)


@h("count_nonzero")
def _cnz(name, a, dim=None):
    return out(reduce_(conv(ids(a), torch.bool), dim, False, lambda ts: sum_terms([tm.toint(t) for t in ts]), tm.const(0, "I")), torch.int64)


# linear algebra --------------------------------------------------------------
def dot(r, c):
    acc = None
    for i, j in zip(r, c):
        x, y = T(i), T(j)
        if x.op == "const" and not x.val.d and y.total or y.op == "const" and not y.val.d and x.total:
            continue
        p = mul(x, y)
        acc = p if acc is None else add(acc, p)
    return acc if acc is not None else tm.const(0)


def matmul_ids(a, b):
    """(n,k) x (k,m)"""
    A, B = a.tolist(), b.t().tolist()
    memo = {}
    o = []
    for r in A:
        row = []
        for c in B:
            k = (tuple(r), tuple(c))
            v = memo.get(k)
            if v is None:
                v = memo[k] = dot(r, c).id
            row.append(v)
        o.append(row)
    return torch.tensor(o, dtype=torch.int64).reshape(a.shape[0], b.shape[1])


@h("mm")
def _mm(name, a, b, out_dtype=None):
    if a.shape[-1] != b.shape[-2]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    if a.dtype != b.dtype:
        raise RuntimeError(f"expected m1 and m2 to have the same dtype, but got: {a.dtype} != {b.dtype}")
    return out(matmul_ids(ids(a), ids(b)), a.dtype)


@h("bmm")
def _bmm(name, a, b):
    if a.dtype != b.dtype:
        raise RuntimeError("expected scalar types to match")
    x, y = ids(a), ids(b)
    if x.shape[0] == 0:
        return out(torch.zeros((0, a.shape[1], b.shape[2]), dtype=torch.int64), a.dtype)
    return out(torch.stack([matmul_ids(x[i], y[i]) for i in range(x.shape[0])]), a.dtype)


@h("mv")
def _mv(name, a, b):
    return out(matmul_ids(ids(a), ids(b).unsqueeze(1)).squeeze(1), a.dtype)


@h("dot", "vdot")
def _dot(name, a, b):
    x = ids(a)
    if name == "vdot" and a.dtype.is_complex:
        x = map_ids(tm.conj, x)
    return out(matmul_ids(x.unsqueeze(0), ids(b).unsqueeze(1)).reshape(()), a.dtype)


@h("addmm", "baddbmm", "addmv")
def _addmm(name, c, a, b, beta=1, alpha=1):
    m = {"addmm": _mm, "baddbmm": _bmm, "addmv": _mv}[name](name, a, b)
    r = map_ids(lambda x, y: add(mul(lift_value(beta), x) if beta != 1 else x, mul(lift_value(alpha), y) if alpha != 1 else y), ids(c).expand(m.shape), ids(m))
    return out(r, c.dtype)


@h("addbmm")
def _addbmm(name, c, a, b, beta=1, alpha=1):
    raise Unsupported("addbmm")


@h("linalg_cross", "cross")
def _cross(name, a, b, dim=-1):
    x, y = torch.broadcast_tensors(ids(a), ids(b))
    if dim is None:
        dim = [i for i in range(x.dim()) if x.shape[i] == 3][0]
    x, y = x.movedim(dim, -1), y.movedim(dim, -1)
    o = []
    for r, s in zip(x.reshape(-1, 3).tolist(), y.reshape(-1, 3).tolist()):
        u, v = [T(i) for i in r], [T(i) for i in s]
        o.append([add(mul(u[1], v[2]), neg(mul(u[2], v[1]))).id, add(mul(u[2], v[0]), neg(mul(u[0], v[2]))).id,
                  add(mul(u[0], v[1]), neg(mul(u[1], v[0]))).id])
    return out(torch.tensor(o, dtype=torch.int64).reshape(x.shape).movedim(-1, dim), result_dtype(a, b))


def det_terms(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return add(mul(M[0][0], M[1][1]), neg(mul(M[0][1], M[1][0])))
    acc = None
    for j in range(n):
        m = [[r[k] for k in range(n) if k != j] for r in M[1:]]
        t = mul(M[0][j], det_terms(m))
        if j % 2:
            t = neg(t)
        acc = t if acc is None else add(acc, t)
    return acc


def mats(a):
    x = ids(a)
    n, m = x.shape[-2:]
    return [[[T(i) for i in r] for r in M] for M in x.reshape(-1, n, m).tolist()], x.shape


def mats_out(Ms, shape, dt):
    return out(torch.tensor([[[t.id for t in r] for r in M] for M in Ms], dtype=torch.int64).reshape(shape), dt)


@h("_linalg_det", "linalg_det", "det")
def _det(name, a):
    Ms, sh = mats(a)
    d = out(torch.tensor([det_terms(M).id for M in Ms], dtype=torch.int64).reshape(sh[:-2]), a.dtype)
    if name == "_linalg_det":
        return d, torch.full(sh, float("nan"), dtype=a.dtype), torch.zeros(sh[:-1], dtype=torch.int32)
    return d


def inv_terms(M):
    n = len(M)
    if n > 4:
        raise Unsupported("inverse > 4x4")
    d = det_terms(M)
    if n == 1:
        return [[div(tm.const(1), M[0][0])]]
    res = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = [[M[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
            t = det_terms(m)
            if (i + j) % 2:
                t = neg(t)
            res[j][i] = div(t, d)
    return res


@h("linalg_inv_ex", "inverse", "linalg_inv")
def _inv(name, a, check_errors=False):
    Ms, sh = mats(a)
    r = mats_out([inv_terms(M) for M in Ms], sh, a.dtype)
    if name == "linalg_inv_ex":
        return r, torch.zeros(sh[:-2], dtype=torch.int32)
    return r


@h("_linalg_solve_ex", "linalg_solve_ex", "linalg_solve")
def _solve(name, A, B, left=True, check_errors=False):
    Ms, sh = mats(A)
    inv = mats_out([inv_terms(M) for M in Ms], sh, A.dtype)
    vec = B.dim() == A.dim() - 1
    b = B.unsqueeze(-1) if vec else B
    r = torch.matmul(inv, b) if left else torch.matmul(b, inv)
    if vec:
        r = r.squeeze(-1)
    if name == "linalg_solve":
        return r
    if name == "linalg_solve_ex":
        return r, torch.zeros(sh[:-2], dtype=torch.int32)
    return r, torch.full(sh, float("nan"), dtype=A.dtype), torch.zeros(sh[:-1], dtype=torch.int32), torch.zeros(sh[:-2], dtype=torch.int32)


@h("linalg_cholesky_ex", "cholesky")
def _chol(name, a, upper=False, check_errors=False):
    Ms, sh = mats(a)
    res = []
    for M in Ms:
        n = len(M)
        L = [[tm.const(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = M[i][j]
                for k in range(j):
                    s = add(s, neg(mul(L[i][k], L[j][k])))
                L[i][j] = tsqrt(s) if i == j else div(s, L[j][j])
        if upper:
            L = [list(r) for r in zip(*L)]
        res.append(L)
    r = mats_out(res, sh, a.dtype)
    return (r, torch.zeros(sh[:-2], dtype=torch.int32)) if name.startswith("linalg") else r


@h("_linalg_check_errors")
def _chk(name, *a, **k):
    return None


@h("linalg_matrix_exp")
def _mexp(name, a):
    raise Unsupported("matrix_exp")


@h("_cdist_forward", "cdist", "_euclidean_dist")
def _cdist(name, a, b, p=2.0, mode=None):
    x, y = ids(a), ids(b)
    d = map_ids(lambda u, v: add(u, neg(v)), x.unsqueeze(-2), y.unsqueeze(-3))
    t = mk(d, a.dtype)
    return _vnorm(name, t, p, [-1])


@h("trace")
def _trace(name, a):
    return _sum("sum", a.diagonal(), dtype=None)


# data movement -----------------------------------------------------------------
MOVE = {"cat", "stack", "repeat", "flip", "roll", "gather", "index_select", "take", "tril", "triu", "constant_pad_nd", "reflection_pad1d",
        "reflection_pad2d", "replication_pad1d", "replication_pad2d", "rot90", "diag", "diag_embed", "take_along_dim", "repeat_interleave", "im2col", "unfold_copy",
        "view_copy", "permute_copy", "expand_copy", "select_copy", "slice_copy", "_reshape_copy", "kron", "block_diag", "tile", "fliplr", "flipud",
        "select_scatter", "slice_scatter", "as_strided_copy", "_unsafe_view", "reshape", "channel_shuffle", "pixel_shuffle", "pixel_unshuffle", "diagonal_copy", "meshgrid", "combinations", "cartesian_prod",
        "select_backward", "movedim", "masked_select_dummy", "reflection_pad3d", "replication_pad3d", "_pad_circular", "_unsafe_index_dummy", "unbind_copy", "split_copy", "transpose_copy", "t_copy", "squeeze_copy", "unsqueeze_copy", "vstack", "hstack", "dstack", "column_stack", "index_dummy"}


def move(func, name, args, kwargs):
    """run a pure data movement operator on the ids themselves (as float64 when needed)"""
    zero = tm.const(0).id
    dts = []

    def is_data(x):
        return isinstance(x, torch.Tensor)

    flat, spec = tree_flatten((args, kwargs))
    tens = [x for x in flat if isinstance(x, torch.Tensor)]
    # the index argument of gather/index_select/take stays as it is
    keep = set()
    if name in ("gather", "index_select", "take", "take_along_dim"):
        for x in tens[1:]:
            keep.add(id(x))
    if name == "repeat_interleave" and len(tens) > 1:
        keep.add(id(tens[1]))
    for x in tens:
        if id(x) in keep:
            if is_sym(x):
                return None
        else:
            dts.append(x.dtype)
    dt = dts[0]
    for d in dts[1:]:
        dt = torch.promote_types(dt, d)
    zid = {"R": tm.const(0).id, "I": tm.const(0, "I").id, "B": tm.FALSE.id, "C": tm.cpx(tm.const(0), tm.const(0)).id}[sort_of(dt)]

    def f(x):
        if isinstance(x, torch.Tensor) and id(x) not in keep:
            i = conv(ids(x), dt)
            return i.to(torch.float64) + 1
        return x
    if name in ("tril", "triu", "diag_embed", "diag", "block_diag", "constant_pad_nd"):
        if name == "constant_pad_nd":
            a = list(args)
            v = a[2] if len(a) > 2 else kwargs.get("value", 0)
            fill = coerce(lift_value(v), dt).id
            base = f(args[0])
            r = torch.ops.aten.constant_pad_nd(base, args[1], float(fill + 1))
            return mk((r - 1).round().to(torch.int64), dt)
        a2 = tree_map(f, args)
        r = func(*a2, **kwargs)
        r = torch.where(r == 0, torch.full_like(r, zid + 1), r)
    else:
        r = func(*tree_map(f, args), **tree_map(f, kwargs))
    g = lambda x: mk((x - 1).round().to(torch.int64), dt) if isinstance(x, torch.Tensor) else x
    return tree_map(g, r)


@h("copy")
def _copy(name, a, b, non_blocking=False):
    return out(ids(b).expand(a.shape).clone(), a.dtype)


@h("fill")
def _fill(name, a, v):
    return out(idof(v).expand(a.shape).clone(), a.dtype)


@h("zero")
def _zero(name, a):
    return torch.zeros(a.shape, dtype=a.dtype)


@h("zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones", "new_empty", "new_full", "rand_like", "randn_like", "new_empty_strided", "empty_strided")
def _like(name, a, *args, dtype=None, **kw):
    dt = dtype or a.dtype
    if name.startswith("new"):
        shape = args[0]
        rest = args[1:]
    else:
        shape, rest = a.shape, args
    if "zeros" in name:
        return torch.zeros(shape, dtype=dt)
    if "ones" in name:
        return torch.ones(shape, dtype=dt)
    if "full" in name:
        v = rest[0] if rest else kw.get("fill_value")
        if isinstance(v, torch.Tensor) and is_sym(v):
            return out(ids(v).expand(shape).clone(), dt)
        return torch.full(shape, v, dtype=dt)
    if name == "rand_like":
        return rng("rand", tuple(shape), dt)
    if name == "randn_like":
        return rng("randn", tuple(shape), dt)
    return uninit(tuple(shape), dt)


def uninit(shape, dt):
    if dt.is_floating_point or dt.is_complex:
        return torch.full(shape, float("nan"), dtype=dt)
    if dt == torch.bool:
        return torch.zeros(shape, dtype=dt)
    return torch.full(shape, torch.iinfo(dt).max, dtype=dt)


def rng(kind, shape, dt, **kw):
    st = STATE
    n = 1
    for s in shape:
        n *= s
    if st.rng_cb is None:
        raise Unsupported("random numbers in this harness")
    return st.rng_cb(kind, shape, dt, **kw)


@h("full")
def _full(name, shape, v, dtype=None, **kw):
    if isinstance(v, torch.Tensor) and is_sym(v):
        return out(ids(v).expand(shape).clone(), dtype or v.dtype)
    return None


@h("scalar_tensor")
def _scalar_tensor(name, v, dtype=None, **kw):
    return None


@h("arange", "linspace")
def _creation(name, *a, **k):
    return None


# indexing ------------------------------------------------------------------------
def concrete_index(x):
    """symbolic index tensor -> concrete (forking on each element's value)"""
    if not isinstance(x, torch.Tensor) or not is_sym(x):
        return x
    idt = ids(x)
    o = []
    for i in idt.reshape(-1).tolist():
        o.append(concretise(T(i)))
    if x.dtype == torch.bool:
        return torch.tensor(o, dtype=torch.bool).reshape(x.shape)
    return torch.tensor(o, dtype=torch.int64).reshape(x.shape)


def concretise(t):
    if t.op == "bconst":
        return t.val
    if t.sort == "B":
        return STATE.decide(t)
    if tm.isc(t):
        return int(t.val.rat()) if t.sort == "I" else float(t.val)
    if t.op == "ite":
        return concretise(t.args[1] if STATE.decide(t.args[0]) else t.args[2])
    if t.op == "toreal":
        return float(concretise(t.args[0]))
    if t.sort == "I":
        v = STATE.engine.concretise(t)
        return v
    raise Unsupported("value of a symbolic real is needed: " + tm.show(t)[:200])


@h("index", "_unsafe_index")
def _index(name, a, indices):
    idx = [concrete_index(i) for i in indices]
    r = ids(a)[tuple(slice(None) if i is None else i for i in idx)] if is_sym(a) else None
    if r is None:
        return a[tuple(slice(None) if i is None else i for i in idx)]
    return mk(r.clone(), a.dtype)


def sym_select(a, idx, name):
    return None


@h("index_put", "_index_put_impl", "_unsafe_index_put")
def _index_put(name, a, indices, values, accumulate=False, unsafe=False):
    idt = ids(a).clone()
    # boolean mask with a broadcastable scalar: no fork needed
    if len(indices) == 1 and indices[0] is not None and indices[0].dtype == torch.bool and is_sym(indices[0]) and values.numel() == 1 and not accumulate:
        m = ids(indices[0])
        m = m.reshape(m.shape + (1,) * (idt.dim() - m.dim()))
        return out(map_ids(lambda x, c, v: where(c, v, x), *torch.broadcast_tensors(idt, m, ids(values).reshape(()))), a.dtype)
    idx = tuple(slice(None) if i is None else concrete_index(i) for i in indices)
    v = conv(ids(values), a.dtype)
    if accumulate:
        pos = torch.arange(idt.numel()).reshape(idt.shape)[idx]
        vv = v.expand(pos.shape)
        flat = idt.reshape(-1)
        for p, x in zip(pos.reshape(-1).tolist(), vv.reshape(-1).tolist()):
            flat[p] = add(T(int(flat[p])), T(x)).id
        return mk(flat.reshape(idt.shape), a.dtype)
    idt[idx] = v
    return mk(idt, a.dtype)


@h("masked_select")
def _masked_select(name, a, m):
    mm = concrete_index(m)
    x, mm = torch.broadcast_tensors(ids(a), mm)
    return mk(x[mm].clone(), a.dtype)


@h("masked_scatter")
def _masked_scatter(name, a, m, src):
    mm = concrete_index(m).expand(a.shape)
    x = ids(a).clone()
    x[mm] = ids(src).reshape(-1)[: int(mm.sum())]
    return mk(x, a.dtype)


@h("nonzero", "nonzero_numpy", "argwhere")
def _nonzero(name, a, as_tuple=False):
    c = conv(ids(a), torch.bool)
    b = torch.tensor([concretise(T(i)) for i in c.reshape(-1).tolist()], dtype=torch.bool).reshape(a.shape)
    if name == "nonzero_numpy" or as_tuple:
        return list(b.nonzero(as_tuple=True))
    return b.nonzero()


@h("gather", "index_select", "take", "take_along_dim")
def _gather(name, a, *args, **kw):
    args = [concrete_index(x) for x in args]
    kw = {k: concrete_index(v) for k, v in kw.items() if k != "sparse_grad"}
    f = getattr(torch, name)
    r = f(ids(a), *args, **kw)
    return mk(r.clone(), a.dtype)


@h("scatter", "scatter_add", "index_add", "index_copy", "index_fill", "scatter_reduce", "index_reduce")
def _scatter(name, a, dim, index, src=None, *rest, **kw):
    index = concrete_index(index)
    src = kw.get("source", kw.get("value", src)) if src is None else src
    idt = ids(a).clone()
    red = kw.get("reduce", rest[0] if rest and isinstance(rest[0], str) else None)
    alpha = kw.get("alpha", 1)
    include_self = kw.get("include_self", True)
    d = dim % max(idt.dim(), 1)
    if name in ("index_add", "index_copy", "index_fill", "index_reduce"):
        sid = conv(idof(src), a.dtype)
        if name == "index_fill":
            shp = list(idt.shape)
            shp[d] = index.numel()
            sid = sid.expand(shp)
        dst = idt.movedim(d, 0)
        s = sid.movedim(d, 0)
        for k, i in enumerate(index.reshape(-1).tolist()):
            if name == "index_add":
                dst[i] = map_ids(lambda x, y: add(x, mul(lift_value(alpha), y) if alpha != 1 else y), dst[i], s[k])
            elif name == "index_reduce":
                raise Unsupported(name)
            else:
                dst[i] = s[k]
        return mk(idt, a.dtype)
    sid = conv(idof(src), a.dtype)
    if sid.dim() == 0:
        sid = sid.expand(index.shape)
    first = {}
    pos = torch.arange(idt.numel()).reshape(idt.shape)
    sub = pos[tuple(slice(0, s) if k != d else slice(None) for k, s in enumerate(index.shape))]
    tgt = torch.gather(sub, d, index)
    flat = idt.reshape(-1).tolist()
    touched = set()
    counts = {}
    for p, x in zip(tgt.reshape(-1).tolist(), sid[tuple(slice(0, s) for s in index.shape)].reshape(-1).tolist()):
        cur, new = T(flat[p]), T(x)
        if name == "scatter" and red is None:
            v = new
        elif name == "scatter_reduce" and not include_self and p not in touched:
            v = new
        else:
            r = "add" if name == "scatter_add" else red
            if r in ("sum", "add", "mean"):
                v = add(cur, new)
            elif r in ("prod", "multiply"):
                v = mul(cur, new)
            elif r == "amax":
                v = mx(cur, new)
            elif r == "amin":
                v = mn(cur, new)
            else:
                raise Unsupported("scatter " + str(r))
        counts[p] = counts.get(p, 0) + 1
        touched.add(p)
        flat[p] = v.id
    if red == "mean":
        for p, c in counts.items():
            flat[p] = div(T(flat[p]), tm.const(c + (1 if include_self else 0))).id
    return mk(torch.tensor(flat, dtype=torch.int64).reshape(idt.shape), a.dtype)


@h("bincount")
def _bincount(name, a, weights=None, minlength=0):
    v = concrete_index(a)
    n = max(int(v.max()) + 1 if v.numel() else 0, minlength)
    if weights is None:
        return torch.bincount(v, minlength=minlength)
    o = [tm.const(0)] * n
    for i, w in zip(v.tolist(), ids(weights).tolist()):
        o[i] = add(o[i], tm.toreal(num(T(w))))
    return out(torch.tensor([t.id for t in o]), torch.float64)


@h("histc")
def _histc(name, a, bins=100, min=0, max=0):
    if min == max:
        raise Unsupported("histc over the range of the data")
    lo, hi = Fraction(min), Fraction(max)
    n = [0] * bins
    for t in ids(a).reshape(-1).tolist():
        t = T(t)
        x = tm.toreal(num(t))
        if not STATE.decide(tm.ge(x, tm.const(lo))) or not STATE.decide(tm.le(x, tm.const(hi))):
            continue
        k = 0
        while k + 1 < bins and STATE.decide(tm.ge(x, tm.const(lo + (hi - lo) * (k + 1) / bins))):
            k += 1
        n[k] += 1
    return torch.tensor(n, dtype=a.dtype)


@h("searchsorted")
def _searchsorted(name, seq, vals, out_int32=False, right=False, side=None, sorter=None):
    if side == "right":
        right = True
    s = ids(seq)
    if s.dim() != 1:
        raise Unsupported("batched searchsorted")
    sl = [T(i) for i in s.tolist()]
    f = (lambda b, v: tm.le(b, v)) if right else (lambda b, v: tm.lt(b, v))
    g = lambda v: sum_terms([tm.toint(f(b, v)) for b in sl]) if sl else tm.const(0, "I")
    return out(map_ids(g, idof(vals)), torch.int64)


@h("bucketize")
def _bucketize(name, vals, seq, out_int32=False, right=False):
    return _searchsorted(name, seq, vals, right=right)


@h("unique", "_unique2", "unique_consecutive", "unique_dim", "_unique")
def _unique(name, *a, **k):
    raise Unsupported("unique")


@h("equal")
def _equal(name, a, b):
    if a.shape != b.shape:
        return False
    c = map_ids(cmpop(tm.eq), ids(a), ids(b))
    return STATE.decide(tm.band_all([T(i) for i in c.reshape(-1).tolist()]))


@h("isclose")
def _isclose(name, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    f = lambda x, y: tm.le(cabs(add(x, neg(y))), tm.add(tm.num(atol), tm.mul(tm.num(rtol), cabs(y))))
    return out(map_ids(f, ids(a), ids(b)), torch.bool)


@h("_local_scalar_dense", "item")
def _item(name, a):
    t = T(int(ids(a).reshape(())))
    return concretise(t)


@h("is_nonzero")
def _is_nonzero(name, a):
    t = coerce(T(int(ids(a).reshape(()))), torch.bool)
    return STATE.decide(t)


# complex views ------------------------------------------------------------------------
@h("view_as_real")
def _var_(name, a):
    idt = ids(a)
    o = [[x.id for x in tm.cparts(T(i))] for i in idt.reshape(-1).tolist()]
    return mk(torch.tensor(o, dtype=torch.int64).reshape(tuple(a.shape) + (2,)), torch.float64 if a.dtype == torch.complex128 else torch.float32)


@h("view_as_complex")
def _vac(name, a):
    idt = ids(a).reshape(-1, 2).tolist()
    o = [tm.cpx(T(x), T(y)).id for x, y in idt]
    return mk(torch.tensor(o, dtype=torch.int64).reshape(a.shape[:-1]), torch.complex128 if a.dtype == torch.float64 else torch.complex64)


# FFT -----------------------------------------------------------------------------------
def dft1(rows, n, inverse):
    """rows: list of list of complex Terms (length n)"""
    tw = []
    for k in range(n):
        r = Fraction(2 * k, n) * (1 if inverse else -1)
        c, s = tm.exact_trig("cos", r), tm.exact_trig("sin", r)
        if c is None:
            c, s = tm.const_of_float(math.cos(math.pi * float(r))), tm.const_of_float(math.sin(math.pi * float(r)))
        tw.append(tm.cpx(tm.const(c), tm.const(s)))
    o = []
    for r in rows:
        o.append([sum_terms([tm.cmul(tw[(j * k) % n], r[j]) for j in range(n)]) for k in range(n)])
    return o


def fft_dim(idt, d, inverse):
    x = idt.movedim(d, -1)
    n = x.shape[-1]
    rows = [[T(i) if T(i).sort == "C" else tm.cpx(tm.toreal(T(i)), tm.const(0)) for i in r] for r in x.reshape(-1, n).tolist()]
    o = dft1(rows, n, inverse)
    return torch.tensor([[t.id for t in r] for r in o], dtype=torch.int64).reshape(x.shape).movedim(-1, d)


def fft_scale(mode, n, idt):
    if mode == 0:
        return idt
    f = tm.const(Fraction(1, n)) if mode == 2 else tm.div(tm.const(1), tm.sqrt(tm.const(n)))
    return map_ids(lambda t: mul(f, t), idt)


def cdt(dt):
    return torch.complex128 if dt in (torch.float64, torch.complex128) else torch.complex64


def rdt(dt):
    return torch.float64 if dt in (torch.float64, torch.complex128) else torch.float32


@h("_fft_c2c")
def _c2c(name, a, dim, normalization, forward):
    idt = conv(ids(a), cdt(a.dtype))
    n = 1
    for d in dim:
        n *= a.shape[d]
        idt = fft_dim(idt, d % a.dim(), not forward)
    return mk(fft_scale(normalization, n, idt).contiguous(), cdt(a.dtype))


@h("_fft_r2c")
def _r2c(name, a, dim, normalization, onesided):
    idt = ids(a)
    n = 1
    for d in dim:
        n *= a.shape[d]
        idt = fft_dim(idt, d % a.dim(), False)
    if onesided:
        d = dim[-1] % a.dim()
        idt = idt.narrow(d, 0, a.shape[d] // 2 + 1)
    return mk(fft_scale(normalization, n, idt).contiguous(), cdt(a.dtype))


@h("_fft_c2r")
def _c2r(name, a, dim, normalization, last_dim_size):
    idt = conv(ids(a), cdt(a.dtype))
    n = last_dim_size
    for d in dim[:-1]:
        n *= a.shape[d]
        idt = fft_dim(idt, d % a.dim(), True)
    d = dim[-1] % a.dim()
    x = idt.movedim(d, -1)
    L = last_dim_size
    o = []
    for r in x.reshape(-1, x.shape[-1]).tolist():
        r = [T(i) for i in r]
        full = []
        for k in range(L):
            if k <= L // 2:
                t = r[k] if k < len(r) else tm.cpx(tm.const(0), tm.const(0))
                if k == 0 or 2 * k == L:
                    t = tm.cpx(tm.cparts(t)[0], tm.const(0))
            else:
                t = tm.conj(r[L - k]) if L - k < len(r) else tm.cpx(tm.const(0), tm.const(0))
            full.append(t)
        o.append(full)
    o = dft1(o, L, True)
    shp = tuple(x.shape[:-1]) + (L,)
    res = torch.tensor([[tm.cparts(t)[0].id for t in r] for r in o], dtype=torch.int64).reshape(shp).movedim(-1, d)
    return mk(fft_scale(normalization, n, res).contiguous(), rdt(a.dtype))


# convolution / pooling ------------------------------------------------------------------
@h("upsample_bilinear2d", "upsample_bicubic2d", "upsample_nearest2d", "_upsample_bilinear2d_aa", "_upsample_bicubic2d_aa")
def _upsample(name, x, *a, **k):
    """resampling with fixed weights: the weights are read off one-hot images"""
    xi = ids(x)
    N, C, Hh, Ww = xi.shape
    w = getattr(torch.ops.aten, name)(torch.eye(Hh * Ww, dtype=torch.float64).reshape(-1, 1, Hh, Ww), *a, **k)[:, 0]
    res = torch.empty((N, C) + tuple(w.shape[1:]), dtype=torch.int64)
    for pos in itertools.product(*map(range, res.shape)):
        col = w[(slice(None),) + pos[2:]].tolist()
        src = xi[pos[:2]].reshape(-1).tolist()
        ts = [tm.mul(tm.const(Fraction(v)), T(int(i))) for v, i in zip(col, src) if v]
        res[pos] = (sum_terms(ts) if ts else tm.const(0)).id
    return out(res, x.dtype)


@h("convolution", "conv2d", "conv1d", "conv3d")
def _conv(name, x, w, b=None, stride=(1,), padding=(0,), dilation=(1,), transposed=False, output_padding=(0,), groups=1, *rest):
    if transposed:
        raise Unsupported("transposed conv")
    nd = x.dim() - 2
    full = lambda v: list(v) * nd if len(v) == 1 else list(v)
    stride, padding, dilation = full(stride), full(padding), full(dilation)
    xi, wi = ids(x), ids(w)
    pad = []
    for p in reversed(padding):
        pad += [p, p]
    z = tm.const(0).id
    xp = torch.nn.functional.pad(xi.to(torch.float64), pad, value=float(z)).to(torch.int64)
    N, C = x.shape[:2]
    O, Cg = w.shape[:2]
    K = list(w.shape[2:])
    osz = [(xp.shape[2 + k] - dilation[k] * (K[k] - 1) - 1) // stride[k] + 1 for k in range(nd)]
    import itertools
    res = torch.empty([N, O] + osz, dtype=torch.int64)
    for n in range(N):
        for o in range(O):
            g = o // (O // groups)
            wk = wi[o].reshape(-1).tolist()
            for pos in itertools.product(*[range(s) for s in osz]):
                sl = tuple(slice(pos[k] * stride[k], pos[k] * stride[k] + dilation[k] * (K[k] - 1) + 1, dilation[k]) for k in range(nd))
                patch = xp[(n, slice(g * Cg, (g + 1) * Cg)) + sl].reshape(-1).tolist()
                t = dot(patch, wk)
                if b is not None:
                    t = add(t, T(int(ids(b)[o])))
                res[(n, o) + pos] = t.id
    return out(res, x.dtype)


def pool(x, k, stride, padding, f, nd, ceil_mode=False):
    k = list(k) * nd if len(k) == 1 else list(k)
    stride = k if not stride else (list(stride) * nd if len(stride) == 1 else list(stride))
    padding = list(padding) * nd if len(padding) == 1 else list(padding)
    if ceil_mode:
        raise Unsupported("ceil pool")
    xi = ids(x)
    import itertools
    lead = xi.shape[:-nd]
    sp = xi.shape[-nd:]
    osz = [(sp[i] + 2 * padding[i] - k[i]) // stride[i] + 1 for i in range(nd)]
    xf = xi.reshape((-1,) + tuple(sp))
    res = torch.empty([xf.shape[0]] + osz, dtype=torch.int64)
    for n in range(xf.shape[0]):
        for pos in itertools.product(*[range(s) for s in osz]):
            lo = [pos[i] * stride[i] - padding[i] for i in range(nd)]
            hi = [min(lo[i] + k[i], sp[i]) for i in range(nd)]
            lo2 = [max(v, 0) for v in lo]
            patch = xf[(n,) + tuple(slice(a, b) for a, b in zip(lo2, hi))].reshape(-1).tolist()
            res[(n,) + pos] = f([T(i) for i in patch], k).id
    return out(res.reshape(tuple(lead) + tuple(osz)), x.dtype)


@h("avg_pool2d", "avg_pool1d", "avg_pool3d")
def _avg_pool(name, x, k, stride=(), padding=(0,), ceil_mode=False, count_include_pad=True, divisor_override=None):
    nd = int(name[-2])
    def f(ts, kk):
        n = len(ts)
        if count_include_pad:
            n = 1
            for v in kk:
                n *= v
        if divisor_override:
            n = divisor_override
        return mul(tm.const(Fraction(1, n)), sum_terms(ts))
    return pool(x, k, stride, padding, f, nd, ceil_mode)


@h("max_pool2d", "max_pool1d")
def _max_pool(name, x, k, stride=(), padding=(0,), dilation=(1,), ceil_mode=False):
    return pool(x, k, stride, padding, lambda ts, kk: maxterms(ts), int(name[-2]), ceil_mode)


@h("_adaptive_avg_pool2d", "adaptive_avg_pool2d")
def _aap(name, x, osz):
    xi = ids(x)
    Hh, Ww = xi.shape[-2:]
    rows = []
    for i in range(osz[0]):
        for j in range(osz[1]):
            a, b = (i * Hh) // osz[0], -((-(i + 1) * Hh) // osz[0])
            c, d = (j * Ww) // osz[1], -((-(j + 1) * Ww) // osz[1])
            p = xi[..., a:b, c:d].reshape(xi.shape[:-2] + (-1,))
            rows.append(reduce_(p, [-1], False, lambda ts: mul(tm.const(Fraction(1, len(ts))), sum_terms(ts)), tm.const(0)))
    return out(torch.stack(rows, -1).reshape(xi.shape[:-2] + tuple(osz)), x.dtype)


@h("grid_sampler_3d")
def _grid_sampler3(name, x, grid, interpolation_mode, padding_mode, align_corners):
    if interpolation_mode != 0 or padding_mode not in (0, 1):
        raise Unsupported("mode of 3D grid sample")
    xi, gi = ids(x), ids(grid)
    N, C = xi.shape[:2]
    dims = tuple(xi.shape[2:])
    res = torch.empty((N, C) + tuple(gi.shape[1:4]), dtype=torch.int64)

    def position(t, size):
        if align_corners:
            v = tm.mul(tm.add(t, tm.const(1)), tm.const(Fraction(size - 1, 2)))
        else:
            v = tm.mul(tm.sub(tm.mul(tm.add(t, tm.const(1)), tm.const(size)), tm.const(1)), tm.const(Fraction(1, 2)))
        if padding_mode == 1:
            v = tm.tmin(tm.tmax(v, tm.const(0)), tm.const(size - 1))
        k = concretise_int(tm.floor(v), -2, size + 1)
        f = tm.sub(v, tm.const(k))
        return [(q, w) for q, w in ((k, tm.sub(tm.const(1), f)), (k + 1, f)) if 0 <= q < size and not (tm.isc(w) and not w.val.d)]

    for n in range(N):
        for pos in itertools.product(*map(range, gi.shape[1:4])):
            ax = [position(T(int(gi[(n,) + pos + (2 - d,)])), dims[d]) for d in range(3)]
            for c in range(C):
                acc = [tm.mul(tm.mul(wz, tm.mul(wy, wx)), T(int(xi[n, c, z, y, q]))) for z, wz in ax[0] for y, wy in ax[1] for q, wx in ax[2]]
                res[(n, c) + pos] = (sum_terms(acc) if acc else tm.const(0)).id
    return out(res, x.dtype)


@h("grid_sampler_2d", "grid_sampler")
def _grid_sampler(name, x, grid, interpolation_mode, padding_mode, align_corners):
    if interpolation_mode not in (0, 1):
        raise Unsupported("bicubic grid sample")
    xi, gi = ids(x), ids(grid)
    N, C, Hh, Ww = xi.shape
    res = torch.empty((N, C) + tuple(gi.shape[1:3]), dtype=torch.int64)
    half = tm.const(Fraction(1, 2))
    zero = tm.const(0)

    def unnorm(c, size):
        if align_corners:
            return tm.mul(tm.add(c, tm.const(1)), tm.const(Fraction(size - 1, 2)))
        return tm.mul(tm.sub(tm.mul(tm.add(c, tm.const(1)), tm.const(size)), tm.const(1)), half)

    def clipc(c, size):
        if padding_mode == 0:
            return c
        if padding_mode == 1:
            return tm.tmin(tm.tmax(c, zero), tm.const(size - 1))
        raise Unsupported("reflection grid sample")

    for n in range(N):
        for i in range(gi.shape[1]):
            for j in range(gi.shape[2]):
                gx, gy = T(int(gi[n, i, j, 0])), T(int(gi[n, i, j, 1]))
                ix, iy = clipc(unnorm(gx, Ww), Ww), clipc(unnorm(gy, Hh), Hh)
                if interpolation_mode == 1:
                    jx, jy = concretise_int(tm.roundhe(ix), -2, Ww + 1), concretise_int(tm.roundhe(iy), -2, Hh + 1)
                    for c in range(C):
                        ok = 0 <= jx < Ww and 0 <= jy < Hh
                        res[n, c, i, j] = int(xi[n, c, jy, jx]) if ok else zero.id
                    continue
                x0, y0 = concretise_int(tm.floor(ix), -2, Ww + 1), concretise_int(tm.floor(iy), -2, Hh + 1)
                fx, fy = tm.sub(ix, tm.const(x0)), tm.sub(iy, tm.const(y0))
                ox, oy = tm.sub(tm.const(1), fx), tm.sub(tm.const(1), fy)
                for c in range(C):
                    acc = []
                    for (dy, wy) in ((0, oy), (1, fy)):
                        for (dx, wx) in ((0, ox), (1, fx)):
                            yy, xx = y0 + dy, x0 + dx
                            if 0 <= yy < Hh and 0 <= xx < Ww:
                                acc.append(tm.mul(tm.mul(wx, wy), T(int(xi[n, c, yy, xx]))))
                    res[n, c, i, j] = (sum_terms(acc) if acc else zero).id
    return out(res, x.dtype)


def concretise_int(t, lo, hi):
    """fork on the value of an integer term clipped to [lo, hi]"""
    if tm.isc(t):
        return max(lo, min(hi, int(t.val.rat())))
    # binary decisions on the underlying real for floors
    def ge(v):
        if t.op == "floor":
            return tm.ge(t.args[0], tm.const(v))
        return tm.ge(t, tm.const(v, "I"))
    a, b = lo, hi
    while a < b:
        mid = (a + b + 1) // 2
        if STATE.decide(ge(mid)):
            a = mid
        else:
            b = mid - 1
    return a


# RNG ----------------------------------------------------------------------------------
@h("rand", "randn", "randint", "randperm", "multinomial", "bernoulli", "normal", "uniform", "random", "normal_functional", "poisson")
def _rng(name, *a, dtype=None, **kw):
    if STATE.rng_cb is None:
        return None
    if name in ("rand", "randn"):
        return rng(name, tuple(a[0]), dtype or torch.get_default_dtype())
    if name == "randint":
        lo, hi, shape = (0, a[0], a[1]) if isinstance(a[1], (list, tuple)) else a[:3]
        return rng(name, tuple(shape), dtype or torch.int64, lo=lo, hi=hi)
    if name == "randperm":
        return rng(name, (a[0],), dtype or torch.int64, n=a[0])
    if name in ("uniform", "normal", "random"):
        return rng(name, tuple(a[0].shape), a[0].dtype, args=a[1:], kw=kw)
    raise Unsupported("rng " + name)


RNG_NAMES = {"rand", "randn", "randint", "randperm", "multinomial", "bernoulli", "normal", "uniform", "random", "rand_like", "randn_like", "poisson"}
EMPTY_NAMES = {"empty", "empty_strided", "empty_like", "new_empty", "new_empty_strided", "empty_permuted"}


def schema_info(func, cache={}):
    r = cache.get(func)
    if r is None:
        sch = func._schema
        view = any(x.alias_info is not None and not x.alias_info.is_write for x in sch.arguments) and any(
            x.alias_info is not None for x in sch.returns)
        mut = [x.name for x in sch.arguments if x.alias_info is not None and x.alias_info.is_write]
        nm = func.overloadpacket.__name__
        r = cache[func] = (nm, view, mut, [x.name for x in sch.arguments])
    return r


class LazyBest:
    """result of max/min along a dimension: the values need no fork, the indices do and are only computed on demand"""

    def __init__(self, big, a, dim, keepdim):
        self.big, self.a, self.dim, self.keepdim = big, a.clone(), dim, keepdim
        self.i = None

    @property
    def values(self):
        return (torch.amax if self.big else torch.amin)(self.a, self.dim, self.keepdim)

    @property
    def indices(self):
        if self.i is None:
            self.i = (torch.argmax if self.big else torch.argmin)(self.a, self.dim, self.keepdim)
        return self.i

    def __getitem__(self, k):
        if k in (0, -2):
            return self.values
        if k in (1, -1):
            return self.indices
        raise IndexError(k)

    def __len__(self):
        return 2

    def __iter__(self):
        # both are wanted: the indices decide which entry the values are
        i = self.indices
        if self.a.dim() == 0:
            return iter((self.a, i))
        j = i if self.keepdim else i.unsqueeze(self.dim)
        v = torch.gather(self.a, self.dim, j)
        return iter((v if self.keepdim else v.squeeze(self.dim), i))


_ORIG = {"max": torch.max, "min": torch.min}
_ORIGT = {"max": torch.Tensor.max, "min": torch.Tensor.min}


def _lazy_best(nm, orig):
    def f(*args, **kw):
        a = args[0] if args else kw.get("input")
        dim = args[1] if len(args) > 1 else kw.get("dim")
        if isinstance(dim, int) and not isinstance(dim, bool) and "out" not in kw and isinstance(a, torch.Tensor) and STATE is not None and is_sym(a) \
                and a.is_floating_point():
            return LazyBest(nm == "max", a, dim, bool(args[2] if len(args) > 2 else kw.get("keepdim", False)))
        return orig(*args, **kw)
    return f


_PATCHED = [0]


class SymMode(TorchDispatchMode):
    def __init__(self, ex):
        super().__init__()
        self.ex = ex

    def __enter__(self):
        global STATE
        self._old = STATE
        STATE = self.ex
        if _PATCHED[0] == 0:
            for k in ("max", "min"):
                setattr(torch, k, _lazy_best(k, _ORIG[k]))
                setattr(torch.Tensor, k, _lazy_best(k, _ORIGT[k]))
        _PATCHED[0] += 1
        return super().__enter__()

    def __exit__(self, *a):
        global STATE
        STATE = self._old
        _PATCHED[0] -= 1
        if _PATCHED[0] == 0:
            for k in ("max", "min"):
                setattr(torch, k, _ORIG[k])
                setattr(torch.Tensor, k, _ORIGT[k])
        return super().__exit__(*a)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        nm, view, mut, names = schema_info(func)
        flat, _ = tree_flatten((args, kwargs))
        sym = False
        for x in flat:
            if isinstance(x, torch.Tensor) and is_sym(x):
                sym = True
                break
        if not sym:
            if nm in EMPTY_NAMES:
                r = func(*args, **kwargs)
                if r.device.type == "cpu" and r.numel():
                    r.copy_(uninit(tuple(r.shape), r.dtype))
                return r
            base = nm.rstrip("_") if not nm.startswith("__") else nm
            if base in RNG_NAMES:
                r = H[base](base, *args, **kwargs) if base in H else None
                if r is not None:
                    if mut:
                        tgt = args[0]
                        if is_sym(r):
                            write(tgt, ids(r))
                        else:
                            tgt.copy_(r)
                        return tgt
                    return r
            return func(*args, **kwargs)
        self.ex.ops[nm] = self.ex.ops.get(nm, 0) + 1
        if view and nm not in ("_conj", "detach", "lift_fresh", "real", "imag", "view_as_real", "view_as_complex", "_neg_view", "contiguous", "_reshape_alias_x"):
            if nm == "view" and len(args) > 1 and isinstance(args[1], torch.dtype):
                raise Unsupported("view dtype")
            return func(*args, **kwargs)
        if nm in ("lift_fresh", "detach"):
            return func(*args, **kwargs)
        if mut:
            return self.mutate(func, nm, mut, names, args, kwargs)
        return self.functional(func, nm, args, kwargs)

    def functional(self, func, nm, args, kwargs):
        kw = {k: v for k, v in kwargs.items() if k not in ("layout", "device", "pin_memory", "memory_format", "non_blocking", "generator")}
        if nm in UN or nm in BIN:
            return elementwise(nm, args, kw)
        f = H.get(nm)
        if f is not None:
            if nm == "full":
                r = f(nm, *args, **kw)
            else:
                r = f(nm, *args, **kw)
            if r is not None:
                return r
        if nm in MOVE:
            r = move(func, nm, args, kw)
            if r is not None:
                return r
        dec = torch._decomp.decomposition_table.get(func)
        if dec is not None:
            with self:
                return dec(*args, **kwargs)
        if nm in ("_assert_async", "_assert_scalar", "_functional_assert_async"):
            if not STATE.decide(coerce(T(int(ids(args[0]).reshape(()))), torch.bool)):
                raise AssertionError("assert_async")
            return None
        if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), "CompositeImplicitAutograd"):
            with self:
                return func.decompose(*args, **kwargs)
        raise Unsupported(f"operator {func}")

    def mutate(self, func, nm, mut, names, args, kwargs):
        # out= variants
        if "out" in mut or any(k in kwargs for k in mut):
            outs = [kwargs[k] for k in mut if k in kwargs]
            kw = {k: v for k, v in kwargs.items() if k not in mut}
            r = self.call_functional(func, nm, args, kw)
            rs = r if isinstance(r, (tuple, list)) else [r]
            for o, x in zip(outs, rs):
                if tuple(o.shape) != tuple(x.shape):
                    if o.numel() == 0:
                        o.resize_(x.shape)
                    else:
                        raise RuntimeError("out shape mismatch")
                write(o, ids(x))
            return outs[0] if len(outs) == 1 else tuple(outs)
        tgt = args[0]
        base = nm
        if nm.startswith("__i"):
            base = {"__irshift__": "bitwise_right_shift", "__ilshift__": "bitwise_left_shift", "__iand__": "bitwise_and", "__ior__": "bitwise_or", "__ixor__": "bitwise_xor"}.get(nm, nm)
        elif nm == "_index_put_impl_":
            base = "_index_put_impl"
        elif nm.endswith("_"):
            base = nm[:-1]
        if base in ("resize", "set", "requires_grad", "squeeze", "unsqueeze", "transpose", "t", "swapaxes", "as_strided"):
            return func(*args, **kwargs)
        if base == "copy":
            if tuple(tgt.shape) != tuple(args[1].shape):
                src = ids(args[1]).expand(tgt.shape)
            else:
                src = ids(args[1])
            write(tgt, src.clone())
            return tgt
        r = self.call_functional(func, base, args, kwargs)
        if tuple(r.shape) != tuple(tgt.shape):
            if torch.broadcast_shapes(r.shape, tgt.shape) != tgt.shape:
                raise RuntimeError(f"output with shape {list(tgt.shape)} doesn't match the broadcast shape {list(r.shape)}")
        rs, ts = sort_of(r.dtype), sort_of(tgt.dtype)
        if not torch.can_cast(r.dtype, tgt.dtype):
            raise RuntimeError(f"result type {r.dtype} can't be cast to the desired output type {tgt.dtype}")
        write(tgt, ids(r).clone() if is_sym(r) else lift_ids(r))
        return tgt

    def call_functional(self, func, base, args, kwargs):
        kw = {k: v for k, v in kwargs.items() if k not in ("layout", "device", "pin_memory", "memory_format", "non_blocking", "generator")}
        if base in UN or base in BIN:
            return elementwise(base, args, kw)
        f = H.get(base)
        if f is not None:
            r = f(base, *args, **kw)
            if r is not None:
                return r
        pk = getattr(aten, base, None)
        if pk is not None:
            with self:
                return pk(*args, **kwargs)
        raise Unsupported(f"in-place operator {func}")


def reset():
    REG.clear()


def qr_terms(M):
    """reduced QR as LAPACK computes it (Householder; forks on the sign of the pivot)"""
    m, n = len(M), len(M[0])
    A = [list(r) for r in M]
    k = min(m, n)
    vs = []
    for j in range(k):
        tail = [A[i][j] for i in range(j + 1, m)]
        rest = sum_terms([mul(t, t) for t in tail]) if tail else tm.const(0)
        if not tail or not STATE.decide(tm.gt(rest, tm.const(0))):
            vs.append(None)
            continue
        a = A[j][j]
        norm = tm.sqrt(add(mul(a, a), rest))
        beta = norm if STATE.decide(tm.lt(a, tm.const(0))) else neg(norm)
        v = [div(t, add(a, neg(beta))) for t in tail]
        tau = div(add(beta, neg(a)), beta)
        vs.append((v, tau))
        for col in range(j, n):
            s = add(A[j][col], sum_terms([mul(v[i], A[j + 1 + i][col]) for i in range(len(v))]))
            s = mul(tau, s)
            if col == j:
                A[j][j] = beta
                for i in range(len(v)):
                    A[j + 1 + i][j] = tm.const(0)
                continue
            A[j][col] = add(A[j][col], neg(s))
            for i in range(len(v)):
                A[j + 1 + i][col] = add(A[j + 1 + i][col], neg(mul(v[i], s)))
    R = [[A[i][j] if i <= j else tm.const(0) for j in range(n)] for i in range(k)]
    Qm = [[tm.const(1 if i == j else 0) for j in range(k)] for i in range(m)]
    for j in reversed(range(k)):
        if vs[j] is None:
            continue
        v, tau = vs[j]
        for col in range(k):
            s = mul(tau, add(Qm[j][col], sum_terms([mul(v[i], Qm[j + 1 + i][col]) for i in range(len(v))])))
            Qm[j][col] = add(Qm[j][col], neg(s))
            for i in range(len(v)):
                Qm[j + 1 + i][col] = add(Qm[j + 1 + i][col], neg(mul(v[i], s)))
    return Qm, R


@h("_linalg_eigh", "linalg_eigh")
def _eigh(name, a, UPLO="L", compute_v=True):
    """only of matrices of numbers (rounded like the real call)"""
    flat = [T(i) for i in ids(a).reshape(-1).tolist()]
    if not all(tm.isc(t) for t in flat):
        raise Unsupported("eigenvectors of a symbolic matrix")
    num = torch.tensor([float(t.val.mp()) for t in flat], dtype=torch.float64).reshape(tuple(a.shape))
    w, v = torch.linalg.eigh(num, UPLO)
    back = lambda x: out(torch.tensor([tm.num(float(q)).id for q in x.reshape(-1).tolist()], dtype=torch.int64).reshape(x.shape), a.dtype)
    return back(w), back(v)


@h("linalg_qr")
def _qr(name, a, mode="reduced"):
    if mode != "reduced":
        raise Unsupported("qr " + mode)
    Ms, sh = mats(a)
    sh = tuple(sh)
    Qs, Rs = map(list, zip(*[qr_terms(M) for M in Ms]))
    k = min(sh[-2:])
    return mats_out(Qs, sh[:-1] + (k,), a.dtype), mats_out(Rs, sh[:-2] + (k, sh[-1]), a.dtype)

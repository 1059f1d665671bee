"""C29 symmetry operators, orbits of positions and reflection lists are complete"""
import contextlib
import io
from unittest.mock import patch

import torch
from vf.harness import harness
from .common import *
from .c11 import POINT_FIRST, TWO, rank

UC = "ebsdtorch.crystallography.unit_cell"
GR = "ebsdtorch.crystallography.groups"
CENTRE = {"P": [], "A": [(0, 1, 1)], "B": [(1, 0, 1)], "C": [(1, 1, 0)], "I": [(1, 1, 1)], "F": [(0, 1, 1), (1, 0, 1), (1, 1, 0)]}
BLOCKS = [(i, i + 9) for i in range(1, 191, 10)] + [(i, i + 4) for i in range(191, 220, 5)] + [(i, i + 1) for i in range(221, 230, 2)]
OPS = {}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def wrap(x):
    """distance to the nearest integer"""
    return (x - torch.round(x)).abs()


def found(ops, imgs):
    """for each image (..., 3, 4) whether it is in the operator list, translations modulo 1"""
    d = (imgs.unsqueeze(-3) - ops[:, :3])
    d = torch.cat([d[..., :3].abs(), wrap(d[..., 3:])], -1)
    return (d.amax((-1, -2)) < 1e-3).sum(-1)


def closed(g, sg, setting):
    """operator list and the operators whose products leave it (concrete tables: computed once per run)"""
    if (id(g), sg, setting) not in OPS:
        with quiet():
            ops = g.sg_operators(sg, setting)
        bad = [k for k in range(len(ops)) if not bool((found(ops, (ops[k] @ ops)[:, :3]) == 1).all())]
        OPS[id(g), sg, setting] = (ops, bad)
    return OPS[id(g), sg, setting]


@harness("C29", cases=[(i, j, 1) for i, j in BLOCKS] + [(0, 0, 2)], budget=100)
def operators(c, first, last, setting):
    """every space group (solver integer in a block of ten) and both origin choices: identity, order, closure under
    products with every operator, inverses, integer unimodular linear parts, homogeneous row; and the images of a
    symbolic position under the closed list are permuted by a solver-chosen operator"""
    g = c.mod(GR)
    if setting == 1:
        sg = int(c.ints("sg", first, last).item())
    else:
        sg = sorted(TWO)[int(c.ints("sg", 0, len(TWO) - 1).item())]
    ops, bad = closed(g, sg, setting)
    n = len(ops)
    c.check("order", n == g.sg_ords[sg - 1])
    row = torch.tensor([0, 0, 0, 1], dtype=F64)
    c.check("homogeneous row", bool((ops[:, 3] == row).all()))
    R = ops[:, :3, :3]
    c.check("integer", bool((R == R.round()).all()) and bool((R.det().abs().round() == 1).all()))
    c.check("translations in [0, 1)", bool(((ops[:, :3, 3] >= 0) & (ops[:, :3, 3] < 1)).all()))
    eye = torch.eye(4, dtype=F64)
    c.check("identity", int(found(ops, eye[None, :3])) == 1)
    c.check(f"products {bad}", not bad)
    # a solver-chosen operator maps the orbit of a symbolic position onto itself
    x = c.var("x", (3,), 0, 1)
    k = int(c.ints("k", 0, min(n, 4) - 1).item())
    img = matvec(ops[:, :3, :3], x) + ops[:, :3, 3]
    prod = ops[k] @ ops[:4]
    for j in range(min(n, 4)):
        d = torch.cat([(prod[j][None, :3, :3] - ops[:, :3, :3]).abs().reshape(n, 9), wrap(prod[j][None, :3, 3] - ops[:, :3, 3])], -1)
        i = int(d.amax(-1).argmin())
        y = matvec(ops[k][:3, :3], img[j]) + ops[k][:3, 3]
        t = torch.round(prod[j][:3, 3] - ops[i][:3, 3])
        c.eq(f"image {j}", y, img[i] + t, tol=1e-6)
    if setting == 2:
        inv = torch.cat([-torch.eye(3, dtype=F64), torch.zeros(3, 1, dtype=F64)], 1)
        c.check("inversion at the origin", int(found(ops, inv[None])) == 1)


# general positions printed in the International Tables (first origin choice unless stated)
ITA = {
    (14, 1): ["x,y,z", "-x,y+1/2,-z+1/2"],
    (62, 1): ["x,y,z", "-x+1/2,-y,z+1/2", "-x,y+1/2,-z", "x+1/2,-y+1/2,-z+1/2"],
    (136, 1): ["x,y,z", "-x,-y,z", "-y+1/2,x+1/2,z+1/2", "y+1/2,-x+1/2,z+1/2", "-x+1/2,y+1/2,-z+1/2",
               "x+1/2,-y+1/2,-z+1/2", "y,x,-z", "-y,-x,-z"],
    (194, 1): ["x,y,z", "-y,x-y,z", "-x+y,-x,z", "-x,-y,z+1/2", "y,-x+y,z+1/2", "x-y,x,z+1/2",
               "y,x,-z", "x-y,-y,-z", "-x,-x+y,-z", "-y,-x,-z+1/2", "-x+y,y,-z+1/2", "x,x-y,-z+1/2"],
    (205, 1): ["x,y,z", "-x+1/2,-y,z+1/2", "-x,y+1/2,-z+1/2", "x+1/2,-y+1/2,-z", "z,x,y", "z+1/2,-x+1/2,-y",
               "-z+1/2,-x,y+1/2", "-z,x+1/2,-y+1/2", "y,z,x", "-y,z+1/2,-x+1/2", "y+1/2,-z+1/2,-x", "-y+1/2,-z,x+1/2"],
    (166, 1): ["x,y,z", "-y,x-y,z", "-x+y,-x,z", "y,x,-z", "x-y,-y,-z", "-x,-x+y,-z"],
}
TRANS = {166: [(0, 0, 0), (2, 1, 1), (1, 2, 2)]}


def parse(s):
    M = torch.zeros(3, 4, dtype=F64)
    for i, part in enumerate(s.split(",")):
        import re
        for sign, tok in re.findall(r"([+-]?)(x|y|z|\d/\d)", part):
            v = -1.0 if sign == "-" else 1.0
            if tok in "xyz":
                M[i, "xyz".index(tok)] += v
            else:
                M[i, 3] += v * int(tok[0]) / int(tok[2])
    return M


def reference(sg, setting):
    out = [parse(s) for s in ITA[sg, setting]]
    inv = [torch.cat([-m[:, :3], -m[:, 3:]], 1) for m in out]
    out = out + inv
    if sg in TRANS:
        out = [torch.cat([m[:, :3], m[:, 3:] + torch.tensor(t, dtype=F64)[:, None] / 3], 1) for m in out for t in TRANS[sg]]
    M = torch.stack(out)
    M[:, :, 3] = torch.remainder(M[:, :, 3] + 1e-9, 1) - 1e-9
    return M


@harness("C29", cases=[k for k in ITA])
def tables(c, sg, setting):
    """the operator list equals the general position of the International Tables, on a symbolic position"""
    g = c.mod(GR)
    with quiet():
        ops = g.sg_operators(sg, setting)
    ref = reference(sg, setting)
    c.check("count", len(ops) == len(ref))
    x = c.var("x", (3,), 0, 1)
    k = int(c.ints("k", 0, len(ref) - 1).item())
    want = matvec(ref[k][:, :3], x) + ref[k][:, 3]
    img = matvec(ops[:, :3, :3], x) + ops[:, :3, 3]
    d = (img - want)
    hit = torch.zeros((), dtype=torch.bool)
    for i in range(len(ops)):
        for s in range(1):
            e = d[i] - torch.round((ops[i][:3, 3] - ref[k][:, 3]))
            hit = hit | (e.abs() < 1e-6).all()
    c.true("image", hit)


def build(c, sg, pos, setting=1, abc=(0.4, 0.5, 0.6), angles=(90.0, 90.0, 90.0)):
    """cell with one site at a symbolic position"""
    m = c.mod(UC)
    with quiet():
        return m.Cell(sg_num=sg, sg_setting=setting, atom_data=[(28, pos[0], pos[1], pos[2], 1.0, 0.005)], abc=abc,
                      abc_units="nm", angles=angles, angles_units="deg")


GENERAL = [1, 2, 14, 15, 62, 88, 136, 176]


@harness("C29", cases=[(s,) for s in (70, 148, 166, 194)], budget=300, tier="thorough")
def large_general_orbit(c, sg):
    """general position of groups with up to 36 operators"""
    general_orbit(c, sg)


@harness("C29", cases=[(s,) for s in GENERAL], budget=60)
def general_orbit(c, sg):
    """general position in a box of side 0.004: multiplicity is the group order and every image is listed once"""
    g = c.mod(GR)
    p = [c.var(n, (), v - 0.002, v + 0.002) for n, v in (("x", 0.087), ("y", 0.213), ("z", 0.361))]
    x = build(c, sg, p)
    a = x.apos[0]
    with quiet():
        ops = g.sg_operators(sg)
    v = torch.stack(p)
    img = matvec(ops[:, :3, :3], v) + ops[:, :3, 3]
    c.check("multiplicity", len(a) == len(ops) and int(x.mults[0]) == len(ops))
    c.true("in the unit cell", (a >= 0) & (a < 1))
    if len(a) == len(ops):
        d = wrap2(a, img)
        c.true("images", d)


def wrap2(a, img):
    """row by row: equal modulo 1 (same order or any order: the nearest row at the centre of the box decides)"""
    ok = []
    for r in a:
        hit = torch.zeros((), dtype=torch.bool)
        for q in img:
            e = r - q
            ok1 = torch.ones((), dtype=torch.bool)
            for i in range(3):
                near = torch.zeros((), dtype=torch.bool)
                for k in (-2, -1, 0, 1, 2):
                    near = near | ((e[i] - k).abs() < 1e-6)
                ok1 = ok1 & near
            hit = hit | ok1
        ok.append(hit)
    return torch.stack(ok)


# special positions: space group, coordinates in a parameter u, multiplicity (International Tables)
SPECIAL = [(225, lambda u: (0 * u, 0 * u, 0 * u), 4, "a"), (205, lambda u: (u, u, u), 8, "c"),
           (136, lambda u: (u, u, 0 * u), 4, "f"), (194, lambda u: (0 * u + 1 / 3, 0 * u + 2 / 3, u), 4, "f"),
           (166, lambda u: (0 * u, 0 * u, u), 6, "c"), (166, lambda u: (0 * u + 1 / 3, 0 * u + 2 / 3, u), 6, "c"),
           (62, lambda u: (u, 0 * u + 0.25, 2 * u), 4, "c"), (148, lambda u: (0 * u + 2 / 3, 0 * u + 1 / 3, u), 6, "c"),
           (151, lambda u: (u, -u, 0 * u + 1 / 3), 3, "a"), (221, lambda u: (0 * u + 0.5, 0 * u + 0.5, u), 6, "f"),
           (229, lambda u: (0 * u + 0.25, 0 * u + 0.25, 0 * u + 0.25), 8, "c")]


@harness("C29", cases=[(i,) for i in range(len(SPECIAL))], budget=60)
def special_orbit(c, i):
    """special positions with a free parameter in [0.11, 0.114]: multiplicity of the International Tables, also for the
    image that lies on the far side of a lattice or centring translation"""
    sg, f, mult, _ = SPECIAL[i]
    u = c.var("u", (), 0.110, 0.114)
    x = build(c, sg, f(u))
    c.check("multiplicity", len(x.apos[0]) == mult and int(x.mults[0]) == mult)
    c.true("in the unit cell", (x.apos[0] >= 0) & (x.apos[0] < 1))


LETTER = {"P": 14, "A": 38, "C": 15, "I": 139, "F": 225, "R": 166}


@harness("C29", cases=[(k,) for k in LETTER])
def absences(c, letter):
    """lattice absences for every integer index within +-40: allowed exactly when the index is integral on every
    centring translation of the operator list; symmetric under sign"""
    m, g = c.mod(UC), c.mod(GR)
    sg = LETTER[letter]
    x = object.__new__(m.Cell)
    x.sg_num, x.device, x.sg_setting = sg, torch.device("cpu"), 1
    h = c.ints("h", -40, 40, (2, 3))
    with quiet():
        got = x.is_g_allowed(h)
        neg = x.is_g_allowed(-h)
        ops = g.sg_operators(sg)
    tr = [o[:3, 3] for o in ops if bool((o[:3, :3] == torch.eye(3, dtype=F64)).all())]
    want = torch.ones(2, dtype=torch.bool)
    for t in tr:
        n = torch.round(t * 6).to(torch.int64)
        want = want & ((h * n).sum(-1) % 6 == 0)
    c.true("allowed", got == want)
    c.true("friedel", got == neg)


LAT = {"cubic F": (225, (0.35, 0.35, 0.35), (90.0, 90.0, 90.0), (0.09, 0.13)),
       "cubic P": (221, (0.3, 0.3, 0.3), (90.0, 90.0, 90.0), (0.09, 0.16)),
       "hexagonal": (194, (0.3, 0.3, 0.47), (90.0, 90.0, 120.0), (0.1, 0.151)),
       "trigonal R": (166, (0.4, 0.4, 0.6), (90.0, 90.0, 120.0), (0.19, 0.21)),
       "monoclinic": (14, (0.3, 0.4, 0.35), (90.0, 110.0, 90.0), (0.14, 0.17)),
       "triclinic": (2, (0.3, 0.35, 0.4), (75.0, 110.0, 130.0), (0.16, 0.18))}


def in_cell(c, name):
    sg, abc, ang, (lo, hi) = LAT[name]
    m = c.mod(UC)
    with quiet(), patch.object(m, "sg_operators", lambda *a, **k: torch.eye(4, dtype=F64)[None]):
        x = m.Cell(sg_num=sg, atom_data=[(28, 0.0, 0.0, 0.0, 1.0, 0.005)], abc=abc, abc_units="nm", angles=ang, angles_units="deg")
    return x, c.var("dmin", (), lo, hi)


BOX = 9


def box(x):
    """every integer index within +-9 except (0, 0, 0), whether the lattice allows it, and its squared length"""
    r = torch.arange(-BOX, BOX + 1)
    g = torch.stack(torch.meshgrid(r, r, r, indexing="ij"), -1).reshape(-1, 3)
    g = g[(g != 0).any(-1)]
    f = g.to(F64)
    with quiet():
        ok = x.is_g_allowed(g)
    return g, ok, torch.einsum("ni,ij,nj->n", f, x.rmt, f)


def listed(hkl, g):
    """how often each index of the box occurs in the list"""
    key = lambda v: ((v[:, 0] + 64) * 129 + v[:, 1] + 64) * 129 + v[:, 2] + 64
    return torch.bincount(key(hkl), minlength=129 ** 3)[key(g)]


@harness("C29", cases=[(k,) for k in LAT], budget=100)
def reflections(c, name):
    """any cutoff in the stated interval: every integer index within +-9 is listed exactly once when it is allowed, inside
    the cutoff and not (0, 0, 0), and otherwise not listed"""
    x, dmin = in_cell(c, name)
    with quiet():
        hkl = x.get_reflections(dmin, False)
    c.check("integers", hkl.dtype == torch.int64 and hkl.dim() == 2 and hkl.shape[1] == 3)
    g, ok, q = box(x)
    n = listed(hkl, g)
    c.check("inside the box", int(n.sum()) == len(hkl))
    c.check("once", int(n.max()) == 1)
    c.check("allowed", bool(ok[n > 0].all()))
    c.le("farthest listed", dmin * dmin * q[n > 0].max(), 1 + 1e-9)
    c.le("nearest missing", 1 - 1e-9, dmin * dmin * q[ok & (n == 0)].min())


@harness("C29", cases=[(k,) for k in LAT], budget=100)
def differences(c, name):
    """difference table for any cutoff: the difference of any two listed reflections (and of each with 000) is listed
    exactly once, only allowed indices are, and all lie in the range the dynamical matrix table reserves"""
    x, dmin = in_cell(c, name)
    with quiet():
        hkl = x.get_reflections(dmin, False)
        dif = x.get_reflections(dmin, True)
        lim = torch.tensor(x.get_hkl_limits(dmin))
    z = torch.cat([torch.zeros(1, 3, dtype=torch.int64), hkl])
    d = (z[:, None] - z[None]).reshape(-1, 3)
    d = torch.unique(d[(d != 0).any(-1)], dim=0)
    c.check("all differences once", bool((listed(dif, d) == 1).all()))
    c.check("each once", len(torch.unique(dif, dim=0)) == len(dif))
    c.check("without 000", bool((dif != 0).any(-1).all()))
    with quiet():
        c.check("allowed only", bool(x.is_g_allowed(dif).all()))
    c.check("range", bool((dif.abs() <= 2 * lim).all()) and bool((hkl.abs() <= lim).all()))
    c.le("limits", lim.to(F64).max() * 0, dmin)

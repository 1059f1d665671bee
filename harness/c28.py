"""C28 crystal frames: metric tensors, structure matrices, vector products and transformations agree"""
from fractions import Fraction
from unittest.mock import patch

import torch
from vf.harness import harness
from .common import *

UC = "ebsdtorch.crystallography.unit_cell"
SYS = ("cubic", "tetragonal", "orthorhombic", "hexagonal", "trigonal", "monoclinic", "triclinic")
SG = dict(cubic=225, tetragonal=139, orthorhombic=62, hexagonal=194, trigonal=166, monoclinic=14, triclinic=2)


def lattice(c, system):
    """lattice parameters 0.1..3 nm and angles; the third axis of a general cell is given by a unit vector n with
    n_z >= 0.05 (every non-degenerate cell has this form).  Returns parameters and the reference frame (rows a, b, c)"""
    L = lambda n: c.var(n, (), 0.1, 3)
    a = L("a")
    b = a if system in ("cubic", "tetragonal", "hexagonal", "trigonal") else L("b")
    cc = a if system == "cubic" else L("c")
    h = torch.full((), PI / 2, dtype=F64)
    z = torch.zeros((), dtype=F64)
    if system in ("cubic", "tetragonal", "orthorhombic"):
        al = be = ga = h
        A = [[a, z, z], [z, b, z], [z, z, cc]]
    elif system in ("hexagonal", "trigonal"):
        al = be = h
        ga = torch.full((), 2 * PI / 3, dtype=F64)
        A = [[a, z, z], [-0.5 * a, a * 3 ** 0.5 / 2, z], [z, z, cc]]
    elif system == "monoclinic":
        al = ga = h
        n = c.unit_vec("n", (), zpos=True, n=2)
        c.assume(n[1] >= 0.05)
        be = torch.acos(n[0])
        A = [[a, z, z], [z, b, z], [cc * n[0], z, cc * n[1]]]
    else:
        ga = c.angle("gamma", Fraction(1, 6), Fraction(5, 6), (), base=1)
        n = c.unit_vec("n", (), zpos=True)
        c.assume(n[2] >= 0.05)
        be = torch.acos(n[0])
        al = torch.acos(n[0] * torch.cos(ga) + n[1] * torch.sin(ga))
        A = [[a, z, z], [b * torch.cos(ga), b * torch.sin(ga), z], [cc * n[0], cc * n[1], cc * n[2]]]
    return (a, b, cc), (al, be, ga), torch.stack([torch.stack(r) for r in A])


PI = torch.pi


def make(c, system, units="nm", aunits="rad", atoms=None):
    m = c.mod(UC)
    abc, ang, A = lattice(c, system)
    if units == "angstrom":
        abc = tuple(x * 10 for x in abc)
    if units == "pm":
        abc = tuple(x * 1000 for x in abc)
    if aunits == "deg":
        ang = tuple(torch.rad2deg(x) for x in ang)
    with patch.object(m, "sg_operators", lambda *a, **k: torch.eye(4, dtype=F64)[None]):
        x = m.Cell(sg_num=SG[system], atom_data=atoms or [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], abc=abc, abc_units=units,
                   angles=ang, angles_units=aunits)
    return x, A


ONE = [(s,) for s in SYS]


@harness("C28", cases=ONE)
def frames(c, system):
    """metric tensors, structure matrices and volume from the lattice parameters"""
    x, A = make(c, system)
    c.eq("metric", x.dmt, matmul(A, A.T))
    c.eq("structure", matmul(x.dsm.T, x.dsm), x.dmt)
    c.eq("reciprocal metric", matmul(x.rmt, x.dmt), torch.eye(3, dtype=F64))
    c.eq("reciprocal structure", matmul(x.rsm.T, x.rsm), x.rmt)
    c.eq("biorthogonal", matmul(x.rsm.T, x.dsm), torch.eye(3, dtype=F64))
    c.eq("volume", x.vol, det3(A))
    c.eq("handedness", det3(x.dsm), det3(A))


@harness("C28", cases=[(s, p, q) for s in SYS for p in "drc" for q in "drc"])
def transform(c, system, p, q):
    """transformation of any vector between any two spaces keeps its length, and back is the identity"""
    x, A = make(c, system)
    v = c.var("v", (1, 3), -10, 10)
    v0 = v.clone()
    w = x.transform_space(v, p, q)
    c.shape("shape", w, (1, 3))
    c.eq("cartesian", cart(x, w, q), cart(x, v, p))
    c.eq("back", x.transform_space(w, q, p), v)
    c.unmutated("v", v, v0)


def cart(x, v, space):
    """Cartesian components straight from the direct structure matrix"""
    if space == "d":
        return matvec(x.dsm, v)
    if space == "r":
        return matvec(torch.linalg.inv(x.dsm).T, v)
    return v


def rhombohedral(c):
    """a and the common angle acos((t^2 - 1)/2), t in [0.3, 1.6]: angles about 14 to 117 degrees"""
    a = c.var("a", (), 0.1, 3)
    t = c.var("t", (), 0.3, 1.6)
    al = torch.acos((t * t - 1) / 2)
    return a, t, al


def make_rh(c, atoms=None):
    m = c.mod(UC)
    a, t, al = rhombohedral(c)
    with patch.object(m, "sg_operators", lambda *a, **k: torch.eye(4, dtype=F64)[None]):
        x = m.Cell(sg_num=166, atom_data=atoms or [(28, 0.0, 0.0, 0.0, 1.0, 0.005)], abc=(a, a, a), abc_units="nm",
                   angles=(al, al, al), angles_units="rad")
    return x, a, t


@harness("C28")
def rhombohedral_frames(c):
    """rhombohedral axes: metric, volume and the second structure matrix (threefold axis along +z)"""
    x, a, t = make_rh(c)
    q = (t * t - 1) / 2
    one_ = torch.ones((), dtype=F64)
    G = a * a * torch.stack([torch.stack([one_ if i == j else q for j in range(3)]) for i in range(3)])
    c.eq("metric", x.dmt, G)
    c.eq("structure", matmul(x.dsm.T, x.dsm), G)
    c.eq("volume", x.vol, a * a * a * (1 - q) * t)
    c.eq("reciprocal metric", matmul(x.rmt, G), torch.eye(3, dtype=F64))
    c.eq("second structure", matmul(x.dsm2.T, x.dsm2), G)
    c.eq("axis x, y", x.dsm2.sum(-1)[:2], torch.zeros(2, dtype=F64))
    c.eq("axis z", x.dsm2.sum(-1)[2], a * 3 ** 0.5 * t)


@harness("C28")
def rhombohedral_to_hexagonal(c):
    """conversion to the hexagonal cell keeps every interatomic distance, for every position of three atoms"""
    p = c.var("p", (3, 3), 0, 1)
    atoms = [(28, 0.1, 0.2, 0.3, 1.0, 0.005), (8, 0.4, 0.5, 0.6, 1.0, 0.005), (8, 0.7, 0.8, 0.85, 1.0, 0.005)]
    x, a, t = make_rh(c, atoms)
    x.atom_data = torch.cat([p, x.atom_data[:, 3:]], -1)
    q = (t * t - 1) / 2
    x.convert_from_R_to_H()
    h = x.atom_data[:, :3]
    s = p.sum(-1)
    c.eq("a", x.a * x.a, 2 * a * a * (1 - q))
    c.eq("b", x.b, x.a)
    c.eq("c", x.c, a * 3 ** 0.5 * t)
    c.eq("angles", torch.stack([x.alpha, x.beta, x.gamma]), torch.tensor([PI / 2, PI / 2, 2 * PI / 3], dtype=F64))
    want = a * a * ((1 - q) * dot(p, p) + q * s * s)
    got = x.a * x.a * (h[:, 0] ** 2 + h[:, 1] ** 2 - h[:, 0] * h[:, 1]) + x.c * x.c * h[:, 2] ** 2
    c.eq("lengths", got, want)
    c.eq("threefold axis component", h[:, 2] * 3, s)


@harness("C28", cases=[(s, u, d) for s in ("monoclinic", "triclinic") for u in ("angstrom", "pm") for d in ("rad", "deg")])
def units(c, system, u, d):
    """length units angstrom and pm, angle units degrees"""
    x, A = make(c, system, u, d)
    c.eq("metric", x.dmt, matmul(A, A.T))
    c.eq("volume", x.vol, det3(A))


SHAPES = [(3,), (2, 3), (1, 2, 3)]


@harness("C28", cases=[(s, p) for s in SYS for p in "drc"])
def products(c, system, p):
    """dot products, lengths, angles and normalisation in each space equal the Cartesian ones, any two vectors"""
    x, A = make(c, system)
    u = c.var("u", (1, 3), -5, 5)
    v = c.var("v", (1, 3), -5, 5)
    U, V = cart(x, u, p), cart(x, v, p)
    c.eq("dot", x.calc_dot(u, v, p), dot(U, V))
    c.eq("self dot", x.calc_auto_dot(u, p), dot(U, U))
    L = x.calc_length(u, p)
    c.eq("length", L * L, dot(U, U))
    c.true("length positive", L >= 0)


@harness("C28", cases=[(s,) for s in ("orthorhombic", "hexagonal", "monoclinic")])
def angles_between(c, system):
    """angle between two non-zero direct vectors, and unit length after normalisation"""
    x, A = make(c, system)
    u = c.var("u", (1, 3), -5, 5)
    n = x.norm_vec(u, "d")
    c.assume(dot(u, u) >= 0.01)
    c.eq("unit", x.calc_dot(n, n, "d"), one(1))
    L = x.calc_length(u, "d")
    c.eq("same direction", n * L.unsqueeze(-1), u)


@harness("C28", cases=[(s, p, q, b) for s in SYS for p in "drc" for q in "drc" for b in (True, False)
                       if b or (p != "c" and s in ("cubic", "hexagonal", "triclinic"))])
def cross_products(c, system, p, q, scaled):
    """cross product of any two vectors, from every space to every space; without scaling it is the true one divided
    (direct) or multiplied (reciprocal) by the volume"""
    x, A = make(c, system)
    u = c.var("u", (1, 3), -5, 5)
    v = c.var("v", (1, 3), -5, 5)
    w = x.calc_cross(u, v, p, q, scaled)
    c.shape("shape", w, (1, 3))
    want = cross(cart(x, u, p), cart(x, v, p))
    got = cart(x, w, q)
    if not scaled:
        got = got * x.vol if p == "d" else got / x.vol
    c.eq("cross", got, want)


@harness("C28", cases=[(s,) for s in SHAPES])
def shapes(c, shape):
    """single vectors and stacks of vectors give the row-by-row result in the same layout (triclinic cell)"""
    x, A = make(c, "triclinic")
    v = c.var("v", shape, -10, 10)
    u = c.var("u", shape, -10, 10)
    rows, urows = v.reshape(-1, 3), u.reshape(-1, 3)
    for p, q in ("dc", "dr", "rc", "rd", "cd", "cr"):
        w = x.transform_space(v, p, q)
        c.shape(p + q, w, shape)
        c.eq(p + q, w.reshape(-1, 3), torch.cat([x.transform_space(r[None], p, q) for r in rows]))
    for p in "drc":
        d = x.calc_dot(u, v, p)
        c.shape("dot", d, shape[:-1])
        c.eq("dot " + p, d.reshape(-1), torch.cat([x.calc_dot(a[None], b[None], p) for a, b in zip(urows, rows)]))
        k = x.calc_cross(u, v, p, "c", True)
        c.shape("cross", k, shape)
        c.eq("cross " + p, k.reshape(-1, 3), torch.cat([x.calc_cross(a[None], b[None], p, "c", True) for a, b in zip(urows, rows)]))


@harness("C28", cases=(("d",), ("r",)))
def integer_length(c, p):
    """integer indices give the same length as the equal real vector"""
    x, A = make(c, "triclinic")
    v = c.ints("v", -20, 20, (1, 3))
    c.eq("length", x.calc_length(v, p), x.calc_length(v.to(F64), p))


@harness("C28", cases=[(p,) for p in "drc"])
def change_of_axes(c, p):
    """coordinate change by any rotation matrix: to the new axes and back is the identity, length kept"""
    x, A = make(c, "cubic")
    q = c.unit_quat("q", ())
    M = qmat(q)
    v = c.var("v", (2, 3), -10, 10)
    w = x.transform_coordinates(v, M, p, "on")
    c.eq("new", w, matvec(M, v))
    c.eq("back", x.transform_coordinates(w, M, p, "no"), v)


@harness("C28", cases=(("far",), ("parallel",), ("opposite",)))
def angle(c, how):
    """angle between two direct vectors of an orthorhombic cell; parallel and opposite vectors give 0 and pi"""
    x, A = make(c, "orthorhombic")
    if how == "far":
        # unit direction n in Cartesian space against the a axis
        n = c.unit_vec("n", (1,))
        s = c.var("s", (1,), 0.1, 3)
        u = x.transform_space(n * s.unsqueeze(-1), "c", "d")
        v = torch.tensor([[1.0, 0.0, 0.0]], dtype=F64)
        c.assume((n[:, 0] < 0.999999) & (n[:, 0] > -0.999999))
        c.eq("angle", torch.cos(x.calc_angle(u, v, "d")), n[:, 0])
    else:
        u = c.var("u", (1, 3), 0.1, 5)
        k = c.var("k", (1,), 0.1, 5)
        sgn = 1 if how == "parallel" else -1
        c.eq("angle", x.calc_angle(u, sgn * k.unsqueeze(-1) * u, "d"), torch.full((1,), 0.0 if sgn > 0 else PI, dtype=F64), tol=1e-6)


@harness("C28")
def averages(c):
    """average atomic number, weight and density of two sites with full occupancy and multiplicities from the identity"""
    occ = 1.0
    x, A = make(c, "triclinic", atoms=[(28, 0.1, 0.2, 0.3, occ, 0.005), (13, 0.6, 0.7, 0.8, occ, 0.005), (13, 0.2, 0.5, 0.9, occ, 0.005)])
    w = c.mod(UC).atomic_weights
    wts = w[27] + 2 * w[12]
    c.eq("atomic number", x.average_atomic_number, torch.tensor((28 + 13 + 13) / 3, dtype=F64))
    c.eq("atomic weight", x.average_atomic_weight, wts / 3)
    c.eq("density", x.density * x.vol * 602.214076, wts)


@harness("C28", cases=(("abc",), ("angles",)))
def unknown_units(c, what):
    """unknown unit names are refused"""
    c.raises("refused", ValueError, lambda: make(c, "cubic", units="furlong" if what == "abc" else "nm", aunits="grad" if what == "angles" else "rad"))

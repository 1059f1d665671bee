"""C11 space group, point group, Laue class and crystal system agree with the international tables"""
from unittest.mock import patch

import torch
from vf.harness import harness
from .common import *

SC = "ebsdtorch.utils.symmetry_classes"
UC = "ebsdtorch.crystallography.unit_cell"
MP = "ebsdtorch.ebsd.master_pattern"
GR = "ebsdtorch.crystallography.groups"

# first space group of every Laue class, crystal system and point group (International Tables, volume A)
LAUE_FIRST = [1, 3, 16, 75, 89, 143, 149, 168, 177, 195, 207]
SYSTEM_FIRST = [1, 3, 16, 75, 143, 168, 195]
POINT_FIRST = [1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 123, 143, 147, 149, 156, 162, 168, 174, 175, 177,
               183, 187, 191, 195, 200, 207, 215, 221]
# Hermann-Mauguin point groups in the notation of the library, and their Laue classes
POINT = {"1": 1, "1-": 1, "2": 2, "m": 2, "2/m": 2, "222": 3, "mm2": 3, "mmm": 3, "4": 4, "4-": 4, "4/m": 4, "422": 5,
         "4mm": 5, "4-2m": 5, "4/mmm": 5, "3": 6, "3-": 6, "32": 7, "3m": 7, "3-m": 7, "6": 8, "6-": 8, "6/m": 8,
         "622": 9, "6mm": 9, "6-m2": 9, "6/mmm": 9, "23": 10, "m3-": 10, "432": 11, "4-3m": 11, "m3-m": 11}


def rank(first, sg):
    """number of entries not exceeding the space group"""
    return sum((sg >= f).to(torch.int64) for f in first)


def same_int(c, label, got, want):
    c.true(label, want == got)


@harness("C11")
def laue_of_space_group(c):
    """every space group number 1..230 (solver integer)"""
    m = c.mod(SC)
    sg = c.ints("sg", 1, 230)
    got = m.space_group_to_laue(sg)
    same_int(c, "laue", got, rank(LAUE_FIRST, sg))


@harness("C11")
def out_of_range(c):
    """every integer outside 1..230 within +-10000 is refused"""
    m = c.mod(SC)
    sg = c.ints("sg", -10000, 10000)
    c.assume((sg < 1) | (sg > 230))
    c.raises("refused", ValueError, lambda: m.space_group_to_laue(sg))


@harness("C11")
def laue_of_point_group(c):
    """every one of the 32 point group symbols, chosen by a solver integer"""
    m = c.mod(SC)
    names = list(POINT)
    i = int(c.ints("i", 0, len(names) - 1).item())
    c.check(names[i], m.point_group_to_laue(names[i]) == POINT[names[i]])


def cell(c, sg, setting=1):
    """a cell of space group sg; the operator table is not part of this property and is replaced by the identity"""
    m = c.mod(UC)
    with patch.object(m, "sg_operators", lambda *a, **k: torch.eye(4, dtype=F64)[None]):
        return m.Cell(sg_num=sg, sg_setting=setting, atom_data=[(28, 0.0, 0.0, 0.0, 1.0, 0.005)],
                      abc=(0.35, 0.41, 0.52), abc_units="nm", angles=(90.0, 90.0, 90.0), angles_units="deg")


@harness("C11")
def cell_classes(c):
    """classification attributes of a cell for every space group number 1..230 (solver integer)"""
    sg = c.ints("sg", 1, 230)
    x = cell(c, sg)
    same_int(c, "point group", x.pg_num, rank(POINT_FIRST, sg))
    same_int(c, "crystal system", x.xtal_system, rank(SYSTEM_FIRST, sg))
    same_int(c, "laue group", x.laue_group, rank(LAUE_FIRST, sg))


@harness("C11")
def cell_refuses(c):
    """numbers outside 1..230 within +-10000 are refused"""
    sg = c.ints("sg", -10000, 10000)
    c.assume((sg < 1) | (sg > 230))
    c.raises("refused", ValueError, lambda: cell(c, sg))


TWO = {48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228}


@harness("C11")
def second_setting(c):
    """second origin choice accepted exactly for the 24 space groups that have one"""
    sg = c.ints("sg", 1, 230)
    has = torch.zeros((), dtype=torch.bool)
    for s in sorted(TWO):
        has = has | (sg == s)
    try:
        cell(c, sg, 2)
        ok = True
    except ValueError:
        ok = False
    c.true("accepted", has == ok)


@harness("C11", cases=(("laue",), ("space",), ("point",)))
def master_pattern_class(c, how):
    """the Laue class a master pattern reports, from a space group, a point group or directly"""
    m = c.mod(MP)
    z = torch.zeros(3, 3)
    if how == "space":
        sg = c.ints("sg", 1, 230)
        mp = m.MasterPattern(z, space_group=sg)
        same_int(c, "laue", mp.laue_group, rank(LAUE_FIRST, sg))
    elif how == "point":
        names = list(POINT)
        i = int(c.ints("i", 0, len(names) - 1).item())
        c.check(names[i], m.MasterPattern(z, point_group=names[i]).laue_group == POINT[names[i]])
    else:
        lg = c.ints("lg", 1, 11)
        same_int(c, "laue", m.MasterPattern(z, laue_group=lg).laue_group, lg)


@harness("C11")
def tables_agree(c):
    """names and operator counts: the lattice letter and the point-group order divide as the class demands, every space group"""
    g = c.mod(GR)
    sg = c.ints("sg", 1, 230)
    i = int(sg.item())
    letter = g.sg_names[i - 1].split()[0]
    centre = {"P": 1, "A": 2, "B": 2, "C": 2, "I": 2, "F": 4, "R": 3}[letter]
    orders = [1, 2, 2, 2, 4, 4, 4, 8, 4, 4, 8, 8, 8, 8, 16, 3, 6, 6, 6, 12, 6, 6, 12, 12, 12, 12, 24, 12, 24, 24, 24, 48]
    pg = rank(POINT_FIRST, torch.tensor(i)).item()
    c.check("order", g.sg_ords[i - 1] == centre * orders[pg - 1])
    c.check("laue", g.pg_to_laue[pg - 1] == rank(LAUE_FIRST, torch.tensor(i)).item())


KV = "ebsdtorch.crystallography.kvectors"
VARIANT = [({156, 158, 160, 161}, 156), ({157, 159}, 157), ({162, 163}, 162), ({164, 165, 166, 167}, 164),
           ({111, 112, 113, 114, 121, 122}, 111), ({115, 116, 117, 118, 119, 120}, 115), ({187, 188}, 187), ({189, 190}, 189)]


@harness("C11")
def sampling_region(c):
    """master pattern sampling region for every space group (solver integer): the same for all space groups of a point
    group in the same axis setting; directions are unit vectors on the stated hemispheres (grid half width 3)"""
    k = c.mod(KV)
    sg = int(c.ints("sg", 1, 230).item())
    rep = POINT_FIRST[rank(POINT_FIRST, torch.tensor(sg)).item() - 1]
    for s, r in VARIANT:
        rep = r if sg in s else rep
    v, ij = k.kvectors_grid(cell(c, sg), 3)
    w, ij0 = k.kvectors_grid(cell(c, rep), 3)
    c.check("region", ij.shape == ij0.shape and bool((ij == ij0).all()))
    c.check("directions", v.shape == w.shape and bool((v == w).all()) and len(v) == len(ij))
    c.check("unit", bool(((v * v).sum(-1) - 1).abs().max() < 1e-5))
    c.check("hemisphere", bool((v[:, 2] * ij[:, 2] >= -1e-6).all()))

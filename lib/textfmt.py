"""Writers shared by the checks of CASTEP's small text formats."""
from __future__ import annotations

from hypothesis import strategies as st

from . import gen as g
from .gen import F

cellrow = g.vec(g.fixed(3, 6))
atoms_st = g.rows(g.rec(spec=g.tagged, pos=g.vec(g.fixed(1, 6)), mass=g.fixed(3, 6, signed=False)),
                    min_size=1, max_size=5)


def cell_lines(cell, title=" Unit cell vectors (A)"):
    return [title, *("".join(x.rjust(12) for x in row) for row in cell)]


def cell_value(cell):
    return [tuple(map(F, row)) for row in cell]


def frac_lines(atoms):
    """ Fractional Co-ordinates table with masses (.phonon, .phonon_dos, .efield, .elastic)."""
    return [" Fractional Co-ordinates",
            *(f"{i:6d}{''.join(x.rjust(13) for x in a['pos'])}   {a['spec']:<2} {a['mass'].rjust(17)}"
              for i, a in enumerate(atoms, 1))]


def frac_value(atoms):
    return {"index": tuple(range(1, len(atoms) + 1)),
            **{k: tuple(F(a["pos"][j]) for a in atoms) for j, k in enumerate("uvw")},
            "spec": [a["spec"] for a in atoms], "mass": tuple(F(a["mass"]) for a in atoms)}


def join(lines):
    return "\n".join(lines) + "\n"

"""C09: gridded *_fmt files (.den_fmt, .chdiff_fmt, .pot_fmt, .elf_fmt)."""
from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F
from lib.harness import facet
from lib.oracle import expect, parse_text
from lib.textfmt import join

KINDS = {
    "den_fmt": [(("charge",), '"<a b c> charge" in units of electrons/grid_point * number of grid_points')],
    "chdiff_fmt": [(("charge",), '"<a b c> charge" in units of electrons/grid_point * number of grid_points')],
    "pot_fmt": [(("pot",), '"<a b c> pot" in units of Hartrees')],
    "elf_fmt": [(("chi",), '"<a b c> chi"'), (("chi_alpha", "chi_beta"), '"<a b c> chi_alpha chi_beta"')],
}
SPIN = {
    "den_fmt": (("charge", "spin"), '"<a b c> charge spin" in units of electrons/grid_point * number of grid_points'),
    "chdiff_fmt": (("charge", "spin"), '"<a b c> charge spin" in units of electrons/grid_point * number of grid_points'),
    "pot_fmt": (("pot_up", "pot_down"), '"<a b c> pot_up pot_down" in units of Hartrees'),
}


@st.composite
def grid_st(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    heads = KINDS[kind] + ([SPIN[kind]] if kind in SPIN else [])
    cols, head = draw(st.sampled_from(heads))
    n = [draw(st.integers(1, 4)) for _ in range(3)]
    return {"kind": kind, "cols": list(cols), "head": head, "n": n,
            "start": draw(st.sampled_from((1, 1, 97, 998))),
            "vals": draw(st.lists(g.vec(st.one_of(g.fixed(6, 6), g.expo(5, -15, 9)), len(cols)),
                                  min_size=n[0] * n[1] * n[2], max_size=n[0] * n[1] * n[2])),
            "gaps": draw(st.lists(st.integers(0, 63), max_size=3)), "spins": draw(st.integers(1, 2))}


@facet(grid_st(), quick=1500, nontrivial=lambda c: len(c["vals"]) > 1, rule="more than one grid point",
       labels=lambda c: {c["kind"], f"columns={len(c['cols'])}"})
def fmt_grid(case):
    from castep_outputs import parsers
    lines = [" BEGIN header", "",
             "           Real Lattice(A)               Lattice parameters(A)    Cell Angles",
             "     2.6954645     2.6954645     0.0000000     a =    3.811962  alpha =   60.000000",
             "     2.6954645     0.0000000     2.6954645     b =    3.811962  beta  =   60.000000",
             "     0.0000000     2.6954645     2.6954645     c =    3.811962  gamma =   60.000000", "",
             f"   {case['spins']}                            ! nspins",
             "{:4d}  {:4d}  {:4d}                ! fine FFT grid along <a,b,c>".format(*case["n"]),
             f" END header: data is {case['head']}", ""]
    nx, ny, nz = case["n"]
    off = case["start"]
    qs = [(x + off, y + off, z + off) for z in range(nz) for y in range(ny) for x in range(nx)]
    for i, (q, vals) in enumerate(zip(qs, case["vals"])):
        if i in case["gaps"]:
            lines.append("   " if i % 2 else "")
        lines.append("".join(f"{x:6d}" for x in q) + "".join(v.rjust(20) for v in vals))
    exp = {"q": qs, **{col: [F(v[j]) for v in case["vals"]] for j, col in enumerate(case["cols"])}}
    text = join(lines)
    parse = getattr(parsers, f"parse_{case['kind']}_file")
    expect(dict(parse_text(parse, text)), exp, case["kind"], text=text)


FACETS = [fmt_grid]

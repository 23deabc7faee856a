"""C11: .efield and .elastic files."""
from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F, spread
from lib.harness import facet
from lib.oracle import check, expect, parse_text
from lib.textfmt import atoms_st, cell_lines, cell_value, cellrow, frac_lines, frac_value, join

VOIGT = ("xx", "yy", "zz", "yz", "xz", "xy")

efield_st = g.rec(atoms=atoms_st, cell=g.vec(cellrow), seed=g.seed_st, q=g.fixed(3, 1, signed=False),
                  freqs=st.integers(2, 10), osc=st.booleans(), perm=st.booleans())


def efield_text(case):
    atoms, seed = case["atoms"], case["seed"]
    nb = 3 * len(atoms)
    lines = [" BEGIN header", f"  Number of ions              {len(atoms):3d}",
             f"  Number of branches          {nb:3d}", f"  Number of frequencies     {case['freqs']:5d}",
             f"  Oscillator Q         {case['q'].rjust(10)}", *cell_lines(case["cell"]), *frac_lines(atoms),
             " END header"]
    exp = {"ions": len(atoms), "branches": nb, "frequencies": case["freqs"], "Oscillator Q": (F(case["q"]),),
           "unit_cell": cell_value(case["cell"]), "coords": frac_value(atoms)}
    osc, perm = [], []
    if case["osc"]:
        lines.append(" BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)")
        for b in range(nb):
            toks = [spread(seed, b * 10, 4, 6)] + [spread(seed, b * 10 + 1 + k, 2, 6) for k in range(6)]
            lines.append(f"{b + 1:9d}{toks[0].rjust(16)}    " + "".join(t.rjust(15) for t in toks[1:]))
            osc.append(list(map(F, toks)))
        lines.append(" END Oscillator Strengths")
    if case["perm"]:
        lines.append(" BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy")
        for b in range(case["freqs"]):
            toks = [f"{b}.000000"] + [spread(seed, 9000 + b * 10 + k, 2, 6) for k in range(6)]
            lines.append(toks[0].rjust(22) + "     " + "".join(t.rjust(15) for t in toks[1:]))
            perm.append(list(map(F, toks)))
        lines.append(" END permittivity")
    return join(lines), exp, osc, perm


def columns(rows, keys):
    return {key: tuple(r[i] for r in rows) for i, key in enumerate(keys)}


def parse_efield(case):
    from castep_outputs.parsers import parse_efield_file
    text, exp, osc, perm = efield_text(case)
    return text, exp, osc, perm, dict(parse_text(parse_efield_file, text))


@facet(efield_st, quick=1200, nontrivial=lambda c: c["osc"] or c["perm"], rule="at least one table",
       labels=lambda c: {f"osc={c['osc']}", f"perm={c['perm']}"})
def efield_file(case):
    text, exp, osc, perm, res = parse_efield(case)
    for key, rows, wrong in (("oscillator_strengths", osc,
                              [[float(i), *r[:6]] for i, r in enumerate(osc, 1)]),
                             ("permittivity", perm, perm)):
        if not rows:
            continue
        check(isinstance(res.get(key), list) and len(res[key]) == 1, f"{key} missing", text)
        got = dict(res.pop(key)[0])
        keys = ("freq", *VOIGT)
        # Known findings (efield_osc, efield_perm) fixed by the reference data: the last row is dropped,
        # and oscillator strengths are shifted by one column.  Nothing else may differ.
        short = len(got.get("freq", ())) == len(rows) - 1
        if got.get("freq", ())[:1] == (1.0,) and rows[0][0] != 1.0:
            rows = wrong
        expect(got, columns(rows[:-1] if short else rows, keys), key, text=text)
    expect(res, exp, text=text)


@facet(efield_st, quick=0, thorough=0, rule="known-finding oracle: oscillator strengths in their columns")
def efield_osc(case):
    text, _, osc, _, res = parse_efield(case)
    expect(dict(res["oscillator_strengths"][0]), columns(osc, ("freq", *VOIGT)), text=text)


@facet(efield_st, quick=0, thorough=0, rule="known-finding oracle: every permittivity row")
def efield_perm(case):
    text, _, _, perm, res = parse_efield(case)
    expect(dict(res["permittivity"][0]), columns(perm, ("freq", *VOIGT)), text=text)


TITLES = [("Elastic Constants ", "GPa", "elastic_constants", 6), ("Compliance Matrix ", "GPa^-1", "compliance_matrix", 6),
          ("Elastic Constants [Frozen Ion]", "GPa", "elastic_constants_frozen_ion", 6),
          ("Relaxed Ion Contribution", "GPa", "relaxed_ion_contribution", 6),
          ("Piezoelectric", "C/m^2", "piezoelectric", 3),
          ("Piezoelectric [Frozen Ion]", "C/m^2", "piezoelectric_frozen_ion", 3),
          ("Relaxed Ion Piezoelectric Contribution", "C/m^2", "relaxed_ion_piezoelectric_contribution", 3)]


def listdir(tok, exp):
    """Fortran list-directed form (zero before the point is dropped when negative)."""
    if exp is not None:
        tok = f"{tok}E{exp:+03d}"
    return tok.replace("-0.", "-.") if tok.startswith("-0.") else tok


@st.composite
def elastic_st(draw):
    return {"atoms": draw(atoms_st), "cell": [draw(cellrow) for _ in range(3)], "seed": draw(g.seed_st),
            "blocks": draw(st.lists(st.integers(0, len(TITLES)), min_size=1, max_size=8, unique=True))}


def elastic_text(case):
    atoms, seed = case["atoms"], case["seed"]
    lines = [" BEGIN header", f"  Number of ions            {len(atoms):5d}", *cell_lines(case["cell"]),
             *frac_lines(atoms), " END header"]
    exp = {"ions": len(atoms), "unit_cell": cell_value(case["cell"]), "coords": frac_value(atoms)}
    strain = None
    tok = lambda i: listdir(spread(seed, i, 1 if i % 3 else 3, 12), None if i % 3 else -(i % 40))
    for bi in case["blocks"]:
        base = bi * 1000
        if bi == len(TITLES):
            lines.append(" BEGIN Internal Strain (eV/A)")
            strain = {"units": "eV/A"}
            for a, atom in enumerate(atoms, 1):
                rows = []
                for d, comp in enumerate("XYZ"):
                    toks = [tok(base + a * 60 + d * 10 + k) for k in range(6)]
                    lines.append(f"{a:6d}   {atom['spec']:<7} {comp}    " + "".join(t.ljust(26) for t in toks))
                    rows.append(tuple(map(F, toks)))
                strain[atom["spec"], a] = rows
            lines.append(" END Internal Strain")
            continue
        title, unit, key, n = TITLES[bi]
        lines.append(f" BEGIN {title} ({unit})")
        rows = []
        for r in range(n):
            toks = [tok(base + r * 10 + k) for k in range(6)]
            lines.append("    " + "".join(t.ljust(26) for t in toks))
            rows.append(tuple(map(F, toks)))
        lines.append(f" END {title.strip()}")
        exp[key] = {"units": unit, "val": rows}
    return join(lines), exp, strain


@facet(elastic_st(), quick=1200, nontrivial=lambda c: len(c["blocks"]) > 1, rule="several tensors",
       labels=lambda c: {f"strain={len(TITLES) in c['blocks']}"})
def elastic_file(case):
    from castep_outputs.parsers import parse_elastic_file
    text, exp, strain = elastic_text(case)
    res = dict(parse_text(parse_elastic_file, text))
    if strain:
        got = dict(res.pop("internal_strain", {}))
        # Known finding (elastic_strain): rows start with the atom index.
        for key, rows in strain.items():
            if key != "units" and all(len(r) == 7 for r in got.get(key, ())):
                strain[key] = [(float(key[1]), *r) for r in rows]
        expect(got, strain, "internal_strain", text=text)
    expect(res, exp, text=text)


@facet(elastic_st(), quick=0, thorough=0, rule="known-finding oracle: internal strain rows hold six components")
def elastic_strain(case):
    from castep_outputs.parsers import parse_elastic_file
    text, _, strain = elastic_text(case)
    expect(dict(parse_text(parse_elastic_file, text)["internal_strain"]), strain, text=text)


FACETS = [efield_file, efield_osc, efield_perm, elastic_file, elastic_strain]

"""C12: .magres files."""
from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F, spread, spread_expo
from lib.harness import facet
from lib.oracle import expect, parse_text
from lib.textfmt import join

ALIASES = {"ms": "magnetic_resonance_shielding", "efg": "electric_field_gradient",
           "efg_local": "local_electric_field_gradient", "efg_nonlocal": "nonlocal_electric_field_gradient",
           "isc_fc": "j_coupling_fc", "isc_orbital_p": "j_coupling_orbital_p",
           "isc_orbital_d": "j_coupling_orbital_d", "isc_spin": "j_coupling_spin", "isc": "j_coupling_k_total"}
SITE, PAIR = ("ms", "efg", "efg_local", "efg_nonlocal"), ("isc_fc", "isc_orbital_p", "isc_orbital_d", "isc_spin", "isc")
UNITS = {"ms": "ppm", **dict.fromkeys(SITE[1:], "au"), **dict.fromkeys(PAIR, "10^19.T^2.J^-1")}

text_val = st.from_regex(r"[!-~]([ -~]{0,30}[!-~])?", fullmatch=True)


@st.composite
def magres_st(draw):
    specs = draw(g.rows(g.tagged, min_size=1, max_size=3, unique=True))
    version = draw(st.sampled_from(("5.5", "8.0", "16.11", "19.1", "21.1", "22.1", "23.1", "24.1", "25.12")))
    old = float(version) < 22
    # Indices wide enough to touch the species are what munged lines are about
    hi = 999 if old else 99999
    atoms = [[s, i] for s in specs
             for i in draw(st.lists(st.one_of(st.integers(1, 30), st.integers(1, hi), st.integers(hi // 10 + 1, hi)),
                                    min_size=1, max_size=3, unique=True))]
    return {"version": version, "atoms": atoms, "seed": draw(g.seed_st),
            "calc": draw(st.dictionaries(st.sampled_from(("code_platform", "name", "comment", "xcfunctional", "cutoffenergy",
                                                          "pspot", "kpoint_mp_grid", "code_hgversion")),
                                         st.one_of(st.just(""), text_val), max_size=5)),
            "site": draw(st.lists(st.sampled_from(SITE), max_size=4, unique=True)),
            "pair": draw(st.lists(st.sampled_from(PAIR), max_size=3, unique=True)),
            "old": draw(st.booleans())}


def tensor(seed, base):
    toks = [spread_expo(seed, base + k, 16, -8, 2) for k in range(9)]
    return [t[:-4] + t[-4] + t[-2:] for t in toks]  # two digit exponents


def magres_text(case):
    seed, atoms = case["seed"], [tuple(a) for a in case["atoms"]]
    width = 3 if float(case["version"]) < 22 else 5
    lines = ["#$magres-abinitio-v1.0",
             "# See http://www.ccpnc.ac.uk/pmwiki.php/CCPNC/Fileformat for format definition and code samples",
             "[calculation]", "calc_code CASTEP", f"calc_code_version  {case['version']}"]
    exp = {"calc": {"code": "CASTEP", "code_version": case["version"]}}
    for key, val in case["calc"].items():
        lines.append(f"calc_{key} {val}".rstrip())
        if val:
            exp["calc"][key] = val
    lat = tensor(seed, 0)
    lines += ["[/calculation]", "[atoms]", "units lattice Angstrom", "lattice  " + "".join(t.rjust(26) for t in lat),
              "units atom Angstrom", "symmetry x,y,z"]
    exp["atoms"] = {"units": {"lattice": "Angstrom", "atom": "Angstrom"}, "lattice": tuple(map(F, lat)), "coords": {}}
    for i, (spec, ind) in enumerate(atoms):
        pos = tensor(seed, 100 + 10 * i)[:3]
        lines.append(f"atom {spec:<2}      {spec:<2} {ind:3d}" + "".join(t.rjust(32) for t in pos))
        exp["atoms"]["coords"][spec, ind] = tuple(map(F, pos))
    lines += ["[/atoms]", "[magres]"]
    mag = {"units": {}} if case["site"] or case["pair"] else {}
    for ki, key in enumerate(case["site"]):
        lines.append(f"units {key} {UNITS[key]}")
        mag["units"][key] = UNITS[key]
        mag[key] = {}
        for i, (spec, ind) in enumerate(atoms):
            toks = tensor(seed, 10000 * (ki + 1) + 10 * i)
            lines.append(f"{key} {spec}{ind:>{width}d}" + "".join(t.rjust(32) for t in toks))
            mag[key][spec, ind] = tuple(map(F, toks))
    for ki, key in enumerate(case["pair"]):
        lines.append(f"units {key} {UNITS[key]}")
        mag["units"][key] = UNITS[key]
        mag[key] = {}
        for i, (sb, ib) in enumerate(atoms):
            toks = tensor(seed, 70000 + 10000 * ki + 10 * i)
            sa, ia = atoms[0]
            lines.append(f"{key} {sa} {ia:3d} {sb} {ib:3d}" + "".join(t.rjust(32) for t in toks))
            mag[key][(sa, ia), (sb, ib)] = tuple(map(F, toks))
    for key, alias in ALIASES.items():
        if key in mag:
            mag[alias] = mag[key]
    exp["magres"] = mag
    lines.append("[/magres]")
    totals = {}
    if case["old"]:
        lines.append("[magres_old]")
        exp["atom_info"] = {}
        for i, (spec, ind) in enumerate(atoms):
            base = 300000 + 1000 * i
            tok = lambda k: spread(seed, base + k, 2, 4)
            at = f"{spec:<4}{ind:6d}"
            rows = [[tok(20 + 3 * r + k) for k in range(3)] for r in range(3)]
            lines += ["============", f"Atom: {at}", "============", f"{at} Coordinates      0.000    0.000    0.000   A",
                      "", "TOTAL Shielding Tensor", "", *("          " + "".join(t.rjust(12) for t in r) for r in rows), ""]
            totals[spec, ind] = [tuple(map(F, r)) for r in rows]
            info = {"coords": exp["atoms"]["coords"][spec, ind], "eigvenvalue": [], "eigvenvector": []}
            for c, comp in enumerate(("xx", "yy", "zz")):
                val, vec = tok(c), [tok(40 + 3 * c + k) for k in range(3)]
                lines += [f"{at} Eigenvalue  sigma_{comp} {val.rjust(12)} (ppm)",
                          f"{at} Eigenvector sigma_{comp} " + "".join(t.rjust(12) for t in vec)]
                info["eigvenvalue"].append(F(val))
                info["eigvenvector"].append(tuple(map(F, vec)))
            lines.append("")
            for k, (name, unit) in enumerate((("Isotropic", " (ppm)"), ("Anisotropy", " (ppm)"), ("Asymmetry", ""))):
                val = tok(60 + k)
                lines.append(f"{at} {name + ':':<11}{val.rjust(13)}{unit}")
                info[name.lower()] = F(val)
            lines.append("")
            exp["atom_info"][spec, ind] = info
            exp["total_shielding"] = totals[spec, ind]
        lines.append("[/magres_old]")
    return join(lines), exp, totals


@facet(magres_st(), quick=1600, nontrivial=lambda c: len(c["atoms"]) > 1 and (c["site"] or c["pair"]),
       rule="several atoms and at least one tensor",
       labels=lambda c: {f"version={'old' if float(c['version']) < 22 else 'new'}", f"magres_old={c['old']}",
                         "munged" if c["site"] and max(i for _, i in c["atoms"]) > (99 if float(c["version"]) < 22 else 9999)
                         else "spaced"})
def magres_file(case):
    from castep_outputs.parsers import parse_magres_file
    text, exp, _ = magres_text(case)
    # Known finding (magres_all_totals): one total shielding tensor, the last, is kept.
    expect(dict(parse_text(parse_magres_file, text)), exp, text=text)


@facet(magres_st(), quick=0, thorough=0, rule="known-finding oracle: every atom's total shielding tensor is somewhere")
def magres_all_totals(case):
    from castep_outputs.parsers import parse_magres_file
    text, _, totals = magres_text(case)
    res = dict(parse_text(parse_magres_file, text))
    found = repr(res.get("total_shielding")) + repr(res.get("atom_info"))
    for at, tot in totals.items():
        expect(all(repr(r) in found for r in tot), True, f"{at} total shielding", text=text)


FACETS = [magres_file, magres_all_totals]

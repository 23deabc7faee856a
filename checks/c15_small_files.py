"""C15: .ts, .tddft, .epme, .hug, .xrd_sf and .err files."""
from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F, spread, spread_expo
from lib.harness import facet
from lib.oracle import check, expect, parse_text
from lib.textfmt import cell_lines, cell_value, cellrow, join

atom_names = g.rows(st.one_of(g.element, g.tagged), min_size=1, max_size=4)


def index_atoms(names):
    """CASTEP numbers atoms within their species."""
    seen = {}
    out = []
    for name in names:
        seen[name] = seen.get(name, 0) + 1
        out.append((name, seen[name]))
    return sorted(out, key=lambda x: list(seen).index(x[0]))


# ------------------------------------------------------------------------------------------------ .ts
ts_st = g.rec(names=atom_names, seed=g.seed_st, confirm=st.booleans(), trail=st.booleans(),
              blocks=g.rows(st.sampled_from(("REA", "PRO", "TST", "TST")), min_size=1, max_size=6),
              first=st.sampled_from((1, 1, 9, 98)))


@facet(ts_st, quick=1200, nontrivial=lambda c: len(c["blocks"]) > 1, rule="several structures",
       labels=lambda c: {f"confirmation={c['confirm']}", *c["blocks"]})
def ts_file(case):
    from castep_outputs.parsers import parse_ts_file
    atoms, seed = index_atoms(case["names"]), case["seed"]
    lines = [" TSTYPE TSConfirmation" if case["confirm"] else " TSTYPE LSTMaximum"]
    exp = {"confirmation": True} if case["confirm"] else {}
    for bi, kind in enumerate(case["blocks"]):
        base = bi * 1000
        tok = lambda i: spread_expo(seed, base + i, 8, -40, 5)
        coord = spread_expo(seed, base, 8, -3, 0)
        lines.append(f" {kind} {case['first'] + bi:4d} {coord.rjust(20)}")
        ent = {"reaction_coordinate": F(coord)}
        toks = [tok(1), tok(2)]
        lines.append(f"{'':14}{toks[0].rjust(16)}     {toks[1].rjust(16)}                       <-- E")
        ent["E"] = ent["energy"] = [list(map(F, toks))]
        ent["h"] = ent["lattice_vectors"] = []
        for r in range(3):
            toks = [tok(10 + 3 * r + k) for k in range(3)]
            lines.append(f"{'':13}" + "".join(f"{t.rjust(17)}    " for t in toks)[:-2] + "<-- h")
            ent["h"].append(list(map(F, toks)))
        for t, (short, alias) in enumerate((("R", "position"), ("F", "force"))):
            for ai, (spec, ind) in enumerate(atoms):
                toks = [tok(100 + t * 300 + ai * 10 + k) for k in range(3)]
                lines.append(f" {spec:<8}{ind:5d}   " + "".join(f"{x.rjust(17)}    " for x in toks)[:-2]
                             + f"<-- {short}")
                atom = ent.setdefault((spec, ind), {})
                atom[short] = atom[alias] = tuple(map(F, toks))
        lines.append("")
        exp.setdefault({"REA": "reagent", "PRO": "product", "TST": "test"}[kind], []).append(ent)
    if not case["trail"]:
        lines.pop()
    text = join(lines)
    expect(dict(parse_text(parse_ts_file, text)), exp, text=text)


# --------------------------------------------------------------------------------------------- .tddft
tddft_st = g.rec(names=g.rows(g.tagged, min_size=1, max_size=4), cell=g.vec(cellrow), seed=g.seed_st,
                 states=g.rows(g.rec(pairs=st.lists(st.tuples(st.integers(1, 300), st.integers(1, 300)).map(list),
                                                      max_size=5, unique_by=tuple),
                                       kind=st.sampled_from(("Singlet", "Doublet", "Triplet", "unknown")),
                                       conv=st.booleans()), min_size=1, max_size=5),
                 overlap=st.booleans(), spectro=st.booleans())


@facet(tddft_st, quick=1200, nontrivial=lambda c: (c["overlap"] or c["spectro"]) and len(c["states"]) > 1,
       rule="several states in at least one table",
       labels=lambda c: {f"overlap={c['overlap']}", f"spectroscopic={c['spectro']}"})
def tddft_file(case):
    from castep_outputs.parsers import parse_tddft_file
    atoms, seed = index_atoms(case["names"]), case["seed"]
    lines = ["BEGIN header", " CASTEP generated TDDFT output",
             " Highest occupied band for spin channel 1          4", " Energies in eV",
             *cell_lines(case["cell"]), " Fractional Co-ordinates"]
    exp = {"unit_cell": cell_value(case["cell"]), "coords": {}}
    for i, (spec, ind) in enumerate(atoms):
        toks = [spread(seed, i * 3 + k, 1, 6) for k in range(3)]
        lines.append(f" {spec:<4}{ind:7d} " + "".join(t.rjust(12) for t in toks))
        exp["coords"][spec, ind] = tuple(map(F, toks))
    lines.append("END header")
    if case["overlap"]:
        lines += ["BEGIN Characterisation of states as Kohn-Sham bands",
                  " State      Occ.         Unocc.        Overlap"]
        exp["overlap"] = []
        for i, state in enumerate(case["states"], 1):
            ent = {}
            for j, (occ, unocc) in enumerate(state["pairs"]):
                val = spread(seed, 1000 * i + j, 1, 6, signed=False)
                lines.append(f"{i:10d}{occ:10d} -->{unocc:11d}{val.rjust(15)}")
                ent[occ, unocc] = F(val)
            val = spread(seed, 1000 * i + 999, 1, 6, signed=False)
            lines.append(f" Total overlap for state {i:4d} = {val}")
            ent["total"] = F(val)
            exp["overlap"].append(ent)
        lines.append("END Characterisation of states as Kohn-Sham bands")
    if case["spectro"]:
        lines += ["BEGIN TDDFT Spectroscopic Data",
                  " State   Excitation Energy         Characterisation   Converged  Transition Dipoles (x,y,z)"]
        exp["spectroscopic_data"] = []
        for i, state in enumerate(case["states"], 1):
            toks = [spread_expo(seed, 9000 + 10 * i + k, 16, -6, 2) for k in range(7)]
            dips = "   ".join(f"({toks[k].rjust(25)} {toks[k + 1].rjust(24)})" for k in (1, 3, 5))
            lines.append(f"{i:10d}   {toks[0]}       {state['kind']:<16}  {'Yes' if state['conv'] else 'No':<8}{dips}")
            exp["spectroscopic_data"].append(
                {"energy": F(toks[0]), "characterisation": state["kind"], "converged": state["conv"],
                 "dipoles": [complex(F(toks[k]), F(toks[k + 1])) for k in (1, 3, 5)]})
        lines.append("END TDDFT Spectroscopic Data")
    text = join(lines)
    expect(dict(parse_text(parse_tddft_file, text)), exp, text=text)


# ---------------------------------------------------------------------------------------------- .epme
epme_st = g.rec(version=st.integers(1, 12), nb=g.rare(st.integers(1, 3), st.integers(7, 12)), nph=g.count(1, 6), seed=g.seed_st,
                pairs=st.lists(g.vec(g.fixed(1, 6), 6), min_size=1, max_size=3))


def epme_case(case):
    from castep_outputs.parsers import parse_epme_file
    seed = case["seed"]
    vol, fermi = spread_expo(seed, 0, 14, 1, 3), spread_expo(seed, 1, 16, -3, 0)
    lines = [" Electron-phonon coupling file", f" Version  {case['version']:10d}", " All units are atomic units",
             f" Unit cell volume   {vol.lstrip('-')}     ", f" Fermi Energy  {fermi}",
             f" Number of bands:  {case['nb']:10d}", f" Number of phonon branches:  {case['nph']:10d}"]
    exp = {"version": case["version"], "volume": F(vol.lstrip("-")), "fermi_energy": F(fermi),
           "n_bands": case["nb"], "n_branches": case["nph"], "data": []}
    rows = []
    n = 0
    for pair in case["pairs"]:
        ki, kf = ("(" + "".join(x.rjust(12) for x in v) + ")" for v in (pair[:3], pair[3:]))
        lines += [f"Electron-Phonon coupling matrix elements between kpoints {ki} and {kf}",
                  "Ph index  Band_i  Band_f      ph_freq         E_i         E_f          velocity for band 1  "
                  "               velocity for band 2                EP Matrix Element"]
        for ph in range(1, case["nph"] + 1):
            for bi in range(1, case["nb"] + 1):
                for bf in range(1, case["nb"] + 1):
                    toks = [spread(seed, 100 + n * 11 + k, 1, 6) for k in range(11)]
                    n += 1
                    lines.append(f"{ph:8d}{bi:8d}{bf:8d}" + "".join(t.rjust(13) for t in toks))
                    vals = list(map(F, toks))
                    rows.append(vals)
                    exp["data"].append({
                        "kpt_i": tuple(map(F, pair[:3])), "kpt_f": tuple(map(F, pair[3:])),
                        "ph_index": ph, "band_i": bi, "band_f": bf, "freq": vals[0], "e_i": vals[1],
                        "e_f": vals[2], "velocity": (tuple(vals[3:6]), tuple(vals[6:9])),
                        "e_p_matrix": complex(vals[9], vals[10])})
    text = join(lines)
    return text, exp, rows, parse_text(parse_epme_file, text)


@facet(epme_st, quick=1000, nontrivial=lambda c: len(c["pairs"]) > 1, rule="several k-point pairs",
       labels=lambda c: {f"pairs={len(c['pairs'])}"})
def epme_file(case):
    text, exp, rows, res = epme_case(case)
    # Known finding (epme_columns): the columns after the indices are reported one place off.
    if res.get("data") and "freq" not in res["data"][0]:
        for ent, vals in zip(exp["data"], rows):
            del ent["freq"]
            ent |= {"e_i": vals[0], "e_f": vals[1], "velocity": (tuple(vals[2:5]), tuple(vals[5:8])),
                    "e_p_matrix": complex(vals[8], vals[9])}
    expect(res, exp, text=text)


@facet(epme_st, quick=0, thorough=0, rule="known-finding oracle: every column under its own name")
def epme_columns(case):
    text, exp, _, res = epme_case(case)
    expect(res, exp, text=text)


# ----------------------------------------------------------------------------------------------- .hug
hug_st = g.rec(seed=g.seed_st, n=g.count(1, 12))


@facet(hug_st, quick=500, nontrivial=lambda c: c["n"] > 1, rule="several rows")
def hug_file(case):
    from castep_outputs.parsers import parse_hug_file
    rows = [[spread(case["seed"], i * 4, 1, 12, signed=False), spread(case["seed"], i * 4 + 1, 4, 8, signed=False),
             spread(case["seed"], i * 4 + 2, 4, 8), spread(case["seed"], i * 4 + 3, 4, 8)]
            for i in range(case["n"])]
    text = join("  " + "".join(t.rjust(18) for t in r).lstrip() + "  <-- cTPE" for r in rows)
    exp = {k: tuple(F(r[i]) for r in rows)
           for i, k in enumerate(("compression", "temperature", "pressure", "energy"))}
    expect(dict(parse_text(parse_hug_file, text)), exp, text=text)


# -------------------------------------------------------------------------------------------- .xrd_sf
XRD = ("F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug")
xrd_st = g.rec(seed=g.seed_st, cols=st.permutations(XRD).flatmap(
    lambda p: st.integers(1, 6).map(lambda n: list(p)[:n])),
    q=g.rows(g.vec(st.integers(-99, 99)), min_size=1, max_size=8))


@facet(xrd_st, quick=800, nontrivial=lambda c: len(c["q"]) > 1, rule="several reflections",
       labels=lambda c: {f"columns={len(c['cols'])}"})
def xrd_sf_file(case):
    from castep_outputs.parsers import parse_xrd_sf_file
    heads = [f"{part}({col})" for col in case["cols"] for part in ("Re", "Im")]
    lines = ["   h   k   l" + "".join(h.rjust(12) for h in heads)]
    exp = {"qvec": [tuple(q) for q in case["q"]], **{c.lower(): [] for c in case["cols"]}}
    for i, q in enumerate(case["q"]):
        toks = [spread(case["seed"], i * 20 + k, 3, 6) for k in range(len(heads))]
        lines.append("".join(f"{x:4d}" for x in q) + "".join(t.rjust(12) for t in toks))
        for k, col in enumerate(case["cols"]):
            exp[col.lower()].append(complex(F(toks[2 * k]), F(toks[2 * k + 1])))
    text = join(lines)
    expect(dict(parse_text(parse_xrd_sf_file, text)), exp, text=text)


# ----------------------------------------------------------------------------------------------- .err
line_st = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=40)
err_st = g.rec(msg=st.lists(line_st.filter(lambda x: "Current trace stack" not in x), max_size=4),
               stack=g.rows(st.from_regex(r"[a-z][a-z_0-9]{2,25}", fullmatch=True), max_size=8))


@facet(err_st, quick=500, nontrivial=lambda c: c["msg"] and c["stack"], rule="a message and a stack")
def err_file(case):
    from castep_outputs.parsers import parse_err_file
    text = join([*case["msg"], "Current trace stack:", *(f" {x}" for x in case["stack"])])
    expect(parse_text(parse_err_file, text), {"message": "\n".join(case["msg"]).strip(), "stack": case["stack"]},
           text=text)


FACETS = [ts_file, tddft_file, epme_file, epme_columns, hug_file, xrd_sf_file, err_file]

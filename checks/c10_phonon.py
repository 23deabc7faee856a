"""C10: .phonon and .phonon_dos files."""
from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F, spread
from lib.harness import facet
from lib.oracle import check, expect, parse_text
from lib.textfmt import atoms_st, cell_lines, cell_value, cellrow, frac_lines, frac_value, join

qvec = g.vec(g.fixed(1, 6))
weight = g.fixed(1, 10, signed=False)


@st.composite
def phonon_st(draw):
    atoms = draw(atoms_st)
    return {"atoms": atoms, "cell": [draw(cellrow) for _ in range(3)],
            "ir": draw(st.booleans()), "raman": draw(st.booleans()), "seed": draw(g.seed_st),
            "qpts": draw(g.rows(g.rec(q=qvec, w=weight, dir=g.opt(qvec),
                                        num=st.integers(1, 9999)), min_size=1, max_size=4))}


def phonon_text(case):
    atoms, seed = case["atoms"], case["seed"]
    n, nb = len(atoms), 3 * len(atoms)
    lines = [" BEGIN header", f" Number of ions       {n:3d}", f" Number of branches   {nb:3d}",
             f" Number of wavevectors {len(case['qpts']):3d}", " Frequencies in         cm-1",
             " IR intensities in      (D/A)**2/amu", " Raman activities in    A**4 amu**(-1)",
             *cell_lines(case["cell"]), *frac_lines(atoms), " END header"]
    exp = {"ions": n, "branches": nb, "wavevectors": len(case["qpts"]),
           "unit_cell": cell_value(case["cell"]), "coords": frac_value(atoms), "qpts": []}
    for qi, q in enumerate(case["qpts"]):
        base = qi * 100000
        ent = {"qpt": tuple(map(F, q["q"])), "weight": F(q["w"]), "eigenvalues": [], "eigenvectors": []}
        head = f"     q-pt={q['num']:5d} {''.join(x.rjust(12) for x in q['q'])}      {q['w']}"
        if q["dir"]:
            head += "  " + "".join(x.rjust(12) for x in q["dir"])
            ent["dir"] = tuple(map(F, q["dir"]))
        lines.append(head)
        for b in range(nb):
            freq = spread(seed, base + b, 4, 6)
            line = f"{b + 1:8d}{freq.rjust(15)}"
            ent["eigenvalues"].append(F(freq))
            # Columns from phonon.f90: intensities are written for the first q-point and LO/TO directions.
            ir = spread(seed, base + 1000 + b, 3, 7, signed=False) if case["ir"] and (q["dir"] or qi == 0) else ""
            ram = spread(seed, base + 2000 + b, 3, 7, signed=False) if case["raman"] and (q["dir"] or qi == 0) else ""
            line += f"{'':8}{ir.rjust(15)}{'':9}{ram.rjust(15)}"
            if ir:
                ent.setdefault("ir_intensity", []).append(F(ir))
            if ram:
                ent.setdefault("raman_intensity", []).append(F(ram))
            lines.append(line.ljust(80))
        lines += ["                        Phonon Eigenvectors",
                  "Mode Ion                X                                   Y                                   Z"]
        for b in range(nb):
            for a in range(n):
                toks = [spread(seed, base + 5000 + (b * n + a) * 6 + k, 1, 12) for k in range(6)]
                lines.append(f"{b + 1:4d}{a + 1:4d}" + "    ".join(
                    f"{toks[k].rjust(16)}{toks[k + 1].rjust(16)}" for k in (0, 2, 4)))
                ent["eigenvectors"].append(tuple(complex(F(toks[k]), F(toks[k + 1])) for k in (0, 2, 4)))
        exp["qpts"].append(ent)
    return lines, exp


@facet(phonon_st(), quick=1500, nontrivial=lambda c: len(c["qpts"]) > 1 and len(c["atoms"]) > 1,
       rule="several q-points and atoms",
       labels=lambda c: {f"ir={c['ir']}", f"raman={c['raman']}", f"lo-to={any(q['dir'] for q in c['qpts'])}"})
def phonon_file(case):
    from castep_outputs.parsers import parse_phonon_file
    lines, exp = phonon_text(case)
    text = join(lines)
    res = dict(parse_text(parse_phonon_file, text))
    expect(res, exp, text=text)
    # The result is plain lookups: asking for something absent must not invent it
    check("gradients" not in res, "unexpected key")


@facet(g.rec(case=phonon_st(), q=st.integers(0, 9), row=st.integers(0, 200), dup=st.booleans(),
             where=st.sampled_from(("eigenvalues", "eigenvectors"))), quick=800,
       nontrivial=lambda c: len(c["case"]["atoms"]) > 1, rule="more than one atom",
       labels=lambda c: {c["where"], "extra row" if c["dup"] else "missing row"})
def phonon_row_count(case):
    """A q-point with a missing or extra mode is refused rather than reported."""
    from castep_outputs.parsers import parse_phonon_file
    lines, _ = phonon_text(case["case"])
    n = len(case["case"]["atoms"])
    starts = [i for i, ln in enumerate(lines) if "q-pt=" in ln]
    start = starts[case["q"] % len(starts)]
    if case["where"] == "eigenvalues":
        idx = start + 1 + case["row"] % (3 * n)
    else:
        # Not the last row: it is what ends the table
        idx = start + 3 * n + 3 + case["row"] % (3 * n * n - 1)
    if case["dup"]:
        lines.insert(idx, lines[idx])
    else:
        del lines[idx]
    text = join(lines)
    try:
        parse_text(parse_phonon_file, text)
    except (ValueError, OSError):
        return
    check(False, "malformed mode table was reported as data", text)


@st.composite
def dos_st(draw):
    atoms = draw(atoms_st)
    return {"atoms": atoms, "cell": [draw(cellrow) for _ in range(3)], "seed": draw(g.seed_st),
            "bins": draw(st.integers(2, 12)), "has_dos": draw(st.sampled_from((True, True, True, False))),
            "grads": draw(g.rows(g.rec(q=qvec, w=weight, num=st.integers(1, 9999)), max_size=3))}


def dos_text(case):
    atoms, seed = case["atoms"], case["seed"]
    species = sorted({a["spec"] for a in atoms})
    nb = 3 * len(atoms)
    lines = [" BEGIN header", f"  Number of ions               {len(atoms):3d}",
             f"  Number of species             {len(species):3d}", f"  Number of branches            {nb:3d}",
             f"  Number of bins in DOS      {case['bins']:4d}", *cell_lines(case["cell"]), *frac_lines(atoms),
             " END header"]
    exp = {"ions": len(atoms), "species": len(species), "branches": nb, "bins in DOS": case["bins"],
           "unit_cell": cell_value(case["cell"]), "coords": frac_value(atoms)}
    if case["grads"]:
        lines.append(" BEGIN GRADIENTS   n   f   |Grad_q f|")
        exp["gradients"] = []
        for gi, grad in enumerate(case["grads"]):
            lines.append(f"     q-pt={grad['num']:5d} {''.join(x.rjust(12) for x in grad['q'])}      {grad['w']}")
            ent = {"qpt": tuple(map(F, grad["q"])), "pth": (F(grad["w"]),), "n": (), "f": (), "Grad_qf": ()}
            for b in range(nb):
                f, gr = (spread(seed, gi * 10000 + k * 1000 + b, 4, 6 + k) for k in (0, 1))
                lines.append(f"{b + 1:8d}{f.rjust(15)}{gr.rjust(24)}")
                ent["n"] += (b + 1,)
                ent["f"] += (F(f),)
                ent["Grad_qf"] += (F(gr),)
            exp["gradients"].append(ent)
        lines.append(" END GRADIENTS")
    cols = {}
    if case["has_dos"]:
        lines.append(" BEGIN DOS   Freq (cm-1)  g(f)   " + "         ".join(species))
        cols = {k: () for k in ("freq", "g", *species)}
        for i in range(case["bins"]):
            toks = [f"{i - 1:.1f}", *(spread(seed, 500000 + i * 10 + j, 1, 6, signed=False)
                                      for j in range(len(cols) - 1))]
            lines.append(toks[0].rjust(8) + "".join(t.rjust(11) for t in toks[1:]))
            for key, tok in zip(cols, toks):
                cols[key] += (F(tok),)
        lines.append("  END DOS")
    return join(lines), exp, cols


def _parse_dos(case):
    from castep_outputs.parsers import parse_phonon_dos_file
    text, exp, cols = dos_text(case)
    res = dict(parse_text(parse_phonon_dos_file, text))
    res.pop("", None)       # artefact of the header reader, fixed by the reference data
    return text, exp, cols, res


@facet(dos_st(), quick=1200, nontrivial=lambda c: c["has_dos"] or c["grads"], rule="a gradients or a DOS table",
       labels=lambda c: {f"gradients={bool(c['grads'])}", f"dos={c['has_dos']}",
                         f"species={len({a['spec'] for a in c['atoms']})}"})
def phonon_dos_file(case):
    text, exp, cols, res = _parse_dos(case)
    if cols:
        check(isinstance(res.get("dos"), list) and len(res["dos"]) == 1, "DOS table missing", text)
        dos = dict(res.pop("dos")[0])
        # Known finding (dos_all_rows): the last row of the table is dropped. Nothing else may be.
        if len(dos.get("freq", ())) != case["bins"]:
            cols = {k: v[:-1] for k, v in cols.items()}
        expect(dos, cols, "DOS", text=text)
    expect(res, exp, text=text)


@facet(dos_st(), quick=0, thorough=0, rule="known-finding oracle: every row of the DOS table is reported")
def dos_all_rows(case):
    text, _, cols, res = _parse_dos(case)
    expect(dict(res["dos"][0]), cols, "DOS", text=text)


FACETS = [phonon_file, phonon_row_count, phonon_dos_file, dos_all_rows]

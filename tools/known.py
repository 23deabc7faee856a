"""Writes known_findings.json (run by hand; checks never write it)."""
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
ATOMS = [{"spec": "B", "pos": ["0.000000", "0.250000", "-0.500000"], "mass": "10.811000"}]
CELL = [["1.000000", "0.000000", "0.000000"], ["0.000000", "2.000000", "0.000000"], ["0.000000", "0.000000", "3.000000"]]
EF = {"atoms": ATOMS, "cell": CELL, "seed": 12345, "q": "50.0", "freqs": 3, "osc": True, "perm": True}
F = []


def finding(prop, facet, case, what):
    F.append({"property": prop, "facet": facet, "case": case, "what": what})


finding("C10", "dos_all_rows", {"atoms": ATOMS, "cell": CELL, "seed": 12345, "bins": 3, "has_dos": True, "grads": []},
        "the last row of the density of states in a .phonon_dos file is dropped (pinned by test/data_files/phonon_dos.json)")
finding("C11", "efield_osc", EF, ".efield oscillator strengths: mode index reported as frequency, columns shifted by one, last mode dropped (pinned by test/data_files/efield.json)")
finding("C11", "efield_perm", EF, ".efield permittivity: last row dropped (pinned by test/data_files/efield.json)")
finding("C11", "elastic_strain", {"atoms": ATOMS, "cell": CELL, "seed": 12345, "blocks": [7]},
        ".elastic internal strain rows start with the atom index as if it were a component (pinned by test/data_files/elastic.json)")
finding("C12", "magres_all_totals", {"version": "23.1", "atoms": [["H", 1], ["H", 2]], "seed": 12345, "calc": {}, "site": [], "pair": [], "old": True},
        ".magres old-style block: only the last atom's total shielding tensor is kept")
finding("C15", "epme_columns", {"version": 1, "nb": 1, "nph": 1, "seed": 12345, "pairs": [["0.100000"] * 6]},
        ".epme rows: phonon frequency reported as e_i, E_i as e_f, velocities and matrix element shifted by one (pinned by test/data_files/epme.json)")

exec((HERE / "tools" / "known_more.py").read_text())

FIXED = """
C02 9f03ced text values with a numeric prefix were taken for numbers
C03 6f9fab8 the sign of negative rational numbers was lost
C02 fe91149 keyword lines with digits in the name, or text values starting with a digit or sign, were dropped
C02 a76a6ce tab separated vectors were dropped
C03 68f8cad blocks with extra whitespace between %block and the title were not recognised
C03 3261dee ionic constraints beyond the ninth were dropped
C03 562d219 positions of tagged atoms were dropped
C03 0f540ff unit lines containing a digit were reported as a row of data
C04 3900d25 the sign of beta energies in pseudopotential strings was lost
C04 ae9961b devel_code: repeated sections, ':' separated values and text with punctuation were lost
C08 6e055b2 spin-polarised .bands headers: electrons and eigenvalues under mangled names, Fermi energies missing
C15 e0fb9a1 .ts files of searches other than TSConfirmation (TSTYPE LST...) crashed the parser
C13 c8a6f85 .md/.geom frames separated by lines of spaces were merged into one frame
"""
exec((HERE / "tools" / "fixed_more.py").read_text())
fixed = []
for ln in FIXED.strip().splitlines():
    prop, commit, what = ln.split(" ", 2)
    fixed.append(f"fixed: property={prop} {commit} {what}")
(HERE / "known_findings.json").write_text(json.dumps({"findings": F, "fixed": fixed}, indent=1) + "\n")
print(len(F), "findings", len(fixed), "fixed")

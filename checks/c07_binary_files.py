"""C07: binary output files (.cst_esp, .epme_bin)."""
import io
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from lib import fortran, gen as g
from lib.harness import facet
from lib.oracle import expect, parse_bytes

f64 = st.one_of(st.floats(-1e6, 1e6), st.floats(allow_nan=False, allow_infinity=False))
cplx = st.tuples(f64, f64).map(list)


@st.composite
def esp_st(draw):
    nx, ny, nz = draw(g.count(1, 5)), draw(g.count(1, 5)), draw(g.count(1, 5))
    sets = draw(st.integers(1, 2))
    # Few distinct values per file keeps cases small; position is encoded on top of them.
    seed = draw(st.lists(cplx, min_size=1, max_size=4))
    return {"grid": [nx, ny, nz], "sets": sets, "spins": draw(st.integers(1, 2)), "seed": seed}


def esp_value(case, s, x, y, z):
    base = case["seed"][(s + 3 * x + 5 * y + 7 * z) % len(case["seed"])]
    return [float(s * 1000 + x * 100 + y * 10 + z), base[1]] if (x + y + z) % 2 else base


@facet(esp_st(), quick=600, nontrivial=lambda c: c["grid"][1] > 1 and c["grid"][2] > 1,
       rule="grid larger than one in every direction", labels=lambda c: {f"sets={c['sets']}"})
def cst_esp(case):
    from castep_outputs.bin_parsers import parse_cst_esp_file
    nx, ny, nz = case["grid"]
    recs = [[("int", [case["spins"]])], [("int", case["grid"])]]
    data = [[[tuple(complex(*esp_value(case, s, x, y, z)) for z in range(nz)) for y in range(ny)]
             for x in range(nx)] for s in range(case["sets"])]
    for s in range(case["sets"]):
        for x in range(nx):
            for y in range(ny):
                recs.append([("int", [x + 1, y + 1]),
                             ("complex", [esp_value(case, s, x, y, z) for z in range(nz)])])
    exp = {"n_spins": case["spins"], "grid": tuple(case["grid"]), "esp": data[0]}
    if case["sets"] == 2:
        exp["mgga"] = data[1]
    expect(parse_bytes(parse_cst_esp_file, fortran.write(recs)), exp)


@st.composite
def epme_st(draw):
    nions, pairs, bands = draw(g.count(1, 4)), draw(g.rare(st.integers(1, 3), st.integers(7, 9))), draw(g.rare(st.integers(1, 3), st.integers(7, 9)))
    spins = draw(st.integers(1, 2))
    return {
        "version": draw(st.integers(1, 9)), "spins": spins, "fermi": draw(f64),
        "bands": bands, "pairs": pairs, "lattice": draw(st.lists(f64, min_size=9, max_size=9)),
        "ions": [[draw(g.tagged), draw(st.lists(f64, min_size=3, max_size=3))] for _ in range(nions)],
        "pad": draw(st.sampled_from((2, 3, 8))),
        "kpts": [[s + 1, k + 1, bands, draw(st.integers(1, 5)), draw(st.lists(f64, min_size=bands, max_size=bands)),
                  draw(st.lists(f64, min_size=3, max_size=3))]
                 for s in range(spins) for k in range(2 * pairs)],
        "phonons": [[draw(st.lists(st.integers(1, 99), min_size=2, max_size=2)),
                     draw(st.lists(f64, min_size=1, max_size=3)),
                     draw(st.lists(cplx, min_size=1, max_size=3)), draw(st.lists(cplx, min_size=1, max_size=3))]
                    for _ in range(pairs)],
    }


def epme_records(case):
    """The records of a file and what they say."""
    recs = [[("str", ["CASTEP_EPME"])], [("int", [case["version"]])], [("str", ["HEADER"])],
            [("int", [case["spins"]])], [("float", [case["fermi"]])],
            [("str", ["ATOM"])], [("int", [len(case["ions"])])], [("float", case["lattice"])]]
    exp = {"version": case["version"], "n_spins": case["spins"], "fermi_energy": case["fermi"],
           "n_ions": len(case["ions"]), "real_lattice": tuple(case["lattice"]), "ions": {}}
    for i, (spec, pos) in enumerate(case["ions"], 1):
        recs += [[("int", [i])], [("str", [spec.ljust(case["pad"])])], [("float", pos)]]
        exp["ions"][spec, i] = tuple(pos)
    recs += [[("str", ["KPOINT"])], [("int", [2 * case["pairs"]])], [("int", [case["bands"]])]]
    exp |= {"n_kpoint_pairs": case["pairs"], "n_bands": case["bands"], "kpoints": {}, "phonons": []}
    for ns, nk, nb, mb, eig, vel in case["kpts"]:
        recs += [[("int", [ns])], [("int", [nk])], [("int", [nb])], [("int", [mb])],
                 [("float", eig)], [("float", vel)]]
        exp["kpoints"][ns, nk] = {"n_bands": nb, "min_band": mb, "eigenvalues": tuple(eig),
                                  "velocities": tuple(vel)}
    recs += [[("str", ["EPCOUPLING"])], [("int", [case["pairs"]])], [("int", [case["bands"] ** 2])]]
    for i, (kpts, freq, modes, mats) in enumerate(case["phonons"], 1):
        recs += [[("int", [i])], [("int", [1])], [("int", [1])], [("int", kpts)], [("float", freq)],
                 [("complex", modes)], [("complex", mats)]]
        exp["phonons"].append({"kpts": tuple(kpts), "frequencies": tuple(freq),
                               "modes": fortran.pyvals("complex", modes),
                               "matrix_elements": fortran.pyvals("complex", mats)})
    return recs, exp


@facet(epme_st(), quick=800, nontrivial=lambda c: len(c["ions"]) > 1 and c["pairs"] > 1,
       rule="several ions and several k-point pairs", labels=lambda c: {f"spins={c['spins']}"})
def epme_bin(case):
    from castep_outputs.bin_parsers import parse_epme_bin_file
    recs, exp = epme_records(case)
    raw = fortran.write(recs)
    expect(parse_bytes(parse_epme_bin_file, raw), exp)
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / "x.epme_bin"
        path.write_bytes(raw)
        expect(parse_epme_bin_file(path), exp, "through a path")


FACETS = [cst_esp, epme_bin]

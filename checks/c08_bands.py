"""C08: .bands files."""
from hypothesis import strategies as st

from lib import gen as g
from lib.gen import F
from lib.harness import facet
from lib.oracle import expect, parse_text
from lib.textfmt import cell_lines, cell_value, cellrow, join

eig = g.fixed(3, 8)


@st.composite
def bands_st(draw):
    spins = draw(st.sampled_from((1, 1, 2)))
    bands = [draw(g.count(1, 6)) for _ in range(spins)]
    nelec = [draw(st.one_of(st.integers(0, 5000).map("{}.000".format), st.integers(0, 400).map(str),
                            g.fixed(2, 3, signed=False))) for _ in range(spins)]
    kpts = draw(g.rows(g.rec(q=g.vec(g.fixed(1, 8)), w=g.fixed(1, 8, signed=False),
                               eigs=st.tuples(*(g.vec(eig, n) for n in bands)).map(list)),
                         min_size=1, max_size=5))
    return {"spins": spins, "bands": bands, "nelec": nelec, "kpts": kpts,
            "fermi": [draw(g.fixed(2, 6)) for _ in range(spins)], "cell": [draw(cellrow) for _ in range(3)],
            "order": draw(st.permutations(range(len(kpts))).map(list))}


def num(tok):
    val = F(tok)
    return int(val) if val == int(val) else val


@facet(bands_st(), quick=2500, nontrivial=lambda c: len(c["kpts"]) > 1,
       rule="more than one k-point", labels=lambda c: {f"spins={c['spins']}"})
def bands_file(case):
    from castep_outputs.parsers import parse_bands_file
    ns, kpts = case["spins"], case["kpts"]
    one = ns == 1
    lines = [f"Number of k-points {len(kpts):4d}", f"Number of spin components {ns}",
             "Number of electrons  " + " ".join(x.rjust(10) for x in case["nelec"]),
             "Number of eigenvalues " + " ".join(f"{x:5d}" for x in case["bands"]),
             f"Fermi energ{'y' if one else 'ies'} (in atomic units) " + " ".join(x.rjust(12) for x in case["fermi"]),
             *cell_lines(case["cell"], "Unit cell vectors")]
    exp = {"k-points": len(kpts), "spin components": ns,
           "electrons": num(case["nelec"][0]) if one else tuple(map(num, case["nelec"])),
           "eigenvalues": case["bands"][0] if one else tuple(case["bands"]),
           "Fermi energy" if one else "Fermi energies": tuple(map(F, case["fermi"])),
           "unit_cell": cell_value(case["cell"]), "coords": {}, "bands": []}
    # Parallel runs write k-points in any order
    for i in case["order"]:
        kpt = kpts[i]
        lines.append(f"K-point {i + 1:5d}{''.join(x.rjust(12) for x in kpt['q'])}{kpt['w'].rjust(12)}")
        for s, eigs in enumerate(kpt["eigs"], 1):
            lines.append(f"Spin component {s}")
            lines += [x.rjust(14) for x in eigs]
        ent = {"qpt": tuple(map(F, kpt["q"])), "weight": F(kpt["w"]), "spin_comp": not one}
        for key, eigs in zip(("band",) if one else ("band_up", "band_down"), kpt["eigs"]):
            ent[key] = tuple(map(F, eigs))
        exp["bands"].append(ent)
    text = join(lines)
    expect(dict(parse_text(parse_bands_file, text)), exp, text=text)


FACETS = [bands_file]

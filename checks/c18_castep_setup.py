"""C18: .castep sections: cell, species and simulation set-up."""
from lib import castep as cs
from lib.castep_check import parse_lines, section_facets
from lib.gen import F, rec
from lib.harness import facet
from lib.oracle import expect
from lib.pspot import expect_pspot


@facet(rec(seed=cs.seed, n=cs.st.integers(1, 3)), quick=0, thorough=0, rule="known-finding oracle: three components of a k-point")
def kpoint_z(case):
    lines, ((_, _, val),) = cs.render("kpoints_list", case)
    res = parse_lines(["", *lines, ""])[0]["k-points"]["points"]
    expect([p["qpt"] for p in res], [p["qpt"].alts[0] for p in val["points"]], text="\n".join(lines))


@facet(cs.SECTIONS["pspot_report"].strategy.filter(lambda c: c["detail"]), quick=0, thorough=0,
       rule="known-finding oracle: the definition string of a pseudopotential report")
def pspot_detail(case):
    lines, _ = cs.render("pspot_report", case)
    res = parse_lines(["", *lines, ""])[0]["pspot_detail"][0]
    expect(res.get("detail"), expect_pspot(case["detail"]), text="\n".join(lines))


FACETS = [*section_facets("C18", single=9000, several=2500), kpoint_z, pspot_detail]

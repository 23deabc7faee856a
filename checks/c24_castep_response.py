"""C24: .castep sections: response properties."""
from lib import castep as cs
from lib.castep_check import parse_lines, section_facets
from lib.gen import F, rec
from lib.harness import facet
from lib.oracle import expect


@facet(rec(seed=cs.seed, verbose=cs.st.just([[1, 1]])), quick=0, thorough=0, rule="known-finding oracle: every table of a verbose Berry phase calculation")
def berry_tables(case):
    lines, _ = cs.render("berry", case)
    res = repr(parse_lines(["", *lines, ""]))
    rows = [ln.split()[-3:] for ln in lines if ln.lstrip().startswith("Electronic polarisation")]
    expect([r for r in rows if not all(repr(F(t)) in res for t in r)], [], "rows not reported", text="\n".join(lines))


FACETS = [*section_facets("C24", single=7000, several=2000), berry_tables]

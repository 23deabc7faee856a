"""C22: .castep sections: molecular dynamics and geometry optimisation."""
from lib import castep as cs
from lib import castep3 as c3
from lib.castep_check import parse_lines, section_facets
from lib.gen import F, rec
from lib.harness import facet
from lib.oracle import expect


@facet(rec(before=cs.SECTIONS["memory_estimate"].strategy, inside=cs.SECTIONS["memory_estimate"].strategy), quick=0, thorough=0,
       rule="known-finding oracle: memory estimates before and inside MD iterations")
def md_memory(case):
    a, b = (cs.render("memory_estimate", case[k])[0] for k in ("before", "inside"))
    lines = [*a, "", c3.EQ, " Starting MD iteration          1 ...", c3.EQ, "", *b, "", " ... finished MD iteration          1", "", c3.EQ, c3.EQ]
    expect(len(parse_lines(lines)[0]["memory_estimate"]), 2, text="\n".join(lines))


@facet(rec(atom=cs.st.integers(1, 9)), quick=0, thorough=0, rule="known-finding oracle: a bond between an atom and its own image")
def constraint_same_atom(case):
    at = case["atom"]
    lines, _ = cs.render("internal_constraints", [{"type": "Bond", "sat": True, "seed": 5, "atoms": [at, at, at, at]}])
    res = parse_lines(["", *lines])[0]["internal_constraints"][0]["constraints"]
    expect(len(res), 2, text="\n".join(lines))


FACETS = [*section_facets("C22", single=4000, several=1500), md_memory, constraint_same_atom]

"""C17: .castep sections: run information, options and timing."""
from lib import castep as cs
from lib.castep_check import parse_lines, section_facets
from lib.gen import F, rec
from lib.harness import facet
from lib.oracle import expect


@facet(rec(rows=cs.st.just([["Baseline code, static data and system overhead", "239.0", "0.0"]])), quick=0, thorough=0,
       rule="known-finding oracle: every row of a memory estimate")
def memory_all_rows(case):
    lines = ["+---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+",
             *(f"| {k:<48}{m:>9} MB{d:>12} MB |" for k, m, d in case["rows"]),
             "+----------------------------------------------------------------------------+"]
    expect(len(parse_lines(lines)[0]["memory_estimate"][0]), len(case["rows"]), "rows", text="\n".join(lines))


FACETS = [*section_facets("C17", single=6000, several=2500), memory_all_rows]

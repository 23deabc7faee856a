"""C16: a .castep file holds one report per run, whatever the runs contain."""
from hypothesis import strategies as st

from lib import castep as cs
from lib import castep3 as c3
from lib.castep_check import body, parse_lines
from lib.gen import rec, rows
from lib.harness import facet
from lib.oracle import expect

ALL = [n for n in cs.SECTIONS if n != "build_info"]
run_st = rec(build=cs.SECTIONS["build_info"].strategy, parts=c3.compose(ALL, 0, 4), noise=st.lists(c3.noise_st, min_size=5, max_size=5),
             build_info=st.booleans())


def parts_of(run, first):
    """Every run but the first must announce itself."""
    build = [["build_info", run["build"]]] if run["build_info"] or not first else []
    return [*build, *run["parts"]]


@facet(rec(runs=rows(run_st, min_size=1, max_size=4, big=(9, 12)), full=st.booleans()), quick=2500, nontrivial=lambda c: len(c["runs"]) > 1,
       rule="several runs", labels=lambda c: [f"runs={len(c['runs'])}"])
def concatenated_runs(case):
    """Runs appended to one file are reported one by one, as if each had its own file."""
    names = cs.FULL if case["full"] else cs.MEDIUM
    lines, exp = [], []
    for i, run in enumerate(case["runs"]):
        parts = parts_of(run, i == 0)
        lines += body(parts, run["noise"], names)
        if (rep := cs.model(parts, names)):
            exp.append(rep)
    expect(parse_lines(lines, names), exp, text="\n".join(lines))


@facet(rec(runs=st.lists(run_st, min_size=2, max_size=3)), quick=1200, rule="several runs")
def runs_equal_files(case):
    """Parsing the concatenation gives the concatenation of the parses (no model of the contents involved)."""
    texts = [body(parts_of(run, False), run["noise"]) for run in case["runs"]]
    whole = parse_lines([ln for t in texts for ln in t])
    single = [rep for t in texts for rep in parse_lines(t)]
    expect(whole, single, text="\n".join(ln for t in texts for ln in t))


FACETS = [concatenated_runs, runs_equal_files]

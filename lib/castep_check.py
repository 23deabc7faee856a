"""Checks over the .castep section writers: single sections, several sections, selected levels of detail."""
from __future__ import annotations

import io

from hypothesis import strategies as st

from . import castep as cs
from . import castep3 as c3
from .castep import SECTIONS
from .gen import rec
from .harness import Facet
from .oracle import expect


def flags(names):
    from castep_outputs.parsers.castep_file_parser import Filters
    out = Filters.NONE
    for n in names:
        out |= Filters[n]
    return out


def parse_lines(lines, names=None, **kw):
    from castep_outputs.parsers import parse_castep_file
    if names is not None:
        kw["filters"] = flags(names)
    return parse_castep_file(io.StringIO("\n".join(lines) + "\n"), **kw)


def report(parts, names=cs.FULL):
    run = cs.model(parts, names)
    return [run] if run else []


def body(parts, noise, names=cs.FULL):
    return [*c3.text_of(parts, noise, names), "", "the end"]


def check_parts(case, names=cs.FULL):
    lines = [*case["before"], *body(case["parts"], case["noise"], names)]
    expect(parse_lines(lines, names), report(case["parts"], names), text="\n".join(lines))


def n_sections(case):
    return [n for n, _ in case["parts"]]


def section_facets(prop, *, single=2400, several=800, extra=()):
    """Every section of a property alone and with others of its kind, between lines without data."""
    names = [n for n, s in SECTIONS.items() if s.prop == prop]
    names += list(extra)
    one = Facet("single_section",
                rec(parts=c3.pick(names).map(lambda p: [p]), noise=st.lists(c3.noise_st, min_size=1, max_size=1), before=c3.noise_st),
                check_parts, quick=single, rule="the section contributes to the report",
                nontrivial=lambda c: bool(report(c["parts"])), labels=n_sections)
    many = Facet("several_sections",
                 rec(parts=c3.compose(names, 2, 6), noise=st.lists(c3.noise_st, min_size=6, max_size=6), before=c3.noise_st),
                 check_parts, quick=several, rule="more than one section", nontrivial=lambda c: len(c["parts"]) > 1,
                 labels=lambda c: [f"sections={len(c['parts'])}"])
    return [one, many]

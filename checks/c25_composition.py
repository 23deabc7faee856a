"""C25: what a .castep section reports does not depend on what surrounds it."""
import io

from hypothesis import strategies as st

from lib import castep as cs
from lib import castep3 as c3
from lib import files
from lib.castep_check import check_parts, parse_lines
from lib.gen import rec
from lib.harness import facet
from lib.oracle import expect

ALL = list(cs.SECTIONS)


@facet(rec(parts=c3.compose(ALL, 2, 9), noise=st.lists(c3.noise_st, min_size=9, max_size=9), before=c3.noise_st), quick=5000,
       nontrivial=lambda c: len(c["parts"]) > 1, rule="more than one section",
       labels=lambda c: [n for n, _ in c["parts"]])
def any_order(case):
    """Sections of every kind in any order with other lines in between."""
    check_parts(case)


@facet(rec(parts=c3.compose(ALL, 1, 5), noise=st.lists(st.lists(st.sampled_from(c3.NOISE), min_size=1, max_size=4), min_size=6, max_size=6)), quick=1500,
       rule="at least one section reports something", nontrivial=lambda c: bool(cs.model(c["parts"])))
def noise_changes_nothing(case):
    """Adding lines without data between sections leaves the report alone (metamorphic)."""
    plain = ["start", *c3.text_of(case["parts"], [[""]] * 9), "", "the end"]
    noisy = [*case["noise"][5], *c3.text_of(case["parts"], [["", *n, ""] for n in case["noise"]] + [[""]] * 9), "", "the end"]
    expect(parse_lines(noisy), parse_lines(plain), "with other lines added", text="\n".join(noisy))


EMBED = ("bands", "hug", "phonon_dos", "efield", "xrd_sf", "elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt", "elastic")  # those the output may hold


@facet(rec(parts=c3.compose(ALL, 0, 3), noise=st.lists(c3.noise_st, min_size=3, max_size=3),
           files=st.lists(files.file_st(EMBED), min_size=1, max_size=3, unique_by=lambda f: f["type"]), timing=st.one_of(st.none(), cs.SECTIONS["finalisation"].strategy),
           wanted=st.sampled_from((True, True, False)), after=c3.compose([n for n in ALL if n != "build_info"], 0, 2)), quick=1500, rule="the embedded files are read",
       nontrivial=lambda c: c["wanted"], labels=lambda c: [f["type"] for f in c["files"]])
def embedded_files(case):
    """A file printed within the output (also right after the timings) is reported as the file on its own is, if asked for."""
    names = cs.EVERYTHING if case["wanted"] else cs.FULL
    seen = {cs.SECTIONS[n].group for n, _ in case["parts"]}
    parts = case["parts"] + [p for p in case["after"] if cs.SECTIONS[p[0]].group not in seen]
    before, rest = case["parts"], parts[len(case["parts"]):]
    lines = ["start", *c3.text_of(before, case["noise"], names), ""]
    if case["timing"] and "finalisation" not in seen | {n for n, _ in rest}:
        timing = [*cs.render("finalisation", {**case["timing"], "eff": None})[0]]
        lines += timing[:-1]  # no blank line before the files
        parts = [*before, ["finalisation", {**case["timing"], "eff": None}], *rest]
    exp = {}
    for file in case["files"]:
        text = files.raw(file["type"], file["case"]).decode("utf-8")
        exp[file["type"]] = files.parser_for(file["type"])(io.StringIO(text))
        lines += [f"<BEGIN {file['type']}>", *text.splitlines(), f"<END {file['type']}>"]
    lines += ["", *c3.text_of(rest, case["noise"], names), "", "the end"]
    run = cs.model(parts, names)
    if case["wanted"]:
        run["external_files"] = exp
    expect(parse_lines(lines, names), [run] if run else [], text="\n".join(lines))


FACETS = [any_order, noise_changes_nothing, embedded_files]

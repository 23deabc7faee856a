"""C26: the requested level of detail selects whole kinds of data and changes nothing else."""
import io

from hypothesis import strategies as st

from lib import castep as cs
from lib import castep3 as c3
from lib.castep_check import body, flags, parse_lines, report
from lib.gen import rec
from lib.harness import facet
from lib.oracle import expect

ALL = list(cs.SECTIONS)
NAMES = sorted(cs.EVERYTHING)
PRESETS = {"NONE": set(), "LOW": cs.LOW, "MEDIUM": cs.MEDIUM, "HIGH": cs.HIGH, "FULL": cs.FULL, "ALL": cs.FULL,
           "TESTING": cs.FULL - {"FINAL_CONFIG", "MD_SUMMARY", "PARAMETERS", "POLARISATION", "SPIN", "SYMMETRIES", "SYS_INFO", "SCF", "DELTA_SCF"} | {"TEST_EXTRA_DATA"}}
subset = st.one_of(st.lists(st.sampled_from(NAMES), unique=True), st.lists(st.sampled_from(NAMES), max_size=3, unique=True).map(
    lambda drop: [n for n in NAMES if n not in drop]), st.sampled_from(NAMES).map(lambda n: [n]))
file_case = dict(parts=c3.compose(ALL, 1, 7), noise=st.lists(c3.noise_st, min_size=8, max_size=8))


@facet(rec(**file_case, names=subset), quick=5000, rule="some but not all of the report is selected",
       nontrivial=lambda c: 0 < len(cs.model(c["parts"], set(c["names"]))) and cs.model(c["parts"], set(c["names"])) != cs.model(c["parts"]),
       labels=lambda c: [f"selected={len(c['names']) // 10}x"])
def any_selection(case):
    names = set(case["names"])
    lines = ["start", *body(case["parts"], case["noise"], names)]
    expect(parse_lines(lines, names), report(case["parts"], names), f"{sorted(names)}", text="\n".join(lines))


@facet(rec(**file_case, preset=st.sampled_from(tuple(PRESETS)), default=st.booleans()), quick=2500, rule="a report is selected",
       nontrivial=lambda c: bool(cs.model(c["parts"], PRESETS[c["preset"]])), labels=lambda c: [c["preset"]])
def presets(case):
    """The named levels select what they are documented to; the default is the high level."""
    from castep_outputs.parsers import parse_castep_file
    from castep_outputs.parsers.castep_file_parser import Filters
    preset = case["preset"]
    names = PRESETS[preset]
    lines = ["start", *body(case["parts"], case["noise"], names)]
    text = "\n".join(lines) + "\n"
    kw = {} if preset == "HIGH" and case["default"] else {"filters": Filters[preset]}
    expect(parse_castep_file(io.StringIO(text), **kw), report(case["parts"], names), preset, text=text)


@facet(rec(parts=c3.compose([n for n in ALL if n not in ("geom_opt", "md_steps", "bsc")], 1, 7), noise=st.lists(c3.noise_st, min_size=8, max_size=8),
           less=subset, more=subset), quick=2500, rule="some but not all keys survive",
       nontrivial=lambda c: 0 < len(cs.model(c["parts"], set(c["less"]))) < len(cs.model(c["parts"], set(c["less"]) | set(c["more"]))))
def selecting_more_only_adds(case):
    """Metamorphic: every top-level entry read at one level is read at any level that includes it."""
    from castep_outputs.parsers import parse_castep_file
    text = "\n".join(["start", *body(case["parts"], case["noise"])]) + "\n"
    less = parse_castep_file(io.StringIO(text), filters=flags(case["less"]))
    more = parse_castep_file(io.StringIO(text), filters=flags(set(case["less"]) | set(case["more"])))
    if not less:
        return
    one, two = less[0], more[0]
    for key, val in one.items():
        part = two.get(key)
        if key == "species_properties":
            decoded = "PSPOT" in case["more"] and "PSPOT" not in case["less"]
            expect({s: {k: undecoded(part[s].get(k)) if decoded else part[s].get(k) for k in v} for s, v in val.items()}, val, f"{key}, reading more", text=text)
        elif isinstance(val, dict):
            expect({k: part.get(k) for k in val}, val, f"{key}, reading more", text=text)
        elif isinstance(val, list):
            rest = list(part)
            for item in val:  # the same items, in the same order
                while rest and rest[0] != item:
                    rest.pop(0)
                expect(rest[:1], [item], f"{key}, reading more", text=text)
                rest.pop(0)
        else:
            expect(part, val, f"{key}, reading more", text=text)


def undecoded(val):
    """A pseudopotential as it is reported where pseudopotentials are not selected: their definition strings are kept as they are."""
    return val["string"] if isinstance(val, dict) and "string" in val else val


FACETS = [any_selection, presets, selecting_more_only_adds]

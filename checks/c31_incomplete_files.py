"""C31: a file which stops early is refused, or reported for what it holds."""
import io

from hypothesis import strategies as st

from lib import castep as cs
from lib import castep3 as c3
from lib import files, mdgeom
from lib.castep_check import parse_lines, report
from lib.gen import rec
from lib.harness import Violation, facet
from lib.oracle import expect


#: Reported for the run until its first optimisation step, and from then on for the step before it.
BEFORE_OPT = {"enthalpy", "scf", "forces", "stresses", "minimisation"}


def part_of(small, big, path="$"):
    """Difference if `small` is not what `big` starts with: entries missing at the ends of sequences and in mappings only."""
    if isinstance(small, dict) and isinstance(big, dict):
        first = ((big.get("geom_opt") or {}).get("iterations") or [{}])[0] if "geom_opt" in big else {}
        for key, val in small.items():
            if key not in big and key in BEFORE_OPT and key in first:
                if (out := part_of(val, first[key], f"{path}[{key!r}]")):
                    return out
                continue
            if key not in big:
                return f"{path}: {key!r} = {val!r:.200} is not in the whole file"
            if (out := part_of(val, big[key], f"{path}[{key!r}]")):
                return out
        return None
    if isinstance(small, (list, tuple)) and isinstance(big, (list, tuple)) and len(small) <= len(big):
        for i, (a, b) in enumerate(zip(small, big)):
            if (out := part_of(a, b, f"{path}[{i}]")):
                return out
        return None
    if isinstance(small, str) and isinstance(big, str) and "['warning']" in path and big.startswith(small):
        return None     # a warning printed over several lines
    return None if small == big or small != small else f"{path}: {small!r:.200}, but {big!r:.200} in the whole file"


def attempt(parser, file):
    """Parsed data, or None if the file was refused."""
    try:
        return parser(file)
    except Exception:  # noqa: BLE001
        return None


TEXT = tuple(t for t in files.TYPES if t not in files.BINARY)


def pieces(case):
    raw = files.raw(case["file"]["type"], case["file"]["case"]).decode("utf-8").splitlines(keepends=True)
    a, b = sorted(c % (len(raw) + 1) for c in case["cuts"])
    return "".join(raw[:a]), "".join(raw[:b]), "".join(raw)


@facet(rec(file=files.file_st(TEXT), cuts=st.lists(st.integers(0, 10 ** 6), min_size=2, max_size=2)), quick=5000,
       rule="cut inside the file", nontrivial=lambda c: 0 < len(pieces(c)[0]) < len(pieces(c)[2]), labels=lambda c: [c["file"]["type"]])
def whole_lines(case):
    """Cut after a line: nothing is invented, and what was there stays there as the file grows."""
    parser = files.parser_for(case["file"]["type"])
    last = None
    for text in pieces(case):
        data = attempt(parser, io.StringIO(text))
        if data is not None and last is not None and (out := part_of(last[0], data)):
            if "['initial_cell']" in out and "Unit Cell" in text[len(last[1]):]:
                last = data, text       # another cell was printed in the same run, and replaces it
                continue
            raise Violation(f"{case['file']['type']} after {last[1].count(chr(10))} lines, then {text.count(chr(10))}: {out}\n----- input -----\n{last[1]:.3000}")
        if data is not None:
            last = data, text
    if data is None:
        raise Violation(f"the complete file was refused: {text:.3000}")


@facet(rec(file=files.file_st(files.BINARY), cut=st.integers(0, 10 ** 6)), quick=1500, rule="cut inside the file", labels=lambda c: [c["file"]["type"]])
def binary_cut(case):
    parser = files.parser_for(case["file"]["type"])
    raw = files.raw(case["file"]["type"], case["file"]["case"])
    part = attempt(parser, io.BytesIO(raw[:case["cut"] % len(raw)]))
    if part is not None and (out := part_of(part, parser(io.BytesIO(raw)))):
        raise Violation(f"{len(raw)} bytes cut to {case['cut'] % len(raw)}: {out}")


@facet(rec(parts=c3.compose(list(cs.SECTIONS), 1, 6), noise=st.lists(c3.noise_st, min_size=6, max_size=6)), quick=3000,
       rule="a report", nontrivial=lambda c: bool(report(c["parts"])), labels=lambda c: [c["parts"][-1][0]])
def unfinished_run(case):
    """A run which stopped after a section is reported up to there, without error."""
    lines = ["start", *c3.text_of(case["parts"], case["noise"]), ""]
    expect(parse_lines(lines, cs.FULL), report(case["parts"]), text="\n".join(lines))


@facet(rec(case=mdgeom.file_st(max_frames=5), frame=st.integers(0, 4), line=st.integers(0, 99)), quick=1200, rule="a frame before the cut",
       nontrivial=lambda c: c["frame"] > 0 and len(c["case"]["shapes"]) > 1, labels=lambda c: [c["case"]["style"]])
def complete_frames(case):
    """Frames before an unfinished one are reported in full."""
    from castep_outputs.parsers import parse_md_geom_file
    shapes = case["case"]["shapes"]
    k = case["frame"] % len(shapes)
    before, frames = mdgeom.build({**case["case"], "shapes": shapes[:k]})
    after = mdgeom.build({**case["case"], "shapes": shapes[:k + 1]})[0][len(before):].splitlines(keepends=True)
    text = before + "".join(after[:case["line"] % len(after)])
    data = attempt(parse_md_geom_file, io.StringIO(text))
    if data is not None:
        expect([dict(x) for x in data[:k]], frames, "the frames before the unfinished one", text=text)


FACETS = [whole_lines, binary_cut, unfinished_run, complete_frames]

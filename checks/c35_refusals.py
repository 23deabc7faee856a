"""C35: contradictory or malformed input is refused, not reported as if it had been understood."""
import contextlib
import copy
import io
import os
import sys
import tempfile
from math import isqrt
from pathlib import Path

from hypothesis import strategies as st

from lib import files, fortran, gen as g, mdgeom
from lib.harness import Violation, facet
from lib.oracle import check, parse_bytes, parse_text
from lib.pspot import pspot_st, write_pspot

from .c07_binary_files import epme_records, epme_st
from .c30_generated_files import unknown_tasks

REFUSALS = (Exception,)


def refuses(what, fn, kinds=REFUSALS):
    """The call fails, with an error of the kinds given and with nothing else to report."""
    more, old = [], sys.unraisablehook
    sys.unraisablehook = more.append
    try:
        try:
            res = fn()
        except kinds as exc:
            exc.__traceback__ = None
            del exc
            check(not more, f"{what} was refused, but with {more}")
            return
    finally:
        sys.unraisablehook = old
    raise Violation(f"{what} was accepted: {res!r:.1500}")


# ------------------------------------------------------------------ electron-phonon files
TAGS = ("ATOM", "KPOINT", "EPCOUPLING")


@facet(g.rec(case=epme_st(), fault=st.sampled_from(("tag", "tag", "no tag", "tag twice", "pairs", "pairs", "bands", "bands")), tag=st.sampled_from(TAGS),
             new=st.sampled_from((*TAGS, "ATOMS", "ATOM ", "atom", "KPOINTS", "kpoint", "EPCOUPLINGS", "HEADER", "")), by=st.integers(-3, 5).filter(bool)), quick=1500,
       rule="a fault in the second half of the file", nontrivial=lambda c: c["tag"] != "ATOM" or c["fault"] in ("pairs", "bands"), labels=lambda c: [c["fault"]])
def epme_faults(case):
    """A file whose tags or counts disagree."""
    from castep_outputs.bin_parsers import parse_epme_bin_file
    recs, _exp = epme_records(case["case"])
    parse_bytes(parse_epme_bin_file, fortran.write(recs))
    at = next(k for k, rec in enumerate(recs) if rec == [("str", [case["tag"]])])
    end = next(k for k, rec in enumerate(recs) if rec == [("str", ["EPCOUPLING"])])
    if case["fault"] == "tag":
        if case["new"] == case["tag"]:
            return
        recs[at] = [("str", [case["new"]])]
    elif case["fault"] == "no tag":
        del recs[at]
    elif case["fault"] == "tag twice":
        recs.insert(at, recs[at])
    elif case["fault"] == "pairs":
        new = case["case"]["pairs"] + case["by"]
        if new < 0:
            return
        recs[end + 1] = [("int", [new])]
    else:
        new = case["case"]["bands"] ** 2 + case["by"]
        if new < 0 or isqrt(new) == case["case"]["bands"]:
            return
        recs[end + 2] = [("int", [new])]
    refuses(f"{case['fault']} {case['tag']}", lambda: parse_bytes(parse_epme_bin_file, fortran.write(recs)))


# ------------------------------------------------------------------ pseudopotential strings
BAD_SHELL = st.one_of(st.builds("{}{}".format, st.integers(1, 7), st.sampled_from(("q", "x", "", "1"))), st.sampled_from(("s2", "core", "2p1;3s1", "2p 1", "-2p1", "2p=1")))
BAD_BETA = st.sampled_from(("3", "", "x1", "3x", "34", "39", "s1", "U2.1", "3U"))


@facet(g.rec(spec=pspot_st, fault=st.sampled_from(("adj", "test", "flags", "adj open", "test open", "flags open", "beta", "beta")), shell=BAD_SHELL,
             beta=BAD_BETA, at=st.integers(0, 9)), quick=2500, rule="more than one projector group",
       nontrivial=lambda c: len(c["spec"]["beta"]) > 1, labels=lambda c: [c["fault"]])
def pspot_faults(case):
    """A definition string with a part which cannot be read."""
    import castep_outputs as co
    spec = copy.deepcopy(case["spec"])
    spec["adj"], spec["test"], spec["flags"] = spec["adj"] or ["2p1"], spec["test"] or ["3d"], spec["flags"] or ["qc=5"]
    good, betas = write_pspot(spec)
    fault = case["fault"]
    if fault in ("adj", "test"):
        new = list(spec[fault])
        new.insert(case["at"] % (len(new) + 1), case["shell"])
        bad = write_pspot({**spec, fault: new})[0]
    elif fault == "flags":
        bad = good.replace("(" + ",".join(spec["flags"]) + ")", "()")
    elif fault == "beta":
        groups = betas.split(":")
        groups.insert(case["at"] % (len(groups) + 1), case["beta"])
        cut = good.rindex("|") + 1
        bad = good[:cut] + ":".join(groups) + good[cut + len(betas):]
    else:
        bad = good.replace({"adj open": "}", "test open": "]", "flags open": ")"}[fault], "", 1)
    check(bad != good, f"no fault in {good}")

    def read(string):
        return parse_text(co.parse_cell_file, f"%BLOCK SPECIES_POT\nSi {string}\n%ENDBLOCK SPECIES_POT\n")

    def echoed(string):
        from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
        text = f"start\n                     Files used for pseudopotentials:\n                        Si {string}\n\n"
        return parse_castep_file(io.StringIO(text), filters=Filters.FULL)

    read(good)
    echoed(good)
    if " " in bad:
        return
    refuses(f"{fault}: {bad}", lambda: read(bad), ValueError if not fault.startswith("beta") else REFUSALS)
    refuses(f"{fault} in a .castep file: {bad}", lambda: echoed(bad), ValueError if not fault.startswith("beta") else REFUSALS)


# ------------------------------------------------------------------ trajectories
@facet(g.rec(header=st.lists(st.sampled_from((" BEGIN header", " a comment", "", " END header", "   ")), max_size=4), blank=st.integers(0, 3), geom=st.booleans(),
             lazy=st.booleans()), quick=200, rule="a file which is not empty", nontrivial=lambda c: bool(c["header"] or c["blank"]))
def no_frames(case):
    """A trajectory without a frame."""
    from castep_outputs import MDGeomParser
    from castep_outputs.parsers import parse_md_geom_file
    body = [ln for ln in case["header"] if ln.strip() not in ("BEGIN header", "END header")]
    text = ("\n".join([" BEGIN header", *body, " END header"]) + "\n" if case["header"] else "") + "\n" * case["blank"]
    if not case["lazy"]:
        refuses(f"trajectory {text!r}", lambda: parse_text(parse_md_geom_file, text))
        return
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / ("x.geom" if case["geom"] else "x.md")
        path.write_text(text)
        refuses(f"lazy trajectory {text!r}", lambda: MDGeomParser(path)[0])


# ------------------------------------------------------------------ what is not there
WORD = st.text("abcdefgmxyz_.", min_size=1, max_size=7)


@facet(g.rec(typ=st.sampled_from(files.TYPES), stem=st.text("abc-", min_size=1, max_size=4), as_str=st.booleans(), directory=st.booleans(),
             how=st.sampled_from(("own", "single", "named", "lazy", "all", "among others", "among others"))), quick=300, rule="every case", labels=lambda c: [c["how"]])
def missing_files(case):
    """A file which does not exist."""
    import castep_outputs as co
    from castep_outputs.cli.castep_outputs_main import parse_all
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"{case['stem']}.{case['typ']}"
        if case["directory"]:
            path.mkdir()
        arg = str(path) if case["as_str"] else path
        good = Path(tmp) / "good.param"
        good.write_text("task : md\n")
        others = {"param": [good, path], "cell": []} if case["typ"] == "param" or case["as_str"] else {"param": [good], case["typ"]: [good if case["typ"] == "cell" else path, path]}
        calls = {"among others": lambda: parse_all(io.StringIO(), **others), "own": lambda: files.parser_for(case["typ"])(arg), "single": lambda: co.parse_single(arg), "named": lambda: co.parse_single(arg, case["typ"]),
                 "lazy": lambda: co.MDGeomParser(arg), "all": lambda: parse_all(io.StringIO(), **{case["typ"]: [path]})}
        refuses(f"{case['how']} on a missing {case['typ']} file", calls[case["how"]], OSError)


@facet(g.rec(word=WORD, how=st.sampled_from(("parser", "format", "dumper", "type"))), quick=300, rule="every case", labels=lambda c: [c["how"]])
def unknown_names(case):
    """A reader, a format or a kind of file nobody knows."""
    import castep_outputs as co
    from castep_outputs.cli.castep_outputs_main import parse_all
    from castep_outputs.utilities.dumpers import get_dumpers
    word = case["word"]
    if word in files.TYPES or word in ("json", "yaml", "ruamel", "pyyaml", "print", "pprint", "md_geom", "cell_param"):
        return
    calls = {"parser": lambda: co.parse_single(io.StringIO("x\n"), word), "dumper": lambda: get_dumpers(word),
             "format": lambda: parse_all(io.StringIO(), word), "type": lambda: parse_all(io.StringIO(), **{word: [Path("/dev/null")]})}
    refuses(f"{case['how']} {word!r}", calls[case["how"]], (ValueError, KeyError, TypeError))


@facet(g.rec(case=mdgeom.file_st(max_frames=3), what=st.sampled_from(("float", "none", "str", "strs", "floats", "big", "bigs"))), quick=200, rule="several frames",
       nontrivial=lambda c: len(c["case"]["shapes"]) > 1, labels=lambda c: [c["what"]])
def frame_requests(case):
    """A frame which is not there, or no frame number at all."""
    from castep_outputs import MDGeomParser
    case["case"]["shapes"] = [case["case"]["shapes"][0]] * len(case["case"]["shapes"])
    text, frames = mdgeom.build(case["case"])
    n = len(frames)
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / "x.md"
        path.write_text(text)
        try:
            reader = MDGeomParser(path)
            count = len(reader)
        except ZeroDivisionError:
            return
        bad = {"float": 0.5, "none": None, "str": "ab", "strs": ["a"], "floats": [0.5], "big": count + n, "bigs": [0, count + n]}[case["what"]]
        refuses(f"frame {bad!r} of {count}", lambda: reader[bad], (IndexError, TypeError, NotImplementedError, ValueError))


# ------------------------------------------------------------------ command line
@facet(g.rec(args=st.one_of(
    WORD.filter(lambda w: w not in ("json", "yaml", "ruamel", "pyyaml", "print", "pprint")).map(lambda w: ["-f", w]),
    WORD.filter(lambda w: w.upper() != w).map(lambda w: ["-L", w]), WORD.map(lambda w: [f"--zz{w}"]), st.just(["--inc-nothing"]), st.just(["-f"]), st.just(["-o"]),
    st.sampled_from(files.TYPES).map(lambda t: [f"--{t}", f"absent.{t}"]), st.just(["--param", "x.param", "absent.param"]),
    st.just(["--cell", "absent.cell", "x.param"])), valid=st.booleans()), quick=200, rule="every case", labels=lambda c: [c["args"][0]])
def bad_arguments(case):
    """Arguments nobody knows, and files which are named but missing: the program does not succeed and prints no data."""
    from castep_outputs.cli.castep_outputs_main import main
    old = sys.argv, os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            Path("x.param").write_text("task : md\n")
            sys.argv = ["castep_outputs", *(["--param", "x.param"] if case["valid"] else []), *case["args"]]
            try:
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                    main()
            except SystemExit as exc:
                check(exc.code not in (None, 0), f"{case['args']} ends with success")
            except OSError:
                pass
            else:
                raise Violation(f"{sys.argv[1:]} was accepted and printed {out.getvalue()!r}")
            check(not out.getvalue(), f"{sys.argv[1:]} was refused but printed {out.getvalue()!r}")
        finally:
            sys.argv = old[0]
            os.chdir(old[1])


FACETS = [epme_faults, pspot_faults, no_frames, missing_files, unknown_names, frame_requests, bad_arguments, unknown_tasks]

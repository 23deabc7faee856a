"""C29: the command line reads exactly the files asked for."""
import contextlib
import io
import os
import subprocess
import sys
import tempfile
from pathlib import Path

from hypothesis import assume
from hypothesis import strategies as st

from checks.c28_output_formats import FORMATS, LOADERS, as_json, plain, testing_data
from lib import files
from lib.gen import rec
from lib.harness import Violation, facet
from lib.oracle import expect

STEMS = ("seed", "Si8", "run", "run.2", "Si8-1.5", "a b", "x[1]", "castep")
DIRS = ("", "sub", "other/deep")
#: Beside the results: files of other names, and folders (ending in /).
NOISE = ("{0}", "{0}.check", "{0}.{1}.bak", "{0}x.{1}", "x{0}.{1}", "{0}.{1}~", "{0}/", "{0}.{1}/", "{0}.{1}/")
# A few types carry most cases, so that several files of one calculation meet.
types = st.one_of(st.sampled_from(("castep", "param", "cell", "err", "bands", "hug")), st.sampled_from(files.TYPES))


@st.composite
def tree_st(draw, max_files=6):
    out = []
    stems = draw(st.lists(st.sampled_from(STEMS), min_size=1, max_size=2, unique=True))
    dirs = draw(st.lists(st.sampled_from(DIRS), min_size=1, max_size=2, unique=True))
    for _ in range(draw(st.integers(1, max_files))):
        typ, stem = draw(types), draw(st.sampled_from(stems))
        number = draw(st.sampled_from(("", "", ".0001", ".0123"))) if typ == "err" and "." not in stem else ""
        out.append({"dir": draw(st.sampled_from(dirs)), "name": f"{stem}{number}.{typ}", "stem": stem, "type": typ,
                    "case": draw(files.case_st(typ))})
    # whole files under names which do not tell, or tell another type; and things no seed stands for
    odd = []
    for i in range(draw(st.sampled_from((0, 0, 0, 1, 2)))):
        typ = draw(types)
        name = draw(st.sampled_from(("out.txt", "noext", "old.castep.1", "Si8.orig", "other.check", f"odd.{draw(types)}")))
        odd.append({"dir": draw(st.sampled_from(dirs)), "name": f"{i}{name}", "type": typ, "case": draw(files.case_st(typ))})
    noise = draw(st.lists(st.tuples(st.sampled_from(dirs), st.sampled_from(stems), st.sampled_from(NOISE), types.filter(lambda t: t != "err")).map(list), max_size=3))
    seeds = draw(st.lists(st.one_of(st.tuples(st.just("seed"), st.sampled_from(dirs), st.sampled_from(stems)),
                                    st.tuples(st.just("file"), st.integers(0, len(out) - 1), st.just(""))).map(list), max_size=3))
    return {"files": out, "odd": odd, "noise": noise, "seeds": seeds, "style": draw(st.sampled_from(("relative", "dot", "absolute"))),
            "inc": draw(st.one_of(st.just([]), st.lists(types, min_size=1, max_size=3, unique=True))), "all": draw(st.booleans()),
            "explicit": draw(st.lists(st.integers(0, len(out) - 1), max_size=2, unique=True)),
            "fmt": draw(st.sampled_from(FORMATS)), "output": draw(st.booleans()), "flagpos": draw(st.booleans()),
            "testing": draw(st.integers(0, 3)) == 3}


def selected(case):
    """(directory, name) -> type of each file the arguments ask for."""
    inc = set(files.TYPES) if case["all"] or not case["inc"] else set(case["inc"])
    out = {}
    for kind, a, b in case["seeds"]:
        if kind == "file":
            f = case["files"][a]
            out[f["dir"], f["name"]] = f["type"]
            continue
        for f in case["files"]:
            if (f["dir"], f["stem"]) == (a, b) and f["type"] in inc:
                out[f["dir"], f["name"]] = f["type"]
    for i in case["explicit"]:
        f = case["files"][i]
        out[f["dir"], f["name"]] = f["type"]
    for f in case["odd"]:
        out[f["dir"], f["name"]] = f["type"]
    return out


def arguments(case, root):
    def spell(folder, name):
        path = Path(folder) / name
        return str(root / path) if case["style"] == "absolute" else f"./{path}" if case["style"] == "dot" else str(path)

    args = [f"--inc-{t}" for t in case["inc"]]
    if case["all"]:
        args.append("-A" if case["flagpos"] else "--inc-all")
    by_type = {}
    for i in case["explicit"]:
        f = case["files"][i]
        by_type.setdefault(f["type"], []).append(spell(f["dir"], f["name"]).removeprefix("./"))  # one spelling per file
    for f in case["odd"]:
        by_type.setdefault(f["type"], []).append(spell(f["dir"], f["name"]))
    for typ, paths in by_type.items():
        args += [f"--{typ}", *paths]
    tail = ["-f" if case["flagpos"] else "--out-format", case["fmt"]]
    if case["output"]:
        tail += ["-o" if case["flagpos"] else "--output", str(root / "result")]
    if case["testing"]:
        tail.append("-t" if case["flagpos"] else "--testing")
    args += tail
    for kind, a, b in case["seeds"]:
        args.append(spell(case["files"][a]["dir"], case["files"][a]["name"]) if kind == "file" else spell(a, b))
    return args


def in_process(args, root):
    from castep_outputs.cli.castep_outputs_main import main
    out, err = io.StringIO(), io.StringIO()
    cwd, argv = os.getcwd(), sys.argv
    try:
        os.chdir(root)
        sys.argv = ["castep_outputs", *args]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
    except SystemExit as exc:
        raise Violation(f"{args}: stopped with {exc.code}: {err.getvalue()[-300:]}") from exc
    finally:
        os.chdir(cwd)
        sys.argv = argv
    return out.getvalue()


def as_program(args, root):
    env = {**os.environ, "PYTHONPATH": "/repo", "PYTHONIOENCODING": "utf-8", "PYTHONDONTWRITEBYTECODE": "1"}
    res = subprocess.run([sys.executable, "-m", "castep_outputs", *args], cwd=root, env=env, capture_output=True, timeout=120, check=False)
    if res.returncode:
        raise Violation(f"{args}: exit code {res.returncode}: {res.stderr.decode()[-500:]}")
    return res.stdout.decode("utf-8")


def run(case, how):
    with tempfile.TemporaryDirectory() as tmp:
        root = Path(tmp)
        for f in [*case["files"], *case["odd"]]:
            path = root / f["dir"] / f["name"]
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_bytes(files.raw(f["type"], f["case"]))
        for folder, stem, pattern, typ in case["noise"]:
            path = root / folder / pattern.format(stem, typ)
            if path.exists():
                continue
            if pattern.endswith("/"):
                path.mkdir(parents=True)
            elif path.parent.is_dir() or not any(q.is_file() for q in path.parents):
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_text("not a result\n")
        exp = {}
        for (folder, name), typ in selected(case).items():
            key = Path(folder) / name
            data = testing_data(typ, root / key) if case["testing"] else files.parser_for(typ)(root / key)
            assume(data is not None)  # two leaves with one flat name
            exp[str(root / key) if case["style"] == "absolute" else str(key)] = data
        args = arguments(case, root)
        text = how(args, root)
        if case["output"]:
            if text:
                raise Violation(f"{args}: wrote {text!r:.300} as well as the output file")
            text = (root / "result").read_text(encoding="utf-8")
        got = LOADERS[case["fmt"]](text)
        if len(exp) == 1:
            (exp,) = exp.values()
        elif isinstance(got, dict):
            got = {os.path.normpath(k): v for k, v in got.items()}
        to = as_json if case["fmt"] == "json" else plain
        expect(plain(got), to(exp), f"{args} in {sorted(f['dir'] + '/' + f['name'] for f in case['files'])}")


@facet(tree_st(), quick=1500, rule="some but not all of the files are selected",
       nontrivial=lambda c: 0 < len(selected(c)) < len({(f["dir"], f["name"]) for f in c["files"]}),
       labels=lambda c: [c["fmt"], c["style"], f"selected={len(selected(c))}", "inc" if c["inc"] else "no-inc", *(["testing"] if c["testing"] else [])])
def arguments_select_files(case):
    run(case, in_process)


@facet(tree_st(max_files=3), quick=48, thorough=600, rule="at least one file is selected", nontrivial=lambda c: bool(selected(c)))
def as_a_program(case):
    """The same, started as python -m castep_outputs."""
    run(case, as_program)


FACETS = [arguments_select_files, as_a_program]

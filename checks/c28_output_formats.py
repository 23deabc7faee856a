"""C28: what is dumped is what was parsed."""
import io
import json
import re
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from lib import files
from lib.gen import rec
from lib.harness import HarnessError, Violation, facet
from lib.oracle import check, diff, expect


def flat_key(key):
    """The text JSON output uses for a key: parts of compound keys joined with underscores."""
    if isinstance(key, (tuple, list)):
        return "_".join(flat_key(k) for k in key)
    return key if isinstance(key, str) else str(key)


def as_json(obj):
    """What JSON can hold of the data."""
    if isinstance(obj, dict):
        out = {}
        for key, val in obj.items():
            new = "null" if key is None else flat_key(key)
            if new in out:
                raise HarnessError(f"two keys become {new}")
            out[new] = as_json(val)
        return out
    if isinstance(obj, (list, tuple)):
        return [as_json(v) for v in obj]
    if isinstance(obj, complex):
        return {"real": obj.real, "imag": obj.imag}
    return obj


def plain(obj):
    """Sequences and mappings without regard to their exact class; keys compare as tuples."""
    def fix(key):
        return tuple(fix(k) for k in key) if isinstance(key, (list, tuple)) else key
    if isinstance(obj, dict):
        return {fix(k): plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    return obj


def load_pyyaml(text):
    import yaml
    return yaml.load(text, Loader=getattr(yaml, "CUnsafeLoader", yaml.UnsafeLoader))


def load_ruamel(text):
    from ruamel.yaml import YAML
    return YAML(typ="unsafe", pure=False).load(text)


def load_python(text):
    text = re.sub(r"<class '(\w+)'>", "None", text)
    return eval(text, {"__builtins__": {}, "defaultdict": lambda _f, d: d, "nan": float("nan"), "inf": float("inf")})  # noqa: S307


LOADERS = {"json": json.loads, "pyyaml": load_pyyaml, "ruamel": load_ruamel, "yaml": load_ruamel, "print": load_python,
           "pprint": load_python}
FORMATS = tuple(LOADERS)


def same(text, fmt, data, what):
    got = LOADERS[fmt](text)
    if fmt == "json":
        check((out := diff(got, as_json(data))) is None, f"{what}: {out}", text)
    else:
        check((out := diff(plain(got), plain(data))) is None, f"{what}: {out}", text)


@facet(rec(file=files.file_st(), fmt=st.sampled_from(FORMATS)), quick=1600, rule="any generated file",
       labels=lambda c: [c["file"]["type"], c["fmt"]])
def one_file(case):
    """Parse and dump one file; reading the dump back gives the parsed data."""
    from castep_outputs.cli.castep_outputs_main import parse_all
    typ, fmt = case["file"]["type"], case["fmt"]
    raw = files.raw(typ, case["file"]["case"])
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"seed.{typ}"
        path.write_bytes(raw)
        data = files.parser_for(typ)(path)
        out = io.StringIO()
        parse_all(out, fmt, **{typ: [str(path)]})
        same(out.getvalue(), fmt, data, f"{typ} as {fmt}")


@facet(rec(files=st.lists(files.file_st(), min_size=0, max_size=4), fmt=st.sampled_from(FORMATS), as_path=st.booleans(),
           where=st.sampled_from(("handle", "path", "str", "stdout"))), quick=700,
       rule="several files", nontrivial=lambda c: len(c["files"]) > 1, labels=lambda c: [c["fmt"], c["where"]])
def many_files(case):
    """Several files are dumped together, each under its own name; one is dumped bare."""
    import contextlib

    from castep_outputs.cli.castep_outputs_main import parse_all
    fmt = case["fmt"]
    with tempfile.TemporaryDirectory() as tmp:
        wanted, exp = {}, {}
        for i, file in enumerate(case["files"]):
            typ = file["type"]
            path = Path(tmp) / f"seed{i}.{typ}"
            path.write_bytes(files.raw(typ, file["case"]))
            wanted.setdefault(typ, []).append(path if case["as_path"] else str(path))
            exp[str(path)] = files.parser_for(typ)(path)
        if len(exp) == 1:
            exp, = exp.values()
        target = Path(tmp) / "result.out"
        if case["where"] == "handle":
            out = io.StringIO()
            parse_all(out, fmt, **wanted)
            text = out.getvalue()
        elif case["where"] == "stdout":
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                parse_all(None, fmt, **wanted)
            text = out.getvalue()
        else:
            parse_all(target if case["where"] == "path" else str(target), fmt, **wanted)
            text = target.read_text(encoding="utf-8")
        same(text, fmt, exp, f"{len(case['files'])} files as {fmt}")


@facet(rec(file=files.file_st(), fmt=st.sampled_from(FORMATS)), quick=600, rule="any generated file",
       labels=lambda c: [c["file"]["type"], c["fmt"]])
def processed(case):
    """parse_single's processing for a format keeps every value, and leaves only what the format can hold."""
    import castep_outputs as co
    typ, fmt = case["file"]["type"], case["fmt"]
    raw = files.raw(typ, case["file"]["case"])
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"seed.{typ}"
        path.write_bytes(raw)
        data, res = files.parser_for(typ)(path), co.parse_single(path, out_format=fmt)
    if fmt == "json":
        expect(json.loads(json.dumps(res)), as_json(data), f"{typ} for {fmt}")
    else:
        expect(plain(res), plain(data), f"{typ} for {fmt}")


# ------------------------------------------------------------------ the processing on arbitrary data
leaf = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.floats(allow_nan=False), st.booleans(), st.none(), st.text("abcXY 1_é", max_size=5))
atom = st.tuples(st.sampled_from(("H", "Si:a", "O")), st.integers(1, 99)).map(list)
key = st.one_of(st.text("abc", min_size=1, max_size=3).map(lambda s: ["s", s]), st.integers(0, 99).map(lambda n: ["i", n]),
                atom.map(lambda a: ["t", a]), st.lists(atom, min_size=2, max_size=3).map(lambda a: ["tt", a]), st.just(["n", None]))
tree = st.recursive(st.one_of(leaf.map(lambda v: ["v", v]), st.tuples(st.floats(-9, 9), st.floats(-9, 9)).map(lambda v: ["c", list(v)])),
                    lambda sub: st.one_of(st.lists(sub, max_size=4).map(lambda v: ["l", v]), st.lists(sub, max_size=3).map(lambda v: ["t", v]),
                                          st.lists(st.tuples(key, sub).map(list), max_size=4, unique_by=lambda kv: flat_key(
                                              make_key(kv[0]) if kv[0][0] != "n" else "null")).map(lambda v: ["d", v])), max_leaves=14)
deep = st.tuples(tree, st.lists(st.sampled_from("ltd"), max_size=16)).map(lambda t: within(*t))


def within(node, kinds):
    """The node inside one container after the other."""
    for kind in kinds:
        node = ["d", [[["s", "a"], node]]] if kind == "d" else [kind, [node]]
    return node


def make_key(key):
    kind, val = key
    return tuple(val) if kind == "t" else tuple(map(tuple, val)) if kind == "tt" else val


def make(node):
    kind, val = node
    if kind == "c":
        return complex(*val)
    if kind == "l":
        return [make(v) for v in val]
    if kind == "t":
        return tuple(make(v) for v in val)
    if kind == "d":
        return {make_key(k): make(v) for k, v in val}
    return val


def leaves(obj):
    if isinstance(obj, dict):
        return sum(leaves(v) for v in obj.values())
    return sum(leaves(v) for v in obj) if isinstance(obj, (list, tuple)) else 1


@facet(rec(tree=st.one_of(tree, deep), fmt=st.sampled_from(FORMATS)), quick=4000, rule="data with at least two leaves",
       nontrivial=lambda c: leaves(make(c["tree"])) > 1, labels=lambda c: [c["fmt"]])
def any_data(case):
    """Any nested data of the kinds parsers produce survives processing and dumping."""
    import tempfile as tf

    from castep_outputs.cli.castep_outputs_main import parse_single
    from castep_outputs.utilities.dumpers import get_dumpers
    fmt, data = case["fmt"], [make(case["tree"])]
    before = repr(data)
    res = parse_single(io.StringIO(""), lambda _file: data, fmt)
    check(repr(data) == before, f"processing for {fmt} changed the parsed data: {before} became {data!r}")
    out = io.StringIO()
    get_dumpers(fmt)(res, out)
    same(out.getvalue(), fmt, data, f"{before:.500} as {fmt}")
    with tf.TemporaryDirectory() as tmp:
        path = Path(tmp) / "out"
        with path.open("w", encoding="utf-8") as file:
            get_dumpers(fmt)(res, file)
        same(path.read_text(encoding="utf-8"), fmt, data, f"{before:.500} as {fmt} in a file")


def flatten(obj, path=()):
    """Path and value of every leaf."""
    if isinstance(obj, dict):
        for k, v in obj.items():
            yield from flatten(v, (*path, flat_key(k)))
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            yield from flatten(v, (*path, str(i)))
    elif isinstance(obj, complex):
        yield from (((*path, "real"), obj.real), ((*path, "imag"), obj.imag))
    else:
        yield path, obj


def flat(data):
    """The flat form of parsed data; None if two leaves would share a name."""
    if not isinstance(data, dict):
        out = [flat(d) for d in data]
        return None if any(d is None for d in out) else out
    pairs = [("_".join(p), v) for p, v in flatten(data)]
    out = dict(pairs)
    return out if len(out) == len(pairs) else None


def testing_data(typ, path):
    """What testing mode reports for a file: fragile kinds of data left out, and flat."""
    if typ != "castep":
        return flat(files.parser_for(typ)(path))
    from castep_outputs.parsers.castep_file_parser import Filters
    return flat(files.parser_for(typ)(path, filters=Filters.TESTING))


@facet(rec(file=st.one_of(files.file_st(), files.file_st(("castep",))), fmt=st.sampled_from(FORMATS)), quick=500, rule="any generated file",
       labels=lambda c: [c["file"]["type"]])
def flat_files(case):
    """Testing mode on files of every type, whatever the output format."""
    from hypothesis import assume

    import castep_outputs as co
    typ = case["file"]["type"]
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"seed.{typ}"
        path.write_bytes(files.raw(typ, case["file"]["case"]))
        exp = testing_data(typ, path)
        assume(exp is not None)
        expect(co.parse_single(path, out_format=case["fmt"], testing=True), exp, f"{typ} in testing mode")


@facet(rec(runs=st.lists(st.lists(st.tuples(key.filter(lambda k: k[0] not in "ni"), tree).map(list), max_size=4, unique_by=lambda kv: flat_key(make_key(kv[0]))),
                         min_size=1, max_size=3), single=st.booleans()), quick=700, rule="nested data",
       nontrivial=lambda c: any(v[0] in "ltd" and v[1] for r in c["runs"] for _, v in r))
def flat_mode(case):
    """Testing mode: one flat mapping per run with every leaf under the path that leads to it."""
    from hypothesis import assume

    from castep_outputs.cli.castep_outputs_main import parse_single
    runs = [{make_key(k): make(v) for k, v in run} for run in case["runs"]]
    pairs = [[("_".join(p), v) for p, v in flatten(run)] for run in runs]
    assume(all(len({k for k, _ in run}) == len(run) for run in pairs))
    assume("None" not in repr(runs).replace(": None", ""))
    exp = [dict(run) for run in pairs]
    data, exp = (runs[0], exp[0]) if case["single"] else (runs, exp)
    expect(parse_single(io.StringIO(""), lambda _file: data, testing=True), exp, "flat output")


@facet(st.text("abcjsonyampl_- ", max_size=8).filter(lambda f: f not in FORMATS), quick=200, rule="any unknown format name")
def unknown_format(case):
    from castep_outputs.cli.castep_outputs_main import parse_all
    out = io.StringIO()
    try:
        parse_all(out, case)
    except ValueError:
        return
    raise Violation(f"format {case!r} accepted, wrote {out.getvalue()!r}")


FACETS = [one_file, many_files, processed, any_data, flat_mode, flat_files, unknown_format]

"""C32: a result depends on the file alone, not on what was read before, elsewhere or at the same time."""
import base64
import io
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from hypothesis import strategies as st

from lib import files
from lib.gen import rec
from lib.harness import HarnessError, Violation, facet
from lib.oracle import check


def read(file, raw=None):
    typ = file["type"]
    raw = files.raw(typ, file["case"]) if raw is None else raw
    return files.parser_for(typ)(io.BytesIO(raw) if typ in files.BINARY else io.StringIO(raw.decode("utf-8")))


def canon(obj):
    """Text of the data, with mappings in sorted order."""
    if isinstance(obj, dict):
        return "{" + ",".join(sorted(f"{canon(k)}:{canon(v)}" for k, v in obj.items())) + "}"
    if isinstance(obj, (list, tuple)):
        return "[" + ",".join(map(canon, obj)) + "]"
    return repr(obj)


def ordered(obj):
    """Text of the data with mappings in their own order, which every dump shows."""
    if isinstance(obj, dict):
        return "{" + ",".join(f"{canon(k)}:{ordered(v)}" for k, v in obj.items()) + "}"
    if isinstance(obj, (list, tuple)):
        return "[" + ",".join(map(ordered, obj)) + "]"
    return canon(obj)


def spoil(obj):
    """Change everything in a result that can be changed."""
    if isinstance(obj, dict):
        for val in obj.values():
            spoil(val)
        obj.clear()
        obj["spoilt"] = ["spoilt"]
    elif isinstance(obj, list):
        for val in obj:
            spoil(val)
        obj.append("spoilt")
        obj.reverse()
    elif isinstance(obj, tuple):
        for val in obj:
            spoil(val)
    elif isinstance(obj, set):
        obj.clear()


op_st = st.tuples(st.integers(0, 9), st.sampled_from(("handle", "handle", "path", "json", "testing", "broken", "lazy"))).map(list)


@facet(rec(files=st.lists(files.file_st(), min_size=1, max_size=4), ops=st.lists(op_st, min_size=2, max_size=8)), quick=1000,
       rule="several files", nontrivial=lambda c: len(c["files"]) > 1, labels=lambda c: [f["type"] for f in c["files"]])
def history(case):
    """Files read again and again in any order, results spoilt in between."""
    import castep_outputs as co
    first = [canon(read(f)) for f in case["files"]]
    with tempfile.TemporaryDirectory() as tmp:
        for k, how in case["ops"]:
            k %= len(case["files"])
            file = case["files"][k]
            raw = files.raw(file["type"], file["case"])
            path = Path(tmp) / f"f{k}.{file['type']}"
            path.write_bytes(raw)
            if how == "handle":
                res = read(file, raw)
            elif how == "path":
                res = co.parse_single(path)
            elif how == "broken":  # an error part way through leaves nothing behind
                try:
                    spoil(read(file, raw[:len(raw) * 2 // 3]))
                except Exception:  # noqa: BLE001, S110
                    pass
                res = read(file, raw)
            elif how == "lazy" and file["type"] in ("md", "geom"):
                from castep_outputs import MDGeomParser
                try:
                    spoil([dict(fr) for fr in MDGeomParser(path)])
                except Exception:  # noqa: BLE001, S110
                    pass
                continue
            else:
                spoil(co.parse_single(path, out_format="json", testing=how == "testing"))
                continue
            check(canon(res) == first[k], f"{file['type']} read by {how} in {case['ops']}: was {first[k]:.1500}, now {canon(res):.1500}")
            spoil(res)


@facet(files.file_st(("castep", "castep", "castep", "cell", "param", "magres", "castep")), quick=2500, rule="several lines",
       nontrivial=lambda f: files.raw(f["type"], f["case"]).count(b"\n") > 3, labels=lambda f: [f["type"]])
def again(case):
    """A file read again after the first result was changed all over."""
    raw = files.raw(case["type"], case["case"])
    res = read(case, raw)
    first = canon(res)
    spoil(res)
    res = read(case, raw)
    check(canon(res) == first, f"{case['type']} read again: was {first:.1500}, now {canon(res):.1500}")


@facet(st.lists(files.file_st(), min_size=2, max_size=6), quick=300, rule="files of several types", nontrivial=lambda c: len({f["type"] for f in c}) > 1)
def threads(case):
    """Files read at the same time by several threads."""
    raws = [files.raw(f["type"], f["case"]) for f in case]
    first = [canon(read(f, r)) for f, r in zip(case, raws)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with ThreadPoolExecutor(4) as pool:
            res = list(pool.map(read, case * 3, raws * 3))
    finally:
        sys.setswitchinterval(old)
    for f, one, now in zip(case * 3, first * 3, res):
        check(canon(now) == one, f"{f['type']} with other threads reading: was {one:.1500}, now {canon(now):.1500}")


SCRIPT = """
import sys, json, base64, io
sys.path.insert(0, "/repo"); sys.path.insert(1, "/verif")
import logging
logging.getLogger().addHandler(logging.NullHandler())
from checks.c32_repeatable import ordered, read
out = []
for typ, raw in json.load(sys.stdin):
    try:
        out.append(ordered(read({"type": typ}, base64.b64decode(raw))))
    except Exception as exc:
        out.append(f"failed with {exc!r}")
print(json.dumps(out))
"""


@facet(st.lists(files.file_st(), min_size=15, max_size=15), quick=16, thorough=240, rule="fifteen files each")
def every_process(case):
    """The result is the same in every process (whatever the hash seed), down to the order of mappings."""
    raws = [files.raw(f["type"], f["case"]) for f in case]
    data = json.dumps([[f["type"], base64.b64encode(r).decode()] for f, r in zip(case, raws)])
    here = [ordered(read(f, r)) for f, r in zip(case, raws)]
    for seed in ("1", "4"):
        env = {**os.environ, "PYTHONHASHSEED": seed, "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONPATH": os.pathsep.join(p for p in sys.path if p)}
        res = subprocess.run([sys.executable, "-c", SCRIPT], input=data, env=env, capture_output=True, text=True, timeout=200, check=False)
        if res.returncode:
            raise HarnessError(res.stderr[-1500:])
        for f, one, now in zip(case, here, json.loads(res.stdout)):
            if one != now:
                raise Violation(f"{f['type']} in another process: {one:.1500}, there {now:.1500}")


FACETS = [history, again, threads, every_process]

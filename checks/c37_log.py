"""C37: the log says which line of which file it speaks of, and reading does not depend on it."""
import copy
import io
import logging
import os
import re
import subprocess
import sys
import tempfile
from pathlib import Path

from hypothesis import strategies as st

from lib import files
from lib.castep_check import body
from lib.gen import rec
from lib.harness import HarnessError, Violation, facet
from lib.oracle import expect

from checks.c16_runs import parts_of, run_st

LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")
TEXT_TYPES = tuple(t for t in files.TYPES if t not in files.BINARY)
STEMS = ("seed", "a b", "with.dots", "100%", "%s", "%d%%", "{0}", "naïve", "[x]")
log_stem = st.sampled_from(STEMS)


class Keep(logging.Handler):
    """Keeps the messages, and does not hide that one cannot be made."""

    def __init__(self):
        super().__init__()
        self.kept = []

    def emit(self, record):
        try:
            self.kept.append((record.levelname, record.getMessage()))
        except Exception as exc:
            raise Violation(f"the message {record.msg!r} cannot be made of {record.args!r}: {exc}") from exc


def logged(level, func):
    """Result of func, and what it said, as (level, message)."""
    keep, root = Keep(), logging.getLogger()
    was = root.level
    root.addHandler(keep)
    root.setLevel(level)
    try:
        return func(), keep.kept
    finally:
        root.setLevel(was)
        root.removeHandler(keep)


def placed(message, name):
    """Number (or None) of the line a message speaks of, and what it says; a violation if it names another file."""
    if not message.startswith(f"[{name}"):
        raise Violation(f"message {message!r} does not name {name!r}")
    match = re.match(r"(?::(\d+))?\] (.*)", message[len(name) + 1:], re.DOTALL)
    if not match:
        raise Violation(f"message {message!r} does not name {name!r}")
    return match[1] and int(match[1]), match[2]


# ------------------------------------------------------------------------------------------- .castep files

@facet(rec(runs=st.lists(run_st, min_size=1, max_size=3), stem=log_stem, handle=st.booleans()), quick=900, thorough=12000,
       rule="several runs, or a section with steps", nontrivial=lambda c: len(c["runs"]) > 1 or any(p[0] in ("geom_opt", "md_steps", "md") for r in c["runs"] for p in r["parts"]),
       labels=lambda c: [f"runs={len(c['runs'])}", *{p[0] for r in c["runs"] for p in r["parts"]}])
def castep_lines(case):
    """Each line of a .castep file is logged, if at all, under its own number, each finding at the lines it was found in."""
    lines = [ln for i, run in enumerate(case["runs"]) for ln in body(parts_of(run, False), run["noise"])]
    text = "\n".join(lines) + "\n"
    lines = text.splitlines(keepends=True)
    parser = files.parser_for("castep")
    quiet, none = logged("CRITICAL", lambda: parser(io.StringIO(text)))
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"{case['stem']}.castep"
        path.write_text(text, encoding="utf-8")
        name = str(path)
        if case["handle"]:
            with path.open(encoding="utf-8") as file:
                report, log = logged("DEBUG", lambda: parser(file))
        else:
            report, log = logged("DEBUG", lambda: parser(path))
    expect(report, quiet, text=text)
    if none:
        raise Violation(f"critical messages: {none}")
    last, seen, starts, steps = 0, set(), [], []
    for level, message in log:
        if level not in ("DEBUG", "INFO"):
            raise Violation(f"{level} about a file in order: {message}\n{text}")
        if level == "DEBUG" and not message.startswith("["):
            continue    # pseudopotential strings, which know no file
        line, said = placed(message, name)
        if line is None or not 1 <= line <= len(lines):
            raise Violation(f"{message!r} in a file of {len(lines)} lines:\n{text}")
        if level == "DEBUG" and not said.startswith("Reading qpt"):
            if said and said.rstrip("\n") != lines[line - 1].rstrip("\n"):
                raise Violation(f"{message!r}, but line {line} is {lines[line - 1]!r} in\n{text}")
            last = line
            seen.add(line)
        elif line < last:
            raise Violation(f"{message!r} after line {last} in\n{text}")
        if level == "INFO" and (match := re.match(r"Found run (\d+)", said)):
            starts.append(int(match[1]))
        if level == "INFO" and (match := re.match(r"Found MD Block \(step (\d+)\)", said)):
            steps.append(int(match[1]))
    if starts != list(range(1, len(report) + 1)):
        raise Violation(f"runs {starts} found, {len(report)} reported for\n{text}")
    want = [k for run in report for k in range(len(run.get("md", ())))]
    if steps != want:
        raise Violation(f"MD steps {steps} found, {want} reported for\n{text}")
    if 1 not in seen:
        raise Violation(f"the first line of the file was not logged:\n{text}")


# ------------------------------------------------------------------------------------------- other files

@facet(rec(file=files.file_st(), stem=log_stem, level=st.sampled_from(LEVELS)), quick=1200, thorough=12000, rule="a level at which files are spoken about",
       nontrivial=lambda c: c["level"] in ("DEBUG", "INFO"), labels=lambda c: [c["file"]["type"], c["level"]])
def any_level(case):
    """Files of all types give the same data at all levels, and messages name the file."""
    typ = case["file"]["type"]
    parser = files.parser_for(typ)
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"{case['stem']}.{typ}"
        path.write_bytes(files.raw(typ, case["file"]["case"]))
        count = path.read_bytes().count(b"\n") + 1
        quiet = copy.deepcopy(logged("CRITICAL", lambda: parser(path))[0])
        data, log = logged(case["level"], lambda: parser(path))
    expect(data, quiet)
    found = set()
    for level, message in log:
        if LEVELS.index(level) < LEVELS.index(case["level"]):
            raise HarnessError("handlers work otherwise")
        if level == "DEBUG" and not message.startswith("["):
            continue    # pseudopotential strings, which know no file
        line, said = placed(message, str(path))
        if line is not None and not 0 <= line <= count:
            raise Violation(f"{message!r} in a file of {count} lines")
        if level == "WARNING" and not (typ in ("md", "geom") and "missing header" in said):
            raise Violation(f"warning about a file in order: {message}")
        if level in ("ERROR", "CRITICAL"):
            raise Violation(f"error about a file in order: {message}")
        if (match := re.match(r"Found (?:param|block) (.*)", said)):
            found.add(match[1].lower())
    if typ in ("cell", "param") and case["level"] in ("DEBUG", "INFO"):
        keys = {k for run in data for k in run}
        if found != keys:
            raise Violation(f"{found ^ keys} found but not reported, or the other way round")
    if typ in ("md", "geom") and case["level"] in ("DEBUG", "INFO", "WARNING"):
        warned = [m for lv, m in log if lv == "WARNING"]
        if bool(warned) != (case["file"]["case"]["header"] is None):
            raise Violation(f"header {case['file']['case']['header']!r} and warnings {warned}")


# ------------------------------------------------------------------------------------------- the program

@facet(rec(file=files.file_st(), stem=log_stem, level=st.sampled_from(LEVELS), to_file=st.booleans()), quick=64, thorough=800, rule="a level at which files are spoken about",
       nontrivial=lambda c: c["level"] in ("DEBUG", "INFO"), labels=lambda c: [c["file"]["type"], c["level"]])
def program(case):
    """The program prints the same data at each level of logging, and its messages elsewhere."""
    typ = case["file"]["type"]
    env = {**os.environ, "PYTHONPATH": "/repo", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}
    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / f"{case['stem']}.{typ}"
        path.write_bytes(files.raw(typ, case["file"]["case"]))
        outs = []
        for k, level in enumerate((case["level"], "CRITICAL")):
            out = ["-o", f"out{k}"] if case["to_file"] else []
            res = subprocess.run([sys.executable, "-m", "castep_outputs", "-L", level, *out, f"--{typ}", path.name], cwd=tmp, env=env, capture_output=True, timeout=120, check=False)
            if res.returncode:
                raise Violation(f"-L {level} ended with {res.returncode}: {res.stderr.decode()[-500:]}")
            outs.append(((Path(tmp) / f"out{k}").read_bytes() if case["to_file"] else res.stdout, res))
            if case["to_file"] and res.stdout:
                raise Violation(f"-L {level} -o FILE printed {res.stdout[:200]!r}")
    if outs[0][0] != outs[1][0]:
        raise Violation(f"-L {case['level']} printed other data than -L CRITICAL: {outs[0][0][:300]!r} {outs[1][0][:300]!r}")
    if outs[1][1].stderr:
        raise Violation(f"-L CRITICAL said {outs[1][1].stderr[:300]!r}")
    said = outs[0][1].stderr.decode()
    if case["level"] in ("DEBUG", "INFO") and typ in ("castep", "cell", "param") and f"INFO: [{path.name}" not in said and len(outs[0][0]) > 20:
        raise Violation(f"-L {case['level']} said nothing of {path.name}: {said[:300]!r}")
    if case["level"] in ("ERROR", "CRITICAL") and said:
        raise Violation(f"-L {case['level']} said {said[:300]!r}")
    if "Logging error" in said:
        raise Violation(f"-L {case['level']}: {said[:600]}")


FACETS = [castep_lines, any_level, program]

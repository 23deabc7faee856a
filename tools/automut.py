"""Automatic mutation campaign (development aid).

python3 tools/automut.py COUNT|MISSED.jsonl SEED OUT.jsonl [path-substring...]: draws COUNT one-place changes of /repo/castep_outputs, drops those the
test suite notices, and runs the checks which reach the changed line on the others, the most specific first, in scratch copies.
Lines reached by each check come from /tmp/am/lines.json (made here if missing).
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

PY = "/opt/venv/bin/python"
BASE = Path("/tmp/am")
SRC = Path("/repo/castep_outputs")
LINES = BASE / "lines.json"
COVER = r'''
import sys, json, io, importlib, os
sys.path[:0] = ["/verif", "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.chdir("/verif")
from collections import defaultdict
seen = defaultdict(set)
mon = sys.monitoring
mon.use_tool_id(3, "c")
def line(code, ln):
    if "/repo/castep_outputs/" in code.co_filename:
        seen[code.co_filename.split("/castep_outputs/", 1)[1]].add(ln)
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, line)
from hypothesis import HealthCheck, Phase, given, seed, settings
from lib import harness
import signal
signal.signal(signal.SIGPROF, harness._alarm)
mod = importlib.import_module("checks." + sys.argv[1])
import castep_outputs
mon.set_events(3, mon.events.LINE)
out = sys.stdout
for f in mod.FACETS:
    if f.quick:
        sys.stdout = io.StringIO()
        try:
            settings(max_examples=min(400, f.quick), database=None, deadline=None, phases=[Phase.generate],
                     suppress_health_check=list(HealthCheck))(seed(1)(given(f.strategy)(lambda c: harness.run_case(f, c))))()
        except BaseException as exc:
            pass
        sys.stdout = out
print(json.dumps({k: sorted(v) for k, v in seen.items()}))
'''


def cover(stem):
    r = subprocess.run([PY, "-B", "-c", COVER, stem], capture_output=True, text=True)
    return stem[:3].upper(), json.loads((r.stdout.splitlines() or ["{}"])[-1])


SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}


def sites(text):
    """(start, end, replacement, kind) for every change known."""
    tree = ast.parse(text)
    offs = [0]
    for ln in text.splitlines(keepends=True):
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()
    out = []

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind))
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
    annot = set()
    for n in ast.walk(tree):
        for field in ("annotation", "returns"):
            if getattr(n, field, None) is not None:
                annot |= {id(x) for x in ast.walk(getattr(n, field))}
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            annot |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Call) and src(n.value.func).startswith(("logger", "logging", "warnings")):
            annot |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            annot |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.ClassDef) and any("TypedDict" in src(b) for b in n.bases):
            annot |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in annot:
            continue
        if isinstance(n, ast.For):
            for cap in (7, 20):
                add(n.iter, f"__import__('itertools').islice({src(n.iter)}, {cap})", "cap")
        if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.DictComp)):
            add(n.generators[0].iter, f"__import__('itertools').islice({src(n.generators[0].iter)}, 7)", "cap")
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 1 and n.lineno == n.end_lineno:
            s = src(n)
            for pat, new in ((r"\d+", r"\d{1,2}"), (r"\d+", r"\d{1,3}"), (r"\w+", r"\w{1,3}"), (r"\s+", r"\s{1,7}"), (r"\s*", r"\s{0,7}"), (".*", ".{0,15}"),
                             ("]+", "]{1,6}"), (r"\S+", r"\S{1,5}"), ("+", "{1,4}")):
                for m in list(re.finditer(re.escape(pat), s))[:2]:
                    a, b = span(n)
                    out.append((a, b, s[:m.start()] + new + s[m.end():], "regex-cap"))
        if isinstance(n, ast.If) and isinstance(n.test, (ast.Name, ast.Attribute, ast.Subscript)):
            add(n.test, f"{src(n.test)} is not None", "truth")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and src(n).endswith(" is not None"):
            add(n, src(n.left), "truth")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and src(n).endswith(" is None"):
            add(n, f"not {src(n.left)}", "truth")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("float", "int") and n.args:
            add(n, f"abs({src(n)})", "precision")
            if n.func.id == "float":
                add(n, f"round({src(n)}, 5)", "precision")
                add(n, f"float(f'{{{src(n)}:.7g}}')", "precision")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and len(n.args) == 1 and ":=" not in src(n):
            add(n, f"({src(n)} if {src(n.args[0])} not in {src(n.func.value)} else None)", "dedupe")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            add(n, f"{src(n.targets[0].value)}.setdefault({src(n.targets[0].slice)}, {src(n.value)})", "first wins")
            add(n, f"if {src(n.targets[0].value)} is not None and ({src(n.value)}): {src(n)}", "truth")
        if isinstance(n, ast.Call) and src(n.func) == "to_type" and len(n.args) == 2:
            add(n, f"(lambda r: r[::-1] if isinstance(r, tuple) and len(r) > 6 else r)({src(n)})", "long")
            add(n, f"(lambda r: tuple(dict.fromkeys(r)) if isinstance(r, tuple) and len(r) > 3 else r)({src(n)})", "long")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            if op in SWAP:
                add(n, f"{src(n.left)} {SWAP[op]} {src(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                vals = [f"({src(v)})" for j, v in enumerate(n.values) if j != i]
                add(n, (" and " if isinstance(n.op, ast.And) else " or ").join(vals), "drop operand")
            add(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({src(v)})" for v in n.values), "and/or")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({src(n.operand)})", "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "int")
            add(n, str(n.value - 1) if n.value else "2", "int")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) > 1 and n.lineno == n.end_lineno:
            s = src(n)
            for pat, new in ((r"\\s*", r"\\s+"), (r"\\s+", r"\\s*"), (r"\\d+", r"\\d"), ("+", ""), ("*", "+"), ("?", ""), ("^", ""), ("$", ""), (".*", "")):
                for m in list(re.finditer(re.escape(pat.replace("\\\\", "\\")), s))[:2]:
                    a, b = span(n)
                    out.append((a, b, s[:m.start()] + new.replace("\\\\", "\\") + s[m.end():], "regex"))
        elif isinstance(n, ast.If):
            add(n.test, f"not ({src(n.test)})" if ":=" not in src(n.test) else src(n.test), "negate")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            add(n, f"{src(n.left)} {new} {src(n.right)}", "arith")
            add(n, src(n.left), "arith-drop")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Expr)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                add(n, "pass", "delete")
            if isinstance(n, ast.AugAssign):
                add(n, f"{src(n.target)} = {src(n.value)}", "aug")
        elif isinstance(n, ast.Continue):
            add(n, "break", "continue")
            add(n, "pass", "continue")
        elif isinstance(n, ast.Break):
            add(n, "continue", "break")
            add(n, "pass", "break")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("strip", "lower", "lstrip", "rstrip", "upper", "copy", "split"):
                if n.func.attr != "split":
                    add(n, src(n.func.value), "method")
            if isinstance(n.func, ast.Attribute):
                for a, b in (("append", "extend"), ("match", "search"), ("search", "match"), ("fullmatch", "match"), ("setdefault", "get"), ("update", "__init__"),
                             ("split", "rsplit"), ("partition", "rpartition"), ("startswith", "endswith"), ("strip", "lstrip"), ("strip", "rstrip")):
                    if n.func.attr == a:
                        add(n, f"{src(n.func.value)}.{b}({src(n).split('(', src(n.func).count('(') + 1)[-1] if False else ', '.join(map(src, [*n.args, *n.keywords]))})", "method")
            for i, k in enumerate(n.keywords):
                rest = [*n.args, *(q for j, q in enumerate(n.keywords) if j != i)]
                add(n, f"{src(n.func)}({', '.join(map(src, rest))})", "keyword")
            if isinstance(n.func, ast.Name) and n.func.id in ("any", "all"):
                add(n.func, {"any": "all", "all": "any"}[n.func.id], "any/all")
        elif isinstance(n, ast.Name) and n.id in ("float", "int", "str") and isinstance(n.ctx, ast.Load):
            for o in ("float", "int", "str"):
                if o != n.id:
                    add(n, o, "type")
        elif isinstance(n, ast.IfExp):
            add(n, src(n.body), "ifexp")
            add(n, src(n.orelse), "ifexp")
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            for gen in n.generators:
                for cond in gen.ifs:
                    if ":=" not in src(cond):
                        add(cond, "True", "comp-if")
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load) and len(n.elts) > 2 and n.lineno == n.end_lineno:
            elts = [src(e) for e in n.elts]
            if all(isinstance(e, ast.Constant) for e in n.elts):
                o, c = raw[span(n)[0]:span(n)[0] + 1].decode(), raw[span(n)[1] - 1:span(n)[1]].decode()
                if o in "([{":
                    add(n, o + ", ".join(elts[:-1]) + c, "elts")
    res = []
    for a, b, new, kind in out:
        if raw[a:b].decode() == new:
            continue
        res.append({"line": raw[:a].count(b"\n") + 1, "end": raw[:b].count(b"\n") + 1, "old": raw[a:b].decode(), "new": new, "kind": kind, "span": (a, b)})
    return res


def written(bug):
    """The changed file, if it still compiles."""
    raw = (SRC / bug["file"]).read_bytes()
    a, b = bug.pop("span")
    bug["text"] = (raw[:a] + bug["new"].encode() + raw[b:]).decode()
    try:
        compile(bug["text"], "x", "exec")
    except (SyntaxError, ValueError):
        return False
    return True


def users(bug, lines):
    """Checks which reach a line using the module-level name a change belongs to, directly or through other such names."""
    defs, text = {}, {}
    for path in SRC.rglob("*.py"):
        rel = str(path.relative_to(SRC))
        text[rel] = path.read_text()
        defs[rel] = [(n.lineno, n.end_lineno, {t.id for t in ast.walk(n) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)})
                     for n in ast.parse(text[rel]).body if isinstance(n, (ast.Assign, ast.AnnAssign))]
    names = set().union(*(ids for a, b, ids in defs[bug["file"]] if a <= bug["line"] <= b))
    if not names:
        return []
    while True:
        pat = re.compile(r"\b(?:" + "|".join(map(re.escape, names)) + r")\b")
        more = set()
        for rel, items in defs.items():
            rows = text[rel].splitlines()
            for a, b, ids in items:
                if ids - names and pat.search("\n".join(rows[a - 1:b])):
                    more |= ids
        if not more:
            break
        names |= more
    found = {}
    for rel in text:
        hit = {i for i, row in enumerate(text[rel].splitlines(), 1) if pat.search(row)}
        hit -= {i for a, b, _ in defs[rel] for i in range(a, b + 1)}
        for c in lines:
            n = len(hit & set(lines[c].get(rel, ())))
            if n:
                found[c] = found.get(c, 0) + n
    return sorted(found, key=lambda c: (c in ("C25", "C26", "C27", "C28", "C29", "C31", "C32"), -found[c]))


def again(path):
    """The changes a campaign missed."""
    out, known = [], {}
    for rec in map(json.loads, open(path)):
        if not rec["caught"]:
            if rec["file"] not in known:
                known[rec["file"]] = sites((SRC / rec["file"]).read_text())
            same = [s for s in known[rec["file"]] if (s["old"], s["new"], s["kind"]) == (rec["old"], rec["new"], rec["kind"])]
            same.sort(key=lambda s: abs(s["line"] - rec["line"]))
            out += [{"file": rec["file"], **s} for s in same[:1]]
    return [b for b in out if written(b)]


def draw(count, seed, only):
    if count.endswith(".jsonl"):
        return again(count)
    rng = random.Random(int(seed))
    pool = []
    for path in sorted(SRC.rglob("*.py")):
        rel = str(path.relative_to(SRC))
        if only and not any(o in rel for o in only):
            continue
        for s in sites(path.read_text()):
            pool.append({"file": rel, **s})
    if "KINDS" in os.environ:
        pool = [b for b in pool if b["kind"] in os.environ["KINDS"].split(",")]
    print(len(pool), "changes known", flush=True)
    rng.shuffle(pool)
    out = []
    while pool and len(out) < int(count):
        bug = pool.pop()
        if written(bug):
            out.append(bug)
    return out


def setup(k):
    top = BASE / str(k)
    shutil.rmtree(top, ignore_errors=True)
    wt, vf = top / "repo", top / "verif"
    vf.mkdir(parents=True)
    subprocess.run(["cp", "-a", str(BASE / "src"), str(wt)], check=True)
    for part in ("run.sh", "check.py", "lib", "checks", "known_findings.json"):
        subprocess.run(["cp", "-a", f"/verif/{part}", str(vf)], check=True)
    for file in vf.rglob("*.py"):
        text = file.read_text()
        new = text.replace('"/repo', f'"{wt}').replace('"/verif', f'"{vf}')
        if new != text:
            file.write_text(new)
    return top


def main():
    count, seed, out, *only = sys.argv[1:]
    BASE.mkdir(exist_ok=True)
    global SRC
    subprocess.run(["rm", "-rf", str(BASE / "src")], check=True)
    subprocess.run(["cp", "-a", "/repo", str(BASE / "src")], check=True)
    SRC = BASE / "src/castep_outputs"
    stems = sorted(p.stem for p in Path("/verif/checks").glob("c*.py") if p.stem[:3] != "c36")  # runs under its own monitor
    if not LINES.is_file() or "KEEP" not in os.environ:
        with ThreadPoolExecutor(8) as pool:
            LINES.write_text(json.dumps(dict(pool.map(cover, stems))))
    lines = json.loads(LINES.read_text())
    bugs = draw(count, seed, only)
    free = Queue()
    for k in range(8):
        free.put(setup(k))
    env = {"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_SCALE": os.environ.get("SCALE", "0.6"), "LC_ALL": "C.UTF-8"}

    def tests(bug):
        top = free.get()
        path = top / "repo/castep_outputs" / bug["file"]
        orig = (SRC / bug["file"]).read_text()
        try:
            path.write_text(bug["text"])
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--basetemp={top}/pt", "--doctest-modules", "test", "castep_outputs"],
                                   cwd=top / "repo", capture_output=True, env={**env, "PYTHONPATH": str(top / "repo")}, timeout=90)
                return r.returncode == 0
            except subprocess.TimeoutExpired:
                return False
        finally:
            path.write_text(orig)
            free.put(top)

    with ThreadPoolExecutor(8) as pool:
        ok = list(pool.map(tests, bugs))
    alive = [b for b, o in zip(bugs, ok) if o]
    print(f"{len(bugs)} drawn, {len(alive)} not noticed by the tests", flush=True)

    def checks(bug):
        here = set(range(bug["line"], bug["end"] + 1))
        for n in ast.walk(ast.parse((SRC / bug["file"]).read_text())):  # what a condition is for shows in its branch
            if isinstance(n, ast.If) and n.test.lineno <= bug["line"] <= n.test.end_lineno:
                here = {n.body[-1].lineno}
        reach = [c for c in lines if here & set(lines[c].get(bug["file"], ()))]
        if bug["kind"] in ("regex", "elts", "type", "int", "bool", "keyword", "arith") and not reach:
            reach = [c for c in lines if lines[c].get(bug["file"])]
        reach.sort(key=lambda c: len(lines[c].get(bug["file"], ())))
        if not any(bug["line"] in lines[c].get(bug["file"], ()) for c in lines):
            reach = users(bug, lines) or reach
        if "ilter" in bug["old"]:
            reach = ["C26", *(c for c in reach if c != "C26")]
        reach = reach[:int(os.environ.get("CAP", "6"))]
        top = free.get()
        path = top / "repo/castep_outputs" / bug["file"]
        orig = (SRC / bug["file"]).read_text()
        done = []
        try:
            path.write_text(bug["text"])
            for c in reach:
                try:
                    r = subprocess.run(["sh", "run.sh", c], cwd=top / "verif", capture_output=True, text=True, errors="replace",
                                       env={**env, "PYTHONPATH": str(top / "repo")}, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                done.append((c, rc))
                if rc == 1:
                    break
        finally:
            path.write_text(orig)
            free.put(top)
        rec = {k: v for k, v in bug.items() if k != "text"} | {"done": done, "caught": bool(done) and done[-1][1] == 1}
        with open(out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")
        return rec

    with ThreadPoolExecutor(4) as pool:
        for rec in pool.map(checks, alive):
            if not rec["caught"]:
                print(f"MISSED {rec['file']}:{rec['line']} [{rec['kind']}] {rec['old'][:100]!r} -> {rec['new'][:100]!r} {rec['done']}", flush=True)
    print("end", flush=True)
    shutil.rmtree(BASE / "src")
    for k in range(8):
        shutil.rmtree(BASE / str(k))


main()

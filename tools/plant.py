"""Plant bugs described in a spec file and confirm each (python3 tools/plant.py SPEC [ID...]).

A spec defines BUGS, a list of dicts: id, property, edits [(file under castep_outputs, old, new)], demo (python), needs,
what_it_breaks.  Everything is tried in a scratch copy; a bug is kept in /verif/seeded/<id>/ if it applies, the tests still
pass with it and its demonstration passes without and fails with it.
"""
import json
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

PY = "/opt/venv/bin/python"
DEMO = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
spec = {}
exec(Path(sys.argv[1]).read_text(), spec)
only = set(sys.argv[2:])


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, env={"PATH": "/usr/bin:/bin", "PYTHONPATH": str(cwd), "PYTHONDONTWRITEBYTECODE": "1"}, **kw)


for bug in spec["BUGS"]:
    if only and bug["id"] not in only:
        continue
    with tempfile.TemporaryDirectory() as tmp:
        wt = Path(tmp) / "repo"
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", str(wt)], check=True)
        demo = Path(tmp) / "demo"
        demo.mkdir()
        (demo / "demo.sh").write_text(DEMO)
        (demo / "demo.py").write_text(bug["demo"])
        before = run(["sh", str(demo / "demo.sh")], wt)
        bad = None
        for file, old, new in bug["edits"]:
            path = wt / "castep_outputs" / file
            text = path.read_text()
            if text.count(old) != 1:
                bad = f"{file}: {text.count(old)} matches of {old!r}"
                break
            path.write_text(text.replace(old, new))
        if bad:
            print(bug["id"], "EDIT", bad)
            continue
        patch = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True, check=True).stdout
        after = run(["sh", str(demo / "demo.sh")], wt)
        tests = run([PY, "-m", "pytest", "-q", "-x", "-n0", "-p", "no:cacheprovider", "--doctest-modules", "test", "castep_outputs"], wt)
        if "unrecognized arguments: -n0" in tests.stderr:
            tests = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "test", "castep_outputs"], wt)
        ok = before.returncode == 0 and after.returncode != 0 and tests.returncode == 0
        print(bug["id"], "ok" if ok else "REJECTED", f"demo {before.returncode}->{after.returncode}; tests {tests.returncode}: {tests.stdout.strip().splitlines()[-1:]}",
              "" if ok else (before.stderr[-300:], after.stderr[-150:], tests.stdout[-200:]))
        if ok:
            out = Path("/verif/seeded") / bug["id"]
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(patch)
            shutil.copy(demo / "demo.sh", out)
            shutil.copy(demo / "demo.py", out)
            (out / "meta.json").write_text(json.dumps({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")

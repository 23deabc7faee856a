"""Try the bugs of a spec file (as for plant.py, no demonstration needed) against the checks, in scratch copies.

python3 tools/mutants.py SPEC [ID...]: for each bug prints whether the tests notice it, and which of its properties' checks do.
"""
import json
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

PY = "/opt/venv/bin/python"
spec = {}
exec(Path(sys.argv[1]).read_text(), spec)
only = set(sys.argv[2:])


def attempt(bug):
    with tempfile.TemporaryDirectory() as tmp:
        wt, vf = Path(tmp) / "repo", Path(tmp) / "verif"
        subprocess.run(["git", "clone", "-q", "/repo", str(wt)], check=True)
        vf.mkdir()
        for part in ("run.sh", "check.py", "lib", "checks", "known_findings.json"):
            subprocess.run(["cp", "-a", f"/verif/{part}", str(vf)], check=True)
        for file in vf.rglob("*.py"):
            text = file.read_text()
            new = text.replace('"/repo', f'"{wt}').replace('"/verif', f'"{vf}')
            if new != text:
                file.write_text(new)
        for file, old, new in bug["edits"]:
            path = wt / "castep_outputs" / file
            text = path.read_text()
            if text.count(old) != 1:
                return f"{bug['id']} EDIT {file}: {text.count(old)} matches of {old!r}"
            path.write_text(text.replace(old, new))
        env = {"PATH": "/usr/bin:/bin", "PYTHONPATH": str(wt), "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
        tests = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "test", "castep_outputs"],
                               cwd=wt, capture_output=True, text=True, env=env)
        out = []
        for prop in bug["property"].split():
            r = subprocess.run(["sh", "run.sh", prop], cwd=vf, capture_output=True, text=True, env=env, errors="replace")
            viol = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
            out.append(f"{prop}:{'caught' if viol else 'MISSED' if r.returncode == 0 else f'rc={r.returncode}'}")
            if r.returncode not in (0, 1):
                out.append((r.stdout + r.stderr)[-300:])
        return f"{bug['id']} tests={'ok' if tests.returncode == 0 else 'NOTICE'} {' '.join(out)}"


bugs = [b for b in spec["BUGS"] if not only or b["id"] in only]
with ThreadPoolExecutor(3) as pool:
    for line in pool.map(attempt, bugs):
        print(line, flush=True)

"""Lines of castep_outputs not reached by the generated cases: tools/cover.py [C02 C03 ...] (development aid)."""
import dis
import importlib
import io
import sys
from collections import defaultdict
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
seen, known = defaultdict(set), defaultdict(set)
mon = sys.monitoring
mon.use_tool_id(3, "cover")


def start(code, _off):
    if "/repo/castep_outputs/" in code.co_filename:
        for _, _, ln in code.co_lines():
            if ln:
                known[code.co_filename].add(ln)
    return None


def line(code, ln):
    if "/repo/castep_outputs/" in code.co_filename:
        seen[code.co_filename].add(ln)
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)

from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402
from lib import harness  # noqa: E402
import signal, os  # noqa: E402
signal.signal(signal.SIGPROF, harness._alarm)
n = int(os.environ.get("N", "150"))
names = sys.argv[1:]
out = sys.stdout
for p in sorted((HERE / "checks").glob("c*.py")):
    if names and p.stem[:3].upper() not in names:
        continue
    mod = importlib.import_module(f"checks.{p.stem}")
    for f in mod.FACETS:
        if not f.quick:
            continue
        sys.stdout = io.StringIO()
        try:
            settings(max_examples=min(n, f.quick), database=None, deadline=None, phases=[Phase.generate],
                     suppress_health_check=list(HealthCheck))(seed(1)(given(f.strategy)(lambda c: harness.run_case(f, c))))()
        except BaseException as exc:
            sys.stderr.write(f"{p.stem} {f.name}: {type(exc).__name__} {str(exc)[:200]}\n")
        sys.stdout = out


def codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from codes(c)


for path in sorted(Path("/repo/castep_outputs").rglob("*.py")):
    src = path.read_text()
    top = compile(src, str(path), "exec")
    lines = set()
    for c in codes(top):
        if c is top:
            continue
        lines |= {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno}
    miss = sorted(lines - seen[str(path)])
    text = src.splitlines()
    miss = [m for m in miss if text[m - 1].strip() and not text[m - 1].strip().startswith(('"""', "#"))]
    if miss:
        print(f"== {path.relative_to('/repo/castep_outputs')}: {len(miss)} of {len(lines)} lines not reached")
        for m in miss:
            print(f"  {m}: {text[m - 1].strip()[:110]}")

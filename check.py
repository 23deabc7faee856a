"""Entry point: check.py <property-id> [--replay FILE]."""
import importlib
import os
import re
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("PYTHONHASHSEED", "0")
os.chdir(HERE)


def main():
    prop = sys.argv[1]
    from lib import harness

    import castep_outputs
    if not str(Path(castep_outputs.__file__).resolve()).startswith("/repo/"):
        print("castep_outputs does not come from /repo", file=sys.stderr)
        return 3
    mod = next(p.stem for p in (HERE / "checks").glob("*.py")
               if re.match(rf"{prop.lower()}(_|$)", p.stem))
    module = importlib.import_module(f"checks.{mod}")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return harness.replay(prop, module.FACETS, sys.argv[3])
    return harness.run_property(prop, module.FACETS,
                                assumptions=getattr(module, "ASSUMPTIONS", ()))


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)

"""Fill the generated tables of DESIGN.md (python3 tools/design.py)."""
import json
import re
from pathlib import Path

top = Path(__file__).parents[1]
doc = (top / "DESIGN.md").read_text()


def fill(name, text):
    global doc
    doc = re.sub(rf"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n{text}\n<!-- /{name} -->", doc, flags=re.DOTALL)


fixed = json.loads((top / "known_findings.json").read_text())["fixed"]
rows = [re.match(r"fixed: property=(\S+) (\S+) (.*)", f).groups() for f in fixed]
fill("fixed", "Repaired (`fix:` commits in /repo):\n\n| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {a} | {b} | {c.replace('|', chr(92) + '|')} |" for a, b, c in rows))
bugs = [(d.name, json.loads((d / "meta.json").read_text())) for d in sorted((top / "seeded").iterdir())]
fill("planted", "All of these are caught by the check of their property (quick tier, seed 1):\n\n| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(
    f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |" for n, m in bugs))
(top / "DESIGN.md").write_text(doc)

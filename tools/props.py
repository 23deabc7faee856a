"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import re
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, text, why, files, mech, *, note, observe=None):
    assert len(title) <= 80, title
    assert len(re.findall(r"[.?](?=\s+[A-Z]|$)", statement)) <= 3, pid
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f"castep_outputs/{f}" for f in files],
                          "mechanism": [{"name": n, "where": f"castep_outputs/{w}"} for n, w in mech],
                          "observe_at": observe or ["return value of the public parse function"],
                          "hook_needed": None}, "_note": note})


exec((HERE / "tools" / "props_list.py").read_text())

MODEL_NOTE = ("Seeded random search with shrinking: a violation is a concrete replayable input; silence means no "
              "counterexample among the generated cases, not absence. Trusts the file writers in /verif (written "
              "from CASTEP sample files and the parsers' documentation). ")

checked = {p.stem[:3].upper() for p in (HERE / "checks").glob("c*.py")}
with open(HERE / "properties.jsonl", "w") as out:
    for p in P:
        out.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import castep_outputs, sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis\"",
    "checks": [{"property": p["id"], "quick_cmd": f"sh run.sh {p['id']}", "thorough_cmd": f"env VERIF_TIER=thorough sh run.sh {p['id']}",
                "technique": "property-based testing (Hypothesis strategies, explicit oracle, shrinking): " + p["_note"][0],
                "level": "exploration", "level_note": MODEL_NOTE + p["_note"][1]}
               for p in P if p["id"] in checked],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in checked],
    "notes": "The thorough tier (VERIF_TIER=thorough) runs about 12 times the cases. Replay one saved case with: "
             "sh run.sh <id> --replay replays/<id>/<facet>.json",
}
(HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
missing = checked - {p["id"] for p in P}
print(len(P), "properties,", len(manifest["checks"]), "checks; checks without property:", missing)

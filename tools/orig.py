"""Report planted bugs whose changed lines are not lines of the original repository (python3 tools/orig.py)."""
import re
import subprocess
from pathlib import Path

BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True, check=True).stdout.split()[0]
for patch in sorted(Path("/verif/seeded").glob("*/patch.diff")):
    file, line, mine, orig = None, 0, 0, 0
    for row in patch.read_text().splitlines():
        if row.startswith("--- a/"):
            file = row[6:]
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "--root", file], capture_output=True, text=True, check=True).stdout.splitlines()
        elif m := re.match(r"@@ -(\d+)", row):
            line = int(m[1])
        elif row.startswith("-") and not row.startswith("---"):
            if blame[line - 1].lstrip("^").startswith(BASE[:39]):
                orig += 1
            else:
                mine += 1
            line += 1
        elif row.startswith(" "):
            line += 1
    if mine or not orig:
        print(patch.parent.name, f"original lines {orig}, lines of later commits {mine}")

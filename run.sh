#!/bin/sh
# usage: run.sh <property-id> [--replay FILE]   (run from anywhere)
here=$(cd "$(dirname "$0")" && pwd)
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B "$here/check.py" "$@"

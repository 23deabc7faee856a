#!/bin/bash
# Run checks a few at a time (tools/runall.sh [Cxx...]) and print one line for each.
cd /verif
ids=${@:-$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])")}
echo $ids | tr ' ' '\n' | xargs -P 4 -I{} sh -c 's=$(date +%s); sh run.sh {} > /tmp/run.{}.out 2>&1; rc=$?; echo "{} rc=$rc $(($(date +%s)-s))s violations=$(grep -a -c "^VIOLATION" /tmp/run.{}.out)"' | sort

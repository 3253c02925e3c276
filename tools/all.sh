#!/bin/bash
# run every claimed check (or those named) and summarise
cd "$(dirname "$0")/.."
ps="$*"; [ -n "$ps" ] || ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for p in $ps; do s=$(date +%s); python3 tools/check.py $p > /tmp/all-$p.out 2>&1; rc=$?; echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -a obligations /tmp/all-$p.out | head -1)"; done

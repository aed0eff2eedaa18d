#!/bin/bash
# developer tool: run every quick check, print one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null)}; do
  t=$(date +%s); o=$(python3 check.py $p 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s)-t ))s $(echo "$o" | grep -m1 'contracts proved')"
  echo "$o" | grep -E "not proved|VIOLATION|KNOWN|failed" | cut -c1-300
done

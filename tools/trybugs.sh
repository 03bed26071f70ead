#!/bin/bash
# trybugs.sh [id...]: apply each planted bug to /repo, run its property's check, undo
cd /verif; for i in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
s=$(date +%s); timeout 900 python3 check.py $p > /tmp/try.log 2>&1; rc=$?; git -C /repo checkout -q -- .; echo "$i $p rc $rc $(($(date +%s)-s))s $(grep -c '^VIOLATION' /tmp/try.log) $(grep -A1 '^VIOLATION' /tmp/try.log | head -2 | tail -1 | cut -c1-150)"; done

#!/bin/bash
# Runs every registered quick check one after another; prints the last line of each.
cd "$(dirname "$0")/.."
for c in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
    out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py "$c" --tier quick 2>&1); rc=$?
    echo "$rc $(echo "$out" | tail -1)"
    [ $rc = 0 ] || echo "$out" | grep -v '^ ' | tail -8
done

#!/bin/bash
# run every claimed check, 8 at a time; args: property ids (default: all in MANIFEST.json)
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
python3 lib/facts.py >/dev/null
echo $ids | tr ' ' '\n' | xargs -P 7 -I{} sh -c 'python3 check.py {} > /tmp/all-{}.log 2>&1; echo "{} rc=$? $(tail -1 /tmp/all-{}.log | cut -c1-150)"' | sort

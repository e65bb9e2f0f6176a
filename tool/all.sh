#!/bin/bash
# every claimed check: seconds, verdict, undecided obligations
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
    t=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p >/tmp/all.$p 2>&1; r=$?
    echo "$p exit $r $(($(date +%s)-t)) s undecided $(python3 -c "import json; print(len(json.load(open('evidence/$p.json')).get('coverage',{}).get('undecided') or []))") $(grep -h obligations /tmp/all.$p | cut -c1-80)"
done

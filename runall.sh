#!/bin/bash
# runall.sh [quick|thorough]: all registered checks one after another, summary lines only
cd "$(dirname "$0")"; for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do timeout 3600 python3 check.py $p ${1:-quick} 2>&1 | cut -c1-250; echo "$p rc=${PIPESTATUS[0]}"; done

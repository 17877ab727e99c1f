#!/bin/bash
# run every registered check; prints exit code, time, last line
cd "$(dirname "$0")/.."
export TV_EVIDENCE=${TV_EVIDENCE:-evidence}
one() { s=$(date +%s); o=$(python3 check.py $1 ${TIER:-quick} 2>&1); r=$?; e=$(date +%s); echo "$1 rc=$r $((e-s))s $(echo "$o" | grep -c '^VIOLATION') viol :: $(echo "$o" | tail -1 | cut -c1-200)"; }
export -f one
python3 -c "import json;print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" | xargs -P 8 -I{} bash -c 'one {}' | sort

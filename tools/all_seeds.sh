#!/bin/bash
# verdict of the own check on every kept planted bug, in scratch copies
V=$(cd "$(dirname "$0")/.." && pwd)
one() { d=$1; id=$(basename $d); w=$(mktemp -d /tmp/as_XXXX); git clone -q /repo $w/r; git -C $w/r apply $d/patch.diff || echo "$id NOAPPLY"
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); TV_REPO=$w/r TV_EVIDENCE=$w python3 $2/check.py $p quick > $w/o 2>&1; r=$?
 echo "$id $p exit=$r $(grep -m1 -oE '\[[a-z-]+\]' $w/o)"; rm -rf "$w"; }
export -f one
ls -d $V/seeded/*/ | xargs -P 4 -I{} bash -c "one {} $V" | sort

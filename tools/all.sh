#!/bin/bash
# all.sh [repo]: run every registered check, one line each
cd "$(dirname "$0")/.."
[ -n "$1" ] && export VERIF_REPO=$1
python3 - <<'PY' | xargs -P 6 -I{} sh -c 'python3 bin/check.py {} >/tmp/all.{}.log 2>&1; r=$?; echo "{} exit=$r $(head -1 /tmp/all.{}.log)"; [ $r != 0 ] && grep -v "^ *found" /tmp/all.{}.log | sed -n 2,6p' | sort
import json
for c in json.load(open('MANIFEST.json'))['checks']: print(c['property'])
PY

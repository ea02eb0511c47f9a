#!/bin/bash
# seed_try.sh ID...  : verify planted bugs in a scratch copy (demo passes clean, fails patched, tests pass) and run the check
V=$(cd "$(dirname "$0")/.." && pwd)
export SDL_VIDEODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
for id in "$@"; do
  S=$V/seeded/$id
  W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
  bash $S/demo.sh >$W/clean.log 2>&1; c=$?
  git apply $S/patch.diff || { echo "$id PATCH-FAILS"; cd /; rm -rf "$W"; continue; }
  bash $S/demo.sh >$W/bug.log 2>&1; b=$?
  t=$(/opt/venv/bin/python -m pytest -q tests/test_bodies.py tests/test_hull.py -p no:cacheprovider 2>&1 | tail -1)
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd $V; VERIF_REPO=$W/repo timeout 900 python3 bin/check.py $p >$W/chk.log 2>&1); k=$?; grep -q "^VIOLATION property=$p " $W/chk.log && v= || v=" (no VIOLATION line)"
  echo "$id [$p] demo clean=$c bug=$b tests: $t check=$k$v"
  [ $c != 0 ] && tail -3 $W/clean.log
  [ $k != 1 ] && tail -5 $W/chk.log
  [ -n "$VERBOSE" ] && { tail -3 $W/bug.log;  grep -v '^ *found' $W/chk.log | head -${VERBOSE}; }
  cd /; rm -rf "$W"
done

#!/bin/bash
# seedcheck.sh [-a] [id...]: apply each planted change to /repo, run its property's check (all checks with -a), undo
cd "$(dirname "$0")/.." || exit 1
all=0; [ "$1" = -a ] && { all=1; shift; }
ids=${*:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || continue
  ps=$p; [ $all = 1 ] && ps=$(python3 -c "import sys;sys.path.insert(0,'.');from zz.registry import PROPS;print(*PROPS)")
  for q in $ps; do
    o=$(bash check.sh $q quick 2>&1); rc=$?
    [ $all = 1 -a $rc = 0 ] || echo "$i property=$p check=$q rc=$rc $(echo "$o" | grep -m1 -E '^  |UNDECIDED' | cut -c1-150)"
  done
  git -C /repo checkout -- .
done

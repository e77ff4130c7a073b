#!/bin/bash
# meta/rftest.sh NAME CHECK...: apply meta/refactors/NAME.diff (behaviour-preserving) to a scratch copy and run the checks against it.
S=/tmp/rf; n=$1; shift
git -C $S checkout -q -- . && git -C $S apply /verif/meta/refactors/$n.diff || { echo "$n: does not apply"; exit 1; }
for c in "$@"; do
  out=$(cd /verif && WV_REPO=$S WV_CACHE=/tmp/rfcache WV_EVIDENCE=/tmp/rfev timeout 900 bin/check $c 2>&1); rc=$?
  echo "$n $c rc=$rc $(echo "$out" | grep '^W' | cut -c1-90)"
  [ $rc = 0 ] || echo "$out" | cut -c1-330 | head -5
done
git -C $S checkout -q -- .

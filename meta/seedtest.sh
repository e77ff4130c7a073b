#!/bin/bash
# meta/seedtest.sh ID...: confirm planted bugs in a scratch copy of /repo (/tmp/sr): patch applies, builds,
# the stable tests pass, demo passes without and fails with it.
S=/tmp/sr
[ -d $S ] || { mkdir -p $S; (cd /repo && git ls-files -z | xargs -0 cp -a --parents -t $S); cp -a /repo/.git $S/; }
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
mkdir -p /tmp/srvp
for f in env build test; do sed "s#/repo#$S#g; s#/opt/vp/logs#/tmp/srvp/logs#g; s#/opt/vp/env.sh#/tmp/srvp/env.sh#g" /opt/vp/$f.sh > /tmp/srvp/$f.sh; done
run_demo() { local d=/tmp/srvp/demo; rm -rf $d; mkdir -p $d; cp -a /verif/seeded/$1/. $d/; rm -f $d/*.diff $d/*.patch $d/meta.json
  (cd $S && sed -i "s#/repo#$S#g" $d/*.sh $d/*.toml 2>/dev/null; timeout 300 bash $d/demo.sh > /tmp/srvp/$1.demo.$2.log 2>&1); }
for id in "$@"; do
  git -C $S checkout -q -- . 
  bash /tmp/srvp/build.sh > /tmp/srvp/build.log 2>&1 || { echo "$id: clean build FAILED"; continue; }
  run_demo $id clean; c=$?
  git -C $S apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! bash /tmp/srvp/build.sh > /tmp/srvp/$id.build.log 2>&1; then echo "$id: BUILD FAILS"; git -C $S checkout -q -- .; continue; fi
  bash /tmp/srvp/test.sh /tmp/srvp/$id.json > /dev/null 2>&1
  run_demo $id bug; b=$?
  python3 - $id $c $b <<'P'
import json, sys
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
r = json.load(open("/tmp/srvp/%s.json" % sys.argv[1]))
def passed(r):
    if "passed" in r: return set(r["passed"])
    return {t for t, v in r.items() if v in ("pass", "passed", True, "ok")}
p = passed(r)
miss = sorted(base - p)
print("%s: stable tests failing: %d %s; demo clean exit %s, with bug exit %s => %s" % (sys.argv[1], len(miss), miss[:3], sys.argv[2], sys.argv[3],
      "GOOD" if not miss and sys.argv[2] == "0" and sys.argv[3] != "0" else "BAD"))
P
  git -C $S checkout -q -- .
done

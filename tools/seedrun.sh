#!/bin/bash
# seedrun.sh ID...: confirms planted bugs in a scratch copy (/tmp/sr) shown as /repo in a mount namespace of its own.
# Result per id: base demo / build / tests / demo with the patch / checks that raise the alarm.
cd "$(dirname "$0")/.."
export VERIF_REAL=$PWD
exec unshare -m bash -c '
mount --bind /tmp/sr /repo
for id in "$@"; do
  d=$VERIF_REAL/seeded/$id
  cp -a $d /tmp/seed_$$; 
  git -C /repo checkout -q -- .
  git -C /repo apply $d/patch.diff || { echo "$id: APPLY FAILS"; rm -rf /tmp/seed_$$; continue; }
  if [ -z "$ONLYCHECK" ]; then
  bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1; b=$?
  (cd /repo && bash /tmp/seed_$$/demo.sh > /tmp/seed_demo1.log 2>&1); d1=$?
  bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1
  t=$(python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); g=json.load(open(\"/tmp/seed_test.json\"))
m=sorted(b-set(g[\"passed\"])); print(\"ok\" if not m else \"MISSING %s\" % m[:4])")
  fi
  p=$(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
  out=$(cd $VERIF_REAL && timeout 800 python3 -m hf.check $p 2>&1); c=$?
  if [ -n "$ALLCHECKS" ]; then al=$(cd $VERIF_REAL; for f in hf/props/c??.py; do q=$(basename $f .py); q=${q^^}; [ $q = $p ] || { timeout 600 python3 -m hf.check $q > /tmp/seed_chk.log 2>&1 || echo -n "$q "; }; done); fi
  git -C /repo checkout -q -- .
  if [ -z "$ONLYCHECK" ]; then
  bash /opt/vp/build.sh > /tmp/seed_build0.log 2>&1
  (cd /repo && bash /tmp/seed_$$/demo.sh > /tmp/seed_demo0.log 2>&1); d0=$?
  fi
  rm -rf /tmp/seed_$$
  echo "$id ($p): build=$b demo_base=$d0 demo_patched=$d1 tests=$t check=$c others=[$al]"
  [ $c = 1 ] && echo "$out" | grep -B3 VIOLATION | head -8
  [ $c != 1 ] && echo "$out" | tail -4
  [ "$d0" != 0 ] && tail -5 /tmp/seed_demo0.log
done
' seedrun "$@"

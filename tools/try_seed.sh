#!/bin/bash
# try_seed.sh ID...: confirms planted bugs in a scratch copy (/tmp/sr), then runs the property's check against /repo with it.
# Scratch copy: made on first use, remove it with `rm -rf /tmp/sr` when done.
V=$(cd "$(dirname "$0")/.." && pwd)
if [ ! -d /tmp/sr ]; then cp -a /repo /tmp/sr; rm -rf /tmp/sr/_build; fi
sed 's#/repo#/tmp/sr#g' /opt/vp/build.sh > /tmp/sr_build.sh
sed -e 's#/repo#/tmp/sr#g' -e 's#/opt/vp/build.sh#/tmp/sr_build.sh#' /opt/vp/test.sh > /tmp/sr_test.sh
cd /tmp/sr && git fetch -q ${SRC:-/repo} HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build
for id in "$@"; do
  S=$V/seeded/$id
  cd /tmp/sr && git checkout -q -- . && bash /tmp/sr_build.sh > /tmp/sr_log 2>&1 || { echo "$id: clean build failed"; continue; }
  cp -r $S /tmp/sr_demo.$$; rm -f /tmp/sr_demo.$$/patch.diff /tmp/sr_demo.$$/meta.json
  timeout 300 bash /tmp/sr_demo.$$/demo.sh > /tmp/sr_demo_clean.log 2>&1; c=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /tmp/sr_test.sh /tmp/sr_out.json > /tmp/sr_log 2>&1 || { echo "$id: build failed with patch"; tail -5 /tmp/sr_log; git checkout -q -- .; continue; }
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('/tmp/sr_out.json'))['passed'])
print(len([x for x in b if x not in p]))")
  timeout 300 bash /tmp/sr_demo.$$/demo.sh > /tmp/sr_demo_bad.log 2>&1; d=$?
  rm -rf /tmp/sr_demo.$$
  git checkout -q -- .
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  r="-"
  if [ -z "$NOCHECK" ] && [ $c = 0 ] && [ $d != 0 ] && [ "$miss" = 0 ]; then
    git -C /repo apply $S/patch.diff
    (cd $V && timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 run.py $prop --tier quick > /tmp/sr_check.log 2>&1); r=$?
    git -C /repo checkout -q -- .
  fi
  echo "$id: prop=$prop demo clean=$c bad=$d tests missing=$miss check=$r $(grep -m1 VIOLATION /tmp/sr_check.log 2>/dev/null | cut -c1-160)"
done

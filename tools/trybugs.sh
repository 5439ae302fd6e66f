#!/bin/bash
# trybugs.sh ID...: (VERIF_REPO and VP name another clone and its build scripts)
# for each planted bug: builds, existing tests, demo, and its property's quick check, with and without the patch.
R=${VERIF_REPO:-/repo} VP=${VP:-/opt/vp}
cd $R || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/try.demo0 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash $VP/build.sh >/tmp/try.build 2>&1; then bl=ok; else bl=FAIL; fi
  bash $VP/test.sh /tmp/try.json >/tmp/try.test 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/try.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print(len(b-set(d['passed'])))")
  bash $d/demo.sh >/tmp/try.demo1 2>&1; d1=$?
  s=$(date +%s)
  (cd /verif; VERIF_SEED=${SEED:-1} timeout 900 bin/check $p >/tmp/try.$id.log 2>&1); c=$?
  e=$(( $(date +%s) - s ))
  v=$(grep -c "^VIOLATION property=$p " /tmp/try.$id.log)
  git checkout -q -- .
  echo "$id $p build=$bl broken_tests=$t demo=$d0/$d1 check=$c violations=$v ${e}s"
done
bash $VP/build.sh >/tmp/try.build 2>&1

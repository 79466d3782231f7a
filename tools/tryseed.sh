#!/bin/bash
# tryseed.sh ID...: demo on the clean build, then patch+build+tests+demo+check, then undo
cd /repo
for id in "$@"; do
  S=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id CLEAN BUILD FAILED"; exit 1; }
  timeout 300 bash $S/demo.sh >/tmp/demo0.log 2>&1; D0=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id BUILD FAILED"; git checkout -- .; continue; }
  timeout 300 bash $S/demo.sh >/tmp/demo1.log 2>&1; D1=$?
  T=skipped
  if [ -z "$NOTEST" ]; then T=$(bash /tmp/rt.sh); fi
  C=skipped
  if [ -z "$NOCHECK" ]; then (cd /verif; python3 run.py $P quick >/tmp/chk_$id.log 2>&1); C=$?; fi
  git checkout -- .
  echo "$id ($P): demo clean=$D0 patched=$D1 tests: $T check exit=$C $(grep -m1 VIOLATION /tmp/chk_$id.log)"
  [ $D0 = 0 ] || tail -3 /tmp/demo0.log
done
bash /opt/vp/build.sh >/tmp/b.log 2>&1

#!/bin/bash
# plant.sh ID [PROP...]: apply /verif/seeded/ID/patch.diff to /repo, build, test, demo; undo; demo. With properties: also run their checks on the changed tree.
id=$1; shift
D=/verif/seeded/$id
cp /verif/tools/demo/common.sh $D/
grep -q nlpdemo.hpp $D/*.cpp 2>/dev/null && cp /verif/tools/demo/nlpdemo.hpp $D/
grep -q pridec.hpp $D/*.cpp 2>/dev/null && cp /verif/tools/demo/pridec.hpp $D/
cd /repo || exit 1
git diff --quiet || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "base build failed"; exit 1; }
T=/tmp/demo_elsewhere; rm -rf /tmp/demo_elsewhere; cp -r $D $T; rm -f $T/*.diff $T/meta.json
timeout 300 bash $T/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
git apply $D/patch.diff || exit 1
if bash /opt/vp/build.sh >/tmp/plant.build 2>&1; then
  timeout 300 bash $T/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
  t=$(bash /opt/vp/test.sh /tmp/plant.tests 2>/dev/null | tail -1)
  echo "$id: demo unchanged=$r0 changed=$r1 tests: $t"; tail -2 /tmp/plant.demo1
  for p in "$@"; do python3 /verif/check.py $p 2>&1 | tail -3 | cut -c1-260; done
else echo "$id: does not build"; tail -5 /tmp/plant.build; fi
git checkout -q -- . ; rm -rf /tmp/demo_elsewhere
[ $r0 = 0 ] || { echo "demo fails on the unchanged tree:"; tail -3 /tmp/plant.demo0; }

#!/bin/bash
# plant.sh ID...: validates seeded/ID in a private mount namespace where /repo is a scratch copy:
# applies, builds, passes the stable tests, demo 0 without / nonzero with the patch, then runs the property's check.
# (not part of any check; needs the privileges of the authoring sandbox)
if [ -z "$PLANT_IN" ]; then
  [ -d /tmp/plant/repo ] || cp -a /repo /tmp/plant/repo
  mkdir -p /tmp/plant/seeded; rm -rf /tmp/plant/seeded; cp -a /verif/seeded /tmp/plant/seeded
  cd /tmp/plant/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD
  exec env PLANT_IN=1 unshare -m bash -c 'mount --make-rprivate / && mount --bind /tmp/plant/repo /repo && exec bash /verif/tools/plant.sh "$@"' x "$@"
fi
cd /repo
for id in "$@"; do
  d=/tmp/plant/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git checkout -q -- .
  if [ -z "$NODEMO" ]; then
    bash $d/demo.sh >/tmp/plant/demo0.log 2>&1; a=$?
  else a=-; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/plant/build.log 2>&1 || { echo "$id: does not build"; git checkout -q -- .; continue; }
    bash /opt/vp/test.sh /tmp/plant/t.json >/tmp/plant/test.log 2>&1
    miss=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/plant/t.json'))['passed']);print(len(b-t),sorted(b-t)[:4])")
  else miss=-; fi
  if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/plant/demo1.log 2>&1; b=$?; else b=-; fi
  if [ -z "$NOCHECK" ]; then
    out=$(SX_BUILD=/tmp/plant/build VERIF_TIER=quick /verif/check $prop 2>&1); c=$?
    echo "$out" | grep -v "^  .* paths" | tail -${TAIL:-6}
  else c=-; fi
  git checkout -q -- .
  echo "== $id $prop demo-clean=$a demo-bug=$b tests-missing=$miss check=$c"
done

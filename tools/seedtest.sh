#!/bin/bash
# seedtest.sh <seed id>...: apply each planted change to /repo, run the stable tests, the demo and the
# property's quick check, and undo it. Prints one line per seed.
cd "$(dirname "$0")/.." || exit 2
for s in "$@"; do
  d=$PWD/seeded/$s; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  if [ -z "${NOCLEAN:-}" ]; then (cd /repo && bash "$d/demo.sh" >/tmp/demo.log 2>&1); clean=$?; else clean=-; fi
  git -C /repo apply "$d/patch.diff" || { echo "$s: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/test.log 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/seed.json'));print(len(d['passed']),len(d['failed']))")
  (cd /repo && bash "$d/demo.sh" >/tmp/demo2.log 2>&1); demo=$?
  ./check.sh "$prop" quick >/tmp/check.log 2>&1; chk=$?
  git -C /repo checkout -- .
  echo "$s $prop build=$b tests=$t demo_clean=$clean demo_patched=$demo check=$chk $(grep -c "^VIOLATION property=$prop" /tmp/check.log)"
done

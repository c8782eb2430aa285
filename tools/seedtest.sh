#!/bin/bash
# seedtest.sh ID...: does the seed apply, build, pass the tests, fail its demo, and which checks catch it?
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1
  (bash $d/demo.sh >/tmp/demo.out 2>&1); c0=$?
  git apply $d/patch.diff || { echo "$id does not apply"; continue; }
  b=$(bash /opt/vp/build.sh 2>&1 | grep -ciE "error|FAILED")
  t=$(bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1)
  (bash $d/demo.sh >/tmp/demo1.out 2>&1); c1=$?
  cd /verif; r=""
  for q in $p $EXTRA; do python3 run.py $q >/tmp/chk.out 2>&1; r="$r $q=$?"; grep -A0 -m1 "what:" /tmp/chk.out; done
  git -C /repo checkout -q -- .
  echo "$id property=$p build_errors=$b tests='$t' demo clean=$c0 patched=$c1 check:$r"
done
bash /opt/vp/build.sh >/dev/null 2>&1

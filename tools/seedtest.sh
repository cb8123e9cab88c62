#!/bin/bash
# seedtest.sh [-c] <id>...: confirm planted bugs in a scratch copy of /repo (applies,
# builds, passes the stable tests, demo 0 without and nonzero with it); -c also runs
# the property's quick check against the bug applied to /repo.
. /opt/vp/env.sh
chk=; [ "$1" = -c ] && { chk=1; shift; }
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedwork
  rm -rf /tmp/seedwork; cp -a /repo $w; cd $w; git checkout -q -- .
  # the demo lies elsewhere, without patch and meta
  rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; for f in $s/*; do case $f in *.diff|*.patch|*meta.json) ;; *) cp $f /tmp/seeddemo/;; esac; done
  bash /tmp/seeddemo/demo.sh >/tmp/seed.d0 2>&1; d0=$?
  git apply --check $s/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  git apply $s/patch.diff
  go build ./... >/tmp/seed.b 2>&1; b=$?
  go test ./... >/tmp/seed.t 2>&1; t=$?
  bash /tmp/seeddemo/demo.sh >/tmp/seed.d1 2>&1; d1=$?
  ok=BAD; [ $d0 = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $d1 != 0 ] && ok=ok
  echo "$id: $ok demo0=$d0 build=$b test=$t demo1=$d1"
  [ $d0 != 0 ] && tail -5 /tmp/seed.d0; [ $b != 0 ] && tail -5 /tmp/seed.b; [ $t != 0 ] && grep -v "no test files\|^ok" /tmp/seed.t | tail -15
  grep -q "build failed\|setup failed" /tmp/seed.d1 && tail -5 /tmp/seed.d1
  if [ -n "$chk" ]; then
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    git -C /repo apply $s/patch.diff && { VERIF_SEED=1 VERIF_TIER=quick python3 /verif/run.py $p quick 2>&1 | cut -c1-260 | grep -v "^KNOWN\|^case" | head -4; git -C /repo checkout -q -- .; }
  fi
done
rm -rf /tmp/seedwork /tmp/seeddemo

#!/bin/bash
# seed.sh ID...: verify planted bugs in the scratch copy /tmp/seed/repo (made by hand with cp -a /repo)
R=/tmp/seed/repo
for id in "$@"; do
  s=/verif/seeded/$id
  git -C $R checkout -q -- . ; 
  (cd $R && bash $s/demo.sh) >/tmp/seed/demo.log 2>&1; a=$?
  git -C $R apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /tmp/seed/vp/build.sh >/tmp/seed/build.log 2>&1 || { echo "$id: build fails"; tail -20 /tmp/seed/build.log; continue; }
  bash /tmp/seed/vp/test.sh /tmp/seed/o.json >/tmp/seed/test.log 2>&1
  m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/o.json'))
print(' '.join(sorted(set(b['stable'])-set(o['passed']))))")
  (cd $R && bash $s/demo.sh) >/tmp/seed/demo2.log 2>&1; b=$?
  git -C $R checkout -q -- .
  echo "$id: demo clean=$a patched=$b missing-tests=[$m]"
  [ $a = 0 ] || tail -5 /tmp/seed/demo.log
  tail -2 /tmp/seed/demo2.log | cut -c1-200
done

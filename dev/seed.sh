#!/bin/bash
# dev helper: seed.sh ID...  confirms planted bugs in a scratch copy (/tmp/w/sr/repo): demo passes, patch applies, builds, stable tests pass, demo fails; then which checks see it
S=/tmp/w/sr; mkdir -p $S
rsync -rc --no-times --delete --exclude _build --exclude .git --exclude __pycache__ /repo/ $S/repo/
sed "s#/repo#$S/repo#g" /opt/vp/build.sh > $S/build.sh
sed "s#/repo#$S/repo#g; s#/opt/vp/build.sh#$S/build.sh#" /opt/vp/test.sh > $S/test.sh
cd $S/repo || exit 1
for id in "$@"; do
  D=/verif/seeded/$id
  rsync -rc --no-times --exclude _build --exclude .git /repo/ $S/repo/
  bash $S/build.sh >$S/b.log 2>&1 || { echo "$id: BASE BUILD FAILED"; continue; }
  rm -rf /tmp/w/sr/demo; mkdir -p $S/demo; cp $D/* $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
  sh -c "cd $S/repo && timeout 300 bash $S/demo/demo.sh" >$S/d0.log 2>&1; r0=$?
  patch -s -p1 -d $S/repo -i $D/patch.diff || { echo "$id: PATCH FAILED"; continue; }
  bash $S/build.sh >$S/b.log 2>&1 || { echo "$id: BUILD FAILED"; tail -20 $S/b.log; continue; }
  bash $S/test.sh $S/t.json >$S/t.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$S/t.json'))
st=b.get('stable') or b.get('passed') or b
print('lost:',[x for x in st if x not in t['passed']][:5])
P
)
  (cd $S/repo && timeout 300 bash $S/demo/demo.sh) >$S/d1.log 2>&1; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply --check $D/patch.diff || echo "git apply fails"
  o=$(cd /verif && PV_REPO=$S/repo python3 check.py $p 2>&1); rc=$?
  echo "$id: demo base $r0 / patched $r1; tests $t; check $p rc $rc: $(echo "$o" | grep -E '^  \[' | head -2 | cut -c1-200)"
  [ $r0 = 0 ] || tail -5 $S/d0.log
done

#!/bin/bash
# seedlab.sh LAB ID [check...]: confirms seeded/ID in a scratch copy (/tmp/labLAB) and runs checks against it
set -u
LAB=/tmp/lab$1; ID=$2; shift 2
V=/verif/seeded/$ID
PID=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
CH=${*:-$PID}
if [ ! -d $LAB/repo ]; then
  mkdir -p $LAB; cp -a /repo $LAB/repo; cp -r /opt/vp $LAB/vp
  sed -i "s#/opt/vp/nobind.so#@NB@#g; s#/repo#$LAB/repo#g; s#/opt/vp#$LAB/vp#g; s#@NB@#/opt/vp/nobind.so#g" $LAB/vp/*.sh $LAB/vp/*.py
  bash $LAB/vp/build.sh > $LAB/build.log 2>&1
fi
cd $LAB/repo
git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD
D=$LAB/demo; rm -rf $LAB/demo; mkdir $D; cp -r $V/. $D; rm -f $D/patch.diff $D/meta.json
R=$(date +%s)
demo() { (cd $LAB/repo && timeout 300 bash $D/demo.sh > $LAB/demo.$1 2>&1; echo $?); }
bash $LAB/vp/build.sh > $LAB/build.log 2>&1 || echo "clean build failed"
c0=$(demo clean)
git apply $V/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash $LAB/vp/build.sh > $LAB/build.log 2>&1 || { echo "$ID: patched build failed"; tail -5 $LAB/build.log; git checkout -q -f FETCH_HEAD; exit 1; }
c1=$(demo patched)
bash $LAB/vp/test.sh $LAB/o.json > $LAB/test.log 2>&1
t=$(python3 -c "
import json;o=json.load(open('$LAB/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print('tests-pass' if set(b)<=set(o['passed']) else 'TESTS-FAIL '+str(set(b)-set(o['passed'])))")
s=""
for c in $CH; do
  KNORV_REPO=$LAB/repo KNORV_BUILD=$LAB/vb KNORV_OUT=$LAB/out timeout 900 bash /verif/run.sh $c ${TIER:-quick} > $LAB/check.$c 2>&1; rc=$?
  n=$(grep -c "^VIOLATION property=$c" $LAB/check.$c)
  s="$s $c:rc=$rc,viol=$n"
done
git checkout -q -f FETCH_HEAD
echo "$ID [$PID] clean=$c0 patched=$c1 $t |$s ($(( $(date +%s) - R )) s)"

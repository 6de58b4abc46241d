#!/bin/bash
# plant.sh ID : confirms /verif/seeded/ID in a scratch copy of /repo under /tmp/mut: applies, builds, 92 stable tests pass,
# demo exits 0 without and nonzero with the patch.
set -u
SRC=${SRC:-/repo}; ID=$1; S=${SEEDED:-/verif/seeded}/$ID; M=/tmp/mut; PX=/tmp/px
mkdir -p $PX
for f in build.sh test.sh run_tests.py results.py; do sed "s#/repo#$M#g; s#/opt/vp/build.sh#$PX/build.sh#; s#/opt/vp/run_tests.py#$PX/run_tests.py#; s#/opt/vp/results.py#$PX/results.py#" /opt/vp/$f > $PX/$f; done
if [ ! -d $M/.git ] || [ "$(git -C $M rev-parse HEAD)" != "$(git -C $SRC rev-parse HEAD)" ]; then
  rm -rf /tmp/mut; git clone -q $SRC $M
fi
git -C $M checkout -q -- . 
bash $PX/build.sh >$PX/b0.log 2>&1 || { echo "$ID base build failed"; exit 1; }
D=$(mktemp -d /tmp/demo.XXXX); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
(cd $M; sed -i "s#/repo#$M#g" $D/demo.sh; timeout 300 bash $D/demo.sh >$PX/d0.log 2>&1); r0=$?
git -C $M apply $S/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash $PX/build.sh >$PX/b1.log 2>&1 || { echo "$ID build failed"; tail -5 $PX/b1.log; git -C $M checkout -q -- .; exit 1; }
(cd $M; timeout 300 bash $D/demo.sh >$PX/d1.log 2>&1); r1=$?
bash $PX/test.sh $PX/o.json >$PX/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$PX/o.json'))
def names(d):
    for k in ('stable','passed','pass','tests'):
        if k in d: return d[k]
s=set(names(b)); p=set(o.get('passed',o.get('pass',[])))
print("$ID demo base=$r0 patched=$r1 tests missing:", sorted(s-p)[:5], len(s), len(p))
P
git -C $M checkout -q -- .
rm -rf $D

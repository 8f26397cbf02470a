#!/bin/bash
# seedcheck.sh ID [nocheck]: validate seeded/ID in a scratch copy of the repository, then run its property's quick check against the repository with the patch applied (undone afterwards)
# VDIR (default /verif) and VERIF_REPO (default /repo) select the trees
id=$1; V=${VDIR:-/verif}; R=${VERIF_REPO:-/repo}; S=$V/seeded/$id; W=/tmp/seedwork
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ ! -d $W ]; then cp -a $R $W; fi
cd $W && git checkout -q -- . && git fetch -q $R HEAD && git reset -q --hard FETCH_HEAD
D=/tmp/seeddemo; rm -rf /tmp/seeddemo; cp -a $S $D; rm -f $D/*.diff $D/meta.json
bld() { sed "s#/repo#$W#g; s#/opt/vp/snap.mk#/tmp/seedsnap.mk#" /opt/vp/build.sh > /tmp/seedbuild.sh; sed "s#/repo#$W#g" /opt/vp/snap.mk > /tmp/seedsnap.mk; bash /tmp/seedbuild.sh > /tmp/seedbuild.log 2>&1; }
bld || { echo "$id: base build failed"; exit 2; }
( cd $W; timeout 300 bash $D/demo.sh > /tmp/seeddemo.log 2>&1 ); r0=$?
git -C $W apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bld || { echo "$id: patched build failed"; tail -5 /tmp/seedbuild.log; exit 2; }
sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json >/dev/null 2>&1; t=$(grep -o '"failed": .*' /tmp/seedtest.json)
( cd $W; timeout 300 bash $D/demo.sh > /tmp/seeddemo2.log 2>&1 ); r1=$?
git -C $W checkout -q -- .
echo "$id ($prop): demo base=$r0 patched=$r1 tests $t $([ $r0 = 0 ] && [ $r1 != 0 ] && echo OK || echo BAD)"
[ "$2" = nocheck ] && exit 0
[ -n "$(git -C $R status --short)" ] && { echo $R dirty; exit 2; }
git -C $R apply $S/patch.diff
cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $prop > /tmp/seedcheck.log 2>&1; r=$?
git -C $R checkout -q -- .
echo "$id: check $prop exit $r: $(grep VIOLATION /tmp/seedcheck.log | head -1)"

#!/bin/bash
# try.sh ID [nocheck]: confirm a seeded bug in a private copy mounted over /repo and run the property's check
ID=$1; S=${SEEDED:-/verif/seeded}/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
C=/tmp/plant/c_$ID; mkdir -p $C; cp -a /repo $C/repo
export ID S P C MODE=$2
unshare -m bash -c '
mount --bind $C/repo /repo; cd /repo
bash $S/demo.sh >$C/d0.log 2>&1; r0=$?
git apply $S/patch.diff || { echo "$ID APPLY FAILED"; exit; }
bash /opt/vp/build.sh >$C/b.log 2>&1; b=$?
bash /opt/vp/test.sh $C/o.json >$C/t.log 2>&1
t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); b=b if isinstance(b,list) else b.get(\"passed\",b.get(\"tests\",b.get(\"stable\",[])))
o=set(json.load(open(\"$C/o.json\"))[\"passed\"]); print(len([x for x in b if x not in o]))")
bash $S/demo.sh >$C/d1.log 2>&1; r1=$?
echo "$ID($P): demo0=$r0 build=$b tests_lost=$t demo1=$r1"
if [ "$MODE" != nocheck ]; then
 cd /verif; for p in ${MODE:-$P}; do VERIF_SEED=1 python3 bin/check.py $p quick >$C/c.log 2>&1; echo "   check $p exit=$? $(grep -m1 -E "VIOLATION|error" $C/c.log | cut -c1-200)"; done
fi
'
tail -2 $C/d1.log | cut -c1-200
rm -r /tmp/plant/c_$ID

#!/bin/bash
# try_seed.sh ID : demo on /repo, demo on a patched copy, this property's check on the patched copy
ID=$1; S=/verif/seeded/$ID
T=$(mktemp -d /tmp/seedtry.XXXXXX)
mkdir $T/repo; cp -a /repo/hwy $T/repo/; cp -a $S $T/demo; rm -f $T/demo/*.diff $T/demo/meta.json
(cd /repo; timeout 300 bash $T/demo/demo.sh >$T/o0 2>&1); r0=$?
(cd $T/repo; git init -q . ; git apply $S/patch.diff) || echo "apply failed"
(cd $T/repo; timeout 300 bash $T/demo/demo.sh >$T/o1 2>&1); r1=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "$ID $P demo clean=$r0 patched=$r1 ($(tail -1 $T/o1 | cut -c1-120))"
[ $r0 = 0 ] || tail -5 $T/o0
if [ "$2" != nocheck ]; then cd /verif; cp evidence/$P.json $T/ev 2>/dev/null; VF_REPO=$T/repo timeout 900 python3 check.py $P >$T/c 2>&1; echo "   check rc=$? viol=$(grep -c ^VIOLATION $T/c) $(grep -m2 '^  ' $T/c | cut -c1-200)"; [ -f $T/ev ] && cp $T/ev evidence/$P.json; fi
rm -rf "$T"

#!/bin/bash
# tryseed.sh SEED : confirm a planted bug in /repo (applied, then undone) and say whether the check catches it
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 9; }
bash $S/demo.sh > /tmp/demo0.log 2>&1; a=$?
git apply $S/patch.diff || exit 9
bash $S/demo.sh > /tmp/demo1.log 2>&1; b=$?
if [ -z "$2" ]; then bash /opt/vp/build.sh > /tmp/ts.log 2>&1; timeout 800 bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts.log 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/ts.json'))['passed'];print(len([x for x in b if x not in o]))"); fi
(cd /verif; timeout 900 python3 check.py $P > /tmp/chk.log 2>&1; echo $? > /tmp/chk.rc)
git -C /repo checkout -- .
echo "$1 $P demo clean=$a patched=$b failing_stable=$t check=$(cat /tmp/chk.rc) $(grep -m1 -A1 VIOLATION /tmp/chk.log | tail -1 | cut -c1-200) $(tail -1 /tmp/chk.log | cut -c1-150)"

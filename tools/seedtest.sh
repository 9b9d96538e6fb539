#!/bin/bash
# tools/seedtest.sh ID... : confirm planted bugs in a scratch copy (/tmp/wt bound over /repo in a user namespace)
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
[ -d /tmp/wt ] || cp -a /repo /tmp/wt
git -C /tmp/wt fetch -q /repo HEAD && git -C /tmp/wt checkout -q -f FETCH_HEAD
for id in "$@"; do
D=$V/seeded/$id
T=$(mktemp -d /tmp/seedXXXX); cp -r $D/. $T/; rm -f $T/*.diff
unshare -Urm bash -c "mount --bind /tmp/wt /repo; cd /repo; git apply $D/patch.diff || { echo APPLY-FAILED; exit; }
bash /opt/vp/build.sh > $T/b.log 2>&1 || { echo BUILD-FAILED; tail -5 $T/b.log; }
(timeout 300 bash $T/demo.sh) > $T/d1.log 2>&1; d1=\$?
if [ -z \"\${NOTEST:-}\" ]; then bash /opt/vp/test.sh $T/out.json > $T/t.log 2>&1; 
python3 - $T/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=set(b.get('stable',b.get('passed',[]))); m=st-set(o['passed'])
print('tests: %d stable, broken: %s'%(len(st),sorted(m)[:8]))
P
fi
git checkout -q -- . ; bash /opt/vp/build.sh > $T/b.log 2>&1
(timeout 300 bash $T/demo.sh) > $T/d0.log 2>&1; d0=\$?
echo \"$id: demo with patch \$d1 (want nonzero), without \$d0 (want 0)\"; [ \$d0 = 0 ] || tail -5 $T/d0.log; [ \$d1 != 0 ] && tail -2 $T/d1.log"
rm -r $T
done

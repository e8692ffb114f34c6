#!/bin/bash
# build + stable tests on a patched scratch copy, and the property's check on /repo with the patch: seedtest.sh [-n] id...
NB=0; [ "$1" = -n ] && { NB=1; shift; }
for s in "$@"; do
 D=/verif/seeded/$s; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
 git -C /repo apply $D/patch.diff || { echo "$s: patch does not apply"; continue; }
 if [ $NB = 0 ]; then
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1; B=$?; bash /opt/vp/test.sh /tmp/st.json >/tmp/stl.log 2>&1
  T=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open('/tmp/st.json'))
ps=d.get('passed') or [k for k,v in d.items() if v in ('passed','pass',True)]
print('missing:', sorted(b-set(ps)) if ps else list(d)[:5])
P
)
 fi
 (cd /verif; timeout 600 python3 run.py $P >/tmp/chk.log 2>&1; R=$?; echo "$s $P build=$B tests=$T check-exit=$R $(grep -c VIOLATION /tmp/chk.log) $(grep -m1 VIOLATION /tmp/chk.log)")
 git -C /repo checkout -q -- .
done

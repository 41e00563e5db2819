#!/bin/bash
# tools/seed.sh ID [notest]: in a scratch copy of /repo, checks that seeded/ID builds, passes the stable tests, and that its demo tells.
id=$1; sc=/tmp/seedcopy; s=/tmp/seedvp
rm -rf /tmp/seedcopy /tmp/seedvp; mkdir -p $sc $s
cp -a /repo/. $sc/; rm -rf /tmp/seedcopy/_build; cp /opt/vp/* $s/; sed -i "s#/repo#$sc#g; s#/opt/vp#$s#g" $s/*.sh $s/*.py
D=/tmp/seeddemo; rm -rf /tmp/seeddemo; cp -a /verif/seeded/$id $D; rm -f $D/patch.diff $D/meta.json
cd $sc; git checkout -q -- .; git apply --check /verif/seeded/$id/patch.diff || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
bash $s/build.sh > /tmp/seed.log 2>&1 || { echo "$id BASE BUILD FAILS"; exit 1; }
timeout 300 bash $D/demo.sh > /tmp/seed.demo0 2>&1; r0=$?
git apply /verif/seeded/$id/patch.diff
bash $s/build.sh >> /tmp/seed.log 2>&1 || { echo "$id BUILD FAILS"; tail -20 /tmp/seed.log; exit 1; }
timeout 300 bash $D/demo.sh > /tmp/seed.demo1 2>&1; r1=$?
t=skipped
if [ "$2" != notest ]; then
  bash $s/test.sh /tmp/seed.json > /tmp/seed.tlog 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
st=b.get('stable') or b.get('passed') or b
st=st if isinstance(st,list) else list(st)
p=set(r['passed']); m=[x for x in st if x not in p]
print('ok' if not m else 'FAIL '+' '.join(m[:8]))
P
)
fi
echo "$id demo: base=$r0 patched=$r1 tests: $t"
rm -rf /tmp/seedcopy /tmp/seedvp /tmp/seeddemo
[ $r0 = 0 ] && [ $r1 != 0 ]

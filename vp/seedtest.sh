#!/bin/bash
# seedtest.sh ID [notest]  - development: confirm a planted bug (patch applies, builds, tests pass, demo fails, check result)
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.out 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
if bash /opt/vp/build.sh >/tmp/build.out 2>&1; then
  timeout 300 bash $d/demo.sh >/tmp/demo2.out 2>&1; b=$?
  t=skipped
  if [ "$2" != notest ]; then
    bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
base=b.get('passed') or b.get('stable') or b
p=set(map(str,r['passed'])); print(len([x for x in base if str(x) not in p]),'stable tests fail')")
  fi
  (cd /verif && ./check.sh $prop quick) >/tmp/check.out 2>&1; c=$?
  v=$(grep -m1 VIOLATION /tmp/check.out)
else b=BUILDFAIL; fi
git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id [$prop] demo clean=$a patched=$b tests: $t check=$c $v"

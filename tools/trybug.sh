#!/bin/bash
# tools/trybug.sh ID [check]: build with the bug, stable tests, demo on both, and the property's check (in /repo, undone afterwards)
id=$1; d=/verif/seeded/$id
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
( cd /repo && bash /opt/vp/build.sh >/tmp/b0.log 2>&1; bash $d/demo.sh >/tmp/d0.log 2>&1; echo "demo clean: $?" )
git -C /repo apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -- .' EXIT
cd /repo && bash /opt/vp/build.sh >/tmp/b1.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/b1.log; }
bash $d/demo.sh >/tmp/d1.log 2>&1; echo "demo bug: $? $(tail -1 /tmp/d1.log)"
if [ -z "$NOTEST" ]; then timeout 400 bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print('tests missing:', sorted(set(b['stable'])-set(o['passed'])))"; fi
c=$(python3 -c "
import json,sys;p=json.load(open('$d/meta.json'))['property']
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
  if c['property']==p: print(c['quick_cmd'])")
cd /verif && timeout 900 $c > /tmp/c1.log 2>&1; echo "check '$c': $? $(grep -c '^VIOLATION' /tmp/c1.log) violations; $(tail -1 /tmp/c1.log)"

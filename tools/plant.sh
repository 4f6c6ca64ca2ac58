#!/bin/bash
# plant.sh ID: checks the change currently in /repo's working tree as planted bug /verif/seeded/ID (demo.sh and meta.json already there)
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
if [ -z "$(git diff --stat)" ]; then git apply $d/patch.diff || exit 1; else git diff > $d/patch.diff; fi
pyx=$(git diff --name-only | grep pyx)
[ -n "$pyx" ] && bash /opt/vp/build.sh >/dev/null 2>&1
[ -z "$NOTEST" ] && bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1 && python3 -c "
import json
a=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('  tests missing:', [x for x in b['stable'] if x not in a['passed']])"
rm -rf /tmp/dm && mkdir /tmp/dm && cp $d/* /tmp/dm/ && rm -f /tmp/dm/*.diff /tmp/dm/meta.json
timeout 300 bash /tmp/dm/demo.sh > /tmp/demo_patched.log 2>&1; echo "  demo patched rc=$? ($(tail -1 /tmp/demo_patched.log | cut -c1-150))"
cd /verif; [ -n "$NOCHK" ] || { cd /verif; ./symx.sh check $prop > /tmp/chk.log 2>&1; echo "  check $prop rc=$? $(grep VIOLATION /tmp/chk.log | head -1) $(grep -B1 VIOLATION /tmp/chk.log | head -1 | cut -c1-150)"; }
cd /repo; git checkout -- .
[ -n "$pyx" ] && bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash /tmp/dm/demo.sh > /tmp/demo_clean.log 2>&1; echo "  demo clean rc=$? ($(tail -1 /tmp/demo_clean.log | cut -c1-150))"
git status --short | head -3

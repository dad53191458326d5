#!/bin/bash
# bug.sh ID [--nocheck] [script args...]: demo on the clean tree, apply, build, stable tests, demo, check, undo
ID=$1; shift
S=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$1" != "--checkonly" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $S/demo.sh) > /tmp/bug.demo0 2>&1; a=$?
git -C /repo apply $S/patch.diff || exit 2
bash /opt/vp/build.sh > /tmp/bug.build 2>&1 || { echo "NO BUILD"; tail -20 /tmp/bug.build; exit 1; }
bash /opt/vp/test.sh /tmp/bug.json > /dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); r=json.load(open("/tmp/bug.json"))
p=set(r.get("passed",[])); print("tests lost:", sorted(b-p)[:5], len(b-p))
P
(cd /repo && bash $S/demo.sh) > /tmp/bug.demo1 2>&1; b=$?
echo "$ID demo clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/bug.demo0; tail -2 /tmp/bug.demo1
else git -C /repo apply $S/patch.diff || exit 2; shift; fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CMD=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$P': print(c['quick_cmd'])")
[ -n "$CMD" ] || { echo "no check for $P"; exit 0; }
cd /verif && time (timeout 900 $CMD > /tmp/bug.check 2>&1; echo "$ID check $P exit $?"); tail -6 /tmp/bug.check | cut -c1-400

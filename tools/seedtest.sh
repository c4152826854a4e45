#!/bin/bash
# seedtest.sh ID [nocheck]: validates one planted bug in /repo and runs its property's check against it.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
(timeout 300 bash $S/demo.sh >/tmp/seed_demo0.txt 2>&1); d0=$?
git apply $S/patch.diff || { echo "$1: patch does not apply"; exit 2; }
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_build.txt 2>&1
T=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=json.load(open('/tmp/seed_t.json'))['passed']
print([x for x in b if x not in p] or 'ok')")
(timeout 300 bash $S/demo.sh >/tmp/seed_demo1.txt 2>&1); d1=$?
c=-; if [ "$2" != nocheck ]; then t0=$(date +%s); (cd /verif && timeout 900 python3 check.py $P >/tmp/seed_check.txt 2>&1); c="$? $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/seed_check.txt) $(( $(date +%s) - t0 ))s"; fi
git checkout -q -- .
echo "$1 [$P]: demo clean=$d0 patched=$d1 tests=$T check=$c"
bash /opt/vp/build.sh >/dev/null 2>&1

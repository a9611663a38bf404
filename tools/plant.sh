#!/bin/bash
# tools/plant.sh ID: takes the change made in /repo's working tree as the planted
# bug seeded/ID (demo.sh and meta.json are already there), confirms that it
# builds, passes the stable tests and that its demo tells it apart, and undoes it.
set -u
D=/verif/seeded/$1
cd /repo
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change in /repo"; exit 2; }
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.log 2>&1
python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/plant.json'))['passed'])
print('stable tests:', 'pass' if s<=p else 'FAIL %s' % sorted(s-p)[:5])
P
timeout 300 bash $D/demo.sh > /tmp/plant.bad 2>&1; bad=$?
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/plant.log 2>&1
timeout 300 bash $D/demo.sh > /tmp/plant.good 2>&1; good=$?
echo "$1: demo with the change: $bad (want nonzero), without: $good (want 0)"
tail -3 /tmp/plant.bad; echo --; tail -3 /tmp/plant.good

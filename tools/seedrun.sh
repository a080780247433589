#!/bin/bash
# usage: seedrun.sh ID [PID] -- run the quick check of a planted bug's property against it, in /repo
ID=$1
PID=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
cd /verif && python3 check.py $PID quick > /tmp/seedrun.$ID.log 2>&1
rc=$?
git -C /repo checkout -- .
git -C /verif checkout -q -- replays 2>/dev/null
echo "$ID $PID rc=$rc $(grep -m1 -E 'VIOLATION|ERROR' /tmp/seedrun.$ID.log) $(grep -m1 difference /tmp/seedrun.$ID.log | cut -c1-200)"

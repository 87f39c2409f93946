#!/bin/bash
# usage: seedcheck.sh ID...   run the check of the planted bug's property against it (applied to /repo, undone afterwards)
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID does not apply"; continue; }
bash /verif/check.sh $P quick > /tmp/sc.out 2>&1; RC=$?
git -C /repo checkout -- .
echo "$ID $P rc=$RC $(grep -c '^VIOLATION' /tmp/sc.out) $(grep -m1 -E 'key=' /tmp/sc.out | cut -c1-150) $(grep -o 'wall=.*' /tmp/sc.out)"
done

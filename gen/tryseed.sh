#!/bin/bash
# gen/tryseed.sh ID [tier]: run the property's check with the planted bug applied to /repo.
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
git -C /repo apply "$S/patch.diff" || exit 2
/verif/run.sh $P ${2:-quick} > /tmp/try.$1.log 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$1 $P rc=$r $(grep -c VIOLATION /tmp/try.$1.log) $(grep -m1 VIOLATION /tmp/try.$1.log | cut -c1-200)"

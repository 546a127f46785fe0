#!/bin/bash
# gen/fix.sh PROP "fix: subject" "what failed" : commit /repo's changes as one
# repair and record it.
set -e
git -C /repo commit -qam "$2"
h=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$h" "$3" <<'P'
import json,sys
p,h,w=sys.argv[1:]
open('/verif/known_findings.jsonl','a').write(json.dumps(dict(property=p,status="fixed",commit=h,what=w,record=f"fixed: property={p} {h} {w}"))+"\n")
P
git -C /repo log -1 --oneline

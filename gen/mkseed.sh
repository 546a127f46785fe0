#!/bin/bash
# gen/mkseed.sh ID PROP "needs" "what it breaks": turn the edits in /tmp/seedrepo
# (a copy of /repo) and /verif/seeded/ID/main.go into a confirmed planted bug.
set -eu
ID=$1 PROP=$2 S=/verif/seeded/$1
[ -f "$S/main.go" ] || { echo "no main.go"; exit 1; }
cp /verif/gen/seedtmpl/demo.sh "$S/demo.sh"; chmod +x "$S/demo.sh"
mkdir -p "$S/d"; cp /verif/gen/seedtmpl/d/d.go "$S/d/"
mkdir -p "$S/plc"; cp /verif/harness/plc/*.go "$S/plc/"
git -C /tmp/seedrepo diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "empty diff"; exit 1; }
git -C /repo apply --check "$S/patch.diff"
(cd /repo && bash "$S/demo.sh") || { echo "DEMO FAILS UNPATCHED"; exit 1; }
if (cd /tmp/seedrepo && bash "$S/demo.sh"); then echo "DEMO PASSES PATCHED"; exit 1; else r=$?; [ $r -lt 3 ] || [ $r -eq 124 ] || { echo "demo rc $r"; exit 1; }; fi
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
(cd /tmp/seedrepo && go vet . 2>&1 | grep -v '^#' | grep -i "declared and not\|syntax" || true; go test -json -vet=off . ./lgxtypes/... ./l5x/... > /tmp/seedtest.json 2>&1 || true; go test -json -vet=off -run TestDecodeL5X ./tests/... >> /tmp/seedtest.json 2>&1 || true)
python3 - "$ID" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
stable=base['stable'] if 'stable' in base else base
res={}
for l in open('/tmp/seedtest.json'):
    try: d=json.loads(l)
    except: print(l.strip()); continue
    if d.get('Test') and d['Action'] in('pass','fail'): res[d['Test']]=d['Action']
bad=[t for t,a in res.items() if a=='fail' and any(s.endswith(t) for s in stable)]
missing=[s for s in stable if not any(s.endswith(t) for t in res)]
print('tests',len(res),'failing stable',bad,'missing',missing[:5])
sys.exit(1 if bad else 0)
P
python3 - "$ID" "$PROP" "$3" "$4" <<'P'
import json,sys
id,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{id}/meta.json','w'),indent=1)
P
git -C /tmp/seedrepo checkout -q -- .
echo "SEED $ID ok"

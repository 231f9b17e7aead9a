#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy and runs its check.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; S=$V/seeded/$ID
. /opt/vp/env.sh
W=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
git checkout -q -- . 
if [ "$2" != checkonly ]; then
bash "$S/demo.sh" > "$W/d0.log" 2>&1 || { echo "$ID: demo FAILS on the unchanged tree"; tail -20 "$W/d0.log"; exit 1; }
fi
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
if [ "$2" != checkonly ]; then
go build ./... && GOOS=js GOARCH=wasm go build ./... || { echo "$ID: does not build"; exit 1; }
go test -json -vet=off -count=1 -timeout 5m ./... > "$W/t.json" 2>/dev/null
python3 - "$W/t.json" <<'P' || { echo "$ID: stable tests fail"; exit 1; }
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
bad=[s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if s not in ok]
print(*bad); sys.exit(bool(bad))
P
bash "$S/demo.sh" > "$W/d1.log" 2>&1 && { echo "$ID: demo PASSES with the patch"; exit 1; }
grep -q "build failed" "$W/d1.log" && { echo "$ID: demo does not build"; cat "$W/d1.log"; exit 1; }
echo "$ID: confirmed: $(grep -m1 -E 'demo_test.go:|panic:|DATA RACE' "$W/d1.log")"
fi
[ "$2" = nocheck ] && exit 0
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
python3 "$V/check.py" "$P" --repo "$W/repo" > "$W/c.log" 2>&1; rc=$?
echo "$ID: check $P rc=$rc: $(grep -m1 VIOLATION "$W/c.log")"
[ $rc = 1 ] || tail -5 "$W/c.log"
python3 - "$V/tools/seed_results.json" "$ID" "$P" "$rc" "$(grep -m1 VIOLATION "$W/c.log")" <<'R'
import json,sys,os,fcntl
f,i,p,rc,v=sys.argv[1:]
fd=open(f,'a+'); fcntl.flock(fd,2); fd.seek(0)
d=json.loads(fd.read() or '{}')
d[i]=p+' '+v.split('-%s-'%p)[-1].replace('.json','') if rc=='1' else 'missed'
fd.seek(0); fd.truncate(); fd.write(json.dumps(d,indent=1,sort_keys=True)+'\n')
R

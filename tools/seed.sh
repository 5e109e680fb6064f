#!/bin/bash
# seed.sh ID [SRC]: confirms a planted bug. With SRC (an edited copy of /repo)
# it first takes the patch from it. seeded/ID must hold demo_test.go and
# meta.json. Works in a scratch copy of /repo.
id=$1; s=/verif/seeded/$id
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ "$2" ] && git -C "$2" diff > "$s/patch.diff"
[ -f "$s/demo.sh" ] || { cp /verif/tools/demo.sh "$s/demo.sh"; chmod +x "$s/demo.sh"; }
w=$(mktemp -d /tmp/seedchk-XXXX); cp -a /repo/. "$w/"; cd "$w" || exit 1
git checkout -q -- .
ok=1
bash "$s/demo.sh" > "$w.clean" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -15 "$w.clean"; ok=; }
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; ok=; }
go build ./... && go vet . > /dev/null 2>&1
go build ./... || { echo "$id: does not build"; ok=; }
go test -json -vet=off -count=1 ./... > "$w.json" 2>&1
python3 /opt/vp/results.py "$w.res" "gojson:$w.json" > /dev/null
python3 - "$w.res" "$id" <<'PY' || ok=
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    if 'passed' in x: return set(x['passed'])
    return {k for k,v in x.get('results',x).items() if v in('pass','passed')}
bs=b.get('stable') or b.get('passed') or b.get('tests')
bs=set(bs)
m=bs-passed(r)
if m: print(sys.argv[2]+': tests fail:',len(m),sorted(m)[:5]); sys.exit(1)
PY
if timeout 300 bash "$s/demo.sh" > "$w.bug" 2>&1; then echo "$id: demo passes with the patch"; ok=; fi
grep -m2 -E "demo_test.go|panic:|fatal" "$w.bug" | cut -c1-200
[ "$ok" ] && echo "$id OK"
/bin/rm -rf "$w" "$w.clean" "$w.bug" "$w.json" "$w.res"

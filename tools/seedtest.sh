#!/bin/bash
# tools/seedtest.sh ID [check]: confirm a planted bug in a scratch copy of /repo: it applies, builds, passes the stable
# tests, its demo passes without and fails with it; with "check", also run the property's check against it.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1
W=$(mktemp -d /tmp/seed-$id-XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -r "$V/seeded/$id" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
. /opt/vp/env.sh 2>/dev/null
cd "$W/repo" || exit 2
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; [ $? = 0 ] || { echo "$id: demo FAILS on unchanged tree"; tail -20 "$W/d0"; exit 1; }
git apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r=$?; [ $r != 0 ] || { echo "$id: demo PASSES with the patch"; exit 1; }
echo "$id: demo rc=$r: $(grep -v '^#' "$W/d1" | head -3 | tr '\n' ' ' | cut -c1-200)"
if [ "$2" != notest ]; then
go test -json -vet=off -count=1 -timeout 10m ./... > "$W/log"
python3 /opt/vp/results.py "$W/res.json" "gojson:$W/log" >/dev/null
python3 - "$W/res.json" <<'P' || { echo "$id: stable tests fail"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return x[k]
    raise SystemExit('keys: %s'%list(x))
bp=set(names(b)); rp=set(names(r))
m=bp-rp
if m: print('failing:',sorted(m)[:5]); sys.exit(1)
P
fi
if [ "$2" ]; then
p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
cd "$V" && VF_REPO="$W/repo" VF_EVIDENCE_DIR="$W/ev" VF_REPLAY_DIR="$W/rp" VERIF_SEED=1 python3 tools/check.py $p quick | cut -c1-250 | tail -6
fi

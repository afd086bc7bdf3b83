#!/bin/bash
# plant.sh <seeded dir> [check id...]: development aid. Verifies a planted bug in a scratch copy of /repo (applies,
# builds, stable tests pass, demo 0 without and non-zero with it) and runs the named checks against that copy.
set -u
d=$(cd "$1" && pwd); shift
n=$(basename "$d")
W=$(mktemp -d /tmp/plant-$n.XXXX); trap 'chmod -R u+w "$W"; rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; R=$W/repo
. /opt/vp/env.sh; export GOCACHE=$W/gc TMPDIR=$W/tmp; mkdir -p "$W/tmp"
cp -r "$d" "$W/demo"; rm -f "$W"/demo/*.diff
cd "$R" || exit 1
go build ./... || { echo "$n: clean build fails"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/demo0.log" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$n: does not apply"; exit 1; }
go build ./... || { echo "$n: build fails"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/demo1.log" 2>&1; b=$?
tests=skipped
if [ -z "${NOTESTS:-}" ]; then
go test -json -vet=off -count=1 -timeout 10m ./... > "$W/gotest.json" 2>/dev/null
tests=$(python3 - "$W" <<'P'
import json,sys,subprocess
W=sys.argv[1]
subprocess.run(['python3','/opt/vp/results.py',W+'/o.json','gojson:'+W+'/gotest.json'],stdout=subprocess.DEVNULL)
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open(W+'/o.json'))
m=b-set(o['passed']); print('pass' if not m else 'FAIL %s'%sorted(m)[:5])
P
)
fi
echo "$n: demo clean=$a patched=$b tests=$tests"
[ "$a" = 0 ] || tail -20 "$W/demo0.log"
[ "$b" != 0 ] || tail -20 "$W/demo1.log"
for c in "$@"; do
	VERIF_REPO_DIR=$R VERIF_OUT=$W/out VERIF_SEED=1 bash /verif/check.sh "$c" quick > "$W/check.log" 2>&1; rc=$?
	echo "$n: $c rc=$rc $(grep -E '^--- ' "$W/check.log" | head -4 | tr '\n' ' ')"
	[ $rc = 2 ] && tail -20 "$W/check.log"
done

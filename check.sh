#!/bin/bash
# check.sh <property id> [quick|thorough]
# Builds the monitoring harness of one property from /repo's current working tree (through a go overlay; nothing is
# written in /repo), runs it in a scratch directory and relays its verdict.
#   exit 0: held on everything observed; exit 1: VIOLATION line printed; other: no answer (harness did not build/run)
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
seed=${VERIF_SEED:-1}
repo=${VERIF_REPO_DIR:-/repo} # only development runs against planted bugs set VERIF_REPO_DIR/VERIF_OUT
out=${VERIF_OUT:-$here}
lower=$(echo "$id" | tr 'A-Z' 'a-z')

export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOFLAGS GOROOT GOPATH GOWORK LENS_MONITOR_PORT
S=$(mktemp -d "${VERIF_TMP:-/tmp}/verif-$id.XXXXXX") || exit 2
cleanup() {
	case "$S" in */verif-C[0-9]*.*) chmod -R u+w -- "$S" 2>/dev/null; rm -rf -- "$S" ;; esac
}
trap cleanup EXIT
trap 'exit 2' INT TERM
mkdir -p "$S/tmp" "$S/gocache" "$S/gopath" "$S/gobin" "$out/evidence" "$out/replays"
export TMPDIR="$S/tmp"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOMODCACHE=/root/go/pkg/mod
export GOCACHE="$S/gocache" GOTELEMETRY=off GOSUMDB=off
export GOENV=off

# Which properties run under the race detector.
race=""
case "$id" in C03|C07|C11|C19) race="-race" ;; esac

# Overlay: this property's harness and the shared helpers go into package lens; the repository's own tests stay out.
python3 - "$repo" "$here/harness/lens" "$lower" > "$S/overlay.json" <<'PY'
import json, os, sys
repo, hdir, low = sys.argv[1:4]
rep = {}
lens = os.path.join(repo, 'lens')
for f in os.listdir(lens):
    if f.endswith('_test.go'):
        rep[os.path.join(lens, f)] = ''
for f in sorted(os.listdir(hdir)):
    if f.endswith('_test.go') and (f.startswith('common') or f.startswith(low + '_') or f.startswith('shared_' ) and low in f.split('.')[0].split('_')):
        rep[os.path.join(lens, 'zz_verif_' + f)] = os.path.join(hdir, f)
print(json.dumps({'Replace': rep}))
PY
if ! (cd "$repo" && go test -c $race -vet=off -overlay "$S/overlay.json" -o "$S/harness.test" ./lens) > "$S/build.log" 2>&1; then
	echo "harness for $id does not build:"; head -50 "$S/build.log"
	exit 2
fi
rm -f "$out/evidence/$id.json"
export VERIF_ID="$id" VERIF_TIER="$tier" VERIF_SEED="$seed" VERIF_SCRATCH="$S" VERIF_HOME="$here" VERIF_REPO="$repo"
export GORACE="halt_on_error=0 exitcode=66 log_path=$S/race.log"
export GOTRACEBACK=all
mkdir -p "$S/cwd"
cd "$S/cwd" || exit 2
timeout -s QUIT -k 10 "${VERIF_LIMIT:-$([ "$tier" = quick ] && echo 800 || echo 7000)}" \
	"$S/harness.test" -test.run '^TestVerif$' -test.timeout 0 > "$S/out.log" 2> "$S/err.log"
rc=$?
python3 "$here/verdict.py" "$id" "$tier" "$seed" "$rc" "$S" "$here" "$out" "$repo"
exit $?

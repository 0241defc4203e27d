#!/bin/bash
# refactor/run.sh MODES [CHECK...]: rewrites every package of a scratch copy of /repo's HEAD with the named
# behaviour-preserving edits, runs the stable tests and the checks against it; everything must stay quiet.
set -u
M=$1; shift
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_CFLAGS="-O1 -g -I/verif/cstub/a/b -I/verif/cstub/a"
T=$(mktemp -d /tmp/refac.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir $T/repo; git -C /repo archive HEAD | tar -x -C $T/repo
go build -o $T/refactor /verif/tools/refactor/refactor.go || exit 3
cd $T/repo
for d in $(find pkg -name '*.go' ! -name '*_test.go' -printf '%h\n' | sort -u); do $T/refactor $M $d > $T/o 2>&1 || { echo "$d failed"; tail -3 $T/o; git -C /repo archive HEAD $d | tar -x -C .; continue; }
  tail -1 $T/o; go build -o /dev/null ./$d 2>$T/e || { echo "$d does not build: $(sed -n 2,4p $T/e)"; [ -n "${KEEP:-}" ] || git -C /repo archive HEAD $d | tar -x -C .; }; done
go test ./pkg/dsp/... ./pkg/framework/... ./pkg/midi/... 2>&1 | grep -v -e '^ok' -e 'no test files' | grep -- '--- FAIL' | head -20
sed "s#=> /repo#=> $T/repo#" /verif/harness/go.mod > $T/m.mod; touch $T/m.sum
cd /verif
for C in ${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])")}; do
  MON_EVID=$T/ev MON_MODFILE=$T/m.mod VERIF_TIER=quick timeout 1200 ./run.sh $C > $T/q 2>&1; r=$?
  [ $r = 0 ] || { echo "$C exit $r"; grep -A3 -- '^---' $T/q | head -8; }; done
echo "refactor $M: done"

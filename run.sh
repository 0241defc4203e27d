#!/bin/bash
# run.sh <PROPERTY> : builds the workload from /repo's working tree and runs its monitors.
# Exit 0 held on everything explored; 1 violation; 2 the machinery itself failed.
ID="$1"
export PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOPATH="${GOPATH:-/root/go}" HOME="${HOME:-/root}"
V=$(cd "$(dirname "$0")" && pwd)
case "$ID" in *[!A-Z0-9]*|"") echo "usage: run.sh ID"; exit 2;; esac
AREA=$(printf '%s' "$ID" | cut -c1 | tr 'A-Z' 'a-z')
T=$(mktemp -d /tmp/vrun.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export MON_TMP="$T"
TAGS=""
[ -f $V/harness/cmd/$AREA/TAGS ] && TAGS="-tags $(cat $V/harness/cmd/$AREA/TAGS)"
[ -f $V/harness/cmd/$AREA/env.sh ] && . $V/harness/cmd/$AREA/env.sh
cd $V/harness || exit 2
build() { # out, extra flags...
  local o="$1"; shift
  if ! go build $TAGS ${MON_MODFILE:+-modfile=$MON_MODFILE} "$@" -o "$o" ./cmd/$AREA >"$T/build.log" 2>&1; then
    echo "build of the workload against /repo failed:"; tail -40 "$T/build.log"; exit 2
  fi
}
if [ -f cmd/$AREA/RACE ] && grep -qw "$ID" cmd/$AREA/RACE && [ -z "$MON_ONLY" ]; then
  ( build "$T/wrace" -race ) & RP=$!
  build "$T/w"
  wait $RP || exit 2
  export MON_RACEBIN="$T/wrace"
else
  build "$T/w"
fi
if [ -f cmd/$AREA/ASAN ] && grep -qw "$ID" cmd/$AREA/ASAN && [ -z "$MON_ONLY" ]; then
  ( export CGO_CFLAGS="$CGO_CFLAGS -fsanitize=undefined -fno-sanitize-recover=all" CGO_LDFLAGS="-fsanitize=undefined"; build "$T/wasan" -asan ) || exit 2
  export MON_ASANBIN="$T/wasan"
fi
cd $V
"$T/w" "$ID"
exit $?

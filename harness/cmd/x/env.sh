. $V/harness/cmd/h/env.sh
XR=${BR:-/repo}
export MON_EXDIR="$T/ex"; mkdir -p $T/ex
sed -e 's#^module .*#module github.com/justyntemme/vst3go#' $XR/go.mod > $T/x.mod
printf '\nrequire verif/harness v0.0.0\nreplace verif/harness => %s\n' "$V/harness" >> $T/x.mod
[ -f $XR/go.sum ] && cp $XR/go.sum $T/x.sum
xbuild() { # name as reported, example, extra flags, output
  printf 'package main\n\nimport "C"\n\nimport "verif/harness/hostx"\n\nfunc init() { hostx.Main("%s") }\n' "$1" > $T/ex/$1.go
  printf '{"Replace": {"%s/examples/%s/zz_verif_host.go": "%s/ex/%s.go"' "$XR" "$2" "$T" "$1" > $T/ex/$1.json
  if [ $1 != $2 ]; then
    for f in $(cd $T/ex/src/examples/$2 && ls *.go); do printf ', "%s/examples/%s/%s": "%s/ex/src/examples/%s/%s"' "$XR" "$2" $f "$T" "$2" $f >> $T/ex/$1.json; done
  fi
  printf '}}' >> $T/ex/$1.json
  ( cd $XR && go build -modfile=$T/x.mod -overlay $T/ex/$1.json $3 -o $T/ex/$4 ./examples/$2 ) > $T/ex/$4.log 2>&1 || { echo "example $1 does not build:"; tail -20 $T/ex/$4.log; return 1; }
}
# An example with recorded defects (findings/examples) also runs with them repaired, as NAME+, so that what they hide is seen.
# If the example itself has changed, the repair may no longer fit; then the example runs only as it is.
xrepair() {
  mkdir -p $T/ex/src/examples && cp -r $XR/examples/$1 $T/ex/src/examples/ && (cd $T/ex/src && GIT_DIR=/nonexistent git apply -p1 $V/findings/examples/$1.patch) > $T/ex/$1.fix 2>&1 && return 0
  echo "the repair of example $1 does not apply"; return 1
}
XE=$(cd $XR/examples && ls -d */ | tr -d /)
[ -n "$MON_ONLY" ] && XE=${MON_ONLY%%/*} && XE=${XE%+}
PIDS=""
for e in $XE; do
  l=$e
  if [ -f $V/findings/examples/$e.patch ] && xrepair $e; then l="$e $e+"; fi
  for n in $l; do
    ( xbuild $n $e "" $n.bin && { [ "$ID" != X02 ] || [ -n "$MON_ONLY" ] || [ "$n" = "$e" -a "$l" != "$e" ] || xbuild $n $e -race $n.race; } ) & PIDS="$PIDS $!"
  done
done
for p in $PIDS; do wait $p || exit 2; done

# log files the examples write stay in the scratch directory
export TMPDIR="$T"

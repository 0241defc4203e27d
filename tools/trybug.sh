#!/bin/bash
# trybug.sh SEEDED_ID [CHECK...]: apply a planted change to a scratch copy of /repo's HEAD, confirm that it builds,
# keeps the stable tests, that its demonstration tells the two trees apart, and run the named checks against it.
set -u
ID=$1; shift
S=/verif/seeded/$ID
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d /tmp/bug.XXXXXX); trap 'rm -rf "$T"' EXIT
git -C /repo archive HEAD | (mkdir -p $T/repo && tar -x -C $T/repo)
( cd /repo && bash $S/demo.sh >$T/clean.log 2>&1 ); echo "demo on the unchanged tree: $?"
( cd $T/repo && git init -q . && git apply $S/patch.diff ) || { echo "patch does not apply"; exit 1; }
( cd $T/repo && timeout 300 bash $S/demo.sh >$T/bug.log 2>&1 ); echo "demo on the changed tree: $? ($(tail -1 $T/bug.log | cut -c1-150))"
sed "s#=> /repo#=> $T/repo#" /verif/harness/go.mod > $T/m.mod; cp /verif/harness/go.sum $T/m.sum 2>/dev/null
( cd $T/repo && go test ./pkg/dsp/... ./pkg/framework/... ./pkg/midi -json 2>/dev/null | python3 -c "
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad=set()
for l in sys.stdin:
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='fail' and e.get('Test'): bad.add((e['Package'],e['Test']))
hit=[b for b in bad if any(b[1] in s and b[0].split('vst3go/')[-1] in s for s in st)]
print('stable tests failing:',hit)
")
for C in "$@"; do
  r=$(cd /verif && MON_EVID=$T/ev MON_MODFILE=$T/m.mod VERIF_TIER=quick timeout 900 ./run.sh $C 2>&1); echo "$C exit $? :: $(echo "$r" | grep -- '^---' | tr '\n' ';' | cut -c1-300)"
done

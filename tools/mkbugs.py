#!/usr/bin/env python3
"""Regenerates /verif/seeded/* from tools/bugs/*.py (each: B, a list of dicts
id, property, file edits [(path, old, new)], needs, breaks, demo (body of a Go main package)).
Usage: mkbugs.py [ID...]"""
import glob,json,os,subprocess,sys,tempfile,shutil,difflib
B=[]
for f in sorted(glob.glob('/verif/tools/bugs/*.py')):
    ns={}; exec(open(f).read(),ns); B+=ns['B']
only=sys.argv[1:]
assert len({b['id'] for b in B})==len(B)
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when the guarantee holds, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
cp "$D"/*.go "$T/" && cd "$T" || exit 3
printf 'module demo\\n\\ngo 1.24.3\\n\\nrequire github.com/justyntemme/vst3go v0.0.0\\n\\nreplace github.com/justyntemme/vst3go => %s\\n' "$R" > go.mod
timeout 250 go run EXTRA .
'''
for b in B:
    if only and b['id'] not in only: continue
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    patch=''
    files={}
    for path,old,new in b['edits']:
        src=files.setdefault(path,[open('/repo/'+path).read()]*2)
        cur=src[1]; n=cur.count(old)
        assert n==1,(b['id'],path,n,old)
        files[path]=[src[0],cur.replace(old,new)]
    for path,(a,c) in files.items():
        patch+=''.join(l if l.endswith('\n') else l+'\n\\ No newline at end of file\n' for l in difflib.unified_diff(a.splitlines(True),c.splitlines(True),'a/'+path,'b/'+path))
    open(d+'/patch.diff','w').write(patch)
    if 'demo_sh' in b: open(d+'/demo.sh','w').write(b['demo_sh'])
    else:
        open(d+'/demo.sh','w').write(DEMO.replace('EXTRA',b.get('flags','')).replace('run  .','run .'))
        open(d+'/main.go','w').write(b['demo'].lstrip('\n'))
    for n,t in b.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    json.dump(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
print(len(B))

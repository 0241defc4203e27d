#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md from tools/design/*.md, the property tables, known findings and seeded changes."""
import json,os,glob
V='/verif/'
rd=lambda n:open(V+'tools/design/'+n).read()
props=[json.loads(l) for l in open(V+'properties.jsonl')]
man={c['property']:c for c in json.load(open(V+'MANIFEST.json'))['checks']}
kf=json.load(open(V+'known_findings.json'))
o=rd('head.md').replace('{N}',str(len(props)))+'## 2. Properties: deciding monitor and bounds\n\n| | property | deciding monitor | bounds |\n|---|---|---|---|\n'
for p in props:
    c=man[p['id']]; o+='| %s | %s | %s | %s |\n'%(p['id'],p['title'],c['technique'],c['level_note'].replace('|','/'))
why='\nWhy this reaches what the tests cannot: each property\'s `why_tests_cant` in properties.jsonl says which inputs, histories\nor schedules the tests leave out; the workloads above generate exactly those.\n\n'
o+=why+rd('areas.md').replace('{FIXCOUNT}',str(len(kf['fixed'])))
o+='## 5. Seeded changes and what catches them\n\nEach keeps the stable tests passing; demo.sh tells the two trees apart.\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n'
catch=json.load(open(V+'tools/design/catch.json')) if os.path.exists(V+'tools/design/catch.json') else {}
for d in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    o+='| %s | %s | %s | %s |\n'%(n,catch.get(n,m['property']),m['needs'],m['what_it_breaks'])
o+='\n'+rd('tail.md')
open(V+'DESIGN.md','w').write(o)

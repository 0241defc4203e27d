#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props/*.py tables.
import json,glob,os,sys
V='/verif'
props=[]
for f in sorted(glob.glob(V+'/tools/props/*.py')):
    ns={}
    exec(open(f).read(),ns)
    props+=ns['P']
checks=[];na=[]
with open(V+'/properties.jsonl','w') as o:
    for p in props:
        q=dict(id=p['id'],title=p['title'],statement=' '.join(p['statement'].split()),
          quantifier=dict(over=p['over'],text=' '.join(p['q'].split())),
          why_tests_cant=' '.join(p['why'].split()),
          anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']]))
        if p.get('observe'): q['anchors']['observe_at']=p['observe']
        assert len(q['title'])<=80,q['title']
        o.write(json.dumps(q)+'\n')
        if p.get('na'):
            na.append(dict(property=p['id'],reason=p['na']));continue
        if not p.get('built'): 
            na.append(dict(property=p['id'],reason='check not built yet'));continue
        checks.append(dict(property=p['id'],quick_cmd='VERIF_TIER=quick ./run.sh '+p['id'],
          thorough_cmd='VERIF_TIER=thorough ./run.sh '+p['id'],evidence_file='evidence/%s.json'%p['id'],
          technique=p['tech'],level='exploration',level_note=' '.join(p['note'].split())))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(props),'properties',len(checks),'claimed',len(na),'not claimed')

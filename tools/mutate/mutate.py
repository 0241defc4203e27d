#!/usr/bin/env python3
"""Mutation run: samples mutants of /repo's Go files, keeps those that compile and pass the
package's stable tests, and runs the checks anchored in that directory against each.
mutate.py OUT.jsonl SEED COUNT WORKERS [PATH_PREFIX...]"""
import json,os,random,subprocess,sys,threading,queue,shutil,glob,time
out,seed,count,workers=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]); pref=sys.argv[5:] or ['pkg/']
env=dict(os.environ,PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOSUMDB='off')
W='/tmp/mut.%d'%os.getpid(); os.makedirs(W)
subprocess.check_call(['go','build','-o',W+'/mutgen','/verif/tools/mutate/mutgen.go'],env=env)
files=[f for f in subprocess.check_output(['git','-C','/repo','ls-files','*.go'],text=True).split() if not f.endswith('_test.go') and any(f.startswith(p) for p in pref)]
muts=[]
for f in files:
    for l in subprocess.run([W+'/mutgen','/repo/'+f],capture_output=True,text=True).stdout.splitlines():
        m=json.loads(l); m['file']=f; muts.append(m)
random.Random(seed).shuffle(muts)
print(len(muts),'mutants in',len(files),'files',flush=True)
if os.environ.get('MUTONLY'):
    want={(m['file'],m['src'].strip(),m['kind'],m['new']) for m in map(json.loads,open(os.environ['MUTONLY'])) if m['r'] in('SURVIVED','timeout')}
    lines={f:open('/repo/'+f).read().split('\n') for f in files}
    muts=[m for m in muts if any(w[0]==m['file'] and w[2]==m['kind'] and w[3]==m['new'] and w[1]==lines[m['file']][m['line']-1].strip()[:len(w[1])] for w in want)]
    print(len(muts),'selected',flush=True)
done=set()
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); done.add((m['file'],m['off'],m['new']))
muts=[m for m in muts if (m['file'],m['off'],m['new']) not in done][:count]
bydir={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    for f in p['anchors']['files']:
        bydir.setdefault(f,[]).append(p['id'])
        bydir.setdefault(os.path.dirname(f)+'/',[]).append(p['id'])
        if f.endswith('/'): bydir.setdefault(f,[]).append(p['id'])
def checks(f):
    d=os.path.dirname(f)+'/'
    ids=[]
    for k in (f,d):
        for i in bydir.get(k,[]):
            if i not in ids: ids.append(i)
    if f.startswith('pkg/dsp/'):
        for i in ['C01','C02','C03','C04','C05']:
            if i not in ids: ids.append(i)
    if not ids:
        ids=[]
    return ids
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
q=queue.Queue()
for m in muts: q.put(m)
lock=threading.Lock()
fo=open(out,'a')
def work(k):
    R='%s/w%d'%(W,k)
    os.makedirs(R+'/repo'); os.makedirs(R+'/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s/repo'%R,shell=True)
    s=open(''+os.environ.get('MUTV','/verif')+'/harness/go.mod').read().replace('=> /repo','=> %s/repo'%R); open(R+'/m.mod','w').write(s); open(R+'/m.sum','w').write('')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=R+'/repo/'+m['file']; src=open(p,'rb').read()
        new=src[:m['off']]+m['new'].encode()+src[m['off']+m['len']:]
        open(p,'wb').write(new)
        try:
            d='./'+os.path.dirname(m['file'])
            t0=time.time()
            cg=m['file'].startswith(('pkg/plugin','pkg/vst3','pkg/bridge'))
            if not cg:
                tags=['-tags','debug'] if m['file'].startswith('pkg/dsp/debug') else []
                if subprocess.run(['go','build']+tags+[d],cwd=R+'/repo',env=env,capture_output=True).returncode: m['r']='nobuild'; continue
                try: t=subprocess.run(['go','test','-json','-vet=off','-timeout','60s']+tags+(['./pkg/dsp/debug'] if tags else ['./pkg/dsp/...','./pkg/framework/...','./pkg/midi']),cwd=R+'/repo',env=env,capture_output=True,text=True,timeout=200).stdout
                except subprocess.TimeoutExpired: m['r']='tests'; continue
                ok=set()
                for l in t.splitlines():
                    try: e=json.loads(l)
                    except: continue
                    if e.get('Action')=='pass' and e.get('Test'): ok.add('%s/%s'%(e['Package'],e['Test']))
                bad=any(x not in ok for x in stable if ('/pkg/dsp/debug/' in x)==bool(tags) and any(x.startswith('github.com/justyntemme/vst3go/'+y) for y in ('pkg/dsp/','pkg/framework/','pkg/midi/')))
                if bad: m['r']='tests'; continue
            m['r']='SURVIVED'; m['ran']=[]
            for c in checks(m['file']):
                e=dict(env,MON_MODFILE=R+'/m.mod',VERIF_TIER='quick',VERIF_SEED='1',MON_EVID=R+'/tmp')
                try:
                    x=subprocess.run([os.environ.get('MUTV','/verif')+'/run.sh',c],env=e,capture_output=True,text=True,timeout=300)
                    rc,o=x.returncode,x.stdout
                except subprocess.TimeoutExpired: rc,o=9,'timeout'
                m['ran'].append(c)
                if rc==1:
                    m['r']='killed'; m['by']=c; m['sig']=[l for l in o.splitlines() if l.startswith('---')][:2]; break
                if rc==2:
                    m['r']='nobuild'; m['o']=o[-200:]; break
                if rc==9: m['r']='timeout'; m['by']=c; break
            m['t']=round(time.time()-t0,1)
        finally:
            open(p,'wb').write(src)
            m['src']=src.splitlines()[m['line']-1].decode().strip()
            with lock: fo.write(json.dumps(m)+'\n'); fo.flush()
ts=[threading.Thread(target=work,args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(W)
import collections
print(collections.Counter(json.loads(l)['r'] for l in open(out)))

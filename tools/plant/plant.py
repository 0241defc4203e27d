#!/usr/bin/env python3
"""Blind planting run. plant.py FILE.py WORKERS [NAME...]: FILE.py defines B = [(name, checks, [(path, old, new), ...]), ...].
Each change is applied to a scratch copy of /repo's HEAD, built, run through the stable tests of
the packages it touches and the named checks, and one line says what caught it."""
import json,os,subprocess,sys,threading,queue,shutil
mod={}; exec(open(sys.argv[1]).read(),mod); B=mod['B']; nw=int(sys.argv[2]); only=sys.argv[3:]
V=os.environ.get('MUTV','/verif')
env=dict(os.environ,PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOSUMDB='off',CGO_CFLAGS='-O1 -g -I/verif/cstub/a/b -I/verif/cstub/a')
W='/tmp/plant.%d'%os.getpid(); os.makedirs(W)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
q=queue.Queue(); lock=threading.Lock(); res={}
for b in B:
    if not only or b[0] in only: q.put(b)
def one(R,b,k):
    name,checks,edits=b
    for p,old,new in edits:
        f=R+'/repo/'+p; s=open(f).read()
        if s.count(old)<1: return 'EDIT-NOT-FOUND '+p
        open(f,'w').write(s.replace(old,new,1))
    try:
        pk=sorted({'./'+('pkg/bridge' if p.startswith('bridge') else os.path.dirname(p)) for p,_,_ in edits})
        x=subprocess.run(['go','build']+pk,cwd=R+'/repo',env=env,capture_output=True,text=True)
        if x.returncode: return 'NOBUILD '+x.stderr[-300:]
        x=subprocess.run(['go','test','-json','./pkg/dsp/...','./pkg/framework/...','./pkg/midi/...'],cwd=R+'/repo',env=env,capture_output=True,text=True)
        bad=[]
        for l in x.stdout.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='fail' and e.get('Test'):
                pkg=e['Package'].split('vst3go/')[-1]
                if any(e['Test'] in s and pkg in s for s in stable): bad.append(e['Test'])
        out=[]
        for c in checks.split():
            try:
                x=subprocess.run(['./run.sh',c],cwd=V,env=dict(os.environ,MON_MODFILE=R+'/m.mod',MON_EVID=R+'/ev',VERIF_TIER='quick',VERIF_SEED='1',TMPDIR=R+'/tmp'),capture_output=True,text=True,timeout=1200)
                kinds=[l[3:].strip()[:60] for l in x.stdout.splitlines() if l.startswith('---')]
                out.append('%s:%s'%(c,'caught['+kinds[0]+']' if x.returncode==1 and kinds else ('exit%d '%x.returncode+(x.stderr[-200:] if x.returncode not in(0,1) else '')) if x.returncode else 'MISSED'))
            except subprocess.TimeoutExpired: out.append(c+':timeout')
        return ('TESTS-FAIL %s '%bad[:2] if bad else '')+' '.join(out)
    finally:
        for p,_,_ in edits: shutil.copy('/repo/'+p,R+'/repo/'+p)
def work(k):
    R='%s/w%d'%(W,k); os.makedirs(R+'/repo'); os.makedirs(R+'/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s/repo'%R,shell=True)
    open(R+'/m.mod','w').write(open(V+'/harness/go.mod').read().replace('=> /repo','=> %s/repo'%R)); open(R+'/m.sum','w').write('')
    while True:
        try: b=q.get_nowait()
        except queue.Empty: return
        try: r=one(R,b,k)
        except Exception as e: r='ERR %r'%e
        with lock: print(('** ' if 'caught' not in r else '   ')+b[0],'|',r,flush=True)
T=[threading.Thread(target=work,args=(k,)) for k in range(nw)]
[t.start() for t in T]; [t.join() for t in T]
shutil.rmtree(W)

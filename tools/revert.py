import json,os,subprocess,sys,threading,queue,shutil
k=json.load(open('/verif/known_findings.json'))['fixed']
V='/verif'; W='/tmp/rev.%d'%os.getpid(); os.makedirs(W)
q=queue.Queue(); lock=threading.Lock()
for x in k:
    _,p,c,*t=x.split(' ',3); q.put((p.split('=')[1],c,t[0]))
def work(n):
    R='%s/w%d'%(W,n); os.makedirs(R+'/tmp')
    subprocess.check_call(['git','clone','-q','/repo',R+'/repo'])
    open(R+'/m.mod','w').write(open(V+'/harness/go.mod').read().replace('=> /repo','=> %s/repo'%R)); open(R+'/m.sum','w').write('')
    while True:
        try: p,c,t=q.get_nowait()
        except queue.Empty: return
        g=lambda *a:subprocess.run(['git','-C',R+'/repo','-c','user.name=x','-c','user.email=x@x']+list(a),capture_output=True,text=True)
        g('reset','-q','--hard','origin/HEAD')
        x=g('revert','--no-commit',c)
        if x.returncode: r='CONFLICT'; g('revert','--abort')
        else:
            x=subprocess.run(['./run.sh',p],cwd=V,env=dict(os.environ,MON_MODFILE=R+'/m.mod',MON_EVID=R+'/ev',VERIF_TIER='quick',VERIF_SEED='1',TMPDIR=R+'/tmp'),capture_output=True,text=True,timeout=1500)
            kinds=[l[3:].strip()[:70] for l in x.stdout.splitlines() if l.startswith('---')]
            r=('caught '+str(kinds[:1])) if x.returncode==1 else 'exit %d %s'%(x.returncode,x.stderr[-200:])
        with lock: print('   ' if r.startswith('caught') else '** ',p,c,t,'|',r,flush=True)
T=[threading.Thread(target=work,args=(i,)) for i in range(4)]
[t.start() for t in T];[t.join() for t in T]; shutil.rmtree(W); print('done')

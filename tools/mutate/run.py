"""Runs the checks against systematic mutants of /repo (see mutate.go), without touching /repo: the mutated file
goes in through a build overlay. Mutants that the existing tests notice are left out.
usage: run.py MUTANTS.jsonl RESULTS.jsonl [workers] [scale]   (development tool; resumes)"""
import json,os,subprocess,sys,tempfile,shutil,threading,queue,collections
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; workers=int(sys.argv[3]) if len(sys.argv)>3 else 4; scale=sys.argv[4] if len(sys.argv)>4 else '5'
root=os.path.abspath(os.path.dirname(os.path.abspath(__file__))+'/../..')
race=set(open(root+'/race_checks.txt').read().split())
RT='C01 C06 C02 C07 C04 C05 C03 C09 C08'
MAP={'router/path':RT,'router/router.go':'C33 C01 C06 C14 C08 C05 C07','gofre.go':'C33 C10 C11 C24 C30 C01 C14 C15 C32','auth/auth.go':'C19 C20 C22 C21','auth/oauth':'C25 C24','cache':'C26 C23','errors':'C13',
'middleware/cors.go':'C27','middleware/csrf.go':'C23','middleware/security.go':'C28','middleware/dump.go':'C29','middleware/compress.go':'C17 C14','middleware/authz.go':'C21','middleware/auth.go':'C21','middleware/errors.go':'C13','middleware/panic.go':'C12',
'response/compress.go':'C17 C14 C31','response/sse.go':'C18','response/adaptor.go':'C31 C15 C17','response/hijack.go':'C28 C15 C31','response':'C15 C14 C16 C29 C28 C17 C18','handler':'C31 C15'}
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
work=tempfile.mkdtemp(prefix='mutrun'); shutil.copytree(root+'/harness',work+'/harness')
p=work+'/harness/core/core.go'; s=open(p).read()
s=s.replace('	if r.Tier == "thorough" {\n		return thorough\n	}\n	return quick\n','	n := quick\n	if quick > 40 {\n		n = quick/%s + 1\n	}\n	return n\n'%scale); open(p,'w').write(s)
done=set()
if os.path.exists(out): done={(d['file'],d['start'],d['end'],d['op'],d['text']) for d in map(json.loads,open(out))}
q=queue.Queue()
for m in muts:
    if (m['file'],m['start'],m['end'],m['op'],m['text']) not in done: q.put(m)
lock=threading.Lock(); tally=collections.Counter()
def run(cmd,t,cwd,e=env):
    try:
        r=subprocess.run(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return r.returncode,r.stdout.decode('latin1')
    except subprocess.TimeoutExpired: return 124,''
def one(m,d):
    src=open('/repo/'+m['file'],'rb').read()
    new=src[:m['start']]+m['text'].encode()+src[m['end']:]
    f=d+'/m.go'; open(f,'wb').write(new)
    ov=d+'/ov.json'; json.dump({'Replace':{'/repo/'+m['file']:f}},open(ov,'w'))
    rc,o=run(['go','build','-overlay',ov,'./...'],300,'/repo')
    if rc: return 'no build',''
    pk=[x for x in subprocess.run(['go','list','./...'],cwd='/repo',env=env,stdout=subprocess.PIPE).stdout.decode().split() if not x.endswith('/gofre/response') and '/examples' not in x]
    rc,o=run(['timeout','60','go','test','-overlay',ov,'-vet=off']+pk,90,'/repo')
    if rc: return 'tests',''
    key=max((k for k in MAP if m['file'].startswith(k)),key=len)
    for b in ('norace','race'):
        pass
    built={}
    odd=''
    for c in MAP[key].split():
        b='r' if c in race else 'n'
        if b not in built:
            shutil.copy(work+'/harness/go.mod',d+'/go.mod'); shutil.copy(work+'/harness/go.sum',d+'/go.sum')
            rc,o=run(['go','build']+(['-race'] if b=='r' else [])+['-overlay',ov,'-modfile',d+'/go.mod','-o',d+'/vh'+b,'./cmd/vh'],300,work+'/harness')
            if rc: return 'harness build',o[-300:]
            built[b]=1
        os.makedirs(d+'/v/evidence',exist_ok=True); shutil.copy(root+'/known_findings.txt',d+'/v/')
        rc,o=run([d+'/vh'+b,c],400,d,dict(env,VERIF_DIR=d+'/v',VERIF_SEED='1',VERIF_TIER='quick'))
        if rc==1: return 'caught',c+' '+o[:300]
        if rc not in (0,3): odd+=f' {c}:{rc} {o[-200:]}'
        if rc==3 and 'too little was observed' not in o: odd+=f' {c}:3 {o[:300]}'
    return 'SURVIVED',odd
def worker():
    d=tempfile.mkdtemp(prefix='mutw',dir=work)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        try: st,info=one(m,d)
        except Exception as e: st,info='error',repr(e)
        with lock:
            tally[st]+=1
            m=dict(m,status=st,info=info); open(out,'a').write(json.dumps(m)+'\n')
ts=[threading.Thread(target=worker) for _ in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(work); print(tally)

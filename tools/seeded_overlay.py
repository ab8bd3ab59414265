"""Runs the check of each planted bug against it without touching /repo: the patched files go in through a build
overlay. usage: seeded_overlay.py [ids]   (development tool; SEED=1 WORKERS=2)"""
import json,os,subprocess,sys,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
race=set(open(root+'/race_checks.txt').read().split())
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
ids=sys.argv[1:] or sorted(os.listdir(root+'/seeded'))
work=tempfile.mkdtemp(prefix='seedov'); shutil.copytree(root+'/harness',work+'/harness')
def one(i):
    d=tempfile.mkdtemp(prefix='s',dir=work); p=root+'/seeded/'+i+'/patch.diff'
    c=json.load(open(root+'/seeded/'+i+'/meta.json'))['property']
    os.mkdir(d+'/t')
    files=[l.split(' b/')[1].strip() for l in open(p) if l.startswith('diff --git')]
    rep={}
    for f in files:
        os.makedirs(os.path.dirname(d+'/t/'+f),exist_ok=True)
        if os.path.exists('/repo/'+f): shutil.copy('/repo/'+f,d+'/t/'+f)
        rep['/repo/'+f]=d+'/t/'+f
    r=subprocess.run(['git','apply','--unsafe-paths','--directory='+d+'/t',p],cwd='/',stderr=subprocess.PIPE)
    if r.returncode:
        r=subprocess.run(['patch','-s','-p1','-d',d+'/t','-i',p],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode: return i,c,'PATCH '+r.stdout.decode()
    ov=d+'/ov.json'; json.dump({'Replace':rep},open(ov,'w'))
    shutil.copy(work+'/harness/go.mod',d+'/go.mod'); shutil.copy(work+'/harness/go.sum',d+'/go.sum')
    b=subprocess.run(['go','build']+(['-race'] if c in race else [])+['-overlay',ov,'-modfile',d+'/go.mod','-o',d+'/vh','./cmd/vh'],cwd=work+'/harness',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    if b.returncode: return i,c,'BUILD '+b.stdout.decode()[:400]
    e2={}
    if c not in race:
        subprocess.run(['go','build','-race','-overlay',ov,'-modfile',d+'/go.mod','-o',d+'/vhr','./cmd/vh'],cwd=work+'/harness',env=env)
        e2={'VH_RACE_BIN':d+'/vhr'}
    os.makedirs(d+'/v/evidence'); shutil.copy(root+'/known_findings.txt',d+'/v/')
    try:
        r=subprocess.run([d+'/vh',c],cwd=d,env=dict(env,**e2,VERIF_DIR=d+'/v',VERIF_SEED=os.environ.get('SEED','1'),VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=880)
        o=r.stdout.decode('latin1')
        return i,c,('caught ' if r.returncode==1 and 'VIOLATION property='+c in o else 'MISSED rc=%d '%r.returncode)+next((l[:200] for l in o.splitlines() if 'VIOLATION' in l),o[-200:])
    except subprocess.TimeoutExpired: return i,c,'MISSED timeout'
    finally: shutil.rmtree(d,ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get('WORKERS','2'))) as ex:
    for r in ex.map(one,ids): print(*r,flush=True)
shutil.rmtree(work)

"""Runs checks against a scratch copy of /repo without touching /repo: its changed and new .go files go in through a
build overlay. For edits that keep the behaviour, every check has to stay quiet.
usage: tree.py DIR [ids]   (development tool; SEED=1 WORKERS=2)"""
import filecmp,glob,json,os,shutil,subprocess,sys,tempfile
from concurrent.futures import ThreadPoolExecutor
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
race=set(open(root+'/race_checks.txt').read().split())
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',GOWORK='off')
tree=os.path.abspath(sys.argv[1])
ids=sys.argv[2:] or [json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
work=tempfile.mkdtemp(prefix='tree'); shutil.copytree(root+'/harness',work+'/harness')
rep={}
for f in glob.glob(tree+'/**/*.go',recursive=True):
    if f.endswith('_test.go'): continue
    q='/repo/'+os.path.relpath(f,tree)
    if not os.path.exists(q) or not filecmp.cmp(f,q,False): rep[q]=f
print('changed:',*sorted(os.path.relpath(x,'/repo') for x in rep))
json.dump({'Replace':rep},open(work+'/ov.json','w'))
for name,fl in (('vh',[]),('vhr',['-race'])):
    shutil.copy(work+'/harness/go.mod',work+'/go.mod'); shutil.copy(work+'/harness/go.sum',work+'/go.sum')
    subprocess.run(['go','build']+fl+['-overlay',work+'/ov.json','-modfile',work+'/go.mod','-o',work+'/'+name,'./cmd/vh'],cwd=work+'/harness',env=env,check=True)
def one(c):
    d=tempfile.mkdtemp(prefix='t',dir=work); os.makedirs(d+'/v/evidence'); shutil.copy(root+'/known_findings.txt',d+'/v/')
    e2={} if c in race else {'VH_RACE_BIN':work+'/vhr'}
    try:
        r=subprocess.run([work+('/vhr' if c in race else '/vh'),c],cwd=d,env=dict(env,**e2,VERIF_DIR=d+'/v',VERIF_SEED=os.environ.get('SEED','1'),VERIF_TIER='quick'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=880)
        o=r.stdout.decode('latin1'); t=''
        if r.returncode:
            t='\n'+'\n'.join(o.splitlines()[:6])[:1200]
            for g in glob.glob(d+'/v/evidence/replay/*'): shutil.copy(g,'/tmp/')
        return c,r.returncode,o[-120:].strip()+t
    except subprocess.TimeoutExpired: return c,'timeout',''
with ThreadPoolExecutor(int(os.environ.get('WORKERS','2'))) as ex:
    for r in ex.map(one,ids): print(*r,flush=True)
shutil.rmtree(work)

"""Stage 1: run the stable tests on each mutant, keep survivors."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
NW=8
muts=json.load(open('/tmp/mut/mutants.json'))
base=set(json.load(open('/tmp/mut/base.json')))
only=sys.argv[1:]
if only: muts=[m for m in muts if any(o in m['file'] for o in only)]
q=Queue()
for k in range(NW):
    d=f'/tmp/mut/w{k}'
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    subprocess.run(['chown','-R','65534:65534',d])
    q.put(d)
done={}
RES='/tmp/mut/stage1.jsonl'
if os.path.exists(RES):
    for l in open(RES):
        r=json.loads(l); done[r['n']]=r
out=open(RES,'a')
def run(m):
    if m['n'] in done: return
    d=q.get()
    p=os.path.join(d,m['file'])
    src=open('/repo/'+m['file'],'rb').read()
    try:
        open(p,'wb').write(src[:m['s']]+m['new'].encode()+src[m['e']:])
        env=dict(os.environ,PYTHONPATH=f'/opt/vp/plugins:{d}/src',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',LANG='C.UTF-8',LC_ALL='C.UTF-8',PATH='/opt/venv/bin:'+os.environ['PATH'],HOME=d,TMPDIR=d+'/tmpd',PYTHONNOUSERSITE='1')
        os.makedirs(d+'/tmpd',exist_ok=True); os.chmod(d+'/tmpd',0o777)
        x=f'{d}/junit.xml'
        if os.path.exists(x): os.remove(x)
        try:
            r=subprocess.run(['setpriv','--reuid=65534','--regid=65534','--clear-groups','timeout','-k','5','60','/opt/venv/bin/python','-m','pytest','-q','-x','--maxfail=1','-p','no:cacheprovider','-p','vp_seed','--timeout=10','-o','junit_family=xunit2',f'--junitxml={x}','tests'],cwd=d,env=env,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            subprocess.run(['/usr/bin/python3','/opt/vp/results.py',f'{d}/o.json',f'junit:{x}'],capture_output=True)
            o=json.load(open(f'{d}/o.json'))
            os.remove(f'{d}/o.json')
            miss=base-set(o['passed'])
        except Exception as e:
            miss={'err'}
        res=dict(n=m['n'],killed=bool(miss))
        out.write(json.dumps(res)+'\n'); out.flush()
    finally:
        open(p,'wb').write(src)
        q.put(d)
with ThreadPoolExecutor(NW) as ex:
    list(ex.map(run,muts))

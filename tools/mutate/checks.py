"""Stage 2: run checks on each survivor; stop at the first violation."""
import json, os, shutil, subprocess, sys, random
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
NW=8
DIV=int(os.environ.get('DIV','8'))
LISTS={
 'mdpo/po2md/__init__':'T01 T05 T03 T02 T06 T07 T04 T08 X02 X01 W05 W01 W03 W06 W07',
 'mdpo/md2po/__init__':'E01 E02 E04 E05 E06 E07 E08 E09 E10 E03 M01 M02 M03 M04 M05 T04 X01 X02 W05 W03 W06 W07 W01',
 'mdpo2html/__init__':'H01 H02 H03 W05 W03 W06 W07 T08',
 'md2po2md/__init__':'W01 W02 W03 W04 W05 W06 W07',
 '__main__':'W05 W03 W04 W06 W07 W02 W01 X03 X04',
 'cli.py':'W05 X04 X03 W03 W04 W06 W07 W02 W01',
 'md.py':'E02 T01 T03 T02 E10 E01 T04 T06 T07 E06 H02 X02 W05',
 'po.py':'M02 M01 M03 W04 T08 M05 W05 E09 T01',
 'event.py':'X01 W07 W05 W06',
 'polib.py':'M01 M02 M03 M05 M04 E05 E09 T01 W04',
 'text.py':'X04 E01 E06 T06 T03 T01 T02 T07 E02 E10 W05 X03 M05',
 'io.py':'X04 W03 T08 E08 W06 W07 W05 W02',
 'command.py':'X03 E04 E05 T05 H03 W05',
 'md4c.py':'E01 E02 T01 T02 W05 X02',
 '/mdpo/__init__':'W05 W07',
}
def lst(f):
    for k,v in LISTS.items():
        if k in f: return v.split()
    raise KeyError(f)
muts={m['n']:m for m in json.load(open('/tmp/mut/mutants.json'))}
alive=[muts[r['n']] for r in map(json.loads,open('/tmp/mut/stage1.jsonl')) if not r['killed']]
only=[a for a in sys.argv[1:] if not a.startswith('#')]
if only: alive=[m for m in alive if any(o in m['file'] for o in only)]
ids={int(a[1:]) for a in sys.argv[1:] if a.startswith('#')}
if ids: alive=[muts[i] for i in ids]
if not ids:
    alive=[m for m in alive if not (m['kind'] in ('str','dropkw') and ('__main__' in m['file'] or 'cli.py' in m['file'])) and "__name__ == '__main__'" not in m['old']]
random.Random(1).shuffle(alive)
print(len(alive),flush=True)
q=Queue()
for k in range(NW):
    d=f'/tmp/mut/c{k}'
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d+'/tmpd')
    shutil.copytree('/tmp/mut/base/src',d+'/src',ignore=shutil.ignore_patterns('__pycache__'))
    shutil.copytree('/verif',d+'/verif',ignore=shutil.ignore_patterns('.git','seeded','__pycache__'))
    for root,_,fs in os.walk(d+'/verif'):
        for f in fs:
            if f.endswith('.py'):
                p=os.path.join(root,f); s=open(p).read()
                t=s.replace('/repo/src',d+'/src').replace('budget=20.0','budget=0.5')
                if t!=s: open(p,'w').write(t)
    subprocess.run(['chown','-R','65534:65534',d])
    q.put(d)
sys.path.insert(0,'/verif/lib');sys.path.insert(0,'/verif/checks')
import importlib
MODULES={'E':'extraction','M':'catalog','T':'translation','H':'htmlout','W':'programs','X':'surface'}
QN={}
def qn(p):
    if p not in QN:
        QN[p]=importlib.import_module(MODULES[p[0]]).CHECKS[p]().quick_n
    return QN[p]
for p in 'E M T H W X'.split(): importlib.import_module(MODULES[p])
RES=os.environ.get('RES','/tmp/mut/stage2.jsonl')
done=set()
if os.path.exists(RES):
    done={json.loads(l)['n'] for l in open(RES)}
out=open(RES,'a')
def run(m):
    if m['n'] in done: return
    d=q.get()
    p=os.path.join(d,m['file'])
    src=open('/tmp/mut/base/'+m['file'],'rb').read()
    try:
        open(p,'wb').write(src[:m['s']]+m['new'].encode()+src[m['e']:])
        env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',LANG='C.UTF-8',HOME=d,TMPDIR=d+'/tmpd')
        caught=None; rcs={}
        for c in lst(m['file']):
            try:
                r=subprocess.run(['setpriv','--reuid=65534','--regid=65534','--clear-groups','timeout','-k','5','300','/opt/venv/bin/python','check.py',c,'--tier','quick','--workers','1','--n',str(max(40,qn(c)//DIV))],cwd=d+'/verif',env=env,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace')
            except Exception as e:
                rcs[c]=repr(e); continue
            if r.returncode==1 and 'VIOLATION' in r.stdout:
                caught=c; break
            if r.returncode!=0 and 'monitor counter' not in r.stdout:
                rcs[c]=[r.returncode,r.stdout[-300:]]
            subprocess.run(f'rm -rf {d}/tmpd/* {d}/verif/replays/*',shell=True)
        out.write(json.dumps(dict(n=m['n'],caught=caught,rcs=rcs))+'\n'); out.flush()
    finally:
        open(p,'wb').write(src); subprocess.run(['chown','65534:65534',p])
        q.put(d)
with ThreadPoolExecutor(NW) as ex:
    list(ex.map(run,alive))

#!/usr/bin/env python3
"""Mutation testing of the checks: run.py N SEED OUT [WORKERS] [FILEPATTERN].
The environment may name functions (FUNC, a pattern) and the checks to run (PROPS).
Takes N random mutants of /repo that build and pass the stable tests, runs the checks that encode the function changed
(quick tier) in a mount namespace with copies of /repo, /verif and /opt/vp, and writes what no check reports to OUT."""
import sys,os,json,random,subprocess,shutil,re,glob,threading,queue,tempfile,time
N,SEED,OUT=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3]
W=int(sys.argv[4]) if len(sys.argv)>4 else 2
PAT=sys.argv[5] if len(sys.argv)>5 else ''
files=[f for f in glob.glob('/repo/*.go')+glob.glob('/repo/wkt/*.go')+glob.glob('/repo/geojson/*.go') if not f.endswith('_test.go') and re.search(PAT,f)]
env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off')
lister=tempfile.mkdtemp()+'/mutate'
subprocess.run(['go','build','-o',lister,'.'],cwd=os.path.dirname(os.path.abspath(__file__)),env=env,check=True)
ms=[json.loads(l) for l in subprocess.run([lister]+files,capture_output=True,text=True).stdout.splitlines()]
ms=[m for m in ms if re.search(os.environ.get('FUNC',''),m['Func'])]
uses={}; cost={}
for f in glob.glob('/verif/evidence/C*.json'):
    d=json.load(open(f)); p=os.path.basename(f)[:-5]
    cost[p]=d.get('wall_s') or d['coverage'].get('wall_s') or 10
    for x in d['coverage']['functions_encoded'] or []:
        uses.setdefault(re.sub(r'[()*]','',x),set()).add(p)
T={l.split()[0]:int(l.split()[2][:-1]) for l in open('/tmp/all.log')} if os.path.exists('/tmp/all.log') else {}
def props(m):
    d=m['File'].split('/')[2]
    n='go-geo.' if d.endswith('.go') else 'go-geo/'+d+'.'
    return sorted(uses.get(n+m['Func'],()),key=lambda p:T.get(p,10))
random.seed(SEED); random.shuffle(ms)
base=json.load(open('/opt/vp/BASELINE.json')); stable=set(base if isinstance(base,list) else base.get('stable',base.get('passed')))
q=queue.Queue(); lock=threading.Lock(); stats={}
def note(k,m=None,s=''):
    with lock:
        stats[k]=stats.get(k,0)+1
        if m: open(OUT,'a').write(f"{k} {m['File'][6:]}:{m['Line']} {m['Func']} {m['What']} {s}\n")
for i,m in enumerate(ms): q.put(m)
def ns(d,cmd,t):
    b=f'mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; mount --bind {d}/vp /opt/vp; cd /repo; {cmd}'
    try: return subprocess.run(['timeout',str(t),'unshare','-Urm','bash','-c',b],capture_output=True,text=True)
    except Exception as e: return None
def worker(k):
    d=f'/tmp/mut{os.getpid()}_{k}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(f'cp -a /repo {d}/repo; cp -a /opt/vp {d}/vp; mkdir {d}/verif; cd /verif; cp -a check bin gosym harness known_findings.txt properties.jsonl MANIFEST.json {d}/verif; mkdir {d}/verif/evidence {d}/verif/replays',shell=True)
    while stats.get('done',0)<N:
        try: m=q.get_nowait()
        except queue.Empty: break
        f=d+m['File'] if m['File'].startswith('/repo') else None
        src=open(f,'rb').read()
        open(f,'wb').write(src[:m['Off']]+m['New'].encode()+src[m['End']:])
        try:
            r=ns(d,'bash /opt/vp/build.sh',60)
            if r.returncode: note('nobuild'); continue
            r=ns(d,f'bash /opt/vp/test.sh {d}/t.json',60)
            try: t=json.load(open(d+'/t.json')); ok=stable<=set(t if isinstance(t,list) else t.get('passed',t.get('stable')))
            except Exception: ok=False
            if not ok: note('tests'); continue
            ps=os.environ['PROPS'].split() if 'PROPS' in os.environ else props(m)
            note('done')
            if not ps: note('UNCOVERED',m); continue
            kill=None; odd=[]
            for p in ps[:9]:
                t0=time.time()
                r=ns(d,f'cd /verif; ./check {p} quick',200)
                if r.returncode==1: kill=p; break
                if r.returncode!=0: odd.append(f'{p}:{r.returncode}')
            if kill: note('killed',m,kill)
            else: note('SURVIVED',m,' '.join(ps[:9])+' '+' '.join(odd))
        finally: open(f,'wb').write(src)
    shutil.rmtree(d,ignore_errors=True)
th=[threading.Thread(target=worker,args=(k,)) for k in range(W)]
[t.start() for t in th]; [t.join() for t in th]
print(stats,len(ms))

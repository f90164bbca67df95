#!/usr/bin/env python3
"""Plants a bug: plant.py SPEC.  A spec is a Python file that sets
  id, prop, pkg ('.', 'wkt', 'geojson'), edits=[(file, old, new)], needs, breaks, test (Go test source)
Confirms in a scratch copy that the change builds, passes the stable tests, changes
lines of the original repository and is shown by the demonstration; then writes
/verif/seeded/<id>/."""
import sys,os,subprocess,json,shutil,tempfile,re
BASE='91ba500'
def sh(cmd,cwd=None,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def plant(spec):
    g={}
    exec(open(spec).read(),g)
    id,prop=g['id'],g['prop']; pkg=g.get('pkg','.')
    out='/verif/seeded/'+id
    w=tempfile.mkdtemp(prefix='plant')
    try:
        r=w+'/repo'
        sh(f'cp -a /repo {r}')
        sh('git checkout -q -- .',r)
        for f,old,new in g['edits']:
            s=open(f'{r}/{f}').read()
            if s.count(old)!=1: return f'{id}: {f}: {s.count(old)} matches of {old!r}'
            open(f'{r}/{f}','w').write(s.replace(old,new))
        diff=sh('git diff',r).stdout
        # at least one removed line from the base
        orig=False
        for f,_,_ in g['edits']:
            bl=sh(f'git blame -s HEAD -- {f}',r).stdout.split('\n')
            base={i+1 for i,l in enumerate(bl) if l.startswith('^'+BASE) }
            d=sh(f'git diff -U0 -- {f}',r).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',d,re.M):
                a=int(m.group(1)); n=int(m.group(2) or 1)
                if any(i in base for i in range(a,a+n)): orig=True
        if not orig: print(id,'WARNING: changes no original line')
        os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(diff)
        open(out+'/demo_test.go.txt','w').write(g['test'])
        open(out+'/demo.sh','w').write(f'''#!/bin/bash
# Run in /repo: exit 0 when the behaviour is right.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
p=$PWD
echo "{{\\"Replace\\":{{\\"$p/{pkg}/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}}}" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -run '^TestDemo' -count=1 -timeout 120s ./{pkg}
''')
        os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':g['needs'],'what_it_breaks':g['breaks']},open(out+'/meta.json','w'),indent=1)
        env=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off')
        b=sh('go build ./...',r,env=env)
        if b.returncode: return f'{id}: does not build {b.stderr}'
        ts=open('/opt/vp/test.sh').read().replace('/repo',r).replace('/opt/vp/gotest.json',w+'/gotest.json')
        open(w+'/test.sh','w').write(ts)
        ov=open('/opt/vp/overlay.json').read().replace('/repo',r); open(w+'/overlay.json','w').write(ov)
        open(w+'/test.sh','w').write(ts.replace('/opt/vp/overlay.json',w+'/overlay.json'))
        sh(f'bash {w}/test.sh {w}/t.json',env=env)
        t=json.load(open(w+'/t.json')); bl=json.load(open('/opt/vp/BASELINE.json'))
        f=lambda d:d if isinstance(d,list) else d.get('stable',d.get('passed'))
        bad=[x for x in f(bl) if x not in f(t)]
        if bad: return f'{id}: tests fail {bad}'
        d=sh(f'bash {out}/demo.sh',r)
        if d.returncode==0: return f'{id}: demo passes with the bug'
        d2=sh(f'bash {out}/demo.sh','/repo')
        if d2.returncode: return f'{id}: demo fails on the clean tree: {d2.stdout}{d2.stderr}'
        if 'build failed' in d.stdout: return f'{id}: demo does not compile {d.stdout}'
        return f'{id}: ok'
    finally:
        shutil.rmtree(w)
for s in sys.argv[1:]:
    print(plant(s),flush=True)

#!/usr/bin/env python3
"""plant.py ID... : for each bug in /tmp/w/bugs/*.py builds patch+demo, verifies in scratch copy, installs in /verif/seeded"""
import sys,os,subprocess,shutil,json,glob,threading
REPO='/repo'
DEMO='''#!/bin/bash
# exit 0: behaves as specified; non-zero: broken. Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 %s -I"$PWD/include" "$d/demo.cpp" -o "$t/demo" %s || exit 1
"$t/demo"
'''
def load():
    B={}
    for f in sorted(glob.glob('/tmp/w/bugs/*.py')):
        ns={}
        exec(open(f).read(),ns)
        for b in ns['BUGS']: B[b['id']]=b
    return B
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(b):
    wd='/tmp/pl/'+b['id']
    shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd+'/seed')
    sh(f'git -C {REPO} worktree prune; mkdir -p {wd}/tree && git -C {REPO} archive HEAD | tar x -C {wd}/tree')
    t=wd+'/tree'
    sh(f'cd {t} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x')
    for f,a,n in b['edits']:
        p=f'{t}/include/boost/poly_collection/{f}'
        s=open(p).read()
        if s.count(a)!=1: print(b['id'],'EDIT matches',s.count(a),repr(a[:60])); return None
        open(p,'w').write(s.replace(a,n))
    d=sh(f'cd {t} && git diff').stdout
    open(wd+'/seed/patch.diff','w').write(d)
    open(wd+'/seed/demo.cpp','w').write(b['demo'])
    open(wd+'/seed/demo.sh','w').write(DEMO%(b.get('flags',''),b.get('libs','')))
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(wd+'/seed/meta.json','w'),indent=1)
    ok=sh(f'cd {REPO} && bash {wd}/seed/demo.sh'); bad=sh(f'cd {t} && bash {wd}/seed/demo.sh')
    if ok.returncode!=0: print(b['id'],'DEMO FAILS ON CLEAN',ok.stdout[-1500:],ok.stderr[-1500:]); return None
    if bad.returncode==0: print(b['id'],'DEMO PASSES ON PATCHED'); return None
    if 'error:' in bad.stderr: print(b['id'],'patched demo does not compile?',bad.stderr[:800]); return None
    return wd
def tests(wd):
    t=wd+'/tree'
    env=dict(os.environ,CC='/usr/bin/gcc',CXX='/usr/bin/g++',LC_ALL='C.UTF-8',PYTHONDONTWRITEBYTECODE='1')
    B=t+'/_build'
    sh(f'mkdir -p {B}/results && cmake -S /opt/vp/harness -B {B} -G Ninja -DREPO={t} -DCMAKE_CXX_COMPILER=/usr/bin/g++ && ninja -C {B} -k 0 vp_tests; python3 /opt/vp/harness/run.py {B}; python3 /opt/vp/results.py {wd}/out.json lines:{B}/results/all.lines',env=env)
    o=json.load(open(wd+'/out.json'))
    base=set(json.load(open('/opt/vp/BASELINE.json'))['passed']) if 'passed' in json.load(open('/opt/vp/BASELINE.json')) else None
    return o
if __name__=='__main__':
    B=load()
    ids=[a for a in sys.argv[1:] if not a.startswith('-')] or list(B)
    for i in ids:
        if not '-f' in sys.argv and os.path.exists('/verif/seeded/'+i): continue
        wd=make(B[i])
        if not wd: continue
        if '-n' in sys.argv: print(i,'demo ok'); shutil.rmtree(wd+'/tree'); continue
        o=tests(wd)
        print(i,{k:len(v) for k,v in o.items()},[x for x in o['failed']][:3],flush=True)
        shutil.rmtree(wd+'/tree')
        if not o['failed'] and len(o['passed'])>=450:
            shutil.rmtree('/verif/seeded/'+i,ignore_errors=True); shutil.copytree(wd+'/seed','/verif/seeded/'+i); print(i,'KEPT',flush=True)

#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id> from a specification and validates it in a scratch copy of /repo.

The scratch copy is bind-mounted over /repo in a private mount namespace.  A specification sets PROPERTY, PKG (package
directory of the demonstration), EDITS [(file, old, new)], DEMO (text of an in-package Go test with TestDemo) or SH (text
of a script), NEEDS, BREAKS, and optionally FILES {name: text}.
"""
import json,os,subprocess,sys,shutil,textwrap
REPO='/repo'
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def inrepo(scratch,cmd,timeout=900):
    return sh(f"unshare -Urm sh -c 'mount --bind {scratch} /repo && cd /repo && {cmd}'",timeout=timeout)
DEMO_SH='''#!/bin/bash
# Runs the demonstration as a test inside package %(pkg)s of /repo (cwd).
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export XDG_CACHE_HOME="$t/cache" TMPDIR="$t"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/o.json"
timeout 200 go test -overlay "$t/o.json" -vet=off -count=1 -run '^TestDemo$' ./%(pkg)s
'''
def stable(): return json.load(open('/opt/vp/BASELINE.json'))['stable']
def main(spec,tests=True):
    sid=os.path.basename(spec)[:-3]
    g={}
    exec(open(spec).read(),g)
    scratch=f'/tmp/scr-{sid}'
    shutil.rmtree(scratch,ignore_errors=True)
    sh(f'cp -a {REPO} {scratch}; git -C {scratch} checkout -q -- .')
    def fail(*m):
        print(sid,'FAIL',*m); shutil.rmtree(scratch,ignore_errors=True); return False
    for f,old,new in g['EDITS']:
        p=f'{scratch}/{f}'; s=open(p).read()
        if s.count(old)!=1: return fail('edit matches',s.count(old),f,old[:60])
        open(p,'w').write(s.replace(old,new))
    d=f'/verif/seeded/{sid}'
    os.makedirs(d,exist_ok=True)
    diff=sh(f'git -C {scratch} diff').stdout
    open(f'{d}/patch.diff','w').write(diff)
    if 'SH' in g: open(f'{d}/demo.sh','w').write(g['SH'])
    else:
        open(f'{d}/demo.sh','w').write(DEMO_SH%{'pkg':g['PKG']})
        open(f'{d}/demo_test.go.txt','w').write(g['DEMO'])
    for n,t in g.get('FILES',{}).items():
        if os.path.exists(t): shutil.copy(t,f'{d}/{n}')
        else: open(f'{d}/{n}','w').write(t)
        os.chmod(f'{d}/{n}',0o755)
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':g['PROPERTY'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(f'{d}/meta.json','w'),indent=1)
    r=inrepo(scratch,'bash /opt/vp/build.sh')
    if r.returncode: return fail('build',r.stdout[-500:],r.stderr[-800:])
    r=inrepo(scratch,f'bash {d}/demo.sh')
    if r.returncode==0: return fail('demo passes with the patch')
    if '[build failed]' in r.stdout or 'setup failed' in r.stdout: return fail('demo does not build',r.stdout[-800:])
    why=r.stdout[-300:]
    if tests:
        out=f'/tmp/{sid}.json'
        r=inrepo(scratch,f'bash /opt/vp/test.sh {out}')
        try: res=json.load(open(out))
        except Exception as e: return fail('tests',e,r.stdout[-300:],r.stderr[-300:])
        passed=set(res.get('passed',[]) if isinstance(res.get('passed'),list) else [])
        miss=[t for t in stable() if t not in passed]
        os.remove(out)
        if miss: return fail('stable tests',len(miss),miss[:5])
    sh(f'git -C {scratch} checkout -- .')
    r=inrepo(scratch,f'bash /opt/vp/build.sh && bash {d}/demo.sh')
    if r.returncode: return fail('demo fails without the patch',r.stdout[-1500:],r.stderr[-500:])
    print(sid,'OK',g['PROPERTY'])
    if os.environ.get('V'): print(why)
    shutil.rmtree(scratch,ignore_errors=True)
    return True
if __name__=='__main__':
    fast='-f' in sys.argv
    ok=[main(s,not fast) for s in sys.argv[1:] if s!='-f']
    sys.exit(0 if all(ok) else 1)

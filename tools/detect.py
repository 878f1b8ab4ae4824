#!/usr/bin/env python3
"""detect.py SID...: runs the quick check of a seeded bug's property against the bug (in a private mount namespace)."""
import json,os,subprocess,sys,shutil,time
def sh(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
bad=[]
for sid in sys.argv[1:]:
    tier='quick'
    d=f'/verif/seeded/{sid}'
    prop=json.load(open(f'{d}/meta.json'))['property']
    scratch=f'/tmp/det-{sid}'
    shutil.rmtree(scratch,ignore_errors=True)
    sh(f'cp -a /repo {scratch}')
    r=sh(f'git -C {scratch} apply {d}/patch.diff')
    if r.returncode: print(sid,'does not apply',r.stderr); continue
    t=time.time()
    r=sh(f"unshare -Urm sh -c 'mount --bind {scratch} /repo && cd /verif && ./check.sh {prop} {tier}'")
    v=[l for l in r.stdout.splitlines() if l.startswith(f'VIOLATION property={prop}')]
    ok=r.returncode==1 and v
    print(f"{sid:24} {prop} {'caught' if ok else 'MISSED rc=%d'%r.returncode} {time.time()-t:.0f}s",flush=True)
    lines=r.stdout.splitlines()
    if ok:
        i=[k for k,l in enumerate(lines) if l.startswith('VIOLATION')][0]
        print('     ',lines[i+1][:160] if i+1<len(lines) else '')
    else: print('\n'.join('      '+l[:250] for l in lines[-4:]),r.stderr[-300:]); bad.append(sid)
    shutil.rmtree(scratch,ignore_errors=True)
print('missed:',bad)

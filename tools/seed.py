#!/usr/bin/env python3
"""Makes and confirms planted bugs.
usage: seed.py new SPEC.py     make /verif/seeded/<id> for each entry of SPEC.py's SEEDS list
       seed.py confirm ID...   in a scratch copy: applies, builds, stable tests pass, demo fails with and passes without it
       seed.py check ID...     apply to /repo, run the property's quick check, undo
"""
import json,os,subprocess,sys,shutil,tempfile,re
S='/verif/seeded'
def sh(c,cwd='/repo',t=900):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
    return r.returncode,r.stdout+r.stderr
DEMO='''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$work/overlay.json"
DEMO_DIR="$work" timeout 120 go test -vet=off -count=1 -overlay "$work/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def new(spec):
    ns={}
    exec(open(spec).read(),ns)
    for e in ns['SEEDS']:
        d=f"{S}/{e['id']}"
        os.makedirs(d,exist_ok=True)
        diff=''
        tmp=tempfile.mkdtemp()
        try:
            sh(f'git -C /repo archive HEAD | tar x -C {tmp} && cd {tmp} && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x')
            for f,a,b in e['edits']:
                s=open(f'{tmp}/{f}').read()
                if s.count(a)!=1: sys.exit(f"{e['id']}: {s.count(a)} matches in {f} for {a!r}")
                open(f'{tmp}/{f}','w').write(s.replace(a,b))
            rc,bad=sh('gofmt -l '+' '.join(set(f for f,_,_ in e['edits'])),tmp)
            if bad.strip(): print(e['id'],'gofmt:',bad)
            rc,diff=sh('git diff',tmp)
        finally: shutil.rmtree(tmp)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.sh','w').write(DEMO%{'pkg':e['pkg']})
        os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo_test.go','w').write('//go:build go1.21\n\n'+e['demo'].strip()+'\n')
        json.dump({'property':e['property'],'needs':e['needs'],'what_it_breaks':e['breaks']},open(d+'/meta.json','w'),indent=1)
        print('made',e['id'])
        confirm([e['id']])
        check([e['id']])
def confirm(ids):
    ok=True
    for i in ids:
        tmp=tempfile.mkdtemp()
        try:
            sh(f'cp -a /repo/. {tmp}/ && cd {tmp} && git checkout -q -- .')
            rc0,o0=sh(f'bash {S}/{i}/demo.sh',tmp)
            rc1,o1=sh(f'git apply {S}/{i}/patch.diff',tmp)
            rc2,o2=sh('. /opt/vp/env.sh && go build ./... && go test -vet=off -count=1 ./...',tmp)
            rc3,o3=sh(f'bash {S}/{i}/demo.sh',tmp)
            good=rc0==0 and rc1==0 and rc2==0 and rc3!=0 and 'build failed' not in o3
            ok&=good
            print(i,'confirmed' if good else f'BAD clean-demo={rc0} apply={rc1} build+test={rc2} demo={rc3}\n{o0[-600:] if rc0 else ""}{o1 if rc1 else ""}{o2[-800:] if rc2 else ""}{o3[-400:]}')
        finally: shutil.rmtree(tmp)
    return ok
def check(ids):
    for i in ids:
        p=json.load(open(f'{S}/{i}/meta.json'))['property']
        rc,o=sh('git status --porcelain --untracked-files=no')
        if o.strip(): sys.exit('repo not clean')
        rc,o=sh(f'git apply {S}/{i}/patch.diff')
        if rc: print(i,'apply failed',o); continue
        try: rc,o=sh(f'bash /verif/checks/run.sh {p} quick')
        finally: sh('git checkout -q -- .')
        v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
        print(i,'CAUGHT' if rc==1 and v else f'MISSED rc={rc}',v[:3])
if __name__=='__main__':
    cmd=sys.argv[1]
    if cmd=='new': new(sys.argv[2])
    else:
        ids=sys.argv[2:] or sorted(os.listdir(S))
        (confirm if cmd=='confirm' else check)(ids)

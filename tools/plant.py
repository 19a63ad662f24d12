#!/usr/bin/env python3
"""plant.py FILE [id...]: make and confirm planted bugs from the specifications in FILE
(a python file defining BUGS: list of dicts id, prop, edits [(file, old, new)], demo, needs, breaks).
plant.py --check [id...]: run the property's check against each planted bug."""
import sys,os,subprocess,json,shutil,tempfile
ENV=dict(os.environ,GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',HOME='/root')
SEED='/verif/seeded'
PRE='''#!/bin/bash
# run in the repository's directory: exit 0 if the property holds, 1 if it is broken
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
go build -o "$T/yot" ./cmd/yot || exit 99
unset ${!YOT_@}
mkdir "$T/w" "$T/home" && cd "$T/w" && export HOME="$T/home"
yot() { timeout 60 "$T/yot" "$@"; }
# same WANT FILE: compare, trailing blank space apart
same() { diff <(printf '%s\\n' "$1") "$2" && return; echo "differs from what is expected"; exit 1; }
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def copy():
    d=tempfile.mkdtemp(prefix='plant.',dir='/tmp')+'/repo'
    subprocess.run(['cp','-a','/repo',d],check=True); return d
def tests(d):
    shutil.rmtree(d+'/internal/instructions/output',ignore_errors=True)
    o=sh('go test -json -vet=off -count=1 -parallel 1 ./...',d).stdout
    p=set()
    for l in o.splitlines():
        try: j=json.loads(l)
        except ValueError: continue
        if j.get('Action')=='pass' and j.get('Test'): p.add(j['Package']+'::'+j['Test'])
    shutil.rmtree(d+'/internal/instructions/output',ignore_errors=True)
    return p
def main():
    if sys.argv[1]=='--check': return check(sys.argv[2:])
    g={}; exec(open(sys.argv[1]).read(),g); want=sys.argv[2:]
    base=None
    for b in g['BUGS']:
        if want and b['id'] not in want: continue
        d=copy()
        try:
            bad=None
            for f,o,n in b['edits']:
                s=open(f'{d}/{f}').read()
                if s.count(o)!=1: bad=f'{f}: {s.count(o)} matches of {o!r}'; break
                open(f'{d}/{f}','w').write(s.replace(o,n))
            if bad: print(b['id'],'SKIP',bad); continue
            fm=sh('gofmt -l cmd internal',d).stdout
            r=sh('go build ./...',d)
            if r.returncode: print(b['id'],'BUILD',r.stdout[:1500]); continue
            if base is None: base=tests('/repo')
            t=tests(d)
            if base-t: print(b['id'],'TESTS',sorted(base-t)[:4]); continue
            out=f'{SEED}/{b["id"]}'; os.makedirs(out,exist_ok=True)
            open(out+'/demo.sh','w').write(PRE+b['demo'].strip('\n')+'\n'); os.chmod(out+'/demo.sh',0o755)
            diff=sh('git diff -- cmd internal',d).stdout
            open(out+'/patch.diff','w').write(diff)
            json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(out+'/meta.json','w'),indent=1)
            r0=sh(f'bash {out}/demo.sh','/repo',timeout=300); r1=sh(f'bash {out}/demo.sh',d,timeout=300)
            ok=r0.returncode==0 and r1.returncode not in(0,99)
            print(b['id'],b['prop'],'ok' if ok else 'DEMO clean=%d patched=%d\n%s\n---\n%s'%(r0.returncode,r1.returncode,r0.stdout[-800:],r1.stdout[-800:]),'gofmt '+fm if fm else '',flush=True)
            if not ok: shutil.rmtree(out)
        finally: shutil.rmtree(os.path.dirname(d))
def check(ids):
    for i in ids or sorted(os.listdir(SEED)):
        m=json.load(open(f'{SEED}/{i}/meta.json')); d=copy()
        try:
            r=sh(f'git apply {SEED}/{i}/patch.diff',d)
            if r.returncode: print(i,'APPLY',r.stdout); continue
            e=dict(ENV,VERIF_REPO=d)
            r=subprocess.run(['bash','/verif/run.sh',m['property'],'quick'],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            tail='' if v else r.stdout[-300:]
            print(i,m['property'],'CAUGHT' if r.returncode==1 and v else f'MISSED rc={r.returncode} {tail}',flush=True)
        finally: shutil.rmtree(os.path.dirname(d))
main()

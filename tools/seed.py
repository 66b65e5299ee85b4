#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: makes /verif/seeded/<id> from the SEEDS of a spec, after confirming that each one
applies, changes original lines, builds, passes the tests, and that its demonstration tells it from the unchanged tree.
Prints what the checks named in 'prop' (and 'also') say."""
import sys,subprocess,shutil,os,importlib.util,json,concurrent.futures as cf,tempfile
spec=importlib.util.spec_from_file_location('m',sys.argv[1]);m=importlib.util.module_from_spec(spec);spec.loader.exec_module(m)
only=sys.argv[2:]
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,GOFLAGS='-mod=readonly',GOPROXY='off',GOWORK='off',GOTOOLCHAIN='local')
DEMO='''#!/bin/bash
# run in the repository after its build: exit 0 if the property holds for the demonstrated case
d=$(cd "$(dirname "$0")" && pwd)
for g in /opt/veriftools/go1.27.3/bin; do [ -x "$g/go" ] && PATH=$g:$PATH; done
export PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/@PKG@zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$tmp/o.json"
export TMPDIR=$tmp
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestZZDemo$' ./@PKG@
'''
def sh(cmd,cwd,timeout=600):
    return subprocess.run(cmd,cwd=cwd,capture_output=True,text=True,env=env,timeout=timeout)
def one(s):
    i=s['id']; t=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        d=t+'/repo'
        subprocess.run(['git','clone','-q','/repo',d],check=True)
        o=V+'/seeded/'+i; os.makedirs(o,exist_ok=True)
        for e in s['edits']:
            p=d+'/'+e[0]; x=open(p).read()
            if x.count(e[1])<1: return i+': OLD TEXT NOT FOUND: '+e[1][:80]
            x=x.replace(e[1],e[2],1); open(p,'w').write(x)
        for f in {e[0] for e in s['edits'] if e[0].endswith('.go')}: sh(['gofmt','-w',f],d)
        diff=sh(['git','diff'],d).stdout
        if not diff: return i+': EMPTY'
        b=sh(['git','blame','-l','-s']+[],d) if 0 else None
        # removed lines must be original
        base='8c07b08'
        notes=[]; import time; t0=time.time()
        for f in {e[0] for e in s['edits']}:
            orig=sh(['git','show',base+':'+f],d).stdout.split('\n')
            hd=sh(['git','diff','-U0',f],d).stdout.split('\n')
            rem=[l[1:] for l in hd if l.startswith('-') and not l.startswith('---')]
            bad=[l for l in rem if l not in orig]
            if bad: notes.append('not original: '+repr(bad[:2]))
        open(o+'/patch.diff','w').write(diff)
        open(o+'/demo_test.go','w').write(s['test'])
        open(o+'/demo.sh','w').write(DEMO.replace('@PKG@',s.get('pkg','')).replace('go test ','go test -race ' if s.get('race') else 'go test '))
        os.chmod(o+'/demo.sh',0o755)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(o+'/meta.json','w'),indent=1)
        r=sh(['go','build','./...'],d)
        if r.returncode: return i+': BUILD FAILS '+r.stderr[:300]
        r=sh(['go','test','-race','-vet=off','-count=1','-timeout','100s','./...'],d)
        if r.returncode: notes.append('TESTS FAIL '+' '.join(l.split('(')[0].strip() for l in r.stdout.split('\n') if '--- FAIL' in l)[:200])
        r=sh(['bash',o+'/demo.sh'],d)
        if r.returncode==0: notes.append('DEMO PASSES WITH THE PATCH')
        r=sh(['git','stash','-q'],d) ; r=sh(['bash',o+'/demo.sh'],d)
        if r.returncode: notes.append('DEMO FAILS UNPATCHED '+(r.stdout+r.stderr)[:600])
        sh(['git','stash','pop','-q'],d)
        if not os.environ.get('NOCHECK'):
            ps=[s['prop']]+s.get('also',[]) if not os.environ.get('PROPS') else [os.environ['PROPS']]
            r=sh(['/tmp/checker2','-prop',','.join(ps),'-repo',d,'-verif',t+'/v'],d,1500)
            notes.append('check %ds rc %d %s'%(time.time()-t0,r.returncode,' | '.join(l[:200] for l in r.stdout.split('\n') if 'VIOLATION' in l or 'FAIL' in l)[:500]+r.stderr[:200]))
        return i+': '+'; '.join(notes)
    finally:
        shutil.rmtree(t,ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for r in ex.map(one,[s for s in m.SEEDS if not only or s['id'] in only]): print(r,flush=True)

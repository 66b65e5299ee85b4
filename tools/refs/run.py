#!/usr/bin/env python3
"""run.py FILE.py PROPS [names]: each entry of MUTS is (name, file, old, new[, ...more pairs]); copies /repo, applies, vets, runs tests, runs checker."""
import sys,subprocess,shutil,os,importlib.util,concurrent.futures as cf
spec=importlib.util.spec_from_file_location('m',sys.argv[1]);m=importlib.util.module_from_spec(spec);spec.loader.exec_module(m)
props=sys.argv[2]; only=sys.argv[3:]
def one(mu):
    name,prs=mu[0],mu[1:]
    d='/tmp/m/w_'+name
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    out=[]
    for f,o,n in prs:
        p=d+'/'+f; s=open(p).read()
        if s.count(o)<1: return name+': OLD TEXT NOT FOUND in '+f+': '+o[:60]
        s=s.replace(o,n,1); open(p,'w').write(s)
    env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off')
    r=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True,env=env)
    if r.returncode: shutil.rmtree(d); return name+': BUILD FAILS '+r.stderr[:300]
    try: r=subprocess.run(['go','test','-timeout','60s','./...'],cwd=d,capture_output=True,text=True,env=env); t='tests pass' if r.returncode==0 else 'TESTS FAIL: '+' '.join(l.split('(')[0].strip() for l in r.stdout.split('\n') if '--- FAIL' in l)[:150]
    except Exception as e: t='TESTS ?'
    try:
        r=subprocess.run([os.environ.get('CHECKER','/tmp/checker2'),'-prop',props,'-repo',d,'-verif','/tmp/m/v_'+name],capture_output=True,text=True,timeout=900)
        o=[l[:230] for l in r.stdout.split('\n') if l.startswith(('VIOL','FAIL','KNOWN')) or ('violated' in l) or l.startswith('  ') and ':' in l and not l.startswith('    ')]
        c='rc %d '%r.returncode+'\n      '.join(o[:6])+r.stderr[:300]
    except subprocess.TimeoutExpired: c='TIMEOUT'
    shutil.rmtree(d,ignore_errors=True); shutil.rmtree('/tmp/m/v_'+name,ignore_errors=True)
    return f'{name}: {t}; {c}'
ms=[x for x in m.MUTS if not only or x[0] in only]
with cf.ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for r in ex.map(one,ms): print(r,flush=True)

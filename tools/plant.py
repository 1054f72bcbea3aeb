#!/usr/bin/env python3
"""plant.py <id>...: (re)create seeded/<id> from bugs.py, confirm the demo in a scratch copy.   --check: also run the property's check."""
import sys,os,subprocess,shutil,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from bugs import BUGS
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 = behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 "$D/kit/port.py" "$PWD" "$T" || exit 3
clang++-18 @"$D/kit/flags.txt" -O1 -U__OPTIMIZE__ -D__NO_INLINE__ %(flags)s -I"$D/kit/shim" -I"$D/kit" -I"$T" -I"$T/nntl" -c "$D/demo.cpp" -o "$T/d.o" || exit 3
clang++-18 -std=c++17 -w -pthread -c "$D/kit/win_native.cpp" -o "$T/w.o" || exit 3
clang++-18 -pthread %(lflags)s "$T/d.o" "$T/w.o" -o "$T/d" %(link)s || exit 3
cd "$T" && timeout %(timeout)s ./d
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def plant(b):
    d=V+'/seeded/'+b['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/kit')
    for f in ('port.py','flags.txt','nn.hpp','win_native.cpp'): shutil.copy(V+'/lib/'+f,d+'/kit/')
    shutil.copytree(V+'/lib/shim',d+'/kit/shim')
    open(d+'/demo.cpp','w').write(b['demo'])
    open(d+'/demo.sh','w').write(DEMO%dict(flags=b.get('flags',''),lflags=b.get('lflags',''),link=b.get('link',''),timeout=b.get('timeout',120)))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(d+'/meta.json','w'),indent=1)
    w='/tmp/w/'+b['id']; shutil.rmtree(w,ignore_errors=True); os.makedirs('/tmp/w',exist_ok=True); sh('git -C /repo worktree prune; cp -a /repo '+w)
    for f,old,new in b['edits']:
        p=w+'/'+f; s=open(p,newline='',encoding='utf-8',errors='surrogateescape').read()
        crlf='\r\n' in s
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        if s.count(old)!=1: print(b['id'],'edit matches',s.count(old),'times:',old[:80]); return False
        open(p,'w',newline='',encoding='utf-8',errors='surrogateescape').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',w,'diff'],stdout=subprocess.PIPE).stdout; open(d+'/patch.diff','wb').write(diff)
    r0=sh('bash %s/demo.sh'%d,cwd='/repo'); r1=sh('bash %s/demo.sh'%d,cwd=w)
    shutil.rmtree(w,ignore_errors=True)
    print(b['id'],'demo clean:',r0.returncode,r0.stdout[-1500:] if r0.returncode else '','| patched:',r1.returncode,r1.stdout[-300:])
    return r0.returncode==0 and r1.returncode not in (0,3)
def check(b):
    d=V+'/seeded/'+b['id']; w='/tmp/w/c_'+b['id']; shutil.rmtree(w,ignore_errors=True); os.makedirs('/tmp/w',exist_ok=True); sh('cp -a /repo '+w)
    try:
        r=sh('git -C %s apply %s/patch.diff'%(w,d))
        if r.returncode: print(r.stdout); return
        props=[b['prop']] if '--all' not in sys.argv else [c['property'] for c in json.load(open(V+'/MANIFEST.json'))['checks']]
        for p in props:
            r=sh('VERIF_REPO=%s VC_OUT=/tmp/w/o_%s python3 %s/lib/vc.py check %s quick'%(w,b['id'],V,p)); print(b['id'],p,'rc=%d'%r.returncode,'CAUGHT' if r.returncode==1 and 'VIOLATION property=%s'%p in r.stdout else 'missed',r.stdout[-300:].strip(),flush=True)
    finally: shutil.rmtree(w,ignore_errors=True); shutil.rmtree('/tmp/w/o_'+b['id'],ignore_errors=True)
def tests(b):
    if sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(): print('repo dirty'); return
    try:
        sh('git -C /repo apply %s/seeded/%s/patch.diff'%(V,b['id']))
        r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/t.json && cat /tmp/t.json',cwd='/repo'); print(b['id'],'tests rc',r.returncode,r.stdout[-300:])
    finally: sh('git -C /repo checkout -- .')
ids=[a for a in sys.argv[1:] if not a.startswith('--')]
for b in BUGS:
    if ids and b['id'] not in ids: continue
    if '--nopl' not in sys.argv:
        if not plant(b): continue
    if '--check' in sys.argv: check(b)
    if '--tests' in sys.argv: tests(b)

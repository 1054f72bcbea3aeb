#!/usr/bin/env python3
"""Line coverage of the ported sources by the harnesses: cov.py [P05 P06 ...] -> /tmp/cov/<file>.json {line:count}. A development aid, not a check."""
import sys,os,subprocess,json,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/lib'); sys.argv[0]='x'
import vc
from concurrent.futures import ThreadPoolExecutor
D='/tmp/cov'; os.makedirs(D,exist_ok=True)
def go(pid,j,tree):
    n=j['name']; b=D+'/'+n; srcs=[j['src']]+j.get('extra',['lib/win_native.cpp']); objs=[]
    for s in srcs:
        o=b+'.'+os.path.basename(s)+'.o'; objs.append(o); san=j.get('san','asan') if not s.startswith('lib/') else j.get('libsan','')
        fl=['-O1','-U__OPTIMIZE__','-D__NO_INLINE__']+['-D'+d for d in j.get('defs',[])]
        if n in('matrix','io') and 'asan' in san: fl+=vc.ASAN
        if 'tsani' in san: fl+=['-fsanitize=thread']
        if not s.startswith('lib/'): fl+=['-fprofile-instr-generate','-fcoverage-mapping','-DMC_COV']
        base=['-std=c++17','-w','-pthread'] if s.startswith('lib/') and s.endswith('_native.cpp') else ['@'+V+'/lib/flags.txt']
        r=vc.sh([vc.CXX]+base+fl+['-I'+V+'/lib/shim','-I'+V+'/lib','-I'+V+'/harness','-I'+tree,'-I'+tree+'/nntl','-c',V+'/'+s,'-o',o])
        if r.returncode: return n,r.stdout[:500]
    r=vc.sh([vc.CXX,'-pthread','-fprofile-instr-generate']+(['-fsanitize=address'] if n in('matrix','io') else [])+objs+['-o',b]+j.get('link',[]))
    if r.returncode: return n,r.stdout[:500]
    ns=8
    for i in range(ns):
        env=dict(vc.ENV,LLVM_PROFILE_FILE=b+'.%d.profraw'%i)
        try: subprocess.run([b,'--shard','%d/%d'%(i,ns),'--tier','quick','--stats',b+'.st','--trail',b+'.tr','--deadline','40'],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=100)
        except subprocess.TimeoutExpired: pass
    subprocess.run('llvm-profdata-18 merge -sparse %s.*.profraw -o %s.pd'%(b,b),shell=True,stderr=subprocess.DEVNULL)
    r=subprocess.run(['llvm-cov-18','export','-format=lcov',b,'-instr-profile=%s.pd'%b],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True,errors='replace')
    cov={};cur=None
    for l in r.stdout.splitlines():
        if l.startswith('SF:'): cur=l[3:]; cur=os.path.relpath(cur,tree) if cur.startswith(tree) else None
        elif cur and l.startswith('DA:'):
            a,c=l[3:].split(',')[:2]; d=cov.setdefault(cur,{}); d[int(a)]=max(d.get(int(a),0),int(c))
    json.dump(cov,open(b+'.cov.json','w')); os.system('rm -f %s.*.profraw %s'%(b,b))
    return n,'%d files'%len(cov)
if __name__=='__main__':
    tree=vc.prepare(); ids=sys.argv[1:] or sorted(vc.PROPS)
    seen=set(); T=[]
    with ThreadPoolExecutor(4) as ex:
        for p in ids:
            for j in vc.PROPS[p]['jobs']:
                k=(j['name']); 
                if k in seen: continue
                seen.add(k); T.append(ex.submit(go,p,j,tree))
        for t in T: print(*t.result(),flush=True)

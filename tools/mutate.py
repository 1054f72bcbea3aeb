#!/usr/bin/env python3
"""Automatic mutants of covered lines of a property's files (development aid; needs tools/cov.py's output in /tmp/cov).
mutate.py PROP N [--seed S] [--file F] [--workers W]  -> appends to /tmp/mut/PROP.log"""
import sys,os,re,json,random,subprocess,shutil,time,argparse,threading,queue
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/lib')
from props import PROPS
ap=argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('n',type=int); ap.add_argument('--seed',type=int,default=1); ap.add_argument('--file'); ap.add_argument('--workers',type=int,default=3); ap.add_argument('--nproc',type=int,default=4); ap.add_argument('--lines'); A=ap.parse_args()
M='/tmp/mut'; os.makedirs(M,exist_ok=True)
P=PROPS[A.prop]; files=[A.file] if A.file else P['files']
cov={}
for j in P['jobs']:
    try: c=json.load(open('/tmp/cov/%s.cov.json'%j['name']))
    except OSError: continue
    for f,d in c.items():
        e=cov.setdefault(f,{})
        for l,n in d.items(): e[int(l)]=max(e.get(int(l),0),n)
OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r'(?<=\w|\)) \+ (?=\w|\()',' - '),(r'(?<=\w|\)) - (?=\w|\()',' + '),(r' \* (?=\w+[\s;)])',' + '),(r' / ',' * '),
 (r' \+= ',' -= '),(r' -= ',' += '),(r' \*= ',' = '),(r' \+= ',' = '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<=[(,= ])1(?=[,;) ])','2'),(r'(?<=[(,= ])0(?=[,;) ])','1'),(r'(?<=[(,= ])1(?=[,;) ])','0'),
 (r'\brows\(\)','cols()'),(r'\bcols\(\)','rows()'),(r'numel_no_bias\(\)','numel()'),(r'\bnumel\(\)','numel_no_bias()'),(r'cols_no_bias\(\)','cols()'),(r'(?<=[( ])!(?=\w)',''),(r'::max\b','::min'),(r'::min\b','::max'),(r'if \((?=\w)','if (!'),(r'real_t\(1','real_t(2'),(r'\bif \(.*?\)(?= )','if (true)'),
 (r'^(\s*)([\w.\->\[\]:]+(\(.*\)| [-+*/]?= .*);)',r'\1;')]
SKIP=re.compile(r'^\s*(//|#|\*|NNTL_ASSERT|STDCOUT|typedef|using|template|static_assert|namespace|class|struct|public|private|protected|friend|return \*this|assert|DBG)')
def cands():
    r=[]
    for f in files:
        if f not in cov: continue
        L=open('/repo/'+f,encoding='latin-1',newline='').read().split('\n')
        for i,l in enumerate(L,1):
            if A.lines:
                a,b=map(int,A.lines.split('-'))
                if not a<=i<=b: continue
            if cov[f].get(i,0)<=0 or SKIP.match(l) or 'NNTL_ASSERT' in l: continue
            code=l.split('//')[0]
            for k,(p,q) in enumerate(OPS):
                for m in re.finditer(p,code):
                    n=code[:m.start()]+m.expand(q)+code[m.end():]+l[len(code):]
                    if n!=l: r.append((f,i,l.strip(),n))
    return r
C=cands(); random.Random(A.seed).shuffle(C)
# at most one mutant of a line per run, spread
seen=set(); S=[]
for c in C:
    if (c[0],c[1]) in seen: continue
    seen.add((c[0],c[1])); S.append(c)
S=S[:A.n]; print('%s: %d candidates, %d lines, running %d'%(A.prop,len(C),len(seen),len(S)),flush=True)
q=queue.Queue(); [q.put(c) for c in S]; lock=threading.Lock(); stat={}
def work(w):
    d='%s/%s_w%d'%(M,A.prop,w); shutil.rmtree(d,ignore_errors=True); os.makedirs(d); shutil.copytree('/repo/nntl',d+'/nntl')
    while 1:
        try: f,i,old,new=q.get_nowait()
        except queue.Empty: break
        src=open(d+'/'+f,encoding='latin-1',newline='').read(); L=src.split('\n'); L[i-1]=new; open(d+'/'+f,'w',encoding='latin-1',newline='').write('\n'.join(L))
        env=dict(os.environ,VERIF_REPO=d,VC_OUT=d,VC_NPROC=str(A.nproc)); t=time.time()
        try: p=subprocess.run([sys.executable,V+'/lib/vc.py','check',A.prop,'quick'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',env=env,timeout=900); rc=p.returncode; o=p.stdout
        except subprocess.TimeoutExpired: rc='timeout'; o=''
        open(d+'/'+f,'w',encoding='latin-1',newline='').write(src); shutil.rmtree(d+'/build',ignore_errors=True)
        r={0:'SURVIVED',1:'killed',2:'nocompile' if 'cannot compile' in o else 'ERROR'}.get(rc,str(rc))
        with lock:
            stat[r]=stat.get(r,0)+1
            with open('%s/%s.log'%(M,A.prop),'a') as lg: lg.write('%s %s:%d (%.0fs)\n   - %s\n   + %s\n%s'%(r,f,i,time.time()-t,old,new.strip(),'' if r!='ERROR' else '   ! '+o[-300:]+'\n'))
    shutil.rmtree(d,ignore_errors=True)
T=[threading.Thread(target=work,args=(w,)) for w in range(A.workers)]; [t.start() for t in T]; [t.join() for t in T]
print(A.prop,stat)

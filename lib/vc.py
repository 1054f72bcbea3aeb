#!/usr/bin/env python3
"""Driver: vc.py check <ID> [quick|thorough]   |   vc.py replay <file>
Ports /repo's current sources, builds the property's harnesses from them, runs every shard to completion,
replays any failure before reporting it, writes evidence/<ID>.json."""
import os,sys,json,subprocess,time,hashlib,struct,shutil,re,signal
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
REPO=os.environ.get('VERIF_REPO','/repo')
sys.path.insert(0,HERE)
from props import PROPS
CXX='clang++-18'
OUT=os.environ.get('VC_OUT',VERIF)
BUILD=os.path.join(OUT,'build')
NPROC=int(os.environ.get('VC_NPROC',0)) or os.cpu_count() or 8
ASAN=['-fsanitize=address','-fno-omit-frame-pointer']
UBSAN=['-fsanitize=undefined','-fno-sanitize=vptr,alignment,function','-fno-sanitize-recover=all']
ENV=dict(os.environ); ENV.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0',UBSAN_OPTIONS='print_stacktrace=0:exitcode=77',OPENBLAS_NUM_THREADS='1',OMP_NUM_THREADS='1')
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**k)
def known_ids():
    f=os.path.join(VERIF,'KNOWN_FINDINGS.txt')
    return ','.join(m.group(1) for m in re.finditer(r'^known: property=\w+ id=(\w+) ',open(f).read(),re.M)) if os.path.exists(f) else ''
def treehash(d):
    h=hashlib.sha256()
    for r,ds,fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            p=os.path.join(r,f)
            if os.path.islink(p): continue
            h.update(os.path.relpath(p,d).encode()); h.update(open(p,'rb').read())
    return h.hexdigest()
def prepare():
    os.makedirs(BUILD,exist_ok=True)
    key=hashlib.sha256((treehash(REPO+'/nntl')+treehash(HERE+'/shim')+open(HERE+'/port.py').read()).encode()).hexdigest()[:16]
    t=os.path.join(BUILD,'tree_'+key)
    if not os.path.exists(t+'/.ok'):
        tmp=t+'.tmp%d'%os.getpid(); shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        r=sh([sys.executable,HERE+'/port.py',REPO,tmp])
        if r.returncode: print(r.stdout); print('ERROR: porting failed'); sys.exit(2)
        open(tmp+'/.ok','w').close()
        shutil.rmtree(t,ignore_errors=True)
        try: os.rename(tmp,t)
        except OSError: shutil.rmtree(tmp,ignore_errors=True)
        # keep only a few old trees
        old=sorted((os.path.getmtime(os.path.join(BUILD,x)),x) for x in os.listdir(BUILD) if x.startswith('tree_') and '.tmp' not in x)
        for _,x in old[:-4]: shutil.rmtree(os.path.join(BUILD,x),ignore_errors=True)
    return t
def build(tree,jobs):
    """compile all jobs in parallel; returns {jobname:binary}"""
    libh=treehash(HERE+'/shim')+''.join(open(os.path.join(HERE,f)).read() for f in sorted(os.listdir(HERE)) if f.endswith(('.hpp','.cpp','.txt')))
    procs=[];bins={}
    for j in jobs:
        units=[]
        srcs=[j['src']]+j.get('extra',['lib/win_native.cpp'])
        for s in srcs:
            path=os.path.join(VERIF,s)
            fl=(['-O1','-U__OPTIMIZE__','-D__NO_INLINE__'] if j.get('opt',True) else ['-O0'])+['-g1']
            san=j.get('san','asan')
            if s.startswith('lib/'): san=j.get('libsan','')
            if 'asan' in san: fl+=ASAN
            if 'ubsan' in san: fl+=UBSAN
            if 'tsani' in san: fl+=['-fsanitize=thread']
            fl+=['-D'+d for d in j.get('defs',[])]
            if s.startswith('lib/') and s.endswith('_native.cpp'): base=['-std=c++17','-w','-pthread']
            else: base=['@'+HERE+'/flags.txt']
            cmd=[CXX]+base+fl+['-I'+HERE+'/shim','-I'+HERE,'-I'+VERIF+'/harness','-I'+tree,'-I'+tree+'/nntl']
            hs=''.join(open(os.path.join(VERIF,'harness',x)).read() for x in sorted(os.listdir(VERIF+'/harness')) if x.endswith('.hpp'))
            k=hashlib.sha256((tree+libh+hs+open(path).read()+' '.join(cmd)).encode()).hexdigest()[:20]
            o=os.path.join(BUILD,os.path.basename(s)+'.'+k+'.o')
            units.append(o)
            if not os.path.exists(o) and not any(p[1]==o for p in procs):
                procs.append([cmd+['-c',path,'-o',o+'.tmp%d'%os.getpid()],o,None,j])
        b=os.path.join(BUILD,j['name']+'.'+hashlib.sha256(' '.join(units).encode()).hexdigest()[:16])
        bins[j['name']]=(b,units,j)
    run=[];todo=list(procs);failed=None
    while todo or run:
        while todo and len(run)<NPROC:
            p=todo.pop(0); p[2]=subprocess.Popen(p[0],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace'); run.append(p)
        p=run.pop(0); out,_=p[2].communicate()
        if p[2].returncode:
            failed=p; print('ERROR: cannot compile %s\n%s'%(p[0][-3],out[:6000]))
        else: os.rename(p[0][-1],p[1])
    if failed: sys.exit(2)
    for n,(b,units,j) in bins.items():
        if not os.path.exists(b):
            san=j.get('san','asan'); fl=[]
            if 'asan' in san: fl+=['-fsanitize=address']
            if 'ubsan' in san: fl+=['-fsanitize=undefined']
            r=sh([CXX,'-pthread']+fl+units+['-o',b+'.tmp%d'%os.getpid()]+j.get('link',[]))
            if r.returncode: print('ERROR: cannot link %s\n%s'%(n,r.stdout[:4000])); sys.exit(2)
            os.rename(b+'.tmp%d'%os.getpid(),b)
    return {n:v[0] for n,v in bins.items()}
ENV['VC_KNOWN']=known_ids()
def read_trail(p):
    d=open(p,'rb').read()
    scn=d[:64].split(b'\0')[0].decode(); ex,n=struct.unpack_from('<Qi',d,64); n=max(0,min(n,16000))
    return scn,ex,list(struct.unpack_from('<%di'%n,d,76))
def main_check(pid,tier):
    P=PROPS[pid]; t0=time.time(); tree=prepare(); jobs=P['jobs']; bins=build(tree,jobs); tb=time.time()-t0
    work=os.path.join(BUILD,'run_%s_%d'%(pid,os.getpid())); shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    cap=P.get('cap',{}).get(tier,500 if tier=='quick' else 3000)
    tasks=[]
    for j in jobs:
        if tier=='quick' and j.get('tier')=='thorough': continue
        ns=j.get('shards',NPROC)
        for i in range(ns): tasks.append((j,i,ns))
    running=[];done=[];fails=[]; t1=time.time(); stall=P.get('stall',120)
    while (tasks or running) and not fails:
        while tasks and len(running)<NPROC:
            j,i,ns=tasks.pop(0); base=os.path.join(work,'%s_%d'%(j['name'],i))
            cmd=[bins[j['name']],'--shard','%d/%d'%(i,ns),'--tier',tier,'--stats',base+'.json','--trail',base+'.trail','--deadline',str(max(5,cap-(time.time()-t1)))]
            lg=open(base+'.log','w'); p=subprocess.Popen(cmd,stdout=lg,stderr=subprocess.STDOUT,env=ENV,cwd=work,start_new_session=True)
            running.append(dict(cmd=cmd,j=j,i=i,p=p,base=base,last=None,lt=time.time()))
        time.sleep(0.05)
        for r in list(running):
            rc=r['p'].poll()
            if rc is None:
                try: cur=open(r['base']+'.trail','rb').read(64+12+4*200)
                except OSError: cur=None
                if cur!=r['last']: r['last']=cur; r['lt']=time.time()
                elif time.time()-r['lt']>stall:
                    os.killpg(r['p'].pid,signal.SIGKILL); r['p'].wait(); running.remove(r); fails.append((r,'hang: no progress for %ds'%stall))
                continue
            running.remove(r)
            if rc==0: done.append(r)
            else: fails.append((r,'exit status %d'%rc))
    for r in running:
        try: os.killpg(r['p'].pid,signal.SIGKILL)
        except OSError: pass
        r['p'].wait()
    agg=dict(execs=0,ops=0,checks=0,states=0,outcomes=0,maxdepth=0,per={},notes={},samples=[],capped=False,known={})
    for r in done:
        try: s=json.load(open(r['base']+'.json'))
        except Exception as e: print('ERROR: no stats from %s'%r['base']); sys.exit(2)
        for k in ('execs','ops','checks','states','outcomes'): agg[k]+=s[k]
        agg['maxdepth']=max(agg['maxdepth'],s['maxdepth']); agg['capped']|=s['capped']
        for k in ('per','notes'):
            for n,v in s[k].items(): agg[k][r['j']['name']+':'+n]=agg[k].get(r['j']['name']+':'+n,0)+v
        agg['known'].update(s.get('known',{}))
        for x in s['samples']:
            if x not in agg['samples'] and len(agg['samples'])<10: agg['samples'].append(x)
    viol=[]
    for r,why in fails[:1]:
        log=open(r['base']+'.log',errors='replace').read(); scn,ex,ch=read_trail(r['base']+'.trail'); msg=why
        st=None
        try: st=json.load(open(r['base']+'.json'))
        except Exception: pass
        if st and 'fail' in st: msg=st['fail']; scn=st['scenario']; ch=[int(x) for x in st['choices'].split(',') if x]
        elif why=='exit status 4': print('ERROR: harness error\n'+log[-3000:]); sys.exit(2)
        else: msg=why+': '+' / '.join([l for l in log.splitlines() if re.search(r'ERROR|runtime error|Assert|assert|SUMMARY|terminate|MCFAIL',l)][:4])[:1500]
        # replay before reporting
        cmd=[bins[r['j']['name']],'--tier',tier,'--scenario',scn,'--replay',','.join(map(str,ch))]
        hang=why.startswith('hang')
        try: rr=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',env=ENV,cwd=work,timeout=max(180,stall+60)); ok=rr.returncode!=0
        except subprocess.TimeoutExpired: ok=True
        whole=False
        if not ok: # depends on what the process did before (e.g. recycled memory): run the shard again
            try: rr=subprocess.run(r['cmd'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',env=ENV,cwd=work,timeout=cap+60); ok=rr.returncode not in (0,4)
            except subprocess.TimeoutExpired: ok=True
            whole=ok
        if not ok:
            print('ERROR: failure did not replay: %s scenario=%s choices=%s\n%s'%(msg,scn,ch,log[-2000:])); sys.exit(2)
        rd=os.path.join(OUT,'replays'); os.makedirs(rd,exist_ok=True)
        rp=os.path.join(rd,'%s_%s.json'%(pid,r['j']['name']))
        json.dump(dict(property=pid,job=r['j']['name'],scenario=scn,choices=ch,tier=tier,shard=('%d/%d'%(r['i'],r['j'].get('shards',NPROC)) if whole else None),message=msg,log=log[-3000:],how='python3 lib/vc.py replay '+rp),open(rp,'w'),indent=1)
        viol.append((rp,msg,scn,ch))
    wall=time.time()-t0
    os.makedirs(OUT+'/evidence',exist_ok=True)
    ev=dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level=P['level'],wall_s=round(wall,2),violations=len(viol),assumptions=P['assumptions'],
      coverage=dict(states=agg['states'],transitions=agg['ops'],traces_validated_against_impl=agg['execs'],evaluations=agg['checks'],distinct_nontrivial=agg['outcomes'],
        violation_details=[dict(replay=v[0],message=v[1],scenario=v[2]) for v in viol],exhaustive=not agg['capped'] and not viol,max_choice_depth=agg['maxdepth'],per_scenario=agg['per'],notes=agg['notes'],rule=P['rule'],bounds=P['bounds'][tier] if isinstance(P['bounds'],dict) else P['bounds'],samples=agg['samples'] or ['(none)'],build_s=round(tb,1)))
    ev=P.get('fix_evidence',lambda e,a:e)(ev,agg)
    json.dump(ev,open(OUT+'/evidence/%s.json'%pid,'w'),indent=1)
    shutil.rmtree(work,ignore_errors=True)
    for k,v in sorted(agg['known'].items()): print('KNOWN-FINDING: property=%s %s'%(pid,v))
    print('%s %s: executions=%d ops=%d checks=%d states=%d outcomes=%d capped=%s build=%.1fs wall=%.1fs'%(pid,tier,agg['execs'],agg['ops'],agg['checks'],agg['states'],agg['outcomes'],agg['capped'],tb,wall))
    if os.environ.get('VC_VERBOSE'): print(json.dumps(agg['per'],indent=1),json.dumps(agg['notes'],indent=1))
    if viol:
        v=viol[0]; print('  '+v[1]); print('  scenario=%s choices=%s'%(v[2],str(v[3])[:400])); print('VIOLATION property=%s replay=%s'%(pid,v[0])); return 1
    return 0
def main_replay(f):
    d=json.load(open(f)); P=PROPS[d['property']]; tree=prepare(); jobs=[j for j in P['jobs'] if j['name']==d['job']]; bins=build(tree,jobs)
    if d.get('shard'): return subprocess.run([bins[d['job']],'--tier',d['tier'],'--shard',d['shard']],env=ENV).returncode
    return subprocess.run([bins[d['job']],'--tier',d['tier'],'--scenario',d['scenario'],'--replay',','.join(map(str,d['choices']))],env=ENV).returncode
if __name__=='__main__':
    if sys.argv[1]=='check': sys.exit(main_check(sys.argv[2],sys.argv[3] if len(sys.argv)>3 else os.environ.get('VERIF_TIER','quick')))
    if sys.argv[1]=='replay': sys.exit(main_replay(sys.argv[2]))
    if sys.argv[1]=='build':
        tree=prepare(); 
        for p in (sys.argv[2:] or sorted(PROPS)): build(tree,PROPS[p]['jobs']); print('built',p)

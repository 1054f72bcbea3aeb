#!/usr/bin/env python3
"""summary of /tmp/cov: per repo file, lines instantiated in some harness but never executed, and files never reached"""
import json,glob,os,sys
cov={}
for g in glob.glob('/tmp/cov/*.cov.json'):
    for f,d in json.load(open(g)).items():
        e=cov.setdefault(f,{})
        for l,n in d.items(): e[int(l)]=max(e.get(int(l),0),n)
if len(sys.argv)>1:
    for f in sys.argv[1:]:
        L=open('/repo/'+f,encoding='latin-1').read().split('\n')
        for l,n in sorted(cov.get(f,{}).items()):
            if n==0: print(l,L[l-1].rstrip()[:110])
else:
    for r,ds,fs in os.walk('/repo/nntl'):
        for x in sorted(fs):
            f=os.path.relpath(r+'/'+x,'/repo'); c=cov.get(f); n=sum(1 for _ in open('/repo/'+f,errors='replace'))
            print('%-55s %5d lines  '%(f,n)+('NOT REACHED' if c is None else 'inst %d uncovered %d'%(len(c),sum(1 for v in c.values() if v==0))))

import json,glob,re,sys
cov={}
for g in glob.glob('/tmp/cov/*.cov.json'):
    for f,d in json.load(open(g)).items():
        cov.setdefault(f,set()).update(int(l) for l in d)
for f in sorted(x for x in cov if x.startswith('nntl/')):
    s=open('/repo/'+f,encoding='latin-1').read(); s2=re.sub(r'/\*.*?\*/',lambda m:'\n'*m.group(0).count('\n'),s,flags=re.S); L=s2.split('\n'); out=[]
    for i,l in enumerate(L,1):
        c=l.split('//')[0]
        if 'NNTL_' in c: continue
        if re.search(r'noexcept',c) and '(' in c and ';' not in c.split('{')[0] and '= delete' not in c:
            # find the opening brace
            j=i
            while j<=len(L) and '{' not in L[j-1] and j<i+6: j+=1
            if not any(k in cov[f] for k in range(i,j+2)): out.append((i,c.strip()[:100]))
    if out:
        print(f,len(out))
        if len(sys.argv)>1 and any(a in f for a in sys.argv[1:]):
            for o in out: print('   ',*o)

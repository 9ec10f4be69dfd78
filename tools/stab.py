#!/usr/bin/env python3
# stab.py DUMPDIR: proof stability: each dumped query again with other seeds and its assertions shuffled
import sys,os,re,random,subprocess,concurrent.futures as cf
d=sys.argv[1]; n=int(sys.argv[2]) if len(sys.argv)>2 else 3
def sexps(t):
    out=[];depth=0;st=None;i=0
    while i<len(t):
        c=t[i]
        if c==';':
            while i<len(t) and t[i]!='\n': i+=1
        elif c=='|':
            i=t.index('|',i+1)
        elif c=='"':
            i=t.index('"',i+1)
        elif c=='(':
            if depth==0: st=i
            depth+=1
        elif c==')':
            depth-=1
            if depth==0: out.append(t[st:i+1])
        i+=1
    return out
def run(f,k):
    t=open(f).read(); rnd=random.Random(k)
    ss=sexps(t)
    idx=[i for i,s in enumerate(ss) if s.startswith('(assert')]
    if k: 
        a=[ss[i] for i in idx]
        # asserts may be interleaved with declarations: move them all to the end
        ss=[s for s in ss if not s.startswith('(assert') and not s.startswith('(check-sat')]
        rnd.shuffle(a); ss=ss+a+['(check-sat)']
    r=subprocess.run(['z3','-in','-T:5','auto_config=false','smt.mbqi=false','smt.random_seed=%d'%k],input='\n'.join(ss),capture_output=True,text=True).stdout
    return r.split('\n')[0] if 'error' not in r else r[:200]
fs=sorted(os.path.join(d,f) for f in os.listdir(d))
jobs=[(f,k) for f in fs for k in range(n+1)]
res={}
with cf.ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex:
    for (f,k),r in zip(jobs,ex.map(lambda a:run(*a),jobs)): res.setdefault(f,[]).append(r)
for f,r in res.items():
    head=open(f).readline().strip()
    if r[0]=='unsat' and any(x!='unsat' for x in r): print(sum(x=='unsat' for x in r),'of',len(r),os.path.basename(f),head[:200])
    elif 'unsat' in r and r[0]!='unsat': print('base',r[0],sum(x=='unsat' for x in r),'of',len(r),os.path.basename(f),head[:200])

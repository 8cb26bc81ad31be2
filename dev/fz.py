import sys,time; sys.path.insert(0,'/verif')
from sa import ir,eq
P=ir.load()
t=time.time(); R=eq.load_ref(); print(time.time()-t)
pr=eq.Pair(R,P); t=time.time(); print(len(pr.heads()),time.time()-t)
import collections
c=collections.Counter()
for k,f in P.fns.items():
    if eq.skip(f): continue
    f['_canon']=k  # force full compare
    t1=time.time(); v,sl,info=pr.compare(k); t1=time.time()-t1; t1>5 and print('slow',k[:70],round(t1,1),flush=True); c[v,info['why'][:60]]+=1
    if v!='equal': print(k[:80],v,info,[(s,[eq.describe(x) for x in d][:2]) for s,d,_ in sl[:2]])
print(c,time.time()-t)

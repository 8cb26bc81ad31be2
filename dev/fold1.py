"""usage: fold1.py FN-PREFIX TRANSFORM SEED SLOT: prints the folds of a slot on both sides after one rewrite"""
import sys; sys.path.insert(0,'/verif/dev'); sys.path.insert(0,'/verif')
import refac, random, copy
from sa import eq, sem, term as TM, cmp as CM
refac.init(); P,pr=refac.G
ks=[k for k in P.fns if sys.argv[1] in k and not eq.skip(P.fns[k])]; k=ks[-1]
rng=random.Random(int(sys.argv[3])); g=copy.deepcopy(P.fns[k]); g.pop('_canon',None); new=[]
refac.T[sys.argv[2]](g,rng,new)
pr.set_current(refac.Over(P,k,g,new))
TM.reset()
for _ in range(3):
    rs,RI,_=sem.summarize(pr.R,pr.E,pr.R.fns[k],pr.known,keep=True)
    cs,CI,_=sem.summarize(pr.P,pr.E,g,pr.known,keep=True)

for nm,s in (("REF",rs),("CUR",cs)):
    t=s[sys.argv[4]]
    fs=[x for x in CM.subterms(t) if x.op=="fold"]
    print(nm,len(fs))
    for f in fs:
        if len(sys.argv)>5 and sys.argv[5]=='p': print(CM.show(f)[:1500] if hasattr(CM,'show') else f)
        else:
            print("  FOLD",TM.show(f.a[0],3)[:300] if hasattr(TM,'show') else f.a[0])
            for (i,n),x in zip(f.a[2],f.a[3]): pass
            for j,(i,n) in enumerate(f.a[2]): print("   ",j,str(i)[:150],'->',TM.pp(n,30)[:1500])
            print("   x:",[str(x)[:200] for x in f.a[3]])
import os
if os.environ.get("INNER"):
    A=[x for x in CM.subterms(rs[sys.argv[4]]) if x.op=="fold"]; B=[x for x in CM.subterms(cs[sys.argv[4]]) if x.op=="fold"]
    sA,sB=set(A),set(B)
    dA=[x for x in A if x not in sB]; dB=[x for x in B if x not in sA]
    small=lambda L:[x for x in L if not any(y in L and y is not x for y in CM.subterms(x))]
    print("@@ differing",len(dA),len(dB))
    for nm,L in (("R",small(dA)),("C",small(dB))):
        for x in L[:2]:
            print("@@",nm,TM.foldlevel(x),"tied" if x in TM.TIED else "", TM.TIED.get(x))
            for j,(i,n) in enumerate(x.a[2]): print("@@    ",j,TM.pp(i,3)[:60],"->",TM.pp(n,4)[:150], sorted(str(v) for v in TM.leaves(n)))

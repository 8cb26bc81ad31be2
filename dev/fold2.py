"""usage: fold2.py FN-PREFIX TRANSFORM SEED: first fold whose colours differ between both sides after a rewrite that should not matter"""
import sys; sys.path.insert(0,'/verif/dev'); sys.path.insert(0,'/verif')
import refac, random, copy
from sa import eq, sem, term as TM, cmp as CM
refac.init(); P,pr=refac.G
k=[k for k in P.fns if sys.argv[1] in k and not eq.skip(P.fns[k])][-1]
rng=random.Random(int(sys.argv[3])); g=copy.deepcopy(P.fns[k]); g.pop('_canon',None); new=[]
refac.T[sys.argv[2]](g,rng,new)
pr.set_current(refac.Over(P,k,g,new))
TM.reset()
for _ in range(3):
    rs,RI,_=sem.summarize(pr.R,pr.E,pr.R.fns[k],pr.known,keep=True)
    cs,CI,_=sem.summarize(pr.P,pr.E,g,pr.known,keep=True)
logs=[]
for nm,Q,f in (("R",pr.R,pr.R.fns[k]),("C",pr.P,g)):
    log=[]
    old=sem.TM.canon_fold
    def cf(dom,unt,prs,xn,lev,mat=False,hints=None):
        r=old(dom,unt,prs,xn,lev,mat=mat,hints=hints)
        log.append((lev,[(h,TM.skelb(i),TM.skelb(n)) for h,(i,n) in zip(hints or [b""]*len(prs),prs)],prs,r))
        return r
    TM.canon_fold=cf; sem.canon_fold=cf
    sem.summarize(Q,pr.E,f,pr.known,keep=True)
    TM.canon_fold=old; sem.canon_fold=old
    logs.append(log)
A,B=logs
print(len(A),len(B))
for a,b in zip(A,B):
    if sorted(a[1])!=sorted(b[1]):
        print("level",a[0],b[0],len(a[1]),len(b[1]))
        da={x[0]:x for x in a[1]}; db={x[0]:x for x in b[1]}
        for (h,i,n),(pi,pn) in zip(a[1],a[2]):
            for (h2,i2,n2),(qi,qn) in zip(b[1],b[2]):
                if h==h2 and (i,n)!=(i2,n2):
                    print(h,"init same",i==i2,"next same",n==n2)
                    # descend
                    x,y=(pn,qn) if n!=n2 else (pi,qi)
                    while True:
                        nx=None
                        fx=[z for z in TM.flat(x.a)]; fy=[z for z in TM.flat(y.a)]
                        if x.op==y.op and len(fx)==len(fy) and x.op not in ("poly","and","or"):
                            bad=[(p,q) for p,q in zip(fx,fy) if TM.skelb(p)!=TM.skelb(q)]
                            if len(bad)>=1: nx=bad[0]
                        if nx is None: break
                        x,y=nx
                    print("  R",x.op,x in TM.INTEG,y in TM.INTEG,TM.pp(x,6)[:400]); print("  C",TM.pp(y,6)[:400]); 
        break
else: print("no colour difference")

"""usage: ref1.py FN-PREFIX TRANSFORM [tries]: repeats one rewrite and prints verdict details"""
import sys; sys.path.insert(0,'/verif/dev'); sys.path.insert(0,'/verif')
import refac, random, copy
from sa import eq
refac.init(); P,pr=refac.G
ks=[k for k in P.fns if sys.argv[1] in k and not eq.skip(P.fns[k])]
for k in ks:
    for s in range(int(sys.argv[3]) if len(sys.argv)>3 else 5):
        rng=random.Random(s); g=copy.deepcopy(P.fns[k]); g.pop('_canon',None); new=[]
        if not refac.T[sys.argv[2]](g,rng,new): break
        pr.set_current(refac.Over(P,k,g,new))
        v,sl,info=pr.compare(k)
        print(k[:70],s,v,info.get('why','')[:150])
        if v!='equal':
            for s_,d,l in sl[:3]:
                print('   ',s_,l)
                for x in d[:3]: print('      ',eq.describe(x)[:700])

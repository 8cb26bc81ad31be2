"""usage: sum1.py FN-SUBSTR [slot]: prints the summary of a function"""
import sys; sys.path.insert(0,'/verif')
from sa import ir, eq, sem, term as TM
P=ir.load(); E=None
from sa import effects
pr=eq.Pair(eq.load_ref(),P)
E=pr.E
ks=[k for k in P.fns if sys.argv[1] in k and not eq.skip(P.fns[k])]
for k in ks[:int(sys.argv[3]) if len(sys.argv)>3 else 3]:
    s,I,o=sem.summarize(P,E,P.fns[k],pr.known,keep=True)
    print("##",k, o if not isinstance(o,dict) else '')
    for sl,t in s.items():
        if len(sys.argv)>2 and sys.argv[2] and sys.argv[2] not in str(sl): continue
        print("  ",sl,'=',(TM.pp(t,12) if isinstance(t,TM.T) else str(t))[:1500])

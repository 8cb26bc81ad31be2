import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import ir, rules
P=ir.load()
for r in sys.argv[1:]:
    R=getattr(rules,'rule_'+r)(P,None,'X','quick')
    print(r,'instances',R.n,'violations',len(R.viol))
    for w,x in R.viol[:80]: print('  ',w,x[:200])
    print('  samples',R.samples[:3])

"""terms.py FN_SUFFIX : python -i like helper; exec code on `s` (summary of function) from stdin"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import ir, sem, term as TM, eq as EQ
from sa.term import *
P=ir.load(); pair=EQ.Pair(EQ.load_ref(),P)
k=[k for k in P.fns if P.fns[k]['n'].endswith(sys.argv[1])][0]
pair.heads()
s,I_,_=sem.summarize(P,pair.E,P.fns[k],pair.known,keep=True)
exec(sys.stdin.read())

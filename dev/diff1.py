"""usage: diff1.py PATCH FUNCTION_SUFFIX   verdict of one function with a patch applied (on /repo, undone at once)"""
import sys, subprocess
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
subprocess.check_call(["git","-C","/repo","apply",sys.argv[1]])
try:
    from sa import ir, eq
    P=ir.load()
finally:
    subprocess.check_call(["git","-C","/repo","checkout","-q","--","."])
R=eq.load_ref(); pair=eq.Pair(R,P)
for k in R.fns:
    if R.fns[k]['n'].endswith(sys.argv[2]):
        v,s,i=pair.compare(k,30000,60)
        print(k[:90],v,i)
        for a,d,l in s: print('  ',a,l,[eq.describe(x)[:300] for x in d][:3])

"""usage: diff2.py PATCH FUNCTION_SUFFIX   every slot and every difference, hard ones marked"""
import sys, subprocess
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
subprocess.check_call(["git","-C","/repo","apply",sys.argv[1]])
try:
    from sa import ir, eq
    P=ir.load()
finally:
    subprocess.check_call(["git","-C","/repo","checkout","-q","--","."])
R=eq.load_ref(); pair=eq.Pair(R,P)
for k in R.fns:
    if R.fns[k]['n'].endswith(sys.argv[2]):
        v,s,i=pair.compare(k,30000,60)
        print(k[:90],v,i['why'])
        for a,d,l in s:
            print('  ',a,l, len(d), 'HARD' if all(x.hard for x in d) else '')
            for x in d[:4]: print('      ',x.hard,eq.describe(x)[:240])

"""usage: cover.py [filter] [kinds]: which single-statement deletions (or other single edits) leave a function's summary untouched?
These are the places the comparison cannot see.  Prints function, line, source text."""
import sys, copy, random, multiprocessing as mp, time
sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/dev')
import mutate as M
from sa import ir, eq, sem, term as TM
KINDS=set((sys.argv[2] if len(sys.argv)>2 else "del").split(","))
def isassert(o):
    s=str(o)[:4000]
    return "__assert_fail" in s and o.get("k")=="expr" or "posix_time" in s and len(s)<900
def work(k):
    P,pr=M.G; f=P.fns[k]; out=[]
    try:
        TM.reset(); base,_,_=sem.summarize(P,pr.E,f,pr.known,keep=True)
    except Exception as ex: return [(k,0,"summary fails: "+repr(ex)[:80],"")]
    t0=time.time()
    rng=random.Random(1); types={}
    for x in ir.walk(f):
        if x.get("k")=="var" and x.get("id") is not None:
            L=types.setdefault(x.get("t"),[])
            if (x["id"],x["n"]) not in L: L.append((x["id"],x["n"]))
    for s in M.sites(f,P):
        kd=s[1] if isinstance(s[1],str) else s[1][0]
        if kd not in KINDS: continue
        o=M.get(f,s[0])
        if kd=="del" and isassert(o): continue
        if time.time()-t0>600: out.append((k,0,"time","")); break
        m=M.mutate(f,s,rng,types)
        if not m: continue
        g,what,l=m
        try: cur,_,_=sem.summarize(M.Over(P,k,g),pr.E,g,pr.known,keep=True)
        except Exception: continue
        if cur.keys()==base.keys() and all(cur[x] is base[x] for x in cur): out.append((k,l,what,f.get("f","")))
    return out
if __name__=="__main__":
    P=eq.load_ref(); pr=eq.Pair(P,P); M.G=(P,pr)
    flt=sys.argv[1] if len(sys.argv)>1 else ""
    ks=[k for k in P.fns if flt in k and not eq.skip(P.fns[k])]
    sys.setrecursionlimit(20000)
    import threading
    with mp.Pool(7) as p:
        for r in p.imap_unordered(work,sorted(ks,key=lambda k:-len(str(P.fns[k])))):
            for k,l,what,fl in r:
                try: src=open(fl if fl.startswith('/') else '/repo/'+fl).read().split('\n')[l-1].strip()[:110]
                except Exception: src='?'
                print(k.split('(')[0].replace('ov_',''),l,what,'|',src,flush=True)

"""usage: (inside the batch namespace) loc.py EDITS ids -> local comparison result per changed function"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BATCH_W", "/tmp/batch")
if not os.environ.get("BATCH_NS"):
    subprocess.run(f"git -C {W}/repo fetch -q /repo && git -C {W}/repo reset -q --hard FETCH_HEAD", shell=True)
    env = dict(os.environ, BATCH_NS="1", OVSA_DEBUG="1", OVSA_BUILD=W + "/build")
    sys.exit(subprocess.call(["unshare", "-Urm", "bash", "-c", f"mount --bind {W}/repo /repo && exec python3 {' '.join([os.path.abspath(__file__)] + sys.argv[1:])}"], env=env))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import ir, eq, local, term as TM
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
groups = {}
for i, f, a, b in ns["E"]:
    if not want or i in want:
        groups.setdefault(i, []).append((f, a, b))
R = eq.load_ref()
import time
if os.environ.get("DBG"): exec(open("/tmp/dbg.py").read())
for i, ed in groups.items():
    subprocess.run("git -C /repo checkout -q -- .", shell=True)
    for f, a, b in ed:
        p = "/repo/" + f
        s = open(p).read()
        if s.count(a) < 1:
            print("NOT FOUND", i)
        open(p, "w").write(s.replace(a, b, 1))
    P = ir.load()
    pair = eq.Pair(R, P)
    pair.heads()
    print("##", i, flush=True)
    for k in sorted(P.fns):
        if k not in R.fns or eq.skip(P.fns[k]) or eq.same_ir(R.fns[k], P.fns[k]):
            continue
        t = time.time()
        TM.reset()
        r = local.compare(pair, R.fns[k], P.fns[k])
        if os.environ.get("HUNKS"):
            for h in local.hunks(R.fns[k], P.fns[k]).hunks:
                print("   HUNK", h.kind, [h.r[1], h.r[2], h.c[1], h.c[2], [x["k"] + str(x.get("l", eq.line(x))) for x in h.r[0]["b"][h.r[1]:h.r[2]]], [x["k"] + str(x.get("l", eq.line(x))) for x in h.c[0]["b"][h.c[1]:h.c[2]]]] if h.kind == "b" else (eq.line(h.r), eq.line(h.c)))
        if r is None:
            d = local.hunks(R.fns[k], P.fns[k])
            print("  NONE", P.fns[k]["n"], d and [(h.kind, h.hit and h.hit[0]) for h in d.hunks], "%.1fs" % (time.time() - t))
            continue
        v, d, hs = r
        print("  ", v.upper(), P.fns[k]["n"], [h.kind for h in hs], "%.1fs" % (time.time() - t))
        for s, ds in d[:3]:
            print("      ", s, eq.describe(ds[0])[:200])
subprocess.run("git -C /repo checkout -q -- .", shell=True)

"""usage: batch.py EDITS.py [all|each] [id...]   verdicts for hand-written source edits, in a scratch copy seen as /repo
EDITS.py defines E = [(id, file, old, new), ...]; same id = one change. Prints every function whose verdict is not equal."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BATCH_W", "/tmp/batch")
if not os.environ.get("BATCH_NS"):
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + "/repo"):
        subprocess.run(f"git clone -q /repo {W}/repo", shell=True)
    subprocess.run(f"git -C {W}/repo fetch -q /repo && git -C {W}/repo reset -q --hard FETCH_HEAD", shell=True)
    if not os.path.isdir(W + "/build"):
        subprocess.run(f"cp -a {HERE}/build {W}/build", shell=True)
    env = dict(os.environ, BATCH_NS="1", OVSA_DEBUG="1", OVSA_BUILD=W + "/build")
    sys.exit(subprocess.call(["unshare", "-Urm", "bash", "-c", f"mount --bind {W}/repo /repo && exec python3 {' '.join([os.path.abspath(__file__)] + sys.argv[1:])}"], env=env))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa import ir, eq, rules
ns = {}
exec(open(sys.argv[1]).read(), ns)
mode = sys.argv[2] if len(sys.argv) > 2 else "each"
want = sys.argv[3:]
groups = {}
for i, f, a, b in ns["E"]:
    if not want or i in want:
        groups.setdefault(i, []).append((f, a, b))


def apply(edits):
    for f, a, b in edits:
        p = "/repo/" + f
        s = open(p).read()
        if s.count(a) < 1:
            print("  NOT FOUND in", f, repr(a[:60]))
            continue
        if s.count(a) > 1:
            print("  AMBIGUOUS", f, repr(a[:60]), s.count(a))
        open(p, "w").write(s.replace(a, b, 1))


def judge():
    P = ir.load()
    errs = [x for x in P.diags if str(x[2]).startswith("err")] if hasattr(P, "diags") else []
    for x in errs[:3]:
        print("  DIAG", x)
    pair = eq.Pair(R, P)
    n = 0
    for k in sorted(set(P.fns) | set(R.fns)):
        f = P.fns.get(k) or R.fns[k]
        if eq.skip(f):
            continue
        if k not in R.fns:
            continue
        v, sl, info = pair.compare(k, 30000, 60)
        if v != "equal":
            n += 1
            print(f"  {v.upper()} {f['n']} {info.get('why', '')[:150]}")
            if os.environ.get("SHOW"):
                from sa import sem
                from sa.term import pp
                for Q, E_ in ((pair.R, pair.E), (pair.P, pair.E)):
                    for s, t in sem.summarize(Q, E_, (pair.R if Q is pair.R else pair.P).fns[k], pair.known, keep=True)[0].items():
                        if os.environ["SHOW"] in s:
                            print("   >>", s, pp(t, int(os.environ.get("DEPTH", "12")))[:int(os.environ.get("LEN", "1500"))])
            for s, d, _ in sl[:2]:
                for x in [d_ for d_ in d if v == "unknown" and not d_.hard][:2] or d[:1]:
                    print("       ", s, "HARD" if x.hard else "soft", eq.describe(x)[:260])
        elif info.get("why") != "identical":
            n += 1
            print(f"  equal {f['n']}")
    for r in [x[5:] for x in dir(rules) if x.startswith("rule_")]:
        res = getattr(rules, "rule_" + r)(P, pair, "X", "quick")
        base = BASE.get(r)
        if base is not None:
            for w in res.viol:
                if w[1] not in {y for _, y in base}:
                    print("  RULE", r, w[0], w[1][:150])
        else:
            BASE[r] = res.viol


R = eq.load_ref()
BASE = {}
P0 = ir.load()
pair0 = eq.Pair(R, P0)
for r in [x[5:] for x in dir(rules) if x.startswith("rule_")]:
    BASE[r] = getattr(rules, "rule_" + r)(P0, pair0, "X", "quick").viol
for i, ed in ([("all", sum(groups.values(), []))] if mode == "all" else groups.items()):
    print("##", i, flush=True)
    apply(ed)
    try:
        judge()
    except ir.AnalysisBroken as ex:
        print("  BROKEN", str(ex)[:300])
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)

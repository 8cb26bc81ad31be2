"""IR-level mutation run (development aid, not a check): how many single-edit changes does the comparison tell apart?
usage: mutate.py [N per function] [name filter] [seed]"""
import sys, copy, random, time, collections, multiprocessing as mp
sys.path.insert(0, '/verif')
from sa import ir, eq
NEG = {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="]}
AR = {"+": "-", "-": "+", "*": "/", "/": "*", "+=": "-=", "-=": "+=", "*=": "/=", "/=": "*="}
QUIET = {"printf", "ov_core::Printer::debugPrint", "print_and_load", "operator<<"}


def sites(f, P):
    out = []

    def go(o, path, inprint):
        if isinstance(o, list):
            for i, x in enumerate(o):
                go(x, path + [i], inprint)
                if isinstance(x, dict) and path and path[-1] == "b" and x.get("k") in ("expr", "if", "for", "rfor", "while", "continue", "break", "ret"):
                    if not quiet(x):
                        if x["k"] != "ret" or (not x.get("e")):
                            out.append((path + [i], "del"))
                        if i + 1 < len(o) and isinstance(o[i + 1], dict) and o[i + 1].get("k") in ("expr", "if", "for") and not quiet(o[i + 1]):
                            out.append((path + [i], "swap"))
            return
        if not isinstance(o, dict):
            return
        if quiet(o):
            return
        k = o.get("k")
        if k == "int" and o.get("l") and "v" in o:
            out.append((path, "int"))
        elif k == "flt" and "v" in o:
            out.append((path, "flt"))
        elif k == "bool":
            out.append((path, "bool"))
        elif k in ("bin", "op"):
            op = o.get("op")
            if op in NEG:
                out.append((path, "rel")); 
            if op in AR and (k == "op" and len(o["a"]) == 2 or k == "bin"):
                out.append((path, "ar"))
            if op in ("&&", "||"):
                out.append((path, "logic")); out.append((path, "dropc"))
        elif k == "un" and o.get("op") in ("-", "!"):
            out.append((path, "unneg"))
        elif k == "mem":
            cl = P.classes.get(o.get("c"))
            if cl:
                alt = [x["n"] for x in cl["fields"] if x["t"] == o.get("t") and x["n"] != o["n"]]
                if alt:
                    out.append((path, ("field", tuple(alt))))
        elif k == "call":
            a = o.get("a", [])
            for i in range(len(a) - 1):
                if a[i].get("t") and a[i].get("t") == a[i + 1].get("t") and a[i] != a[i + 1]:
                    out.append((path, ("args", i)))
            if o.get("fn", "").endswith("::transpose"):
                out.append((path, "untr"))
        elif k == "var" and o.get("id") is not None:
            out.append((path, "var"))
        elif k in ("if",):
            out.append((path, "ifneg"))
        elif k == "expr" and False:
            pass
        for kk, v in o.items():
            if isinstance(v, (dict, list)):
                go(v, path + [kk], inprint)
    go(f["body"], ["body"], False)
    for i, x in enumerate(f.get("inits", [])):
        go(x, ["inits", i], False)
    return out


def quiet(o):
    if o.get("k") == "expr":
        o = o.get("e") or {}
    if o.get("k") in ("call",) and (o.get("fn", "").startswith("ov_core::Printer") or o.get("fn", "") == "printf"):
        return True
    if o.get("k") == "op" and o.get("op") == "<<" and "ostream" in o.get("t", "") + o.get("fn", ""):
        return True
    return False


def get(f, path):
    for p in path:
        f = f[p]
    return f


def put(f, path, v):
    get(f, path[:-1])[path[-1]] = v


def mutate(f, site, rng, types):
    path, kind = site
    g = copy.deepcopy(f)
    g.pop("_canon", None)
    o = get(g, path)
    l = o.get("l")
    what = str(kind)
    if kind == "del":
        put(g, path, {"k": "block", "b": [], "l": l})
        what = "del " + o["k"]
    elif kind == "swap":
        L = get(g, path[:-1]); i = path[-1]
        L[i], L[i + 1] = L[i + 1], L[i]
    elif kind == "int":
        o["v"] = o["v"] + rng.choice([1, -1])
        what = "int->%d" % o["v"]
    elif kind == "flt":
        v = float(o["v"]); o["v"] = repr(v * 2 if v else 1.0) if isinstance(o["v"], str) else (v * 2 if v else 1.0)
    elif kind == "bool":
        o["v"] = not o["v"]
    elif kind == "rel":
        n = rng.choice(NEG[o["op"]]); what = o["op"] + "->" + n; o["op"] = n
        if "fn" in o: o["fn"] = o["fn"]
    elif kind == "ar":
        what = o["op"] + "->" + AR[o["op"]]; o["op"] = AR[o["op"]]
    elif kind == "logic":
        o["op"] = "||" if o["op"] == "&&" else "&&"
    elif kind == "dropc":
        put(g, path, o["a"] if isinstance(o.get("a"), dict) else o["a"][0]) if rng.random() < .5 else put(g, path, o["b"] if "b" in o else o["a"][1])
    elif kind == "unneg":
        e = o.get("e") or o.get("a")
        if isinstance(e, list): e = e[0]
        put(g, path, e)
    elif kind == "untr":
        put(g, path, o["o"])
    elif kind == "ifneg":
        o["c"] = {"k": "un", "op": "!", "e": o["c"], "t": "bool", "l": l}
    elif kind == "var":
        alt = [v for v in types.get(o.get("t"), []) if v[0] != o["id"]]
        if not alt: return None
        v = rng.choice(alt); what = "var %s->%s" % (o["n"], v[1]); o["id"], o["n"] = v
    elif kind[0] == "field":
        n = rng.choice(kind[1]); what = "field %s->%s" % (o["n"], n); o["n"] = n
    elif kind[0] == "args":
        i = kind[1]; a = o["a"]; a[i], a[i + 1] = a[i + 1], a[i]
        what = "swap args of " + o.get("fn", "")
    return g, what, l


class Over:
    def __init__(self, P, k, g):
        self.__dict__.update(P.__dict__)
        self.fns = dict(P.fns); self.fns[k] = g
        self.by_name = {}
        for kk, f in self.fns.items():
            self.by_name.setdefault(f["n"], []).append(f)
        self._P = P

    def __getattr__(self, n):
        return getattr(self._P, n)


def un_key(o):
    return o


def work(args):
    k, n, seed = args
    P, pr = G
    rng = random.Random(hash((k, seed)) & 0xffff if False else sum(map(ord, k)) + seed)
    f = P.fns[k]
    types = collections.defaultdict(list)
    for x in ir.walk(f):
        if x.get("k") == "var" and x.get("id") is not None and (x["id"], x["n"]) not in types[x.get("t")]:
            types[x["t"]].append((x["id"], x["n"]))
    st = sites(f, P)
    # balanced over kinds
    by = collections.defaultdict(list)
    for s in st:
        by[s[1] if isinstance(s[1], str) else s[1][0]].append(s)
    out = []
    pick = []
    kinds = list(by)
    for i in range(n * 3):
        if not kinds or len(pick) >= n: break
        kd = rng.choice(kinds)
        s = rng.choice(by[kd])
        if s not in pick: pick.append(s)
    for s in pick:
        m = mutate(f, s, rng, types)
        if not m: continue
        g, what, l = m
        pr.P = Over(P, k, g)
        t = time.time()
        try:
            v, sl, info = pr.compare(k)
        except Exception as ex:
            import traceback
            v, sl, info = "crash", [], {"why": repr(ex) + traceback.format_exc()[-300:]}
        out.append((k, what, l, v, info.get("why", "")[:200], time.time() - t, [(s_, eq.describe(d[0])[:300]) for s_, d, _ in sl[:1]]))
    return out


if __name__ == "__main__":
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    P = ir.load(); R = eq.load_ref(); pr = eq.Pair(R, P); pr.heads()
    G = (P, pr)
    ks = [(k, N, seed) for k, f in P.fns.items() if not eq.skip(f) and flt in k]
    c = collections.Counter(); kc = collections.defaultdict(collections.Counter); fc = collections.defaultdict(collections.Counter)
    with mp.Pool(8) as pool, open("/tmp/mut.txt", "w") as fo:
        for res in pool.imap_unordered(work, ks):
            for r in res:
                c[r[3]] += 1
                kk = r[1].split()[0]; kc[kk][r[3]] += 1; fc[r[0]][r[3]] += 1
                fo.write(repr(r) + "\n"); fo.flush()
    print(c)
    for k, v in sorted(kc.items(), key=lambda x: -sum(x[1].values())): print(k, dict(v))

"""IR-level behaviour-preserving rewrites (development aid, not a check): every "different" verdict here is a false alarm.
usage: refac.py [N per function] [name filter] [seed] [stack depth] [transform names,...]"""
import sys, copy, random, time, collections, re, multiprocessing as mp
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/dev')
from sa import ir, eq

NEXT = [10 ** 7]
SCAL = {"int", "double", "float", "bool", "unsigned long", "unsigned int", "long", "size_t"}
JUMP = ("ret", "break", "continue")
PUREFN = re.compile(r"^(Eigen::|std::(abs|sqrt|pow|sin|cos|tan|atan|atan2|acos|asin|min|max|floor|ceil|round|isnan|isinf|exp|log)$|std::(vector|map|unordered_map|set|deque|basic_string|shared_ptr|pair|__shared_ptr_access|__shared_ptr)::)|sin$|cos$|sqrt$|pow$|abs$|fabs$|ov_core::(skew_x|exp_so3|log_so3|quat_2_Rot|rot_2_quat|quat_multiply|Jl_so3|Jr_so3|Inv|Omega)$")
IMPURE = {"operator[]", "push_back", "insert", "erase", "clear", "resize", "emplace_back", "emplace", "reserve", "pop_back", "pop_front", "push_front", "operator=", "operator+=", "operator-=", "operator*=", "operator/=", "setZero", "setIdentity", "reset", "swap", "noalias", "conservativeResize"}


def fresh():
    NEXT[0] += 1
    return NEXT[0]


def strip(t):
    t = t or ""
    if t.startswith("R<"):
        t = t[2:-1]
    return t[6:] if t.startswith("const ") else t


def pure(e):
    for x in ir.walk(e):
        k = x["k"]
        if k in ("lambda", "new", "delete", "copy") and k != "copy":
            return False
        if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            return False
        if k == "un" and x["op"] in ("++", "--"):
            return False
        if k in ("call", "op"):
            fn = x.get("fn", "")
            if k == "op" and not fn and x["op"] in ("+", "-", "*", "/"):
                continue
            last = fn.split("::")[-1]
            if last in IMPURE and not (last == "operator[]" and fn.startswith("std::vector")):
                return False
            if k == "op" and x["op"] in ("+=", "-=", "*=", "/=", "=", "<<", "++", "--", ">>"):
                return False
            if not PUREFN.match(fn):
                return False
            if last in ("row", "col", "block") and False:
                return False
        if k == "ctor" and x.get("fn", "").startswith("ov_"):
            return False
        if k == "unsupported":
            return False
    return True


def rvalue(e):
    """an expression whose value can be copied into a temporary"""
    t = e.get("t", "")
    k = e["k"]
    if t in SCAL and k in ("bin", "call", "op", "un", "cond", "mem"):
        return True
    if strip(t).startswith("Eig<") and k in ("op",) and e["op"] in ("+", "-", "*") and len(e["a"]) == 2:
        return True
    if strip(t).startswith("Eig<") and k == "call" and e.get("fn", "").startswith("ov_core::"):
        return True
    return False


def blocks(f):
    """every statement list with its context: (list, in_loop_body, fn_level)"""
    out = []

    def go(o, ctx):
        if isinstance(o, list):
            for x in o:
                go(x, None)
            return
        if not isinstance(o, dict):
            return
        k = o.get("k")
        if k == "block" and not any(isinstance(x, dict) and x.get("k") in ("case", "default") for x in o["b"]):
            out.append((o["b"], ctx))
        if k == "lambda":
            go(o["body"], "lambda")
            return
        for kk, v in o.items():
            if isinstance(v, (dict, list)):
                if k in ("for", "rfor", "while", "do") and kk == "b":
                    go(v, "loop")
                else:
                    go(v, None)
    go(f["body"], "fn")
    return out


def has(o, kinds, top=True):
    """contains a statement of these kinds that belongs to the enclosing construct (not to a nested loop / lambda)"""
    if isinstance(o, list):
        return any(has(x, kinds, top) for x in o)
    if not isinstance(o, dict):
        return False
    k = o.get("k")
    if k in kinds:
        return True
    if k == "lambda":
        return False
    if k in ("for", "rfor", "while", "do", "switch"):
        inner = tuple(x for x in kinds if x == "ret" or (k == "switch" and x == "continue") or x not in ("break", "continue"))
        return has([v for v in o.values() if isinstance(v, (dict, list))], inner) if inner else False
    return any(has(v, kinds) for v in o.values() if isinstance(v, (dict, list)))


def declared(o):
    return {x["id"] for x in walkall(o) if x.get("k") == "vd"} | {p["id"] for x in walkall(o) if x.get("k") == "lambda" for p in x.get("ps", [])}


def walkall(o):
    if isinstance(o, dict):
        if "k" in o:
            yield o
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from walkall(v)
    elif isinstance(o, list):
        for v in o:
            yield from walkall(v)


def used(o):
    d = {}
    for x in walkall(o):
        if x.get("k") == "var" and x.get("id") is not None and not x.get("g"):
            d.setdefault(x["id"], x)
    return d


def neg(c):
    return {"k": "un", "op": "!", "e": c, "t": "bool", "l": c.get("l")}


def blk(L, l=None):
    return {"k": "block", "b": L, "l": l, "le": l}


def asblock(s):
    return s if s and s["k"] == "block" else blk([s] if s else [], (s or {}).get("l"))


def isquiet(s):
    return any(x["k"] == "call" and x.get("fn", "").startswith("ov_core::Printer") or x["k"] == "call" and x.get("fn") in ("exit", "std::exit") for x in walkall(s))


# each transform: f (deep-copied function) , rng, new (list of new functions) -> True when applied
def t_ifinv(f, rng, new):
    c = [x for x in ir.walk(f["body"]) if x["k"] == "if" and not x.get("init") and not x.get("v")]
    if not c: return False
    o = rng.choice(c)
    A, B = o["a"], o.get("b")
    o["c"] = neg(o["c"])
    o["a"] = asblock(B) if B else blk([], o["l"])
    o["b"] = asblock(A)
    return True


def t_while(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if isinstance(s, dict) and s["k"] == "for" and s.get("init") and s.get("inc") and s.get("c") and not has(s["b"], ("continue",)):
                c.append((L, i))
    if not c: return False
    L, i = rng.choice(c)
    s = L[i]
    inc = s["inc"] if s["inc"]["k"] == "expr" else {"k": "expr", "e": s["inc"], "l": s["l"]}
    L[i] = blk([s["init"], {"k": "while", "c": s["c"], "b": blk(asblock(s["b"])["b"] + [inc], s["l"]), "l": s["l"]}], s["l"])
    return True


def t_guard(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        if L and isinstance(L[-1], dict) and L[-1]["k"] == "if" and not L[-1].get("b") and (ctx == "loop" or ctx == "fn" and f["rt"] == "void"):
            c.append((L, ctx))
    if not c: return False
    L, ctx = rng.choice(c)
    s = L.pop()
    j = {"k": "continue", "l": s["l"]} if ctx == "loop" else {"k": "ret", "l": s["l"]}
    L.append({"k": "if", "c": neg(s["c"]), "a": blk([j], s["l"]), "l": s["l"]})
    L.extend(asblock(s["a"])["b"])
    return True


def t_unguard(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L[:-1]):
            if isinstance(s, dict) and s["k"] == "if" and not s.get("b") and (ctx == "loop" or ctx == "fn"):
                b = asblock(s["a"])["b"]
                if b and b[-1]["k"] == ("continue" if ctx == "loop" else "ret") and (ctx == "loop" or f["rt"] == "void" or True):
                    c.append((L, i, ctx))
    if not c: return False
    L, i, ctx = rng.choice(c)
    s = L[i]
    rest = L[i + 1:]
    del L[i + 1:]
    b = asblock(s["a"])["b"]
    if b[-1]["k"] == "ret" and b[-1].get("e"):
        if not (rest and rest[-1]["k"] == "ret"):
            L.extend(rest); return False
        s["b"] = blk(rest, s["l"])
        return True
    b.pop()
    if b:
        s["b"] = blk(rest, s["l"])
    else:
        s["c"] = neg(s["c"]); s["a"] = blk(rest, s["l"])
    return True


def subexprs(s, cond=False):
    """(container, key) of hoistable sub-expressions evaluated unconditionally first in statement s"""
    out = []

    def go(par, key):
        e = par[key]
        if not isinstance(e, dict) or "k" not in e:
            return
        k = e["k"]
        if k == "lambda" or k == "vd":
            return
        out.append((par, key))
        if k in ("cond",):
            go(e, "c"); return
        if k == "bin" and e["op"] in ("&&", "||"):
            go(e, "a"); return
        if k == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            go(e, "b"); return
        if k == "op" and e["op"] in ("=", "+=", "-=", "*=", "/=") and len(e["a"]) == 2:
            go(e["a"], 1); return
        if k == "op" and e["op"] in ("<<", ">>", ","):
            return
        if k == "un" and e["op"] in ("++", "--", "&"):
            return
        for kk in ("e", "a", "b", "o", "i"):
            v = e.get(kk)
            if isinstance(v, dict): go(e, kk)
            elif isinstance(v, list):
                for j in range(len(v)):
                    go(v, j)
    if s["k"] == "expr": go(s, "e")
    elif s["k"] == "ret" and s.get("e"): go(s, "e")
    elif s["k"] == "decl" and len(s["v"]) == 1 and s["v"][0].get("i") and not s["v"][0]["t"].startswith("R<"): go(s["v"][0], "i")
    elif s["k"] == "if": go(s, "c")
    return out


def t_temp(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if not isinstance(s, dict) or s["k"] not in ("expr", "ret", "decl", "if"): continue
            # the rest of the statement must not write what the expression reads before it: only plain assignments / pure wholes
            tops = s.get("e") or (s["v"][0].get("i") if s["k"] == "decl" and len(s["v"]) == 1 else s.get("c"))
            if not tops: continue
            whole = tops
            if s["k"] == "expr":
                if tops["k"] == "bin" and tops["op"] in ("=", "+=", "-=", "*="):
                    whole = tops["b"]; par = tops; key = "b"
                elif tops["k"] == "op" and tops["op"] in ("=", "+=", "-=") and len(tops["a"]) == 2:
                    whole = tops["a"][1]
                else: continue
            if not pure(whole): continue
            ids = {id(x) for x in walkall(whole)}
            for par, key in subexprs(s):
                e = par[key]
                if id(e) in ids and rvalue(e) and pure(e):
                    c.append((L, i, par, key))
    if not c: return False
    L, i, par, key = rng.choice(c)
    e = par[key]
    v = fresh(); n = "tmp%d" % v
    t = strip(e["t"])
    par[key] = {"k": "var", "id": v, "n": n, "t": t, "l": e.get("l")}
    L.insert(i, {"k": "decl", "l": e.get("l"), "v": [{"k": "vd", "id": v, "n": n, "t": t if rng.random() < .5 else "const " + t, "i": e, "l": e.get("l")}]})
    return True


def indep(a, b):
    for s in (a, b):
        if s["k"] != "decl" or any(v.get("i") and not pure(v["i"]) for v in s["v"]): return False
        if any(v["t"].startswith("R<") or "lock" in v["t"] for v in s["v"]): return False
    da, db = declared(a), declared(b)
    return not (da & set(used(b))) and not (db & set(used(a)))


def t_swap(f, rng, new):
    c = [(L, i) for L, ctx in blocks(f) for i in range(len(L) - 1) if isinstance(L[i], dict) and isinstance(L[i + 1], dict) and L[i].get("k") == "decl" and L[i + 1].get("k") == "decl" and indep(L[i], L[i + 1])]
    if not c: return False
    L, i = rng.choice(c)
    L[i], L[i + 1] = L[i + 1], L[i]
    return True


def t_commute(f, rng, new):
    c = [x for x in ir.walk(f["body"]) if x["k"] == "bin" and x["op"] in ("+", "*", "<", ">", "<=", ">=", "==", "!=") and pure(x) and strip(x["a"].get("t")) in SCAL]
    if not c: return False
    o = rng.choice(c)
    o["a"], o["b"] = o["b"], o["a"]
    o["op"] = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o["op"], o["op"])
    return True


def t_compound(f, rng, new):
    c = [x for x in ir.walk(f["body"]) if x["k"] == "bin" and x["op"] in ("+=", "-=", "*=") and pure(x["a"])]
    if not c: return False
    o = rng.choice(c)
    o["b"] = {"k": "bin", "op": o["op"][0], "a": copy.deepcopy(o["a"]), "b": o["b"], "t": o["t"], "l": o.get("l")}
    o["op"] = "="
    o.pop("ct", None)
    return True


def t_split(f, rng, new):
    c = [x for x in ir.walk(f["body"]) if x["k"] == "if" and not x.get("b") and x["c"]["k"] == "bin" and x["c"]["op"] == "&&"]
    if not c: return False
    o = rng.choice(c)
    a, b = o["c"]["a"], o["c"]["b"]
    o["c"] = a
    o["a"] = blk([{"k": "if", "c": b, "a": o["a"], "l": o["l"]}], o["l"])
    return True


def t_orsplit(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if isinstance(s, dict) and s["k"] == "if" and not s.get("b") and s["c"]["k"] == "bin" and s["c"]["op"] == "||":
                b = asblock(s["a"])["b"]
                if b and b[-1]["k"] in JUMP: c.append((L, i))
    if not c: return False
    L, i = rng.choice(c)
    s = L[i]
    L.insert(i, {"k": "if", "c": s["c"]["a"], "a": copy.deepcopy(s["a"]), "l": s["l"]})
    s["c"] = s["c"]["b"]
    return True


def t_demorgan(f, rng, new):
    c = [x for x in ir.walk(f["body"]) if x["k"] == "bin" and x["op"] in ("&&", "||")]
    if not c: return False
    o = rng.choice(c)
    a, b, op = o["a"], o["b"], o["op"]
    l = o.get("l")
    o.clear()
    o.update({"k": "un", "op": "!", "t": "bool", "l": l, "e": {"k": "bin", "op": "||" if op == "&&" else "&&", "a": neg(a), "b": neg(b), "t": "bool", "l": l}})
    return True


def t_noop(f, rng, new):
    c = [L for L, ctx in blocks(f)]
    L = rng.choice(c)
    i = rng.randrange(len(L) + 1)
    if i > 0 and L[i - 1].get("k") in JUMP: i -= 1
    v = fresh()
    L.insert(i, {"k": "decl", "l": 1, "v": [{"k": "vd", "id": v, "n": "noop", "t": "int", "i": {"k": "int", "t": "int", "v": 0, "l": 1}, "l": 1}]})
    return True


def t_ternary(f, rng, new):
    c = []
    for x in ir.walk(f["body"]):
        if x["k"] == "if" and x.get("b"):
            A, B = asblock(x["a"])["b"], asblock(x["b"])["b"]
            if len(A) == len(B) == 1 and A[0]["k"] == B[0]["k"] == "expr":
                a, b = A[0]["e"], B[0]["e"]
                if a["k"] == b["k"] == "bin" and a["op"] == b["op"] == "=" and eq.canon({"body": a["a"]}) == eq.canon({"body": b["a"]}) and pure(a["a"]):
                    c.append((x, a, b))
    if not c: return False
    x, a, b = rng.choice(c)
    e = {"k": "bin", "op": "=", "t": a["t"], "l": x["l"], "a": a["a"], "b": {"k": "cond", "c": x["c"], "a": a["b"], "b": b["b"], "t": a["t"], "l": x["l"]}}
    x.clear()
    x.update({"k": "expr", "e": e, "l": e["l"]})
    return True


def t_unternary(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if isinstance(s, dict) and s["k"] == "decl" and len(s["v"]) == 1 and (s["v"][0].get("i") or {}).get("k") == "cond" and strip(s["v"][0]["t"]) in SCAL:
                c.append((L, i, s["v"][0]))
    if not c: return False
    L, i, v = rng.choice(c)
    e = v.pop("i")
    v["t"] = strip(v["t"])
    ref = lambda: {"k": "var", "id": v["id"], "n": v["n"], "t": v["t"], "l": e["l"]}
    asg = lambda r: blk([{"k": "expr", "l": e["l"], "e": {"k": "bin", "op": "=", "a": ref(), "b": r, "t": v["t"], "l": e["l"]}}], e["l"])
    L.insert(i + 1, {"k": "if", "c": e["c"], "a": asg(e["a"]), "b": asg(e["b"]), "l": e["l"]})
    return True


def t_splitdecl(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if isinstance(s, dict) and s["k"] == "decl" and len(s["v"]) == 1 and s["v"][0].get("i") and s["v"][0]["t"] in SCAL:
                c.append((L, i, s["v"][0]))
    if not c: return False
    L, i, v = rng.choice(c)
    e = v["i"]
    v.pop("i")
    L.insert(i + 1, {"k": "expr", "l": e.get("l"), "e": {"k": "bin", "op": "=", "a": {"k": "var", "id": v["id"], "n": v["n"], "t": v["t"], "l": e.get("l")}, "b": e, "t": v["t"], "l": e.get("l")}})
    return True


def reid(o, m):
    for x in walkall(o):
        if x.get("k") in ("var", "vd") and x.get("id") in m:
            x["id"] = m[x["id"]]
        if x.get("k") == "lambda":
            for p in x.get("ps", []):
                if p["id"] in m: p["id"] = m[p["id"]]
            for cp in x.get("caps", []):
                if isinstance(cp, dict) and cp.get("id") in m: cp["id"] = m[cp["id"]]


def t_rename(f, rng, new):
    m = {i: fresh() for i in declared(f["body"])}
    reid(f["body"], m)
    for x in walkall(f["body"]):
        if x.get("k") in ("var", "vd") and x.get("id") in m.values():
            x["n"] = "r%d" % x["id"]
    return True


def addfn(f, name, rt, S, vars_, new, cst=False):
    m = {}
    ps = []
    vars_ = {i: copy.deepcopy(x) for i, x in vars_.items()}
    for i, x in vars_.items():
        m[i] = fresh()
        t = x["t"]
        if not t.startswith("R<"): t = "R<" + t + ">"
        ps.append({"id": m[i], "n": x["n"], "t": t})
    dec = declared(S)
    for i in dec: m[i] = fresh()
    reid(S, m)
    for x in walkall(S):
        if x.get("k") == "var" and x.get("id") in [p["id"] for p in ps]:
            x["p"] = True
            x["t"] = [p["t"] for p in ps if p["id"] == x["id"]][0]
    cls = f.get("cls")
    full = (cls + "::" if cls else "ov_core::") + name
    key = full + "(" + ",".join(p["t"] for p in ps) + ")"
    g = {"rec": "fn", "n": full, "key": key, "file": f["file"], "l": f["l"], "le": f["le"], "tu": f["tu"], "rt": rt, "ps": ps, "body": S}
    if cls and not f.get("stat"):
        g["cls"] = cls
        g["acc"] = 2
    elif cls:
        g["cls"] = cls
        g["acc"] = 2
        g["stat"] = True
    new.append(g)
    call = {"k": "call", "fn": full, "key": key, "t": rt, "l": f["l"], "a": [dict(x) for x in vars_.values()],
            "pm": "".join("c" if "const " in p["t"].split("<", 1)[1][:6] or p["t"].startswith("R<const") else "w" for p in ps)}
    if cls and not f.get("stat"):
        call["o"] = {"k": "this", "t": "P<" + cls + ">", "l": f["l"]}
        call["arrow"] = True
        call["ot"] = "P<" + cls + ">"
    elif cls:
        call["stat"] = True
    return call


def t_outline(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        if "lambda" == ctx: continue
        for i in range(len(L)):
            for j in range(i + 1, min(i + 8, len(L)) + 1):
                S = L[i:j]
                if has(S, JUMP): continue
                if not any(x.get("k") in ("expr", "if", "for", "rfor") for x in S): continue
                dec = declared(S)
                if dec & set(used(L[j:])): continue
                if any("lock" in x.get("t", "") for s in S for x in s.get("v", []) if isinstance(x, dict)): continue
                if any(x.get("k") == "vd" and "unique_lock" in x["t"] + "" for x in walkall(S)): continue
                c.append((L, i, j))
    # not from inside a lambda body (captures)
    lam = {id(b) for x in ir.walk(f["body"]) if x["k"] == "lambda" for b, _ in blocks({"body": x["body"]})}
    c = [(L, i, j) for L, i, j in c if id(L) not in lam]
    if not c: return False
    L, i, j = rng.choice(c)
    S = L[i:j]
    dec = declared(S)
    vs = {k: v for k, v in used(S).items() if k not in dec}
    call = addfn(f, "helper_%d" % fresh(), "void", blk(S, f["l"]), vs, new)
    L[i:j] = [{"k": "expr", "e": call, "l": S[0].get("l")}]
    return True


def t_lambda(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i in range(len(L)):
            for j in range(i + 1, min(i + 4, len(L)) + 1):
                S = L[i:j]
                if has(S, JUMP) or not any(x.get("k") in ("expr", "if", "for", "rfor") for x in S): continue
                dec = declared(S)
                if dec & set(used(L[j:])): continue
                if any("lock" in x.get("t", "") for s in S for x in s.get("v", []) if isinstance(x, dict)): continue
                c.append((L, i, j))
    if not c: return False
    L, i, j = rng.choice(c)
    S = L[i:j]
    v = fresh()
    lam = {"k": "lambda", "l": f["l"], "body": blk(S, f["l"]), "caps": [], "ps": [], "rt": "void"}
    lt = "lambda"
    L[i:j] = [{"k": "decl", "l": f["l"], "v": [{"k": "vd", "id": v, "n": "fn", "t": lt, "i": lam, "l": f["l"]}]},
              {"k": "expr", "l": f["l"], "e": {"k": "op", "op": "()", "a": [{"k": "var", "id": v, "n": "fn", "t": lt, "l": f["l"]}], "t": "void", "l": f["l"], "m": True, "fn": "lambda::operator()", "cst": True}}]
    return True


def t_exprfn(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if not isinstance(s, dict) or s["k"] not in ("expr", "ret", "decl", "if"): continue
            for par, key in subexprs(s):
                e = par[key]
                if rvalue(e) and pure(e) and e["k"] != "mem":
                    c.append((par, key))
    if not c: return False
    par, key = rng.choice(c)
    e = par[key]
    vs = used(e)
    rt = strip(e["t"])
    par[key] = addfn(f, "value_%d" % fresh(), rt, blk([{"k": "ret", "e": e, "l": f["l"]}], f["l"]), vs, new)
    for p in new[-1]["ps"]:
        if not p["t"].startswith("R<const"): p["t"] = "R<const " + p["t"][2:]
    return True


def t_rfor(f, rng, new):
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if isinstance(s, dict) and s["k"] == "rfor" and "std::vector<" in s["rt"] and s["rt"].replace("const ", "").startswith("std::vector") and s["range"]["k"] in ("var", "mem") and s["v"].get("n"):
                c.append((L, i))
    if not c: return False
    L, i = rng.choice(c)
    s = L[i]
    l = s["l"]
    v = fresh()
    iv = lambda: {"k": "var", "id": v, "n": "i", "t": "unsigned long", "l": l}
    ct = s["rt"].replace("const ", "", 1) if s["rt"].startswith("const ") else s["rt"]
    size = {"k": "call", "fn": "std::vector::size", "a": [], "cst": True, "o": copy.deepcopy(s["range"]), "ot": "const " + ct, "t": "unsigned long", "l": l}
    vd = dict(s["v"])
    at = {"k": "call", "fn": "std::vector::at", "a": [iv()], "o": copy.deepcopy(s["range"]), "ot": ct, "t": "R<" + strip(vd["t"]) + ">", "l": l, "pm": "v"}
    if s["rt"].startswith("const "): at["cst"] = True
    vd["i"] = at if vd["t"].startswith("R<") else ({"k": "copy", "e": at, "t": strip(vd["t"]), "l": l} if False else at)
    L[i] = {"k": "for", "l": l, "init": {"k": "decl", "l": l, "v": [{"k": "vd", "id": v, "n": "i", "t": "unsigned long", "i": {"k": "int", "v": 0, "t": "int", "l": l}, "l": l}]},
            "c": {"k": "bin", "op": "<", "a": iv(), "b": size, "t": "bool", "l": l},
            "inc": {"k": "un", "op": "++", "e": iv(), "t": "unsigned long", "l": l},
            "b": blk([{"k": "decl", "l": l, "v": [vd]}] + asblock(s["b"])["b"], l)}
    return True


def t_mapit(f, rng, new):
    """range-for over a map -> iterator loop"""
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            if isinstance(s, dict) and s["k"] == "rfor" and re.match(r"std::(unordered_map|map|vector)<", s["rt"]) and s["range"]["k"] in ("var", "mem") and s["v"].get("n"):
                c.append((L, i))
    if not c: return False
    L, i = rng.choice(c)
    s = L[i]; l = s["l"]
    cn = s["rt"].split("<")[0]
    v = fresh(); it = cn + "iterator"
    itt = "__gnu_cxx::__normal_iterator<P<T>,%s>" % s["rt"] if cn == "std::vector" else "std::_Node_iterator<std::pair>" if "unordered" in cn else "std::_Rb_tree_iterator<std::pair>"
    iv = lambda: {"k": "var", "id": v, "n": "it", "t": itt, "l": l}
    call = lambda n: {"k": "call", "fn": cn + "::" + n, "a": [], "o": copy.deepcopy(s["range"]), "ot": s["rt"], "t": itt, "l": l}
    vd = dict(s["v"])
    vd["i"] = {"k": "op", "op": "*", "a": [iv()], "m": True, "cst": True, "fn": itt.split("<")[0] + "::operator*", "t": strip(vd["t"]), "l": l}
    L[i] = {"k": "for", "l": l, "init": {"k": "decl", "l": l, "v": [{"k": "vd", "id": v, "n": "it", "t": itt, "i": call("begin"), "l": l}]},
            "c": {"k": "op", "op": "!=", "a": [iv(), call("end")], "t": "bool", "l": l, "fn": "std::operator!=" if cn != "std::vector" else "__gnu_cxx::operator!="},
            "inc": {"k": "op", "op": "++", "a": [iv()], "m": True, "t": "R<" + itt + ">", "l": l, "fn": itt.split("<")[0] + "::operator++"},
            "b": blk([{"k": "decl", "l": l, "v": [vd]}] + asblock(s["b"])["b"], l)}
    return True


def t_alias(f, rng, new):
    """auto &x = a->b at the start of the innermost block that uses it twice"""
    c = []
    for L, ctx in blocks(f):
        for i, s in enumerate(L):
            for x in walkall(s):
                if x.get("k") == "mem" and x.get("o", {}).get("k") in ("this",) and "operator" not in x.get("t", "") and not x.get("t", "").startswith("P<"):
                    c.append((L, i, x["c"], x["n"], x))
    if not c: return False
    L, i, cn, n, x0 = rng.choice(c)
    # not through lambdas
    v = fresh(); e = copy.deepcopy(x0)
    def go(o):
        if isinstance(o, list):
            for y in o: go(y)
        elif isinstance(o, dict):
            if o.get("k") == "lambda": return
            if o.get("k") == "mem" and o.get("c") == cn and o.get("n") == n and o.get("o", {}).get("k") == "this":
                t = o["t"]; l = o.get("l"); o.clear(); o.update({"k": "var", "id": v, "n": "al", "t": "R<" + t + ">", "l": l}); return
            for y in o.values():
                if isinstance(y, (dict, list)): go(y)
    go(L[i:])
    L.insert(i, {"k": "decl", "l": x0.get("l"), "v": [{"k": "vd", "id": v, "n": "al", "t": "R<" + e["t"] + ">", "i": e, "l": x0.get("l")}]})
    return True


def t_sink(f, rng, new):
    """common tail of both branches of if/else moved after it, or the reverse: statement after an if/else copied into both branches"""
    c = []
    for L, ctx in blocks(f):
        for i in range(len(L) - 1):
            s = L[i]
            if isinstance(s, dict) and s["k"] == "if" and s.get("b") and not has(s, JUMP) and L[i + 1].get("k") == "expr":
                c.append((L, i))
    if not c: return False
    L, i = rng.choice(c)
    s = L[i]; n = L.pop(i + 1)
    s["a"] = blk(asblock(s["a"])["b"] + [copy.deepcopy(n)], s["l"])
    s["b"] = blk(asblock(s["b"])["b"] + [n], s["l"])
    return True


def t_flag(f, rng, new):
    """condition of an if computed into a bool beforehand through an if chain"""
    c = [(L, i) for L, ctx in blocks(f) for i, s in enumerate(L) if isinstance(s, dict) and s["k"] == "if" and s["c"].get("k") in ("bin", "op", "un", "call")]
    if not c: return False
    L, i = rng.choice(c)
    s = L[i]; v = fresh(); l = s["l"]
    e = s["c"]
    ref = lambda: {"k": "var", "id": v, "n": "flag", "t": "bool", "l": l}
    pre = [{"k": "decl", "l": l, "v": [{"k": "vd", "id": v, "n": "flag", "t": "bool", "l": l}]}]
    if e["k"] == "bin" and e["op"] == "&&":
        pre[0]["v"][0]["i"] = e["a"]
        pre.append({"k": "if", "l": l, "c": ref(), "a": blk([{"k": "expr", "l": l, "e": {"k": "bin", "op": "=", "a": ref(), "b": e["b"], "t": "bool", "l": l}}], l)})
    else:
        pre[0]["v"][0]["i"] = e
    s["c"] = ref()
    L[i:i] = pre
    return True


def t_do(f, rng, new):
    """while(c) b -> for(;c;) b"""
    c = [x for x in ir.walk(f["body"]) if x["k"] == "while"]
    if not c: return False
    o = rng.choice(c)
    o["k"] = "for"
    return True


def t_subst(f, rng, new):
    """inline a single-use scalar temporary that is used in the very next statement"""
    c = []
    for L, ctx in blocks(f):
        for i in range(len(L) - 1):
            s = L[i]
            if isinstance(s, dict) and s["k"] == "decl" and len(s["v"]) == 1 and s["v"][0].get("i") and strip(s["v"][0]["t"]) in SCAL and pure(s["v"][0]["i"]):
                v = s["v"][0]["id"]
                n = L[i + 1]
                if n.get("k") not in ("expr", "ret", "decl"): continue
                uses = [x for x in walkall(f["body"]) if x.get("k") == "var" and x.get("id") == v]
                inn = [x for x in walkall(n) if x.get("k") == "var" and x.get("id") == v]
                if len(uses) == len(inn) == 1 and strip(s["v"][0]["i"].get("t")) == strip(s["v"][0]["t"]):
                    tops = n.get("e") or (n["v"][0].get("i") if n["k"] == "decl" else None)
                    if tops is None or any(x.get("k") == "lambda" for x in walkall(n)): continue
                    w = tops["b"] if tops["k"] == "bin" and tops["op"] == "=" else tops["a"][1] if tops["k"] == "op" and tops["op"] == "=" else tops
                    if any(id(x) == id(inn[0]) for x in walkall(w)) and pure(w):
                        c.append((L, i, inn[0]))
    if not c: return False
    L, i, x = rng.choice(c)
    e = L[i]["v"][0]["i"]
    x.clear(); x.update(e)
    del L[i]
    return True


T = {n[2:]: g for n, g in list(globals().items()) if n.startswith("t_")}


class Over:
    def __init__(self, P, k, g, new):
        self._P = P
        self.__dict__.update({a: b for a, b in P.__dict__.items()})
        self.fns = dict(P.fns); self.fns[k] = g
        for h in new: self.fns[h["key"]] = h
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f["n"], []).append(f)

    def __getattr__(self, n):
        return getattr(self._P, n)


def work(args):
    k, n, seed, depth, only = args
    P, pr = G
    rng = random.Random(sum(map(ord, k)) * 31 + seed)
    f = P.fns[k]
    out = []
    names = only or sorted(T)
    todo = rng.sample(names, min(n, len(names))) if depth == 1 else [None] * n
    for nm in todo:
        g = copy.deepcopy(f); g.pop("_canon", None)
        new = []
        done = []
        hist = []
        for _ in range(depth * (1 if depth == 1 else 3)):
            x = nm or rng.choice(names)
            try:
                if T[x](g, rng, new):
                    done.append(x)
                    hist.append((copy.deepcopy(g), copy.deepcopy(new)) if depth > 1 else None)
            except Exception as ex:
                import traceback
                out.append((k, x, "transform-crash", traceback.format_exc()[-200:], 0, []))
                break
            if len(done) >= depth: break
        if not done: continue
        pr.set_current(Over(P, k, g, new))
        t = time.time()
        try:
            v, sl, info = pr.compare(k)
        except Exception as ex:
            import traceback
            v, sl, info = "crash", [], {"why": repr(ex) + traceback.format_exc()[-400:]}
        if v == "different" and depth > 1:
            for q, (g2, n2) in enumerate(hist):
                pr.set_current(Over(P, k, g2, n2))
                v2, sl2, _ = pr.compare(k)
                if v2 == "different":
                    done[q] = "**" + done[q]
                    sl = sl2
                    done = done[:q + 1]
                    break
        out.append((k, "+".join(done), v, info.get("why", "")[:200], time.time() - t, [(s_, [eq.describe(x)[:300] for x in d[:2]]) for s_, d, _ in sl[:2]]))
    return out


def init():
    global G
    P = ir.load(); R = eq.load_ref()
    G = (P, eq.Pair(R, P))


if __name__ == "__main__":
    N = int(sys.argv[1]) if len(sys.argv) > 1 else 6
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    depth = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
    init(); G[1].heads()
    keys = [k for k, f in G[0].fns.items() if not eq.skip(f) and flt in k and k in G[1].R.fns]
    random.Random(1).shuffle(keys)
    C = collections.Counter(); W = collections.Counter()
    with mp.get_context("fork").Pool(8) as p, open("/tmp/refac.txt", "w") as fh:
        for r in p.imap_unordered(work, [(k, N, seed, depth, only) for k in keys], chunksize=1):
            for k, what, v, why, dt, d in r:
                C[v] += 1
                for w in what.split("+")[-1:] if "*" in what else what.split("+"): W[w, v] += 1
                fh.write(f"{v}\t{what}\t{k[:90]}\t{dt:.1f}\t{why}\t{d}\n"); fh.flush()
    print(C)
    for w in sorted({a for a, _ in W}):
        print(" ", w, {v: W[w, v] for v in ("equal", "unknown", "different", "crash", "transform-crash") if W[w, v]})

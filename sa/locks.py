"""Lock discipline: lexical locksets, requirements pushed to callers, lock order, parallel workers.

Receivers are compared by access path, so `lock a->m; use b->x` does not count as holding b's lock.
"""
from . import ir

LOCKS = {"std::lock_guard", "std::unique_lock", "std::scoped_lock"}

# field -> mutex of the same object that owns it (taken from the member declarations and their comments)
GUARD = {
    ("ov_core::FeatureDatabase", "features_idlookup"): "mtx",
    ("ov_core::TrackBase", "img_last"): "mtx_last_vars",
    ("ov_core::TrackBase", "img_mask_last"): "mtx_last_vars",
    ("ov_core::TrackBase", "pts_last"): "mtx_last_vars",
    ("ov_core::TrackBase", "ids_last"): "mtx_last_vars",
    ("ov_core::TrackDescriptor", "desc_last"): "mtx_last_vars",
    ("ov_core::TrackKLT", "img_pyramid_last"): "mtx_last_vars",
    ("ov_core::TrackAruco", "ids_aruco"): "mtx_last_vars",
    ("ov_core::TrackAruco", "corners"): "mtx_last_vars",
    ("ov_core::TrackAruco", "rejects"): "mtx_last_vars",
    ("ov_core::TrackKLT", "img_curr"): "mtx_feeds",
    ("ov_core::TrackKLT", "img_pyramid_curr"): "mtx_feeds",
    ("ov_msckf::Propagator", "imu_data"): "imu_data_mtx",
    ("ov_msckf::UpdaterZeroVelocity", "imu_data"): "imu_data_mtx",
    ("ov_msckf::VioManager", "camera_queue_init"): "camera_queue_init_mtx",
    # the initialiser has no lock of its own: every access outside one is reported
    ("ov_init::InertialInitializer", "imu_data"): "imu_data_mtx",
}
ONE_SECTION = {"ov_core::FeatureDatabase"}
# flags through which the initialisation thread and the main thread hand over: must stay atomic
ATOMIC = [("ov_core::TrackBase", "currid"), ("ov_msckf::VioManager", "thread_init_running"),
          ("ov_msckf::VioManager", "thread_init_success"), ("ov_msckf::Propagator", "cache_imu_valid")]

MUTATE = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "pop_back", "pop_front", "push_front",
          "emplace_front", "assign", "swap", "try_emplace", "insert_or_assign", "reserve", "shrink_to_fit", "merge"}


def path(e):
    """access path of an object expression, or None"""
    if not isinstance(e, dict):
        return None
    k = e.get("k")
    if k == "this":
        return "this"
    if k == "var":
        return f"{e['n']}#{e.get('id', e.get('g'))}"
    if k == "mem":
        b = path(e["o"])
        return None if b is None else b + "." + e["n"]
    if k in ("cast", "copy"):
        return path(e["e"])
    if k == "un" and e["op"] in ("*", "&"):
        return path(e["e"])
    if k == "op" and e.get("op") in ("->", "*") or k == "op" and e.get("fn", "").rsplit("::", 1)[-1] in ("operator->", "operator*"):
        return path(e["a"][0]) if e["a"] else None
    if k == "call" and e.get("fn", "").rsplit("::", 1)[-1] in ("operator->", "operator*", "get") and e.get("o") is not None and not e["a"]:
        return path(e["o"])
    if k == "call" and e.get("fn", "").rsplit("::", 1)[-1] in ("operator->", "operator*"):
        return path(e["a"][0]) if e["a"] else None
    if k == "call" and e.get("fn", "").rsplit("::", 1)[-1] in ("at", "front", "back") and e.get("o") is not None:
        b = path(e["o"])
        return None if b is None else b + "[]"
    if k == "idx":
        b = path(e["a"])
        return None if b is None else b + "[]"
    if k == "op" and e.get("fn", "").rsplit("::", 1)[-1] == "operator[]":
        b = path(e["a"][0])
        return None if b is None else b + "[]"
    if k == "ctor" and len(e.get("a", ())) == 1:
        return path(e["a"][0])
    return None


def argtext(e):
    """text of an index expression (for telling two elements of a mutex vector apart)"""
    if not isinstance(e, dict):
        return str(e)
    k = e.get("k")
    if k == "var":
        return f"{e['n']}#{e.get('id')}"
    if k == "int":
        return str(e["v"])
    if k in ("cast", "copy"):
        return argtext(e["e"])
    return k + "(" + ",".join(argtext(x) for kk, x in sorted(e.items()) if isinstance(x, (dict,))) + \
        "".join(argtext(y) for kk, x in sorted(e.items()) if isinstance(x, list) for y in x if isinstance(y, dict)) + str(e.get("n", "")) + ")"


def mutex(e):
    """(object path, mutex name, element) of a mutex expression"""
    while isinstance(e, dict) and e.get("k") in ("cast", "copy"):
        e = e["e"]
    if not isinstance(e, dict):
        return None
    el = ""
    if e["k"] == "call" and e.get("fn", "").endswith("::at") and e.get("o") is not None:
        el = argtext(e["a"][0])
        e = e["o"]
    elif e["k"] == "idx":
        el, e = argtext(e["b"]), e["a"]
    elif e["k"] == "op" and e.get("fn", "").endswith("operator[]"):
        el, e = argtext(e["a"][1]), e["a"][0]
    while isinstance(e, dict) and e.get("k") in ("cast", "copy"):
        e = e["e"]
    if e.get("k") == "mem":
        o = path(e["o"])
        if o is not None:
            return (o, e["c"] + "::" + e["n"], el)
    if e.get("k") == "var":
        return (path(e), "local", el)
    return None


def base(e):
    """the member or variable node an lvalue expression selects from"""
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("cast", "copy") or (k == "un" and e["op"] in ("*", "&")):
            e = e["e"]
        elif k == "idx":
            e = e["a"]
        elif k == "call" and e.get("o") is not None and e.get("fn", "").rsplit("::", 1)[-1] in ("at", "front", "back", "begin", "end", "get", "operator->"):
            e = e["o"]
        elif k == "op" and e.get("op") in ("[]", "->", "*") and e.get("a"):
            e = e["a"][0]
        elif k == "mem" and (e["c"], e["n"]) not in GUARD:
            e = e["o"]
        else:
            return e
    return None


def written(body):
    """ids of the nodes that are assigned, resized or handed over by non-const reference"""
    out = set()
    for n in ir.walk(body):
        t = []
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            t.append(n["a"])
        elif n["k"] == "op" and n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--") and n.get("a"):
            t.append(n["a"][0])
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            t.append(n["e"])
        elif n["k"] == "call":
            if n.get("o") is not None and n.get("fn", "").rsplit("::", 1)[-1] in MUTATE and not n.get("cst"):
                t.append(n["o"])
            for i, a in enumerate(n.get("a", ())):
                if (n.get("pm") or "")[i:i + 1] == "w":
                    t.append(a)
        for x in t:
            b = base(x)
            if isinstance(b, dict):
                out.add(id(b))
    return out


class Walk:
    """one function: accesses, calls and acquisitions with the lockset at each"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.acc, self.calls, self.acq, self.par, self.thr = [], [], [], [], []
        self.alias = {}       # reference variable id -> (field key, object path)
        self.uniq = {}        # lock variable id -> mutexes
        self.ctx = ""
        self.wr = written(f["body"])
        self.stmts([f["body"]], [])
        for i in f.get("inits", ()) or ():
            if i.get("e"):
                self.expr(i["e"], [])

    # ---- statements; `held` is mutated by lock declarations of the enclosing block
    def stmts(self, ss, held):
        for s in ss:
            self.stmt(s, held)

    def stmt(self, s, held):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "block":
            h = list(held)
            self.stmts(s["b"], h)
            # explicit lock()/unlock() of objects declared outside survive the block
            decl = getattr(self, "_scoped", set())
            held[:] = [m for m in h if m[3] not in ("scoped",) or m in held]
            return
        if k == "decl":
            for v in s["v"]:
                self.vardecl(v, held)
            return
        if k == "if":
            self.expr(s["c"], held)
            a, b = list(held), list(held)
            self.stmt(s["a"], a)
            if s.get("b"):
                self.stmt(s["b"], b)
            held[:] = [m for m in a if m in b] if not self.ends(s["a"]) else b
            return
        if k in ("for", "rfor", "while", "do"):
            h = list(held)
            for c in ("init", "range", "v", "c", "inc"):
                x = s.get(c)
                if isinstance(x, dict):
                    self.stmt(x, h) if x.get("k") in ("decl", "expr", "block") else (self.vardecl(x, h) if x.get("k") == "vd" else self.expr(x, h))
                elif isinstance(x, list):
                    for y in x:
                        self.stmt(y, h)
            if s.get("b"):
                if s["b"].get("k") == "block":
                    self.stmt(s["b"], h)
                else:
                    self.stmt(s["b"], h)
            return
        if k == "expr":
            self.expr(s["e"], held)
            return
        if k == "ret":
            if s.get("e"):
                self.expr(s["e"], held)
            return
        if k in ("switch", "try", "case", "default"):
            h = list(held)
            for c in ("c", "b", "h"):
                x = s.get(c)
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, dict):
                        self.stmt(y, h) if y.get("k") in ("block", "decl", "expr", "ret", "case", "default", "if", "for", "rfor", "while", "do", "break", "try", "switch") else self.expr(y, h)
            return
        self.expr(s, held)

    def ends(self, s):
        if not isinstance(s, dict):
            return False
        k = s.get("k")
        if k in ("ret", "break", "continue"):
            return True
        if k == "block":
            return bool(s["b"]) and self.ends(s["b"][-1])
        return False

    def vardecl(self, v, held):
        i = v.get("i")
        if isinstance(i, dict):
            t = v.get("t", "")
            c = i
            while c.get("k") in ("cast", "copy"):
                c = c["e"]
            if c.get("k") == "ctor" and c.get("c") in LOCKS:
                ms = [m for m in (mutex(a) for a in c["a"]) if m]
                deferred = any("defer_lock" in str(a.get("t", "")) for a in c["a"])
                self.uniq[v["id"]] = ms
                for a in c["a"]:
                    self.expr(a, held)
                if not deferred:
                    if len(ms) > 1:
                        for m in ms:
                            self.acq.append((m, list(held), v["l"]))
                        held.extend(m + ("scoped",) for m in ms)
                    else:
                        for m in ms:
                            self.acq.append((m, list(held), v["l"]))
                            held.append(m + ("scoped",))
                return
            if t.startswith("R<"):
                fk = self.field(i)
                if fk:
                    self.alias[v["id"]] = fk
            self.expr(i, held)

    def field(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "copy"):
            e = e["e"]
        if not isinstance(e, dict):
            return None
        if e.get("k") == "mem" and (e["c"], e["n"]) in GUARD:
            return (e["c"], e["n"], path(e["o"]))
        if e.get("k") == "call" and e.get("fn", "").rsplit("::", 1)[-1] in ("at",) and e.get("o") is not None:
            return self.field(e["o"])
        if e.get("k") == "op" and e.get("fn", "").endswith("operator[]"):
            return self.field(e["a"][0])
        if e.get("k") == "var" and e.get("id") in self.alias:
            return self.alias[e["id"]]
        return None

    def expr(self, e, held):
        if isinstance(e, list):
            for x in e:
                self.expr(x, held)
            return
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k == "lambda":
            self.stmt(e["body"], list(held))
            return
        if k == "mem":
            key = (e["c"], e["n"])
            if key in GUARD:
                self.acc.append((key, path(e["o"]), list(held), e["l"], id(e) in self.wr))
        if k == "var" and e.get("id") in self.alias:
            c, n, o = self.alias[e["id"]]
            self.acc.append(((c, n), o, list(held), e["l"], id(e) in self.wr))
        if k == "call":
            fn = e.get("fn", "")
            base = fn.rsplit("::", 1)[-1]
            if base in ("lock", "unlock", "try_lock") and e.get("o") is not None:
                o = e["o"]
                ms = self.uniq.get(o.get("id")) if o.get("k") == "var" else None
                if ms is None:
                    m = mutex(o)
                    ms = [m] if m and "mutex" in str(o.get("t", "")) else None
                if ms is not None:
                    for m in ms:
                        if base == "lock":
                            self.acq.append((m, list(held), e["l"]))
                            held.append(m + ("explicit",))
                        elif base == "unlock":
                            for x in list(held):
                                if x[:3] == m:
                                    held.remove(x)
                    return
            if fn in ("cv::parallel_for_",):
                for l in (n for n in ir.walk(e) if n["k"] == "lambda"):
                    self.par.append((l, list(held), e["l"]))
                    self.sub(l, "parallel worker")
                return
            if e.get("key"):
                self.calls.append((e["key"], path(e.get("o")) if e.get("o") is not None else None, list(held), e["l"], self.ctx, [path(a) for a in e.get("a", ())]))
        if k == "ctor":
            if e.get("c") in ("std::thread", "std::jthread", "boost::thread"):
                for l in (n for n in ir.walk(e) if n["k"] == "lambda"):
                    self.thr.append((l, list(held), e["l"]))
                    self.sub(l, "thread")
                return
            if e.get("key"):
                self.calls.append((e["key"], None, list(held), e["l"], self.ctx, [path(a) for a in e.get("a", ())]))
        for kk, v in e.items():
            if isinstance(v, (dict, list)):
                self.expr(v, held)

    def sub(self, lam, ctx):
        """body of a lambda that runs on another thread: nothing held by the creator protects it"""
        old, self.ctx = self.ctx, ctx
        self.stmt(lam["body"], [])
        self.ctx = old


def short(f):
    import re
    return re.sub(r"^ov_(core|msckf|init|eval|type)::", "", f["n"])


def in_scope(f):
    return not f["n"].endswith(("::(ctor)", "::(dtor)")) and "(ctor)" not in f["n"] and "~" not in f["n"]


def analyse(P):
    W = {}
    for k, f in P.fns.items():
        if f.get("body"):
            W[k] = Walk(P, f)
    over = {}
    for k, f in P.fns.items():
        for b in f.get("over", ()):
            over.setdefault(b, set()).add(k)
    def targets(key):
        out = [key] if key in W else []
        st = [key]
        seen = set()
        while st:
            x = st.pop()
            for y in over.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    out.append(y)
                    st.append(y)
        return out
    callers = {}
    for k, w in W.items():
        for c in w.calls:
            for t in targets(c[0]):
                callers.setdefault(t, []).append((k, c))
    return W, targets, callers


def rule_locks(P, pair, pid, tier):
    """every access to lock-owned data happens with the owning object's mutex held, directly or in every caller; no mutex is
    acquired twice, locks are acquired in one order; hand-over flags are atomic; parallel workers resize nothing shared"""
    from .rules import Res
    R = Res(floor=60)
    W, targets, callers = analyse(P)
    # ---- guarded accesses
    def has(held, obj, cls, m):
        for h in held:
            if h[0] == obj and h[1].rsplit("::", 1)[-1] == m:
                return True
        return False
    # requirements on entry: function -> {(relative object path starting with 'this', mutex)}
    for k, w in W.items():
        f = w.f
        if not in_scope(f):
            continue
        seen = set()
        for (cls, fld), obj, held, line, wr in w.acc:
            m = GUARD[(cls, fld)]
            R.inst(f"{short(f)}:{line} {fld} under {m}")
            if has(held, obj, cls, m):
                continue
            if obj == "this" and entry_held(k, m, W, callers, has, set()):
                continue
            sig = (fld, m, wr)
            if sig in seen:
                continue
            seen.add(sig)
            for who in owners(k, W, callers, pair):
                R.bad(f"{ir.rel(f['file'])}:{line}", f"{who}: `{fld}` is {'written' if wr else 'read'} without holding `{m}` of the same object")
    # ---- one critical section per method of the classes whose methods are compound accesses
    for k, w in W.items():
        f = w.f
        if f.get("cls") not in ONE_SECTION or not in_scope(f):
            continue
        R.inst(f"{short(f)} is one critical section")
        own = [(m, line) for m, held, line in w.acq if m[0] == "this" and m[1].startswith(f["cls"] + "::")]
        own += [((obj, m, ""), line) for key, obj, held, line, ctx, args in w.calls if obj == "this" and not held
                for t in targets(key) if t != k and W[t].f.get("cls") == f["cls"] for m in {m[1] for m, _, _ in W[t].acq if m[0] == "this"}]
        if len(own) > 1:
            R.bad(f"{ir.rel(f['file'])}:{own[1][1]}", f"{short(f)}: `{own[1][0][1].rsplit('::', 1)[-1]}` is released and taken again inside one operation")
    # ---- lock order and double acquisition
    acq_of = {}
    def trans(k, depth=0, seen=None):
        """mutex classes acquired by k or what it calls (same thread)"""
        if k in acq_of:
            return acq_of[k]
        acq_of[k] = set()
        w = W[k]
        s = {(m[0], m[1]) for m, _, _ in w.acq}
        for key, obj, held, line, ctx, args in w.calls:
            if ctx == "thread":
                continue
            for t in targets(key):
                if t != k:
                    for o, m in trans(t):
                        s.add((obj if o == "this" else "?", m))
        acq_of[k] = s
        return s
    edges = {}
    for k, w in W.items():
        f = w.f
        for m, held, line in w.acq:
            R.inst(f"{short(f)}:{line} acquires {m[1]}")
            for h in held:
                if h[0] == m[0] and h[1] == m[1]:
                    if h[2] == m[2]:
                        R.bad(f"{ir.rel(f['file'])}:{line}", f"{short(f)}: `{m[1].rsplit('::', 1)[-1]}` is acquired while it is already held")
                elif h[1] != m[1]:
                    edges.setdefault((h[1], m[1]), (f, line))
        for key, obj, held, line, ctx, args in w.calls:
            if not held:
                continue
            for t in targets(key):
                for o, m in trans(t):
                    oo = obj if o == "this" else o
                    for h in held:
                        if h[1] == m and oo == h[0] and not m.endswith("mtx_feeds"):
                            R.bad(f"{ir.rel(f['file'])}:{line}", f"{short(f)}: calls {short(W[t].f)}, which acquires `{m.rsplit('::', 1)[-1]}` that is already held")
                        elif h[1] != m:
                            edges.setdefault((h[1], m), (f, line))
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
    def reach(a, b):
        st, seen = [a], set()
        while st:
            x = st.pop()
            if x == b:
                return True
            for y in adj.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False
    for (a, b), (f, line) in sorted(edges.items(), key=lambda x: x[0]):
        R.inst(f"order {a} -> {b}")
        if reach(b, a):
            R.bad(f"{ir.rel(f['file'])}:{line}", f"{short(f)}: `{b}` is acquired while `{a}` is held, and elsewhere in the opposite order")
    # ---- atomic hand-over flags
    for cls, fld in ATOMIC:
        c = P.classes.get(cls)
        ft = next((x for x in c["fields"] if x["n"] == fld), None) if c else None
        if ft is None:
            continue
        R.inst(f"{cls}::{fld} atomic")
        if "atomic" not in ft["t"]:
            R.bad(f"{ir.rel(c['file'])}:{ft['l']}", f"{cls}::{fld} is shared between threads without a lock and is not atomic")
    # ---- bodies handed to parallel workers / threads
    for k, w in W.items():
        f = w.f
        for lam, held, line in w.par:
            R.inst(f"{short(f)}:{line} parallel body")
            for l, what in shared_writes(lam, W[k]):
                R.bad(f"{ir.rel(f['file'])}:{l}", f"{short(f)}: parallel worker {what}")
    # the flag that tells the main thread the worker is done is stored last
    for k, w in W.items():
        f = w.f
        for lam, held, line in w.thr:
            R.inst(f"{short(f)}:{line} thread body")
            for l in not_last(lam, "thread_init_running"):
                R.bad(f"{ir.rel(f['file'])}:{l}", f"{short(f)}: the background thread touches shared data after announcing that it is done")
    return R


def owners(k, W, callers, pair):
    """functions to report: helpers the reference does not have are reported as the known functions that reach them"""
    if pair is None or k in pair.R.fns:
        return [short(W[k].f)]
    out, st, seen = set(), [k], {k}
    while st:
        x = st.pop()
        for c, _ in callers.get(x, ()):
            if c in seen:
                continue
            seen.add(c)
            if c in pair.R.fns:
                out.add(short(W[c].f))
            else:
                st.append(c)
    return sorted(out) or [short(W[k].f)]


def entry_held(k, m, W, callers, has, seen, depth=0):
    """every call of k on its own object happens with m held"""
    if k in seen:
        return True
    seen = seen | {k}
    cs = callers.get(k, ())
    if not cs or depth > 6:
        return False
    for ck, (key, obj, held, line, ctx, args) in cs:
        if obj is None:
            return False
        if obj == "this":
            ok = has(held, "this", None, m) or (not ctx and in_scope(W[ck].f) and entry_held(ck, m, W, callers, has, seen, depth + 1)) \
                or not in_scope(W[ck].f)
        else:
            ok = has(held, obj, None, m)
        if not ok:
            return False
    return True


def root(e):
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("cast", "copy"):
            e = e["e"]
        elif k == "mem":
            e = e["o"]
        elif k == "idx":
            e = e["a"]
        elif k == "un":
            e = e["e"]
        elif k == "call" and e.get("o") is not None:
            e = e["o"]
        elif k in ("op", "call") and e.get("a") and e.get("fn", "").rsplit("::", 1)[-1].startswith("operator"):
            e = e["a"][0]
        else:
            return e
    return None


def shared_writes(lam, w):
    """writes of a parallel body to captured state that are neither per-index nor under a lock"""
    inner = {n["id"] for n in ir.walk(lam["body"]) if n["k"] == "vd" and "id" in n}
    for n in ir.walk(lam["body"]):
        if n["k"] in ("rfor",) and isinstance(n.get("v"), dict):
            inner.add(n["v"].get("id"))
    inner |= {p.get("id") for p in lam.get("ps", ())}
    locked = any(n["k"] == "ctor" and n.get("c") in LOCKS for n in ir.walk(lam["body"]))
    out = []

    def perindex(e):
        """some index on the path depends on a variable of the body"""
        while isinstance(e, dict):
            k = e.get("k")
            ix = []
            if k == "idx":
                ix, nx = [e["b"]], e["a"]
            elif k == "call" and e.get("o") is not None:
                ix, nx = e.get("a", []), e["o"]
            elif k == "op" and e.get("a"):
                ix, nx = e["a"][1:], e["a"][0]
            elif k in ("cast", "copy", "un"):
                nx = e["e"]
            elif k == "mem":
                nx = e["o"]
            else:
                return False
            for i in ix:
                if any(n["k"] == "var" and n.get("id") in inner for n in ir.walk(i)):
                    return True
            e = nx
        return False

    def shared(e):
        r = root(e)
        if not isinstance(r, dict):
            return None
        if r.get("k") == "this":
            return "a member"
        if r.get("k") == "var" and r.get("id") not in inner and not r.get("g"):
            return "`" + r["n"] + "`"
        if r.get("k") == "var" and r.get("g"):
            return "`" + r["n"] + "`"
        return None
    refs = {}
    for n in ir.walk(lam["body"]):
        tgt = None
        if n["k"] == "bin" and n["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&="):
            tgt, verb = n["a"], "assigns"
        elif n["k"] == "op" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and n.get("a"):
            tgt, verb = n["a"][0], "assigns"
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            tgt, verb = n["e"], "changes"
        elif n["k"] == "call" and n.get("o") is not None and n.get("fn", "").rsplit("::", 1)[-1] in MUTATE and not n.get("cst"):
            tgt, verb = n["o"], "resizes"
        if tgt is None:
            continue
        s = shared(tgt)
        if s is None or locked:
            continue
        if "atomic" in str(tgt.get("t", "")):
            continue
        if perindex(tgt):
            continue
        out.append((n["l"], f"{verb} {s} that all workers share"))
    return out


def not_last(lam, flag):
    """statements of the body after the store of `flag` that are not a bare return"""
    def store(s):
        e = s.get("e") if s.get("k") == "expr" else None
        while isinstance(e, dict) and e.get("k") in ("cast", "copy"):
            e = e["e"]
        if not isinstance(e, dict):
            return False
        t = e["a"] if e.get("k") == "bin" and e.get("op") == "=" else (e["a"][0] if e.get("k") == "op" and e.get("op") == "=" and e.get("a") else None)
        if t is None and e.get("k") == "call" and e.get("fn", "").endswith("::store"):
            t = e.get("o")
        return isinstance(t, dict) and any(n["k"] == "mem" and n["n"] == flag for n in ir.walk(t))

    def touches(s):
        return any(n["k"] == "mem" and root(n).get("k") == "this" for n in ir.walk(s) if isinstance(root(n), dict))

    def blk(b):
        seen = False
        for s in b:
            if seen and touches(s):
                yield s.get("l", 0)
            if s.get("k") == "block":
                yield from blk(s["b"])
            elif s.get("k") == "if":
                for c in ("a", "b"):
                    x = s.get(c)
                    if isinstance(x, dict):
                        yield from blk(x["b"] if x.get("k") == "block" else [x])
            if store(s):
                seen = True
    yield from blk(lam["body"]["b"] if lam["body"].get("k") == "block" else [lam["body"]])

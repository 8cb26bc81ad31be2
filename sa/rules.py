"""First-principles rules: decided on the current source alone, without the reference program."""
from . import ir


class Res:
    def __init__(self, floor=1):
        self.n, self.floor, self.viol, self.samples = 0, floor, [], []

    def inst(self, s):
        self.n += 1
        if len(self.samples) < 6:
            self.samples.append(s)

    def bad(self, where, what):
        if (where, what) not in self.viol:
            self.viol.append((where, what))


from .locks import rule_locks  # noqa: E402,F401


def rule_format(P, pair, pid, tier):
    """the printing function is given a format attribute while the sources are parsed, so the compiler type-checks every call:
    one argument of a compatible type per conversion, and a literal format"""
    R = Res(floor=250)
    for f in P.fns.values():
        for n in ir.walk(f["body"]):
            if n["k"] == "call" and n.get("fn", "").endswith(("Printer::debugPrint", "::printf")) or n.get("fn") in ("printf", "std::printf", "fprintf"):
                R.inst(f"{ir.rel(f['file'])}:{n['l']}")
    for (file, line, group, msg), tu in sorted(P.diags.items()):
        if group.startswith("format"):
            R.bad(f"{ir.rel(file)}:{line}", f"{group}: {msg}")
    return R


def _closure(P, E, pred):
    """keys of the functions that contain, or call something that contains, a node satisfying pred"""
    callers, hit = {}, set()
    for k, f in P.fns.items():
        for n in ir.walk(f["body"]):
            if pred(n):
                hit.add(k)
            if n["k"] in ("call", "op", "ctor"):
                for t in E.targets(n):
                    callers.setdefault(t, set()).add(k)
    st = list(hit)
    while st:
        for c in callers.get(st.pop(), ()):
            if c not in hit:
                hit.add(c)
                st.append(c)
    return hit, callers


class Follow:
    """structured forward walk: which trigger sites can reach the end of the function without a discharging call afterwards.
    A trigger whose result decides a branch is only live where the result is true."""

    def __init__(self, trig, done):
        self.trig, self.done = trig, done
        self.exit = set()

    def events(self, e, live):
        """calls inside an expression, in evaluation order (arguments before the call)"""
        if e is None:
            return live
        order = []

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
                return
            if not isinstance(n, dict) or n.get("k") == "lambda":
                return
            for key, v in n.items():
                if isinstance(v, (dict, list)) and key not in ("ta",):
                    go(v)
            if n.get("k") in ("call", "op", "ctor"):
                order.append(n)
        go(e)
        for n in order:
            s = self.trig(n)
            if s:
                live = live | s
            if self.done(n):
                live = frozenset()
        return live

    def sites_in(self, e):
        return {x for n in ir.walk(e) if n.get("k") in ("call", "op", "ctor") for x in self.trig(n)}

    def lhs(self, s):
        """variable or field a statement assigns a trigger's result to"""
        if s["k"] == "decl":
            for v in s["v"]:
                if v.get("i") and self.sites_in(v["i"]):
                    yield ("v", v["id"]), self.sites_in(v["i"])
        x = s["e"] if s["k"] == "expr" else s
        if x and x.get("k") in ("bin", "op") and x.get("op") == "=":
            l, r = (x["a"], x["b"]) if x["k"] == "bin" else (x["a"][0], x["a"][1])
            if self.sites_in(r):
                if l["k"] == "var" and "id" in l:
                    yield ("v", l["id"]), self.sites_in(r)
                elif l["k"] == "mem":
                    yield ("f", l["n"]), self.sites_in(r)

    def block(self, ss, live, res):
        for s in ss:
            if live is None:
                return None
            live = self.stmt(s, live, res)
        return live

    def dead_when_false(self, c, res):
        """sites whose trigger returned false when condition c is false"""
        while c["k"] in ("cast", "copy", "expr") and c.get("e"):
            c = c["e"]
        if c["k"] == "call" and self.trig(c):
            return set(self.trig(c))
        if c["k"] == "var" and ("v", c.get("id")) in res:
            return res[("v", c["id"])]
        if c["k"] == "mem" and ("f", c["n"]) in res:
            return res[("f", c["n"])]
        if c["k"] == "bin" and c["op"] == "||":
            return self.dead_when_false(c["a"], res) | self.dead_when_false(c["b"], res)
        return set()

    def dead_when_true(self, c, res):
        while c["k"] in ("cast", "copy", "expr") and c.get("e"):
            c = c["e"]
        if c["k"] == "un" and c["op"] == "!":
            return self.dead_when_false(c["e"], res)
        if c["k"] == "bin" and c["op"] == "&&":
            return self.dead_when_true(c["a"], res) | self.dead_when_true(c["b"], res)
        return set()

    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a | b

    def stmt(self, s, live, res):
        k = s["k"]
        if k == "block":
            return self.block(s["b"], live, res)
        if k == "if":
            live = self.events(s["c"], live)
            neg = s["c"]["k"] == "un" and s["c"]["op"] == "!"
            f = live - (self.dead_when_false(s["c"], res) if not neg else set())
            t = live - self.dead_when_true(s["c"], res)
            r1, r2 = dict(res), dict(res)
            a = self.stmt(s["a"], t, r1) if s.get("a") else t
            b = self.stmt(s["b"], f, r2) if s.get("b") else f
            for r in (r1, r2):
                for x, y in r.items():
                    res[x] = res.get(x, set()) | y
            return self.join(a, b)
        if k in ("for", "while", "do", "rfor"):
            for key in ("init", "range"):
                if s.get(key):
                    live = self.stmt(s[key], live, res) if s[key]["k"] in ("decl", "expr", "block") else self.events(s[key], live)
            for _ in range(2):
                if s.get("c"):
                    live = self.events(s["c"], live)
                o = self.stmt(s["b"], live, res) if s.get("b") else live
                if o is not None and s.get("inc"):
                    o = self.events(s["inc"], o)
                live = self.join(live, o)
            return live
        if k == "ret":
            live = self.events(s.get("e"), live)
            self.exit |= live
            return None
        if k in ("break", "continue"):
            return live
        if k in ("switch", "try"):
            o = self.stmt(s["b"], self.events(s.get("c"), live), res) if s.get("b") else live
            return self.join(live, o)
        if k in ("case", "default"):
            return self.stmt(s["b"], live, res) if s.get("b") else live
        if k == "expr" and s.get("e") and s["e"].get("noret"):
            return None
        live = self.events(s, live)
        for x, y in self.lhs(s):
            res[x] = set(y)
        return live

    def run(self, f):
        live = self.stmt(f["body"], frozenset(), {})
        if live:
            self.exit |= live
        return self.exit


def rule_cache_invalidation(P, pair, pid, tier):
    """after every measurement update of the filter (a call that reaches StateHelper::EKFUpdate, or overwrites the whole IMU state)
    made by the manager, the prediction cache is invalidated on every path before the manager's public function returns"""
    from .effects import Effects
    E = Effects(P)
    R = Res(floor=3)
    upd, callers = _closure(P, E, lambda n: n["k"] == "call" and n.get("fn", "").endswith("StateHelper::EKFUpdate"))
    inv = {k for k, f in P.fns.items() if f["n"].endswith("Propagator::invalidate_cache")}
    if not inv:
        return R
    mine = {k for k, f in P.fns.items() if "VioManager::" in f["n"] and not f["n"].endswith("(ctor)")}
    stale = {}
    always = set(inv)
    # functions of the manager, callees first
    order, seen = [], set()

    def visit(k):
        if k in seen:
            return
        seen.add(k)
        for n in ir.walk(P.fns[k]["body"]):
            if n["k"] == "call":
                for t in E.targets(n):
                    if t in mine:
                        visit(t)
        order.append(k)
    for k in sorted(mine):
        visit(k)

    cur = [None]

    def trig(n):
        for t in E.targets(n):
            if t in mine:
                if stale.get(t):
                    return stale[t]
            elif t in upd:
                return frozenset({(cur[0]["key"], n["l"], n["fn"].split("::", 1)[-1])})
        return frozenset()

    def done(n):
        ts = E.targets(n)
        return bool(ts) and all(t in always for t in ts)
    for k in order:
        f = P.fns[k]
        cur[0] = f
        sites = {x for n in ir.walk(f["body"]) if n["k"] == "call" for x in trig(n) if x[0] == k}
        F = Follow(trig, done)
        stale[k] = frozenset(F.run(f))
        # a helper that always invalidates counts as an invalidation
        G = Follow(lambda n: frozenset({0}) if n.get("_entry") else frozenset(), done)
        body = {"k": "block", "b": [{"k": "expr", "e": {"k": "call", "fn": "", "a": [], "_entry": True, "l": 0}}, f["body"]]}
        if not G.run({"body": body}):
            always.add(k)
        for g, ln, nm in sorted(sites, key=lambda x: x[1:]):
            R.inst(f"{ir.rel(f['file'])}:{ln} {nm}")
        if stale[k] and not (callers.get(k, set()) & mine):
            for g, ln, nm in sorted(stale[k], key=lambda x: x[1:]):
                R.bad(f"{ir.rel(P.fns[g]['file'])}:{ln}", f"{P.fns[g]['n'].split('::', 1)[-1]}: the state is updated by {nm} and the prediction cache is not invalidated on some path from there to the return")
    return R

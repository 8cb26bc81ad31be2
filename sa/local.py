"""local comparison: where two versions of a function differ in one place, the two versions of that place are evaluated from
the same abstract state (everything before it is identical, hence reaches it in the same state) and their results compared.
Equal results there make the functions equal; a certain difference there is what the functions differ in."""
import signal
from . import sem, term as TM, cmp as C
from .term import T, mk, TRUE, FALSE, as_bool, band, bnot, bor, ite, is_bool

SKIP = {"l", "le", "file", "tu", "acc", "id", "_canon"}


def reporting(fn):
    return fn == "__assert_fail" or sem.ignorable(fn)


def position(x):
    while x.get("k") in ("cast", "copy"):
        x = x["e"]
    return x.get("k") == "int" or x.get("k") == "str" and str(x.get("v", "")).strip('"').isdigit()


class Hunk:
    __slots__ = ("kind", "r", "c", "at", "hit", "use")

    def __init__(s, kind, r, c, at):
        s.kind, s.r, s.c, s.at = kind, r, c, at      # kind: "x" expression, "s" statement, "b" run of statements
        s.hit = None
        s.use = False         # go on with the candidate's version of the place


class Diff:
    """minimal differing places of two syntax trees, up to positions and the names of variables"""
    def __init__(self, rf, cf):
        self.m = {}            # variable of the candidate -> variable of the reference
        self.back = {}
        self.hunks = []
        self.ok = len(rf["ps"]) == len(cf["ps"])
        if self.ok:
            for a, b in zip(rf["ps"], cf["ps"]):
                self.bind(b["id"], a["id"])
        self.names = {}

    def bind(self, c, r):
        self.m[c] = r
        self.back[r] = c

    def same(self, a, b, binds=None):
        """equal trees? new variable pairs are added to binds (kept only on success by the caller)"""
        if binds is None:
            binds = {}
        if isinstance(a, dict) and isinstance(b, dict):
            if a.get("k") != b.get("k"):
                return False
            if a.get("k") in ("vd", "var") and "id" in a and "id" in b:
                ka, kb = a["id"], b["id"]
                if a["k"] == "vd" or a.get("k") is None:
                    for x in a.keys() | b.keys():
                        if x not in SKIP and x != "n" and not self.same(a.get(x), b.get(x), binds):
                            return False
                    binds[kb] = ka
                    return True
                w = binds.get(kb, self.m.get(kb))
                if w is None:
                    w = kb if a.get("n") == b.get("n") and a.get("g") else None
                if w is None:
                    # declared further out in a way that is not tracked (lambda parameters, catch variables)
                    if a.get("n") == b.get("n") and ka not in self.back:
                        return all(a.get(x) == b.get(x) for x in ("t", "g", "p"))
                    return False
                if a.get("g") or b.get("g"):
                    return a.get("n") == b.get("n")
                return w == ka
            if a.get("k") is None and "id" in a and "id" in b:      # lambda parameters
                binds[b["id"]] = a["id"]
            if a.get("k") == "call" and a.get("fn") == b.get("fn") and reporting(a.get("fn", "")):
                # positions in the source are passed to print and assert
                u, v = a.get("a", []), b.get("a", [])
                return len(u) == len(v) and all(position(x) and position(y) or self.same(x, y, binds) for x, y in zip(u, v))
            for x in a.keys() | b.keys():
                if x in SKIP:
                    continue
                if x == "n" and a.get("k") is None and "id" in a:
                    continue
                if not self.same(a.get(x), b.get(x), binds):
                    return False
            return True
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(self.same(x, y, binds) for x, y in zip(a, b))
        return a == b

    def commit(self, binds):
        for c, r in binds.items():
            self.bind(c, r)

    def walk(self, a, b, at=()):
        """collect hunks for a differing pair of nodes; at: chain of enclosing (kind, r, c) from the outside in"""
        binds = {}
        if self.same(a, b, binds):
            self.commit(binds)
            return
        if isinstance(a, dict) and isinstance(b, dict) and a.get("k") == "block" and b.get("k") == "block":
            self.block(a, b, at)
            return
        if not (isinstance(a, dict) and isinstance(b, dict)) or a.get("k") != b.get("k"):
            self.emit(a, b, at)
            return
        k = a["k"]
        # anything but the children has to agree
        ch = []
        for x in sorted(a.keys() | b.keys()):
            if x in SKIP or k == "vd" and x == "n":
                continue
            u, v = a.get(x), b.get(x)
            if isinstance(u, (dict, list)) or isinstance(v, (dict, list)):
                ch.append((x, u, v))
            elif u != v:
                self.emit(a, b, at)
                return
        here = at + ((self.kind(a), a, b),) if self.kind(a) else at
        order = {"init": 0, "cv": 1, "range": 1, "v": 2, "c": 2, "cond": 2, "ps": 0, "caps": 0}
        ch.sort(key=lambda z: order.get(z[0], 5))
        if k == "var":
            self.emit(a, b, at)
            return
        if k == "vd":
            # the initialiser is outside the scope of the variable
            n = len(self.hunks)
            for x, u, v in ch:
                self.pair(u, v, a, b, here)
            self.bind(b["id"], a["id"])
            return
        for x, u, v in ch:
            self.pair(u, v, a, b, here)

    def pair(self, u, v, a, b, here):
        if isinstance(u, dict) and isinstance(v, dict):
            self.walk(u, v, here)
        elif isinstance(u, list) and isinstance(v, list) and len(u) == len(v):
            for p, q in zip(u, v):
                self.pair(p, q, a, b, here)
        elif not self.same(u, v):
            if not here:
                self.ok = False
                return
            self.emit(here[-1][1], here[-1][2], here[:-1])

    def kind(self, n):
        k = n.get("k")
        if k in STMT:
            return "s"
        if k == "vd" or k is None or k == "case":
            return None
        return "x"

    def emit(self, a, b, at):
        """a and b differ: the smallest place that can be evaluated"""
        while True:
            if isinstance(a, dict) and isinstance(b, dict):
                k, j = self.kind(a), self.kind(b)
                if k == "s" and j == "s":
                    self.hunks.append(Hunk("s", a, b, at))
                    return
                if k == "x" and j == "x" and sem.bare(a.get("t")) == sem.bare(b.get("t")) and a.get("t"):
                    self.hunks.append(Hunk("x", a, b, at))
                    return
            if not at:
                self.ok = False
                return
            kd, a, b = at[-1]
            at = at[:-1]
            if kd == "b":
                self.hunks.append(Hunk("b", a, b, at))
                return

    def block(self, A, B, at):
        a, b = A["b"], B["b"]
        i = 0
        while i < len(a) and i < len(b):
            binds = {}
            if not self.same(a[i], b[i], binds):
                break
            self.commit(binds)
            i += 1
        # what the middle declares is seen by the tail: pair it first where it is obvious
        ea, eb = len(a), len(b)
        mid = {}
        da = {v["n"]: v["id"] for s in a[i:] if s.get("k") == "decl" for v in s["v"]}
        for s in b[i:]:
            if s.get("k") == "decl":
                for v in s["v"]:
                    if v["n"] in da:
                        mid[v["id"]] = da[v["n"]]
        while ea > i and eb > i:
            binds = dict(mid)
            if not self.same(a[ea - 1], b[eb - 1], binds):
                break
            self.commit(binds)
            ea -= 1
            eb -= 1
        if ea - i == 1 and eb - i == 1 and a[i].get("k") == b[i].get("k"):
            h2 = at + (("b", (A, i, ea), (B, i, eb)),)
            for c, r in mid.items():
                self.m.setdefault(c, r)
            self.walk(a[i], b[i], h2)
            return
        if ea - i == eb - i and ea - i <= 12 and all(a[i + n].get("k") == b[i + n].get("k") for n in range(ea - i)):
            # the same number of statements of the same kinds: changed one by one
            h2 = at + (("b", (A, i, ea), (B, i, eb)),)
            for n in range(ea - i):
                self.walk(a[i + n], b[i + n], h2)
            return
        for c, r in mid.items():
            self.m.setdefault(c, r)
        self.hunks.append(Hunk("b", (A, i, ea), (B, i, eb), at))


STMT = {"block", "expr", "decl", "if", "for", "while", "do", "rfor", "switch", "ret", "break", "continue", "try", "unks"}


def hunks(rf, cf):
    d = Diff(rf, cf)
    if not d.ok or not isinstance(rf.get("body"), dict) or not isinstance(cf.get("body"), dict):
        return None
    if rf.get("inits") or cf.get("inits"):
        if not d.same(rf.get("inits"), cf.get("inits")):
            return None
    d.walk(rf["body"], cf["body"])
    return d if d.ok else None


def common(hs):
    """the innermost place that contains all the hunks"""
    chains = [h.at + ((h.kind, h.r, h.c),) for h in hs]
    n = 0
    while all(len(c) > n for c in chains) and all(node(c[n]) is node(chains[0][n]) and c[n][0] == chains[0][n][0] for c in chains):
        n += 1
    if n == 0:
        return None
    k, r, c = chains[0][n - 1]
    return Hunk(k, r, c, chains[0][:n - 1])


def wider(h):
    at = h.at
    if h.kind == "b" and (h.r[2] < len(h.r[0]["b"])):
        # up to the end of the block: what is skipped by a jump is in there
        return Hunk("b", (h.r[0], h.r[1], len(h.r[0]["b"])), (h.c[0], h.c[1], len(h.c[0]["b"])), at)
    while at:
        k, r, c = at[-1]
        at = at[:-1]
        if k != "x" or sem.bare(r.get("t")) == sem.bare(c.get("t")):
            return Hunk(k, r, c, at)
    return None


def node(x):
    return x[1][0] if x[0] == "b" else x[1]


class Cut(sem.Interp):
    """interpreter that evaluates both versions of the marked places"""
    def setup(self, P2, hs, vmap):
        self.P2, self.vmap = P2, vmap
        self.byid, self.blocks = {}, {}
        self.path = []
        self.inc = False
        for h in hs:
            h.hit = None
            if h.kind == "b":
                self.blocks.setdefault(id(h.r[0]["b"]), []).append(h)
            else:
                self.byid[id(h.r)] = h

    def other(self, f, S):
        """run f in the candidate's program from a copy of S"""
        save = self.P, self.alloc, self.notes, self.fresh, self.curline
        self.P, self.alloc, self.notes = self.P2, dict(self.alloc), set()
        self.inc = True
        pth = list(self.path)
        try:
            r = f(S)
            return r, set(self.notes)
        finally:
            self.inc = False
            self.P, self.alloc, self.notes, self.fresh, self.curline = save
            self.path = pth

    def exec_block(self, stmts, S):
        hs = self.blocks.get(id(stmts)) if not self.inc else None
        o = sem.Out(S)
        n0 = len(self.path)
        i = 0
        while i <= len(stmts):
            if o.n is None:
                break
            left = FALSE
            for e in (o.ret, o.brk, o.cont):
                if e:
                    left = bor(left, e[0])
            left = bor(left, o.halt)
            del self.path[n0:]
            if left is not FALSE:
                self.path.append(bnot(left))
            h = next((h for h in hs if h.r[1] == i and not (h.hit and h.hit[0] == "run")), None) if hs else None
            if h is not None:
                A, lo, hi = h.r
                B, l2, h2 = h.c
                S0 = o.n.copy()
                S1, S2 = o.n.copy(), o.n.copy()
                body2 = [rename(s, self.vmap) for s in B["b"][l2:h2]]
                nn = set(self.notes)
                h.hit = ("run",)
                try:
                    o2, notes = self.other(lambda S: sem.Interp.exec_block(self, body2, S), S2)
                    keep = self.notes
                    self.notes = set()
                    o1 = sem.Interp.exec_block(self, A["b"][lo:hi], S1)
                    notes -= self.notes
                    self.notes = keep | self.notes
                finally:
                    h.hit = None
                self.hit(h, S0, o1, o2, notes)
                self.seq(o, o2 if h.use else o1)
                i = hi
                if lo == hi:
                    # nothing to skip: go on with the statement that follows
                    if o.n is None or i >= len(stmts):
                        break
                    p = self.exec(stmts[i], o.n)
                    self.seq(o, p)
                    i += 1
                continue
            if i == len(stmts):
                break
            p = self.exec(stmts[i], o.n)
            self.seq(o, p)
            i += 1
        del self.path[n0:]
        return o

    def hit(self, h, S0, r, c, notes):
        p = TRUE
        for x in self.path:
            p = band(p, x)
        # evaluation goes on in the states that come out of this place: what is judged are copies of them
        h.hit = (h.kind, S0, frozen(r), frozen(c), notes, p)

    def exec(self, s, S):
        h = self.byid.get(id(s)) if not self.inc else None
        if h is None:
            return sem.Interp.exec(self, s, S)
        S0, S1, S2 = S.copy(), S.copy(), S.copy()
        c2 = rename(h.c, self.vmap)
        o2, notes = self.other(lambda S: sem.Interp.exec(self, c2, S), S2)
        keep = self.notes
        self.notes = set()
        o1 = sem.Interp.exec(self, s, S1)
        notes -= self.notes
        self.notes = keep | self.notes
        self.hit(h, S0, o1, o2, notes)
        return o2 if h.use else o1

    def lval(self, e, S):
        h = self.byid.get(id(e)) if not self.inc else None
        if h is None:
            return sem.Interp.lval(self, e, S)
        S0, S2 = S.copy(), S.copy()
        c2 = rename(h.c, self.vmap)

        def ev(S):
            v = sem.Interp.lval(self, c2, S)
            return v, S
        (v2, S2), notes = self.other(ev, S2)
        keep = self.notes
        self.notes = set()
        v1 = sem.Interp.lval(self, e, S)
        notes -= self.notes
        self.notes = keep | self.notes
        S1 = S.copy()
        try:
            t1, t2 = self.term(S1, v1), self.term(S2.copy(), v2)
        except (KeyError, AttributeError, TypeError):
            return v1
        self.hit(h, S0, (t1, S1), (t2, S2), notes)
        if h.use:
            self.assign_state(S, S2)
            return v2
        return v1

    def term(self, S, v):
        if isinstance(v, sem.LV):
            w = [self.read(S.copy(), v, None)]
            return w[0]
        return self.asT(S, v)


def frozen(x):
    if not isinstance(x, sem.Out):
        return x[0], x[1].copy()
    o = sem.Out(x.n.copy() if x.n is not None else None)
    o.halt = x.halt
    for nm in ("ret", "brk", "cont"):
        e = getattr(x, nm)
        if e:
            setattr(o, nm, (e[0], e[1].copy()) + tuple(e[2:]))
    return o


def rename(o, m):
    if isinstance(o, dict):
        d = {k: rename(v, m) for k, v in o.items()}
        if isinstance(o.get("id"), int):
            d["id"] = m.get(o["id"], o["id"] + (1 << 24))
        return d
    if isinstance(o, list):
        return [rename(x, m) for x in o]
    return o


def used(f, hs):
    """variables of the reference that occur outside the places, or that outlive them"""
    skip = set()
    for h in hs:
        if h.kind == "b":
            skip |= {id(x) for x in h.r[0]["b"][h.r[1]:h.r[2]]}
        else:
            skip.add(id(h.r))
    out = set()

    def go(o):
        if isinstance(o, dict):
            if id(o) in skip:
                return
            if isinstance(o.get("id"), int):
                out.add(o["id"])
            for v in o.values():
                go(v)
        elif isinstance(o, list):
            for v in o:
                go(v)
    go(f["body"])
    go(f["ps"])
    return out


def outcome(I, h, live):
    """name -> (condition under which it matters, value) for both versions"""
    kind, S0, r, c, notes, path = h.hit
    res = []
    for x in (r, c):
        d = {}
        if kind == "x":
            t, S = x
            d["value"] = (TRUE, t)
            sts = [("", TRUE, S)]
        else:
            left = x.halt
            sts = []
            for nm in ("ret", "brk", "cont"):
                e = getattr(x, nm)
                if e:
                    d[nm + "?"] = (TRUE, e[0])
                    left = bor(left, e[0])
                    sts.append((nm + ":", e[0], e[1]))
                    if nm == "ret" and e[2] is not None:
                        d["retval"] = (e[0], I.asT(e[1], e[2]))
            d["halt"] = (TRUE, x.halt)
            if x.n is not None:
                sts.append(("", bnot(left), x.n))
        for p, g, S in sts:
            d[p + "at"] = (TRUE, TRUE)
            for k, v in S.env.items():
                if k in live and S0.env.get(k) is not v:
                    d[p + "env:%d" % k] = (g, I.asT(S, v))
            for k, v in S.heap.items():
                if S0.heap.get(k) is not v:
                    v = I.asT(S, v)
                    d[p + "heap:" + (sem.short_hash(k[0]) if k[0] is not None else "::") + ":" + k[1]] = (g, v, I.asT(S0, S0.heap[k]) if k in S0.heap else I.initval(S0, k, v))
            for k, v in S.bulk.items():
                if S0.bulk.get(k) is not v:
                    d[p + "bulk:" + k] = (g, v, S0.bulk.get(k) or sem.INITC)
        res.append(d)
    return res


VAGUE = ("unmodelled", "budget", "uninitialised", "too deep", "opaque", "analysis", "order of", "which object")


def sources(t):
    """the inputs a value is computed from"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "sym" and not x.a[0].startswith("$"):
            out.add(x.a[0])
        elif x.op in ("fld", "fldv"):
            out.add(x.a[1])
        elif x.op == "call":
            out.add(x.a[0] + "()")
        st.extend(x.a)
    return out


DATATYPE = ("Eig<", "std::vector<", "cv::", "double", "float", "std::shared_ptr<", "std::map<", "std::unordered_map<", "std::basic_string")


def pure(h):
    """nothing but statements taken away or added, none of which leaves the block"""
    if h.kind != "b":
        return False
    a, b = h.r[0]["b"][h.r[1]:h.r[2]], h.c[0]["b"][h.c[1]:h.c[2]]
    if a and b:
        return False
    return not jumps(a or b)


def jumps(o):
    if isinstance(o, dict):
        if o.get("k") in ("ret", "break", "continue", "throw", "lambda"):
            return True
        return any(jumps(v) for v in o.values())
    if isinstance(o, list):
        return any(jumps(v) for v in o)
    return False


def judge(pair, I, h, cm, live):
    """'equal' | 'different' | 'unknown', differences"""
    if h.hit is None or len(h.hit) < 6:
        return "unknown", [], "not reached"
    kind, S0, r, c, notes, path = h.hit
    try:
        A, B = outcome(I, h, live)
    except (KeyError, AttributeError, sem.Unsupported):
        return "unknown", [], "state"
    prs = []
    for k in sorted(A.keys() | B.keys()):
        if k.endswith("at") or k == "at":
            continue
        x, y = A.get(k), B.get(k)
        if x is None or y is None:
            z = x or y
            pre = k.split(":")[0] + ":" if k.split(":")[0] in ("ret", "brk", "cont") else ""
            if k.endswith("?") or k == "halt":
                w = (TRUE, FALSE)
            elif k == "value":
                return "unknown", [], "no value"
            elif k == "retval" or pre + "at" not in (A if x is None else B):
                continue        # that exit does not exist in the other version: its condition differs
            elif len(z) > 2:
                w = (z[0], z[2])
            else:
                i = int(k.split(":")[-1])
                v = S0.env.get(i)
                if v is None:
                    return "unknown", [], "no value for a variable"
                w = (z[0], I.asT(S0, v))
            x, y = x or w, y or w
        if x[1] is y[1]:
            continue
        prs.append((k, band(path, x[0]), x[1], y[1]))
    if not prs:
        return ("equal", [], "") if not notes else ("unknown", [], "; ".join(sorted(notes)))
    cm.shared = TM.allterms([x for _, _, x, _ in prs]) & TM.allterms([y for _, _, _, y in prs])
    out = []
    soft = ""
    for k, g, x, y in prs:
        dead = mk("sym", "$dead", mat=x.mat)
        try:
            if g is FALSE:
                continue
            if is_bool(x) or is_bool(y):
                d = cm.cmp(band(g, as_bool(x)), band(g, as_bool(y)))
            elif g is TRUE:
                d = cm.cmp(x, y)
            else:
                d = cm.cmp(ite(g, x, dead), ite(g, y, dead))
        except (C.Over, RecursionError):
            d = [C.D(False, "comparison budget", x, y)]
        if d:
            if k.endswith("?") or k == "halt":
                return "unknown", [], "exits"
            out.append((k, d))
            if not all(z.hard for z in d):
                soft = next(z.why for z in d if not z.hard)
    if not out:
        return ("equal", [], "") if not notes else ("unknown", [], "; ".join(sorted(notes)))
    if notes:
        return "unknown", out, "; ".join(sorted(notes))
    if soft and not any(w in z.why for _, d in out for z in d if not z.hard for w in VAGUE):
        # statements that are there in one version only, and do something that is used
        if pure(h):
            return "different", out, ""
        # values computed from different inputs
        if h.kind == "x" and len(out) == 1 and out[0][0] == "value" and sem.bare(h.r.get("t")).startswith(DATATYPE):
            a, b = A["value"][1], B["value"][1]
            if sources(a) != sources(b):
                return "different", [("value", [C.D(True, "computed from other inputs", a, b)])], ""
    if soft:
        return "unknown", out, soft
    return "different", out, ""


def compare(pair, rf, cf, extra=(), budget=30000):
    """verdict and differences of the places where the two versions of a function part, or None"""
    d = hunks(rf, cf)
    if d is None or not d.hunks or len(d.hunks) > 10:
        return None
    seen = []
    for h in d.hunks:
        if not any(ident(h) == ident(g) for g in seen):
            seen.append(h)
    hs = drop_nested(seen)
    run = lambda hs: attempt(pair, rf, cf, hs, d.m, extra, budget)
    for rnd in range(4):
        res = run(hs)
        if res is None:
            return None
        vs = [v for v, _, _, _ in res]
        if vs.count("equal") >= len(vs) - 1 or len(hs) == 1:
            break
        # the equal places stay apart; the others are taken together
        bad = [h for h, v in zip(hs, vs) if v != "equal"]
        h = common(bad)
        if h is None:
            return None
        if h.kind != "b" and big(h, rf):
            return None
        hs = drop_nested([g for g, v in zip(hs, vs) if v == "equal" and not any(inside(g, x) for x in (h,))] + [h])
    if all(v == "equal" for v in vs):
        return "equal", [], hs
    if vs.count("equal") < len(vs) - 1:
        return None
    i = next(i for i, v in enumerate(vs) if v != "equal")
    rest = [h for h in hs if h is not hs[i]]
    h, r = hs[i], res[i]
    for _ in range(7):
        if r[0] == "equal":
            return "equal", [], [h]
        if r[0] == "different":
            if matters(pair, rf, h, d.m, extra):
                return "different", r[1], [h]
            return "equal", [], [h]
        h = wider(h)
        if h is None or big(h, rf):
            return None
        res = run([h] + [g for g in rest if not inside(g, h)])
        if res is None or any(x[0] != "equal" for x in res[1:]):
            return None
        r = res[0]
    return None


def matters(pair, rf, h, vmap, extra):
    """does the difference of this place reach anything the function leaves behind?"""
    try:
        rs, _, _ = sem.summarize(pair.R, pair.E, rf, pair.known, inline_extra=set(extra), keep=True)
        h.use = True
        cs, _, _ = sem.summarize(pair.R, pair.E, rf, pair.known, inline_extra=set(extra), keep=True, make=maker(pair, [h], vmap, []))
    except ERR:
        return False
    finally:
        h.use = False
    ks = [k for k in rs.keys() | cs.keys() if rs.get(k) is not cs.get(k) and k.split(":")[-1] not in pair.newfields]
    if not ks:
        return False
    from . import eq
    cm = C.Cmp(pair.heads(), pair.known, 6000)
    for k in sorted(ks):
        x, y = rs.get(k), cs.get(k)
        x = x if x is not None else eq.initial(k, y)
        y = y if y is not None else eq.initial(k, x)
        try:
            if cm.cmp(x, y):
                return True
        except (C.Over, RecursionError):
            return True
    return False


def ident(h):
    return (id(h.r),) if h.kind != "b" else (id(h.r[0]), h.r[1], h.r[2])


def inside(g, h):
    """is g part of h?"""
    if ident(g) == ident(h):
        return True
    for k, r, c in g.at:
        if k == "b" or h.kind != "b":
            if (((id(r[0]), r[1], r[2]) if k == "b" else (id(r),))) == ident(h):
                return True
    if h.kind == "b":
        ids = {id(x) for x in h.r[0]["b"][h.r[1]:h.r[2]]}
        if any(k != "b" and id(r) in ids for k, r, _ in g.at) or g.kind != "b" and id(g.r) in ids:
            return True
        if g.kind == "b" and g.r[0] is h.r[0] and h.r[1] <= g.r[1] and g.r[2] <= h.r[2]:
            return True
    return False


def big(h, rf):
    n = size(h) if h.kind == "b" else count(h.r)
    return n * 10 > total(rf) * 8


def drop_nested(hs):
    ids = {id(h.r) if h.kind != "b" else (id(h.r[0]), h.r[1], h.r[2]) for h in hs}
    out = []
    for h in hs:
        if any((id(r) if k != "b" else (id(r[0]), r[1], r[2])) in ids for k, r, _ in h.at):
            continue
        out.append(h)
    return out


def count(o):
    if isinstance(o, dict):
        return 1 + sum(count(v) for v in o.values())
    if isinstance(o, list):
        return sum(count(v) for v in o)
    return 0


def size(h):
    return sum(count(x) for x in h.r[0]["b"][h.r[1]:h.r[2]])


def total(f):
    return count(f["body"])


ERR = (sem.Unsupported, sem.Budget, RecursionError, KeyError, NotImplementedError, AttributeError, TypeError, ValueError)


def maker(pair, hs, vmap, I):
    def make(*a, **k):
        x = Cut(*a, **k)
        x.setup(pair.P, hs, vmap)
        I.append(x)
        return x
    return make


def attempt(pair, rf, cf, hs, vmap, extra, budget):
    I = []
    try:
        for _ in range(4):
            u = TM.UPGR[0]
            del I[:]
            sem.summarize(pair.R, pair.E, rf, pair.known, inline_extra=set(extra), keep=True, make=maker(pair, hs, vmap, I))
            if TM.UPGR[0] == u:
                break
    except ERR:
        return None
    live = used(rf, hs)
    out = []
    for h in hs:
        cm = C.Cmp(pair.heads(), pair.known, budget)
        cm.allocsure = False
        v, d, why = judge(pair, I[0], h, cm, live)
        out.append((v, d, why, h))
    return out


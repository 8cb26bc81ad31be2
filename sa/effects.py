"""Syntactic, interprocedural effect analysis over the IR: which fields a function may write / read (transitively),
which of its reference parameters it may write, and the call graph (virtual calls go to every overrider)."""
from .ir import walk

IGNORE_PREFIX = ("boost::posix_time", "boost::date_time", "std::lock_guard", "std::unique_lock", "std::mutex", "google::")


def ignorable(fn):
    return fn == "ov_core::Printer::debugPrint" or fn.startswith(IGNORE_PREFIX) or fn in ("printf", "fprintf", "vprintf", "fflush")


def short(cls):
    return cls.rsplit("::", 1)[-1]


def fkey(m):
    return short(m["c"]) + "." + m["n"]


def strip(e):
    while isinstance(e, dict) and e["k"] in ("copy", "cast"):
        e = e["e"]
    return e


def lroot(e):
    """('fld', key, node) | ('var', id) | ('this',) | None : the storage an lvalue expression designates"""
    last = None
    while isinstance(e, dict):
        k = e["k"]
        if k in ("copy", "cast"):
            e = e["e"]
        elif k == "mem":
            o = strip(e["o"])
            last = ("fld", fkey(e), e)
            if e.get("arrow") or o["k"] == "this" or isptr(o):
                return last
            e = o
            r = lroot(e)
            return r if r and r[0] in ("fld", "var") else last
        elif k == "var":
            return ("var", e["id"], e) if "id" in e else ("glob", e.get("g"), e)
        elif k == "call":
            if "o" in e:
                e = e["o"]
            else:
                return None
        elif k == "op":
            if e.get("fn", "").endswith("operator->") or e["op"] in ("[]", "()", "*", "->", "<<", "=", ",", "+=", "++"):
                e = e["a"][0]
            else:
                return None
        elif k == "un" and e["op"] in ("*", "&", "++", "--"):
            e = e["e"]
        elif k == "idx":
            e = e["a"]
        elif k == "bin" and e["op"] in ("=", "+=", "-=", "*=", "/="):
            e = e["a"]
        elif k == "cond":
            e = e["a"]
        elif k == "this":
            return ("this",)
        else:
            return None
    return None


def isptr(o):
    return (o["k"] in ("op", "call") and (o.get("fn", "").endswith("operator->") or o.get("t", "").startswith("P<"))) or (
        o["k"] in ("var", "mem") and o.get("t", "").startswith(("P<", "const P<")))


MUT_OPS = {"=", "+=", "-=", "*=", "/=", "<<", ",", "++", "--", ">>", "%=", "|=", "&="}


class Effects:
    def __init__(self, P):
        self.P = P
        self.over = {}
        for f in P.fns.values():
            for b in f.get("over", []):
                self.over.setdefault(b, set()).add(f["key"])
        self.mods, self.refs, self.pmods, self.calls = {}, {}, {}, {}
        self.thismod = {}
        self.pdep = {}
        self._direct()
        self._close()

    def targets(self, node):
        k = node.get("key")
        if not k:
            return []
        out = [k] if k in self.P.fns else []
        if node.get("virt"):
            seen, st = set(), [k]
            while st:
                x = st.pop()
                for y in self.over.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
                        out.append(y)
        return out

    def writes(self, n):
        """lvalue expressions directly written by node n"""
        k = n["k"]
        out = []
        if k == "bin" and n["op"] in ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="):
            out.append(n["a"])
        elif k == "un" and n["op"] in ("++", "--"):
            out.append(n["e"])
        elif k == "op":
            if n["op"] in MUT_OPS and n["a"] and not (n["op"] in ("<<", ",", ">>") and not (n.get("m") or n.get("pm", "").startswith("w"))):
                if not n.get("cst"):
                    out.append(n["a"][0])
            pm = n.get("pm", "")
            off = 1 if n.get("m") else 0
            for i, c in enumerate(pm):
                if c in "wp" and i + off < len(n["a"]) and not (i + off == 0):
                    out.append(n["a"][i + off])
            if n["op"] == "()" and n.get("m") and not n.get("cst") and "Eigen" not in n.get("fn", "") and "cv::" not in n.get("fn", ""):
                out.append(n["a"][0])
        elif k in ("call", "ctor"):
            if k == "call" and "o" in n and not n.get("cst") and not n.get("stat") and not n.get("key") and not pure_method(n["fn"]):
                out.append(n["o"])
            pm = n.get("pm", "")
            tg = self.targets(n)
            for i, c in enumerate(pm):
                if c in "wp" and i < len(n.get("a", [])):
                    if tg:
                        if not any(i in self.pmods.get(t, ()) for t in tg):
                            continue
                    out.append(n["a"][i])
        return out

    def _direct(self):
        for key, f in self.P.fns.items():
            self.mods[key], self.refs[key], self.pmods[key], self.calls[key] = set(), set(), set(), set()
            self.thismod[key] = False
        for key, f in self.P.fns.items():
            lhs = set()
            for n in walk(f):
                if n["k"] in ("call", "op", "ctor", "fnref", "memfn"):
                    if ignorable(n.get("fn", "")):
                        continue
                    for t in self.targets(n):
                        self.calls[key].add(t)
                if n["k"] in ("bin", "op") and n["op"] == "=":
                    l = strip(n["a"][0] if n["k"] == "op" else n["a"])
                    if l["k"] == "mem":
                        lhs.add(id(l))
                if n["k"] == "mem" and id(n) not in lhs:
                    self.refs[key].add(fkey(n))
            if f["n"].endswith("::(ctor)"):
                for i in f.get("inits", []):
                    if "m" in i and i.get("w"):
                        pass

    # ------------------------------------------------------------------ roots
    def _locals(self, key, f):
        """local variables: alias -> initialiser, fresh objects, by-value objects"""
        alias, init, assigned = {}, {}, {}
        pid = {p["id"]: i for i, p in enumerate(f["ps"])}
        vals = set()
        for n in walk(f):
            if n["k"] == "vd":
                t = n.get("t", "")
                if n["id"] in alias:
                    continue            # element of a range-for: already bound to the range
                if t.startswith(("R<", "RR<", "P<", "const P<")) and n.get("i"):
                    alias[n["id"]] = n["i"]
                elif "shared_ptr" in t[:22] or "unique_ptr" in t[:22]:
                    init[n["id"]] = n.get("i")
                elif "iterator" in t and n.get("i"):
                    alias[n["id"]] = n["i"]
                else:
                    vals.add(n["id"])
            elif n["k"] == "rfor":
                alias[n["v"]["id"]] = n["range"]
                for b in n["v"].get("binds", []):
                    alias[b["id"]] = n["range"]
            elif n["k"] in ("op", "bin") and n["op"] == "=":
                l = strip(n["a"][0] if n["k"] == "op" else n["a"])
                r = n["a"][1] if n["k"] == "op" else n["b"]
                if l["k"] == "var" and "id" in l:
                    assigned.setdefault(l["id"], []).append(r)
        fresh = set()
        for i, e in init.items():
            es = ([e] if e is not None else []) + assigned.get(i, [])
            if i in pid:
                continue
            if es and all(_fresh(x) for x in es):
                fresh.add(i)
            elif e is not None and not assigned.get(i):
                alias[i] = e
        return alias, fresh, vals, pid

    def deeproot(self, loc, e, hops=0):
        """what object graph the storage of an lvalue hangs off: this | ('p', i) | local | glob | None"""
        alias, fresh, vals, pid = loc
        while isinstance(e, dict):
            k = e["k"]
            if k in ("copy", "cast"):
                e = e["e"]
            elif k == "mem":
                e = e["o"]
            elif k == "this":
                return "this"
            elif k == "var":
                if "id" not in e:
                    return "glob"
                i = e["id"]
                if i in alias and hops < 8:
                    e = alias[i]
                    hops += 1
                    continue
                if i in fresh or i in vals:
                    return "local"
                if i in pid:
                    return ("p", pid[i])
                return None
            elif k == "call" and "o" in e and not e.get("key"):
                e = e["o"]
            elif k == "call" and "o" in e:
                g = self.P.fns.get(e["key"])
                e = e["o"]          # accessor of a sub-object
            elif k == "op":
                if e.get("fn", "").endswith("operator->") or e["op"] in ("[]", "()", "*", "->", "<<", "=", ",", "+=", "++"):
                    e = e["a"][0]
                else:
                    return None
            elif k == "un":
                e = e["e"]
            elif k == "idx":
                e = e["a"]
            elif k == "bin" and e["op"] in ("=", "+=", "-=", "*=", "/="):
                e = e["a"]
            elif k in ("ctor", "list") and len(e.get("a", [])) == 1:
                e = e["a"][0]
            elif k in ("ctor", "list", "lambda", "new", "str", "int", "zero"):
                return "local"
            else:
                return None
        return None

    def _close(self):
        LOC = {key: self._locals(key, f) for key, f in self.P.fns.items()}
        WR, CALLS = {}, {}
        for key, f in self.P.fns.items():
            WR[key], CALLS[key] = [], []
            for n in walk(f):
                if n["k"] not in ("bin", "un", "op", "call", "ctor", "fnref", "memfn"):
                    continue
                if ignorable(n.get("fn", "")):
                    continue
                if n["k"] in ("bin", "un", "op", "call", "ctor"):
                    WR[key].append(n)
                if n["k"] in ("call", "op", "ctor", "fnref", "memfn"):
                    tg = self.targets(n)
                    if tg:
                        o = n.get("o") if n["k"] == "call" else (n["a"][0] if n["k"] == "op" and n.get("m") else None)
                        root = "new" if n["k"] == "ctor" else (self.deeproot(LOC[key], o) if o is not None else "none")
                        CALLS[key].append((n, tg, root))
        # refthis: everything the function reads hangs off its receiver or its by-value arguments
        self.refthis = {}
        for key, f in self.P.fns.items():
            ok = not any("shared_ptr" in p["t"] or p["t"].startswith(("P<", "const P<")) for p in f["ps"])
            if ok:
                for n in walk(f):
                    if n["k"] == "mem" and self.deeproot(LOC[key], n) in (None, "glob"):
                        ok = False
                        break
            self.refthis[key] = ok
        ch = True
        while ch:
            ch = False
            for key in self.P.fns:
                if self.refthis[key] and any(self.refs[c] is not None and not (self.refthis[c] and root in ("this", "local", "new", "none")) and True
                                             for n, tg, root in CALLS[key] for c in tg):
                    self.refthis[key] = False
                    ch = True
        # thisonly: every effect of the function is on objects reached from its receiver
        self.thisonly = {k: True for k in self.P.fns}
        changed = True
        it = 0
        while changed and it < 14:
            changed = False
            it += 1
            for key, f in self.P.fns.items():
                loc = LOC[key]
                alias, fresh, vals, pid = loc
                for n in WR[key]:
                    for w in self.writes(n):
                        r = lroot(w)
                        hops = 0
                        while r and r[0] == "var" and r[1] in alias and hops < 8:
                            r = lroot(alias[r[1]])
                            hops += 1
                        if not r:
                            continue
                        if r[0] == "fld":
                            dr = self.deeproot(loc, w)
                            if dr == "local":
                                continue
                            if dr != "this" and self.thisonly[key]:
                                self.thisonly[key] = False
                                changed = True
                            if r[1] not in self.mods[key]:
                                self.mods[key].add(r[1])
                                changed = True
                        elif r[0] == "var" and r[1] in pid:
                            if pid[r[1]] not in self.pmods[key]:
                                self.pmods[key].add(pid[r[1]])
                                changed = True
                for n, tg, root in CALLS[key]:
                    for c in tg:
                        if self.mods[c] and not (root in ("new", "local") and (self.thisonly[c] or root == "new")):
                            if not self.mods[c] <= self.mods[key]:
                                self.mods[key] |= self.mods[c]
                                changed = True
                            if self.thisonly[key] and not (root == "this" and self.thisonly[c]):
                                self.thisonly[key] = False
                                changed = True
                        if not self.refs[c] <= self.refs[key]:
                            self.refs[key] |= self.refs[c]
                            changed = True


def _fresh(e):
    e = strip(e)
    if e["k"] == "null" or e["k"] == "new":
        return True
    if e["k"] == "call" and e["fn"].endswith(("make_shared", "make_unique")):
        return True
    if e["k"] in ("ctor", "list") and len(e.get("a", [])) <= 1:
        return not e["a"] or _fresh(e["a"][0])
    if e["k"] == "zero":
        return True
    return False


PURE_METHODS = {"at", "operator[]", "begin", "end", "rbegin", "rend", "find", "size", "empty", "count", "data", "back", "front", "block", "row",
                "col", "head", "tail", "segment", "rows", "cols", "transpose", "noalias", "operator->", "operator*", "get", "c_str",
                "norm", "dot", "diagonal", "topRows", "bottomRows", "leftCols", "rightCols", "coeff", "eval", "lower_bound", "upper_bound", "derived",
                "matrix", "array", "cast", "inverse", "lock", "unlock", "selfadjointView", "triangularView", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "middleRows", "middleCols", "matrixL", "matrixU", "matrixV", "singularValues", "finished", "ptr", "first", "second", "root", "operator()", "length", "str"}


def pure_method(fn):
    return fn.rsplit("::", 1)[-1] in PURE_METHODS

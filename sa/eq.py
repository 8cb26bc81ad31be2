"""Reference program (frozen, reviewed) against the current program, function by function."""
import gzip, json, os, signal, sys
from . import ir, effects, sem, local, cmp as C
from .term import *
from . import term as TM

REF = os.path.join(ir.HERE, "ref", "ref.json.gz")


def freeze(P):
    d = {"fns": list(P.fns.values()), "classes": list(P.classes.values()), "enums": list(P.enums.values()), "gvars": list(P.gvars.values())}
    os.makedirs(os.path.dirname(REF), exist_ok=True)
    raw = json.dumps(d, sort_keys=True, separators=(",", ":")).encode()
    with open(REF, "wb") as fh:
        with gzip.GzipFile(fileobj=fh, mode="wb", mtime=0, compresslevel=9) as g:
            g.write(raw)


def load_ref():
    d = json.loads(gzip.open(REF).read())
    P = ir.Program()
    for f in d["fns"]:
        P.fns[f["key"]] = f
        P.by_name.setdefault(f["n"], []).append(f)
    for k in ("classes", "enums", "gvars"):
        for o in d[k]:
            getattr(P, k)[o["n"]] = o
    return P


class Pair:
    def __init__(self, R, P):
        self.R, self.P = R, P
        self.E = effects.Effects(R)
        self.set_current(P)
        self._heads = None
        self.force = False

    def set_current(self, P):
        self.P = P
        sig = lambda Q: {n: {f["key"] for f in fs} for n, fs in Q.by_name.items()}
        a, b = sig(self.R), sig(P)
        self.known = {n for n in a if a[n] == b.get(n)}
        self.gone = sorted(n for n in a if n not in b)
        self.new = sorted(n for n in b if n not in a)
        self.newfields = set()
        for c in P.classes.values():
            rc = self.R.classes.get(c["n"])
            have = {f["n"] for f in rc.get("fields", [])} if rc else set()
            for f in c.get("fields", []):
                if f["n"] not in have:
                    self.newfields.add(effects.short(c["n"]) + "." + f["n"])

    def heads(self):
        """application heads of every reference summary (what the model knows)"""
        if self._heads is None:
            self._heads = H = set()
            for k, f in self.R.fns.items():
                if skip(f):
                    continue
                try:
                    sl, I_, _ = sem.summarize(self.R, self.E, f, set(self.R.by_name))
                except (sem.Unsupported, sem.Budget, RecursionError):
                    continue
                for t in sl.values():
                    for x in subterms(t):
                        if x.op == "app" and isinstance(x.a[0], str):
                            H.add(x.a[0])
                        elif x.op == "call" and x.a[0] not in self.R.by_name:
                            H.add(("call", x.a[0]))      # declared only (pure virtual)
        return self._heads

    def compare(self, key, budget=30000, seconds=60):
        """(verdict, [ (slot, diffs) ], info); gives up (unknown) after a bounded amount of work"""
        def late(*_):
            raise TooLong()
        self.heads()
        self._near = None
        old = signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
        try:
            return self._compare_key(key, budget)
        except TooLong:
            if self._near:
                return self._near
            return "unknown", [], {"why": "analysis limit: time"}
        except Exception as ex:
            if os.environ.get("OVSA_DEBUG"):
                raise
            return "unknown", [], {"why": "analysis limit: internal %s" % type(ex).__name__}
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)

    def _compare_key(self, key, budget):
        rf, cf_ = self.R.fns.get(key), self.P.fns.get(key)
        if rf is None or cf_ is None:
            return "unknown", [], {"why": "signature changed or function gone"}
        if not self.force and same_ir(rf, cf_) and self.known_closed(cf_):
            return "equal", [], {"why": "identical"}
        near = self._local(rf, cf_)
        if near and near[0] == "equal":
            return near
        self._near = near
        extra = set()
        res = None
        for rnd in range(3):
            res = self._compare(key, rf, cf_, extra, budget)
            v, slots, info = res
            if v == "unknown" and near and not info["why"].startswith("analysis limit"):
                return near
            if v != "unknown" or not info.get("calls"):
                return res
            more = {c for c in info["calls"] if c in self.R.by_name and c in self.P.by_name} - extra
            if not more:
                return res
            extra |= more
        return res

    def _local(self, rf, cf_):
        """verdict from the places where the two versions part, or None"""
        if self.force or same_ir(rf, cf_) or self.callee_changed(cf_):
            return None
        def late(*_):
            raise TooLong()
        TM.reset()
        left, _ = signal.getitimer(signal.ITIMER_VIRTUAL)
        old = signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, min(20, left or 20))
        try:
            r = local.compare(self, rf, cf_)
        except TooLong:
            r = None
        except Exception as ex:
            if os.environ.get("OVSA_DEBUG"):
                raise
            r = None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
            if left:
                signal.setitimer(signal.ITIMER_VIRTUAL, left)
        if r is None:
            return None
        v, out, hs = r
        if v == "equal":
            return "equal", [], {"why": "the places where the versions part agree", "terms": 0, "inlined": 0}
        h = hs[-1]
        n = h.r if h.kind != "b" else (h.r[0]["b"][h.r[1]:h.r[2]] or [h.r[0]])[0]
        m = h.c if h.kind != "b" else (h.c[0]["b"][h.c[1]:h.c[2]] or [h.c[0]])[0]
        ln = line(m) or line(n)
        return "different", [(s, d, ln) for s, d in out], {"why": "", "calls": set(), "notes": [], "inlined": 0, "local": True}

    def callee_changed(self, f):
        """is something that is evaluated in place of a call different, outside of what f itself says?"""
        seen, st = set(), [f]
        while st:
            g = st.pop()
            for n in ir.walk(g):
                k = n.get("key") if isinstance(n, dict) else None
                if n["k"] in ("call", "op", "ctor") and k and k not in seen:
                    seen.add(k)
                    h, r = self.P.fns.get(k), self.R.fns.get(k)
                    if h is None or r is None:
                        continue
                    if len(sem.nostmts(h["body"])) <= 2 or h["n"] not in self.known:
                        if not same_ir(r, h):
                            return True
                        st.append(h)
        return False

    def known_closed(self, f):
        """nothing the function calls has to be inlined from changed code"""
        seen, st = set(), [f]
        while st:
            g = st.pop()
            for n in ir.walk(g):
                k = n.get("key") if isinstance(n, dict) else None
                if n["k"] in ("call", "op", "ctor") and k and k not in seen:
                    seen.add(k)
                    h = self.P.fns.get(k)
                    r = self.R.fns.get(k)
                    if h is None:
                        continue
                    if r is None:
                        return False
                    if len(sem.nostmts(h["body"])) <= 2 or h["n"] not in self.known:
                        if not same_ir(r, h):
                            return False
                        st.append(h)
        return True

    def _compare(self, key, rf, cf_, extra, budget):
        H = self.heads()
        TM.reset()
        try:
            # repeated until the matrix/scalar classification of the shared terms is settled, so that both sides are
            # normalised under the same classification whatever the order in which it was discovered
            for _ in range(5):
                u = TM.UPGR[0]
                rs, RI, rl = sem.summarize(self.R, self.E, rf, self.known, inline_extra=extra, keep=True)
                cs, CI, cl = sem.summarize(self.P, self.E, cf_, self.known, inline_extra=extra, keep=True)
                if TM.UPGR[0] == u:
                    break
        except (sem.Unsupported, sem.Budget, RecursionError, KeyError, NotImplementedError) as ex:
            return "unknown", [], {"why": "analysis limit: %s %s" % (type(ex).__name__, ex)}
        cs, sure = align(rs, cs)
        cm = C.Cmp(H, self.known, budget)
        cm.allocsure = sure
        cm.shared = TM.allterms(rs.values()) & TM.allterms(cs.values())
        out = []
        notes = sorted(CI.notes - RI.notes | basenote(rs, cs))
        calls = set()
        soft = hard = 0
        for s in sorted(rs.keys() | cs.keys()):
            r, c = rs.get(s), cs.get(s)
            if r is c:
                continue
            if s.split(":")[-1] in self.newfields:
                continue
            if r is None:
                r = initial(s, c)
            if c is None:
                c = initial(s, r)
            try:
                d = cm.cmp(r, c)
            except (C.Over, RecursionError):
                d = [C.D(False, "comparison budget", r, c)]
            if d:
                out.append((s, d, cl.get(s) or rl.get(s) or 0))
        if not out:
            return "equal", [], {"why": "normal forms agree", "terms": RI.n + CI.n, "inlined": len(CI.inlined)}
        # one slot that differs with certainty is enough; undecided slots do not take that away unless they are undecided for a
        # reason that would also explain the difference
        for s, d, ln in out:
            for x in d:
                calls.update(x.calls)
        hardslots = [(s, d, ln) for s, d, ln in out if all(x.hard for x in d)]
        info = {"why": "", "calls": calls, "notes": notes, "inlined": len(CI.inlined)}
        if hardslots and not notes and len(hardslots) * 2 >= len(out):
            return "different", hardslots, info
        if not notes:
            pos = self.positional(rs, cs, cm, cl, rl) or self.rootcause(cf_, extra, rs, cs, cm, cl, rl)
            if pos:
                return "different", pos, info
        info["why"] = "; ".join(sorted({x.why for _, d, _ in out for x in d if not x.hard})) or "; ".join(notes)
        return "unknown", out, info


    def rootcause(self, cf_, extra, rs, cs, cm, cl, rl):
        """are the summaries the same once a few innermost values of the candidate are taken for those of the reference?
        The candidate is summarised again with those values replaced; when nothing else is left to tell the two apart,
        the replaced values are the whole difference and only they have to be judged."""
        cap = 4
        m, roots = {}, []
        cur = cs
        try:
            for _ in range(3):
                RT, CT = TM.allterms(rs.values()), TM.allterms(cur.values())
                new = [t for t in CT - RT if all(x in RT for x in children(t))]
                gone = [t for t in RT - CT if all(x in CT for x in children(t))]
                if not 0 < len(new) <= cap or not 0 < len(gone) <= cap:
                    if os.environ.get("OVSA_POS"):
                        print("ROOT", len(new), len(gone), [pp(x, 4)[:80] for x in new[:4]], [pp(x, 4)[:80] for x in gone[:4]])
                    return None
                new.sort(key=lambda t: t.h)
                gone.sort(key=lambda t: t.h)
                alts = pairings(new, gone)
                if not alts:
                    return None
                best = None
                for alt in alts[:4]:
                    TM.REPL.clear()
                    TM.REPL.update(m)
                    TM.REPL.update(alt)
                    s2, I2, _ = sem.summarize(self.P, self.E, cf_, self.known, inline_extra=extra, keep=True)
                    TM.REPL.clear()
                    s2, _ = align(rs, s2)
                    left = [k for k in rs.keys() | s2.keys() if rs.get(k) is not s2.get(k) and k.split(":")[-1] not in self.newfields]
                    if best is None or len(left) < best[0]:
                        best = (len(left), alt, s2)
                    if not left:
                        break
                n, alt, s2 = best
                if os.environ.get("OVSA_POS"):
                    print("ROOT", n, [(pp(a, 5)[:200], pp(b, 5)[:200]) for a, b in alt.items()])
                m.update(alt)
                roots += alt.items()
                if not n:
                    break
                cur = s2
            else:
                return None
        except (sem.Unsupported, sem.Budget, RecursionError, KeyError, NotImplementedError):
            return None
        finally:
            TM.REPL.clear()
        out = []
        jc = C.Cmp(cm.heads, cm.known, 5000)
        jc.allocsure, jc.shared = cm.allocsure, cm.shared
        for c, r in roots:
            if TM.skelb(c) == TM.skelb(r):
                continue        # the same but for the numbering of loop variables
            try:
                if is_bool(c):
                    d = jc.cmp(as_bool(r), as_bool(c))
                    e = jc.cmp(as_bool(r), bnot(as_bool(c)))
                    # either the two mean the same, or the replaced value must be a certain difference whichever way round it is read
                    d = d if d and all(x.hard for x in d) and e else []
                else:
                    d = jc.cmp(r, c)
            except (C.Over, RecursionError):
                return None
            if not d or not all(x.hard for x in d):
                return None
            out += d
        if not out:
            return None
        slots = [s for s in sorted(rs.keys() | cs.keys()) if rs.get(s) is not cs.get(s) and s.split(":")[-1] not in self.newfields]
        return [(s, out, cl.get(s) or rl.get(s) or 0) for s in slots]

    def positional(self, rs, cs, cm, cl, rl):
        """the summaries are one common context filled differently at one or two points, each of them a certain difference"""
        pc = C.Cmp(cm.heads, cm.known, 150000)
        pc.positional = True
        pc.allocsure, pc.shared = cm.allocsure, cm.shared
        out, roots = [], {}
        for s in sorted(rs.keys() | cs.keys()):
            r, c = rs.get(s), cs.get(s)
            if r is c or s.split(":")[-1] in self.newfields:
                continue
            if r is None or c is None:
                return None
            try:
                d = pc.cmp(r, c)
            except (C.Over, RecursionError):
                return None
            if os.environ.get("OVSA_POS"):
                print("POS", s, len(d), pc.n, [(x.hard, describe(x)[:300]) for x in d[:6]])
            if not d or not all(x.hard for x in d):
                return None
            for x in d:
                roots[(x.r, x.c)] = x
            if len(roots) > 2:
                return None
            out.append((s, d, cl.get(s) or rl.get(s) or 0))
        if any((b, a) in roots for a, b in roots):
            return None
        return out


def basenote(rs, cs):
    """the same blocks over an identity in one version and over zeros in the other: what is left of the identity is not known"""
    A, B = ({t for t in TM.allterms(z.values()) if t.op == "bst"} for z in (rs, cs))
    z = lambda t: t is ZERO or t.op == "app" and t.a[0] == "Zero"
    for X, Y in ((A - B, B - A), (B - A, A - B)):
        ids = {t.a[1] for t in X if t.a[0].op == "I" and any(k[0] is k[1] for k, _ in t.a[1])}
        if ids and any(z(t.a[0]) and t.a[1] in ids for t in Y):
            return {"blocks over an identity against blocks over zeros"}
    return set()


def pairings(new, gone):
    """ways of taking each of the new terms for one of the terms that are gone"""
    base, flips = {}, []
    left = list(gone)
    for t in new:
        b = is_bool(t)
        c = [g for g in left or gone if is_bool(g) == b and (b or g.op == t.op or {g.op, t.op} <= C.DATA)]
        if not c:
            c = [g for g in gone if is_bool(g) == b]
        if not c:
            return []
        g = max(c, key=lambda g: (g.op == t.op and g.a[0] == t.a[0] if t.op in ("call", "app") else g.op == t.op, C.similarity(g, t), g.h))
        base[t] = g
        if g in left:
            left.remove(g)
        if b:
            flips.append(t)
    out = [base]
    if len(flips) <= 2:
        for t in flips:
            for o in list(out):
                z = dict(o)
                z[t] = bnot(z[t])
                out.append(z)
    return out


def unowned(slots):
    """objects created by the function that no field owns: pointer -> contents"""
    d = {}
    for s, v in slots.items():
        if s.startswith("heap:") and v.op == "loc" and v.a[0].op == "app" and str(v.a[0].a[0]).startswith("newp:") and v.a[0].a[-1].op == "num":
            d.setdefault(v.a[0], {})[v.a[1]] = v.a[2]
    return d


def align(rs, cs):
    """rename the candidate's unowned objects after the reference's with the same contents: they are numbered by creation"""
    R, K = unowned(rs), unowned(cs)
    if not R or not K or len(R) + len(K) < 3:
        return cs, True
    blank = {p: mk("sym", "@new") for p in set(R) | set(K)}
    memo = {}

    def sig(p, d):
        return (p.a[0],) + tuple(x.h for x in p.a[1:-1]), tuple(sorted((n, TM.subst(v, blank, memo).h) for n, v in d.items()))

    def order(p):
        return p.a[0], tuple(x.h for x in p.a[1:-1]), p.a[-1].a[0]
    rr = {p: sig(p, R[p]) for p in sorted(R, key=order)}
    kk = {p: sig(p, K[p]) for p in sorted(K, key=order)}
    m = {p: p for p in kk if rr.get(p) == kk[p]}
    left = [q for q in rr if q not in m]
    for p in kk:
        if p not in m:
            q = next((q for q in left if rr[q] == kk[p]), None)
            if q is not None:
                m[p] = q
                left.remove(q)
    sure = True
    for p in kk:
        if p not in m:
            c = [q for q in left if q.a[:-1] == p.a[:-1]]
            sure = sure and len(c) == 1
            if not c:
                continue
            m[p] = p if p in c else c[0]
            left.remove(m[p])
    m = {p: q for p, q in m.items() if p is not q}
    if not m:
        return cs, sure
    memo = {}
    out = {}
    for s, v in cs.items():
        v = TM.subst(v, m, memo)
        if s.startswith("heap:") and v.op == "loc" and v.a[0].op != "sym":
            s = "heap:" + sem.short_hash(v.a[0]) + ":" + v.a[1]
        out[s] = v
    return out, sure


def line(o):
    """first source line in a piece of syntax"""
    if isinstance(o, dict):
        if o.get("l"):
            return o["l"]
        o = list(o.values())
    if isinstance(o, list):
        for x in o:
            if isinstance(x, (dict, list)):
                n = line(x)
                if n:
                    return n
    return 0


class TooLong(BaseException):
    pass


def initial(s, like):
    if s == "halt":
        return FALSE
    if s.startswith("bulk:"):
        return sem.INITC
    if s.startswith("heap:"):
        b, n, v = like.a
        return mk("loc", b, n, mk("fld", b, n, mat=v.mat) if not n == "*" else mk("app", "obj", b))
    if s.startswith("param"):
        return mk("sym", "p" + s[5:], mat=like.mat)
    return mk("opaque", "no value")


def skip(f):
    b = os.path.basename(f["file"])
    return b == "matplotlibcpp.h" or b.startswith("test_")


IDK = {"l", "le", "file", "tu", "acc"}


def same_ir(a, b):
    """structural identity up to positions and variable numbering"""
    return canon(a) == canon(b)


def canon(f):
    c = f.get("_canon")
    if c is None:
        ids = {}

        def go(o):
            if isinstance(o, dict):
                if o.get("k") == "call" and local.reporting(o.get("fn", "")):
                    # positions in the source are passed to print and assert
                    o = dict(o, a=[x for x in o.get("a", []) if not local.position(x)])
                return tuple((k, ids.setdefault(v, len(ids)) if k == "id" and isinstance(v, int) else go(v)) for k, v in sorted(o.items()) if k not in IDK and k != "_canon")
            if isinstance(o, list):
                return tuple(go(x) for x in o)
            return o
        import hashlib
        c = hashlib.sha256(repr(go({k: f.get(k) for k in ("ps", "inits", "body", "rt")})).encode()).hexdigest()
        f["_canon"] = c
    return c


def describe(d):
    s = d.why + ": expected " + pp(d.r, 6)[:160] + ", found " + pp(d.c, 6)[:160]
    if d.cond:
        s += "  when " + " && ".join(("" if v else "!") + pp(a, 4)[:80] for a, v in d.cond)
    return s


def slotname(s):
    p = s.split(":")
    if p[0] == "heap":
        return ("this->" if p[1] == "this" else "") + ":".join(p[2:])
    if p[0] == "bulk":
        return ":".join(p[1:])
    return {"ret": "return value", "halt": "termination condition"}.get(p[0], p[0])


def _const(pair, Prog, node):
    """term of a declaration-level initialiser"""
    I_ = sem.Interp(Prog, pair.E, pair.known)
    I_.stack, I_.top, I_.this = [], "<data>", mk("sym", "this")
    return I_.ev(node, sem.State())


SIZES = {"float": 4, "double": 8}


def data_obligations(pair, pat, classes=()):
    """in-class initialisers, floating-point widths and enumerator values: ([(where, what)], number compared, undecided)"""
    import re
    out, unk, n = [], [], 0
    r = re.compile(pat) if pat else None
    for cn, rc in sorted(pair.R.classes.items()):
        if not (r and r.fullmatch(cn) or cn in classes):
            continue
        cc = pair.P.classes.get(cn)
        if cc is None:
            unk.append(f"class {cn} is gone")
            continue
        cf = {f["n"]: f for f in cc.get("fields", [])}
        for f in rc.get("fields", []):
            g = cf.get(f["n"])
            if g is None:
                unk.append(f"{cn}.{f['n']} is gone")
                continue
            n += 1
            where = f"{ir.rel(cc['file'])}:{g.get('l', cc['l'])}"
            if SIZES.get(sem.bare(f["t"]), 0) > SIZES.get(sem.bare(g["t"]), 99):
                out.append((where, f"{cn}::{f['n']} is declared {g['t']}, expected {f['t']}: values lose precision"))
                continue
            a, b = f.get("i"), g.get("i")
            if a is None and b is None:
                continue
            if a is None or b is None:
                # a default may have moved into (or out of) the constructors
                unk.append(f"{cn}::{f['n']}: default initialiser only on one side")
                continue
            TM.reset()
            try:
                x, y = _const(pair, pair.R, a), _const(pair, pair.P, b)
            except (sem.Unsupported, sem.Budget, KeyError, NotImplementedError, RecursionError):
                unk.append(f"{cn}::{f['n']}: initialiser not analysed")
                continue
            if x is y:
                continue
            d = C.Cmp(pair.heads(), pair.known, 5000).cmp(x, y)
            if d and all(q.hard for q in d):
                out.append((where, f"default of {cn}::{f['n']}: {describe(d[0])}"))
            elif d:
                unk.append(f"{cn}::{f['n']}: default initialiser")
    for en, re_ in sorted(pair.R.enums.items()):
        if not (r and r.fullmatch(en)):
            continue
        ce = pair.P.enums.get(en)
        if ce is None:
            unk.append(f"enum {en} is gone")
            continue
        have = {v["n"] for v in ce["v"]}
        for v in re_["v"]:
            n += 1
            if v["n"] not in have:
                unk.append(f"enumerator {v['n']} is gone")
    return out, n, unk

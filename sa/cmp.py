"""Three-valued comparison of two normal forms: equal / different (with the differing construct) / undecided.

`different` needs every leaf at which the two terms disagree to be a construct whose meaning is modelled ("hard");
a disagreement that involves a shape the normal form does not canonicalise (two loops of different structure, an API
without a model, ...) is "soft" and makes the comparison undecided.  Conditionals are compared by splitting on their
atomic conditions with simple interval reasoning to discard infeasible combinations.
"""
import itertools
from fractions import Fraction as Fr
from .term import *
from . import term as TM
from .sem import contains, proj, blk, NOREC, INITC, EMPTY


class Over(Exception):
    pass


class Facts:
    """what is known about atomic conditions on the current branch"""
    __slots__ = ("iv", "m")

    def __init__(s):
        s.iv, s.m = {}, {}

    def copy(s):
        n = Facts()
        n.iv, n.m = dict(s.iv), dict(s.m)
        return n

    @staticmethod
    def split(d):
        """d = scale*q + k with q canonical"""
        p = dict(poly_of(d))
        k = p.pop(((), ()), Fr(0))
        if not p:
            return None
        items = sorted(p.items(), key=lambda kv: (TM._ser(kv[0][0]), TM._ser(kv[0][1])))
        s = items[0][1]
        q = from_poly({kk: v / s for kk, v in p.items()})
        return q, s, k

    def add(s, atom, val):
        """False when contradictory"""
        s.m[atom] = val
        if atom.op in ("lt0", "eq0"):
            r = s.split(atom.a[0])
            if r is None:
                return True
            q, sc, k = r
            lo, ls, hi, hs, ex = s.iv.get(q, (None, False, None, False, frozenset()))
            b = -k / sc
            if atom.op == "eq0":
                if val:
                    lo2, ls2, hi2, hs2 = b, False, b, False
                else:
                    ex = ex | {b}
                    lo2 = hi2 = None
                    ls2 = hs2 = False
            else:
                up = (sc > 0) == val          # upper bound?
                strict = val
                lo2 = hi2 = None
                ls2 = hs2 = False
                if up:
                    hi2, hs2 = b, strict
                else:
                    lo2, ls2 = b, strict
            if lo2 is not None and (lo is None or lo2 > lo or lo2 == lo and ls2):
                lo, ls = lo2, ls2
            if hi2 is not None and (hi is None or hi2 < hi or hi2 == hi and hs2):
                hi, hs = hi2, hs2
            s.iv[q] = (lo, ls, hi, hs, ex)
            if lo is not None and hi is not None:
                if lo > hi or lo == hi and (ls or hs or lo in ex):
                    return False
        return True

    def decide(s, atom):
        v = s.m.get(atom)
        if v is not None:
            return v
        if atom.op in ("lt0", "eq0"):
            r = s.split(atom.a[0])
            if r is None:
                return None
            q, sc, k = r
            x = s.iv.get(q)
            if x is None:
                return None
            lo, ls, hi, hs, ex = x
            b = -k / sc
            if atom.op == "eq0":
                if b in ex:
                    return False
                if lo is not None and (b < lo or b == lo and ls):
                    return False
                if hi is not None and (b > hi or b == hi and hs):
                    return False
                if lo is not None and hi is not None and lo == hi == b:
                    return True
                return None
            # sc*q + k < 0  <=>  q < b (sc>0) / q > b (sc<0)
            if sc > 0:
                if hi is not None and (hi < b or hi == b and hs):
                    return True
                if lo is not None and lo >= b:
                    return False
            else:
                if lo is not None and (lo > b or lo == b and ls):
                    return True
                if hi is not None and hi <= b:
                    return False
        if atom.op == "eq":
            a, b = atom.a
            for o, v in s.m.items():
                if v and o.op == "eq" and o is not atom:
                    for x, y in ((a, b), (b, a)):
                        if y.op == "str" and x in o.a:
                            z = o.a[0] if o.a[1] is x else o.a[1]
                            if z.op == "str" and z is not y:
                                return False
        return None


    def empty(s, rg):
        lo, hi, st = rg.a
        if st is not TM.ONE:
            return False
        at = TM.lt(TM.sub(hi, lo), TM.ONE, integral=True)
        if at.op == "bool":
            return at is TRUE
        v = s.decide(at.a[0] if at.op == "not" else at)
        return v is not None and v == (at.op != "not")


def emptied(x):
    """the value of a loop that is not run"""
    prs, xn = x.a[2], x.a[3]
    if not xn:
        return prs[0][0]
    L = foldlevel(x)
    if len(xn) != 1:
        return None
    m = {}
    for b in TM.boundvars(xn[0]):
        if b.a[0] == L:
            if b.a[1][0] not in "xX":
                return None
            m[b] = prs[int(b.a[1][1:])][0]
    return subst(xn[0], m)


ATOMS = ("lt0", "eq0", "eq", "bat")


def atoms_of(b, out=None):
    """atomic conditions of a boolean term, in order"""
    if out is None:
        out = {}
    st = [b]
    while st:
        x = st.pop()
        if x.op in ("and", "or"):
            st.extend(x.a)
        elif x.op == "not":
            st.append(x.a[0])
        elif x.op == "ite":
            st.extend(x.a)
        elif x.op != "bool":
            out[x] = 1
    return out


def beval(b, env):
    op = b.op
    if op == "bool":
        return b.a[0]
    if op == "not":
        v = beval(b.a[0], env)
        return None if v is None else not v
    if op == "and":
        r = True
        for x in b.a:
            v = beval(x, env)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if op == "or":
        r = False
        for x in b.a:
            v = beval(x, env)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if op == "ite":
        c = beval(b.a[0], env)
        if c is None:
            x, y = beval(b.a[1], env), beval(b.a[2], env)
            return x if x == y else None
        return beval(b.a[1] if c else b.a[2], env)
    return env(b)


class D:
    """one point of disagreement"""
    __slots__ = ("hard", "why", "r", "c", "cond", "calls")

    def __init__(s, hard, why, r, c):
        s.hard, s.why, s.r, s.c = hard, why, r, c
        s.cond = ()
        s.calls = ()

    def key(s):
        return (s.why, s.r, s.c)


DATA = {"num", "sym", "fld", "fldv", "getf", "sel", "poly", "str", "bv", "tr", "size", "blk", "s11", "I", "push", "sto", "bool", "obj"}
PLAIN = {"insat", "erase", "erasek", "rows", "cols", "Zero", "Ones", "end", "filled"}      # modelled exactly, with no other way of saying the same
LOOPY = {"fold", "lam", "while", "range"}


class Cmp:
    def __init__(self, heads_ref, known, budget=30000):
        self.heads = heads_ref         # application heads that occur in the reference
        self.known = known             # repo functions present on both sides
        self.n = 0
        self.budget = budget
        self.memo = {}
        self.shared = frozenset()      # terms that occur in both summaries

    # ------------------------------------------------------------------ helpers
    allocsure = True
    # positional: the two terms are walked in lock step, without case splitting and without facts.  What it reports is the
    # set of points at which one common context is filled differently; linear in the size of the terms
    positional = False

    def hard(self, why, r, c):
        return [D(True, why, r, c)]

    def soft(self, why, r, c):
        return [D(False, why, r, c)]

    def modelled(self, *ts):
        """no construct outside the model inside"""
        for t in ts:
            for x in subterms(t):
                if x.op == "opaque":
                    return False
                if x.op == "app" and isinstance(x.a[0], str) and x.a[0] not in self.heads and x.a[0] not in PLAIN:
                    return False
                if x.op == "call" and x.a[0] not in self.known and ("call", x.a[0]) not in self.heads:
                    return False
        return True

    def assume(self, t, atom, val, facts, memo):
        """t under the assumption"""
        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op in ATOMS or (x.op == "app" and x.a[0] in BOOLF):
                v = facts.decide(x)
                if v is not None:
                    r = TRUE if v else FALSE
                    memo[x] = r
                    return r
            if x.op == "fold" and x.a[0].op == "range" and facts.empty(x.a[0]):
                # no iteration: what goes in comes out
                r = emptied(x)
                if r is not None:
                    r = memo[x] = go(r)
                    return r
            r = TM.rebuild(x, go)
            memo[x] = r
            return r
        return go(t)

    def split_atom(self, r, c, deep):
        """an atomic condition to split on"""
        for t in (r, c):
            a = self._visible(t, deep)
            if a is not None:
                return a
        return None

    def _visible(self, t, deep):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x.op == "ite":
                for a in sorted(atoms_of(x.a[0]), key=lambda z: z.h):
                    return a
            if not deep and x is not t:
                continue
            if x.op in ("fold", "lam", "num", "sym", "bv", "str", "bool", "I"):
                continue
            if is_bool(x):
                continue
            st.extend(children(x))
        return None

    # ------------------------------------------------------------------ main
    def cmp(self, r, c, facts=None, depth=0):
        if r is c:
            return []
        self.n += 1
        if self.n > self.budget:
            raise Over()
        facts = facts or Facts()
        key = (r, c) if self.positional else (r, c, frozenset(facts.m.items()))
        m = self.memo.get(key)
        if m is not None:
            return m
        self.memo[key] = []           # recursion guard
        try:
            d = self._cmp(r, c, facts, depth)
        except Over:
            self.memo.pop(key, None)
            raise
        self.memo[key] = d
        return d

    def dosplit(self, r, c, atom, facts, depth):
        out = []
        for val in (True, False):
            f = facts.copy()
            if not f.add(atom, val):
                continue
            mm = {}
            r1, c1 = self.assume(r, atom, val, f, mm), self.assume(c, atom, val, f, mm)
            for d in self.cmp(r1, c1, f, depth + 1):
                if len(d.cond) < 4:
                    d2 = D(d.hard, d.why, d.r, d.c)
                    d2.cond = ((atom, val),) + d.cond
                    d2.calls = d.calls
                    out.append(d2)
                else:
                    out.append(d)
            if len(out) > 40:
                break
        return dedup(out)

    def _cmp(self, r, c, facts, depth):
        rb, cb = is_bool(r), is_bool(c)
        if rb or cb:
            if (rb or r.op == "ite") and (cb or c.op == "ite"):
                return self.cmpbool(as_bool(r), as_bool(c), facts, depth)
        if self.positional:
            if r.op == "ite" and c.op == "ite":
                return self.many([(r.a[0], c.a[0]), (r.a[1], c.a[1]), (r.a[2], c.a[2])], facts, depth)
            if r.op == "ite" or c.op == "ite":
                return self.soft("conditional", r, c)
            return self.struct(r, c, facts, depth)
        if r.op == "ite" or c.op == "ite":
            # same condition on both sides: compare the branches
            if depth < 24:
                a = None
                for t in (r, c):
                    if t.op == "ite":
                        a = sorted(atoms_of(t.a[0]), key=lambda z: z.h)[0]
                        break
                # prefer an atom both sides test; otherwise try matching the conditions structurally first
                if r.op == "ite" and c.op == "ite":
                    ar, ac = atoms_of(r.a[0]), atoms_of(c.a[0])
                    common = [x for x in ar if x in ac]
                    if common:
                        a = sorted(common, key=lambda z: z.h)[0]
                    else:
                        d1 = self.cmp(r.a[0], c.a[0], facts, depth + 1)
                        same = not self.cmp(r.a[1], c.a[1], facts, depth + 1) and not self.cmp(r.a[2], c.a[2], facts, depth + 1)
                        if same:
                            return d1
                        allr, allc = atoms_in(r), atoms_in(c)
                        both = [x for x in allr if x in allc]
                        if both:
                            a = sorted(both, key=lambda z: z.h)[0]
                        else:
                            return dedup(d1 + self.cmp(r.a[1], c.a[1], facts, depth + 1) + self.cmp(r.a[2], c.a[2], facts, depth + 1))
                else:
                    pass
                return self.dosplit(r, c, a, facts, depth)
            if r.op == "ite" and c.op == "ite" and r.a[0] is c.a[0]:
                return dedup(self.cmp(r.a[1], c.a[1], facts, depth + 1) + self.cmp(r.a[2], c.a[2], facts, depth + 1))
            if r.op == "ite" and c.op == "ite" and r.a[1] is c.a[1] and r.a[2] is c.a[2]:
                return self.cmp(r.a[0], c.a[0], facts, depth + 1)
            return self.soft("conditionals too deep", r, c)
        d = self.struct(r, c, facts, depth)
        if d and depth < 14:
            a = self.split_atom(r, c, True)
            if a is not None:
                return self.dosplit(r, c, a, facts, depth)
        return d

    # ------------------------------------------------------------------ booleans
    def cmpbool(self, r, c, facts, depth):
        if r is c:
            return []
        ar, ac = atoms_of(r), atoms_of(c)
        both = [x for x in ar if x in ac]
        onlyr = [x for x in ar if x not in ac]
        onlyc = [x for x in ac if x not in ar]
        allv = list(ar) + onlyc

        def run(mapping=None, limit=11):
            if len(allv) > limit:
                return None
            bad = []

            def rec(i, f, env):
                def look(x):
                    m = mapping.get(x, x) if mapping else x
                    if isinstance(m, tuple):
                        v = env.get(m[0])
                        return v if v is None else not v
                    return env.get(m)
                vr = beval(r, lambda x: env.get(x))
                vc = beval(c, look)
                if vr is not None and vc is not None:
                    if vr != vc:
                        bad.append(dict(env))
                    return len(bad) > 0
                if i >= len(allv):
                    return False
                at = allv[i]
                if mapping and at in mapping:
                    return rec(i + 1, f, env)
                known = f.decide(at)
                for v in ((True, False) if known is None else (known,)):
                    f2 = f.copy()
                    if not f2.add(at, v):
                        continue
                    env[at] = v
                    if rec(i + 1, f2, env):
                        return True
                    del env[at]
                return False
            rec(0, facts, {})
            return bad
        bad = run()
        if bad is not None and not bad:
            return []
        if not onlyr and not onlyc:
            if bad is None:
                return self.soft("large condition", r, c)
            return self.hard("condition logic", r, c)
        # pair the atoms that differ
        pairs, ur, uc = self.pair(onlyr, onlyc)
        out = []
        mapping = {}
        for x, y in pairs:
            o = self.cmpatom(x, y, facts, depth)
            mapping[y] = x
            if o and x.op == y.op == "lt0" and x in TM.INTEG and y in TM.INTEG:
                # which of a < b, not b <= a stands for the other was chosen by the order of the terms
                z = mk("lt0", sub(neg(y.a[0]), ONE))
                o2 = self.cmpatom(x, z, facts, depth)
                if not o2:
                    mapping[y] = (x,)
                    o = o2
            out += o
        if not ur and not uc:
            b2 = run(mapping, 13)
            if b2:
                # the negation of an atom may have been paired
                n = all(strictness(x, y) for x, y in pairs)
                if not n:
                    out += self.hard("condition logic", r, c) if not any(not d.hard for d in out) else []
            return dedup(out)
        for x in ur:
            out += self.hard("condition dropped", x, c) if self.modelled(x) else self.soft("condition dropped", x, c)
        for y in uc:
            out += self.hard("condition added", r, y) if self.modelled(y) else self.soft("condition added", r, y)
        return dedup(out)

    def pair(self, A, B):
        """greedy structural pairing"""
        cand = []
        for i, x in enumerate(A):
            for j, y in enumerate(B):
                s = similarity(x, y)
                if s > 0:
                    cand.append((-s, i, j))
        cand.sort()
        ui, uj = set(), set()
        pairs = []
        for s, i, j in cand:
            if i in ui or j in uj:
                continue
            ui.add(i)
            uj.add(j)
            pairs.append((A[i], B[j]))
        return pairs, [x for i, x in enumerate(A) if i not in ui], [y for j, y in enumerate(B) if j not in uj]

    def cmpatom(self, x, y, facts, depth):
        if x.op == y.op:
            if x.op == "lt0":
                if strictness(x, y):
                    return self.hard("strict / non-strict comparison", x, y)
                return self.cmp(x.a[0], y.a[0], facts, depth + 1)
            if x.op == "eq0":
                a, b = x.a[0], y.a[0]
                out = self.cmp(a, b, facts, depth + 1)
                if out and a.op == "poly" and b.op == "poly":
                    # scaled by a coefficient that was chosen by the order of the terms
                    a = scale(a, 1 / max(abs(i[0]) for i in a.a))
                    k = 1 / max(abs(i[0]) for i in b.a)
                    for k in (k, -k):
                        o2 = self.cmp(a, scale(b, k), facts, depth + 1)
                        if score(o2) < score(out):
                            out = o2
                return out
            if x.op == "eq":
                a, b = x.a
                p, q = y.a
                best = None
                for u, v in (((a, p), (b, q)), ((a, q), (b, p))):
                    d = self.cmp(u[0], u[1], facts, depth + 1) + self.cmp(v[0], v[1], facts, depth + 1)
                    if best is None or score(d) < score(best):
                        best = d
                return best
            if x.op == "bat":
                return self.cmp(x.a[0], y.a[0], facts, depth + 1)
            return self.struct(x, y, facts, depth)
        if {x.op, y.op} == {"lt0", "eq0"}:
            return self.hard("comparison operator", x, y) if self.modelled(x, y) else self.soft("comparison", x, y)
        if self.modelled(x, y) and not loopy(x) and not loopy(y):
            return self.hard("condition", x, y)
        return self.soft("condition", x, y)

    # ------------------------------------------------------------------ structure
    def many(self, prs, facts, depth):
        out = []
        for x, y in prs:
            if x is not y:
                out += self.cmp(x, y, facts, depth + 1)
                if len(out) > 60:
                    break
        return dedup(out)

    def struct(self, r, c, facts, depth):
        a, b = r.op, c.op
        if a in ("poly", "num", "grp") or b in ("poly", "num", "grp"):
            if not (a in ("bst", "fold", "lam", "push", "seq", "sto") or b in ("bst", "fold", "lam", "push", "seq", "sto")):
                return self.cmppoly(r, c, facts, depth)
        if a == b:
            m = getattr(self, "c_" + a, None)
            if m is not None:
                return m(r, c, facts, depth)
            return self.generic(r, c, facts, depth)
        return self.mismatch(r, c, facts, depth)

    def generic(self, r, c, facts, depth):
        if len(r.a) != len(c.a):
            return self.soft("arity", r, c)
        out = []
        for x, y in zip(r.a, c.a):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y:
                    out += self.cmp(x, y, facts, depth + 1)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                out += self.tup(x, y, r, c, facts, depth)
            elif x != y:
                return self.hard("constant", r, c)
        return dedup(out)

    def tup(self, x, y, r, c, facts, depth):
        if len(x) != len(y):
            return self.soft("arity", r, c)
        out = []
        for u, v in zip(x, y):
            if isinstance(u, T) and isinstance(v, T):
                if u is not v:
                    out += self.cmp(u, v, facts, depth + 1)
            elif isinstance(u, tuple) and isinstance(v, tuple):
                out += self.tup(u, v, r, c, facts, depth)
            elif u != v:
                out += self.hard("name", r, c)
        return out

    def c_num(self, r, c, f, d):
        return self.hard("constant", r, c)

    def c_str(self, r, c, f, d):
        return self.hard("string", r, c)

    def c_sym(self, r, c, f, d):
        n1, n2 = r.a[0], c.a[0]
        if n1.startswith(("$u", "static:")) or n2.startswith(("$u", "static:")):
            return self.soft("uninitialised", r, c)
        return self.hard("variable", r, c)

    def c_bv(self, r, c, f, d):
        if r.a[0] == c.a[0] and r.a[1][:1] in "xX" and c.a[1][:1] in "xX":
            # which variable of one loop is which in the other is a guess
            return self.soft("loop variable", r, c)
        return self.hard("loop variable", r, c)

    def c_fld(self, r, c, f, d):
        if r.a[1] != c.a[1]:
            return self.hard("field", r, c)
        return self.cmp(r.a[0], c.a[0], f, d + 1)

    c_getf = c_fld

    def c_fldv(self, r, c, f, d):
        if r.a[1] != c.a[1]:
            return self.hard("field", r, c)
        o = self.cmp(r.a[0], c.a[0], f, d + 1)
        if o:
            return o
        return self.cmp(r.a[2], c.a[2], f, d + 1)

    def c_ret(self, r, c, f, d):
        return self.cmp(r.a[0], c.a[0], f, d + 1)

    def c_out(self, r, c, f, d):
        if r.a[1] != c.a[1]:
            return self.hard("output argument", r, c)
        return self.cmp(r.a[0], c.a[0], f, d + 1)

    def c_call(self, r, c, f, d):
        if r.a[0] != c.a[0]:
            x = self.hard("call", r, c) if r.a[0] in self.known and c.a[0] in self.known else self.soft("call", r, c)
            x[0].calls = (r.a[0], c.a[0])
            return x
        if len(r.a[1]) != len(c.a[1]) or len(r.a[2]) != len(c.a[2]):
            return self.soft("call arity", r, c)
        out = self.tup(r.a[1], c.a[1], r, c, f, d) + self.tup(r.a[2], c.a[2], r, c, f, d)
        if out:
            return dedup(out)
        # state the callee reads
        dr, dc = dict(r.a[3]), dict(c.a[3])
        for k in dr.keys() | dc.keys():
            x, y = dr.get(k), dc.get(k)
            if x is y:
                continue
            if x is None or y is None:
                out += self.hard("state read by a call", x or mk("sym", "initial"), y or mk("sym", "initial")) if self.modelled(*(z for z in (x, y) if z)) else self.soft(
                    "state read by a call", r, c)
            else:
                out += self.cmp(x, y, f, d + 1)
        return dedup(out)

    def c_app(self, r, c, f, d):
        if r.a[0] != c.a[0]:
            return self.mismatch(r, c, f, d)
        if len(r.a) != len(c.a):
            return self.soft("arity", r, c)
        if str(r.a[0]).startswith("newp:") and r.a[:-1] == c.a[:-1]:
            return self.hard("object", r, c) if self.allocsure else self.soft("which object", r, c)
        if r.a[0] == "abs" and len(r.a) == 2 and r.a[1].op == "poly":
            # the sign of the argument was chosen by the order of its terms
            out = self.cmp(r.a[1], c.a[1], f, d + 1)
            return self.cmp(r.a[1], neg(c.a[1]), f, d + 1) and out if out else []
        return self.generic(r, c, f, d)

    def c_blk(self, r, c, f, d):
        return self.generic(r, c, f, d)

    def c_s11(self, r, c, f, d):
        """a 1x1 product equals its transpose: the orientation that agrees best is the one that is meant"""
        best = None
        for y in (c.a[0], tr(c.a[0])):
            o = self.cmp(r.a[0], y, f, d + 1)
            if not o:
                return []
            q = (sum(not x.hard for x in o), len(o))
            if best is None or q < best[0]:
                best = (q, o)
        return best[1]

    def c_setf(self, r, c, f, d):
        out = self.cmp(r.a[0], c.a[0], f, d + 1)
        A, B = dict(r.a[1]), dict(c.a[1])
        for k in sorted(A.keys() | B.keys()):
            x, y = A.get(k), B.get(k)
            if x is y:
                continue
            if x is None or y is None:
                out += self.hard("field " + k + (" no longer set" if y is None else " newly set"), x or r, y or c) if self.modelled(x or r, y or c) else self.soft("field", r, c)
            else:
                out += self.cmp(x, y, f, d + 1)
        return dedup(out)

    def c_rec(self, r, c, f, d):
        A, B = dict(r.a[0]), dict(c.a[0])
        if A.keys() != B.keys():
            return self.soft("record", r, c)
        return self.many([(A[k], B[k]) for k in sorted(A)], f, d)

    def basediff(self, r, c, f, d):
        x, y = r.a[0], c.a[0]
        if x is y:
            return []
        iszero = lambda t: t is ZERO or t.op == "app" and t.a[0] == "Zero"
        for p, q, o in ((x, y, r), (y, x, c)):
            # an identity whose diagonal is overwritten is a zero matrix
            if p.op == "I" and iszero(q):
                n = None
                if q.op == "app" and len(q.a) == 3 and all(z.op == "num" for z in q.a[1:]):
                    n = max(z.a[0] for z in q.a[1:])
                got, ok = set(), True
                for k, _ in o.a[1]:
                    if not all(z.op == "num" for z in k):
                        ok = False
                        continue
                    i, j, h, w = (int(z.a[0]) for z in k)
                    got |= {z for z in range(i, i + h) if j <= z < j + w}
                if n is not None and ok and got >= set(range(int(n))):
                    return []
                if n is None and got or not ok:
                    return self.soft("what the blocks are written over", x, y)
        return self.cmp(x, y, f, d + 1)

    def c_bst(self, r, c, f, d):
        out = self.basediff(r, c, f, d)
        A, B = list(r.a[1]), list(c.a[1])
        ka, kb = {}, {}
        for k, v in A:
            ka.setdefault(k, []).append(v)
        for k, v in B:
            kb.setdefault(k, []).append(v)
        ra, rb = [], []
        for k in list(ka) + [k for k in kb if k not in ka]:
            x, y = ka.get(k, []), kb.get(k, [])
            if len(x) == 1 and len(y) == 1:
                if x[0] is not y[0]:
                    out += self.cmp(x[0], y[0], f, d + 1)
            elif x != y:
                ra += [(k, v) for v in x]
                rb += [(k, v) for v in y]
        if not ra and not rb:
            if not out:
                return self.soft("order of overlapping block writes", r, c)
            return dedup(out)
        # pair the rest: same value first, then position
        prs, used = [], set()
        left = []
        for k, v in ra:
            j = next((j for j, (k2, v2) in enumerate(rb) if j not in used and v2 is v), None)
            if j is None:
                left.append((k, v))
            else:
                used.add(j)
                prs.append(((k, v), rb[j]))
        restb = [e for j, e in enumerate(rb) if j not in used]
        if len(left) == len(restb):
            while left:
                k, v = left.pop(0)
                j = max(range(len(restb)), key=lambda j: sum(similarity(x, y) for x, y in zip(k, restb[j][0])) + similarity(v, restb[j][1]))
                prs.append(((k, v), restb.pop(j)))
        for (k, v), (k2, v2) in prs:
            for x, y in zip(k, k2):
                if x is not y:
                    out += self.cmp(x, y, f, d + 1)
            if v is not v2:
                out += self.cmp(v, v2, f, d + 1)
        same = not out and not any(a[1] is not b[1] or a[0] != b[0] for a, b in prs) and not (left and restb)
        for k, v in left:
            out += self.hard("block no longer written", mk("blkw", *k, v), c) if self.modelled(v, c) and (same or not loopy2(c)) else self.soft("block", v, c)
        for k, v in restb:
            out += self.hard("block newly written", r, mk("blkw", *k, v)) if self.modelled(v) and (same or not loopy2(r)) else self.soft("block", r, v)
        return dedup(out)

    def c_push(self, r, c, f, d):
        xs, ys = [], []
        a, b = r, c
        while a.op == "push":
            xs.append(a.a[1])
            a = a.a[0]
        while b.op == "push":
            ys.append(b.a[1])
            b = b.a[0]
        xs.reverse()
        ys.reverse()
        out = self.cmp(a, b, f, d + 1) if a is not b else []
        if len(xs) == len(ys):
            return dedup(out + self.many(list(zip(xs, ys)), f, d))
        return dedup(out + (self.hard("number of appended elements", r, c) if self.modelled(r, c) else self.soft("append", r, c)))

    def c_seq(self, r, c, f, d):
        if len(r.a) != len(c.a):
            return self.hard("number of elements", r, c) if self.modelled(r, c) else self.soft("elements", r, c)
        return self.many(list(zip(r.a, c.a)), f, d)

    def c_sto(self, r, c, f, d):
        out = self.cmp(r.a[0], c.a[0], f, d + 1)
        A, B = list(r.a[1]), list(c.a[1])
        if len(A) == len(B):
            if {k for k, _ in A} == {k for k, _ in B} and len({k for k, _ in A}) == len(A):
                m = dict(B)
                return dedup(out + self.many([(v, m[k]) for k, v in A], f, d) or (self.soft("store order", r, c) if not out and [k for k, _ in A] != [k for k, _ in B] else out))
            for (k, v), (k2, v2) in zip(A, B):
                if k is not k2:
                    out += self.cmp(k, k2, f, d + 1)
                if v is not v2:
                    out += self.cmp(v, v2, f, d + 1)
            return dedup(out)
        return dedup(out + (self.hard("number of element writes", r, c) if self.modelled(r, c) else self.soft("stores", r, c)))

    def c_aft(self, r, c, f, d):
        xs, ys = chain(r), chain(c)
        b1, b2 = xs[0], ys[0]
        xs, ys = xs[1:], ys[1:]
        out = self.cmp(b1, b2, f, d + 1) if b1 is not b2 else []
        return dedup(out + self.seqdiff(xs, ys, r, c, f, d))

    def seqdiff(self, xs, ys, r, c, f, d):
        # drop the common prefix / suffix
        xs, ys = list(xs), list(ys)
        while xs and ys and xs[0] is ys[0]:
            xs.pop(0)
            ys.pop(0)
        while xs and ys and xs[-1] is ys[-1]:
            xs.pop()
            ys.pop()
        if len(xs) == len(ys):
            # same calls in another order?
            if len(xs) > 1 and sorted(map(effname, xs)) == sorted(map(effname, ys)) and [effname(x) for x in xs] != [effname(y) for y in ys]:
                return self.soft("order of effects", r, c)
            out = []
            for x, y in zip(xs, ys):
                if x is not y:
                    out += self.cmp(x, y, f, d + 1)
            return out
        # align by name
        out = []
        B = list(ys)
        for x in xs:
            j = next((j for j, y in enumerate(B) if y is x), None)
            if j is None:
                j = next((j for j, y in enumerate(B) if effname(y) == effname(x) and effrecv(y) is effrecv(x)), None)
            if j is None:
                j = next((j for j, y in enumerate(B) if effname(y) == effname(x)), None)
            if j is None:
                ok = self.modelled(x, c) and not any(loopy2(y) for y in B)
                e = (self.hard if ok else self.soft)("effect removed", x, c)
                e[0].calls = (effname(x),)
                out += e
            else:
                y = B.pop(j)
                if x is not y and effrecv(x) is not effrecv(y):
                    out += self.cmp(x, y, f, d + 1)
        for y in B:
            ok = self.modelled(y)
            e = (self.hard if ok else self.soft)("effect added", r, y)
            e[0].calls = (effname(y),)
            out += e
        return out

    def c_fold(self, r, c, f, d):
        d1, d2 = r.a[0], c.a[0]
        u1, u2 = r.a[1], c.a[1]
        p1, p2 = r.a[2], c.a[2]
        x1, x2 = r.a[3], c.a[3]
        if d1.op != d2.op or len(x1) != len(x2):
            return self.soft("loop structure", r, c)
        # inner binder levels may differ: align the outermost binder of c to r
        l1, l2 = foldlevel(r), foldlevel(c)
        if l1 != l2:
            lv = max(l1, l2)
            r2, c2 = relevel(r, l1, lv), relevel(c, l2, lv)
            if r2 is c2:
                return []
            d1, u1, p1, x1 = r2
            d2, u2, p2, x2 = c2
            L = lv
        else:
            L = l1
        # align carried variables
        main = not x1
        perm, sure = align(p1, p2, main)
        if perm is None:
            return self.loopdiff(r, c, d1, d2, u1, u2, p1, p2, x1, x2, L, main, f, d)
        out = self.foldas(perm, c, d1, d2, u1, u2, p1, p2, x1, x2, L, f, d)
        free = [i for i in range(len(perm)) if i not in sure]
        if any(z.hard for z in out) and 2 <= len(free) <= 3:
            # another correspondence of the carried variables may explain it better
            for q in itertools.permutations([perm[i] for i in free]):
                alt = list(perm)
                for i, j in zip(free, q):
                    alt[i] = j
                if alt != perm:
                    o = self.foldas(alt, c, d1, d2, u1, u2, p1, p2, x1, x2, L, f, d)
                    if not any(z.hard for z in o):
                        return o
        return out

    def foldas(self, perm, c, d1, d2, u1, u2, p1, p2, x1, x2, L, f, d):
        out, r = [], None
        m = {}
        for i, j in enumerate(perm):
            if i != j:
                m[j] = i
        if m:
            # rename the variables of c
            tmp = {}
            for i, j in enumerate(perm):
                for mt in (False, True):
                    pass
                b = bvof(p2, j, L, c)
                tmp[b] = TM.bvx(L, i, b.mat)
            mm = {}
            u2 = subst(u2, tmp, mm)
            d2 = subst(d2, tmp, mm)
            x2 = tuple(subst(z, tmp, mm) for z in x2)
            p2 = tuple((p2[j][0], subst(p2[j][1], tmp, mm)) for j in perm)
        if d1 is not d2:
            out += self.cmp(d1, d2, f, d + 1)
        if u1 is not u2:
            if u1 is FALSE or u2 is FALSE:
                out += self.exitdiff(u1, u2)
            else:
                out += self.cmp(u1, u2, f, d + 1)
        for (i1, n1_), (i2, n2_) in zip(p1, p2):
            if i1 is not i2:
                out += self.cmp(i1, i2, f, d + 1)
            if n1_ is not n2_:
                out += self.cmp(n1_, n2_, f, d + 1)
        for z1, z2 in zip(x1, x2):
            if z1 is not z2:
                out += self.cmp(z1, z2, f, d + 1)
        if not out:
            return []
        return dedup(out)

    def exitdiff(self, u1, u2):
        return [D(True, "early exit of a loop", u1, u2)]

    def loopdiff(self, r, c, d1, d2, u1, u2, p1, p2, x1, x2, L, main, f, d):
        """different numbers of carried variables: the main value tells where they part"""
        out = []
        if d1 is not d2:
            out += self.cmp(d1, d2, f, d + 1)
        if main:
            a, b = p1[0], p2[0]
            if a[0] is not b[0]:
                out += self.cmp(a[0], b[0], f, d + 1)
            out += self.cmp(a[1], b[1], f, d + 1)
        else:
            for z1, z2 in zip(x1, x2):
                out += self.cmp(z1, z2, f, d + 1)
        if u1 is not u2:
            out += self.exitdiff(u1, u2) if u1 is FALSE or u2 is FALSE else self.cmp(u1, u2, f, d + 1)
        for x in out:
            if x.hard and (x.r.op == "bv" or x.c.op == "bv"):
                x.hard = False
        if not out:
            return self.soft("loop-carried variables", r, c)
        return dedup(out)

    def c_range(self, r, c, f, d):
        return self.generic(r, c, f, d)

    def c_loc(self, r, c, f, d):
        return self.generic(r, c, f, d)

    # ------------------------------------------------------------------ polynomials
    def cmppoly(self, r, c, facts, depth):
        if r.op == "grp":
            r = r.a[0]
        if c.op == "grp":
            c = c.a[0]
        if r is c:
            return []
        P, Q = dict(poly_of(r)), dict(poly_of(c))
        for k in list(P):
            if Q.get(k) == P[k]:
                del P[k], Q[k]
        if not P and not Q:
            return []
        # rational functions: clear the denominators
        if any(u.op == "grp" and e < 0 for k in list(P) + list(Q) for u, e in k[0]):
            z = cleared(P, Q)
            if z is True:
                return []
        if len(P) == 1 and len(Q) == 1:
            (k1, v1), (k2, v2) = next(iter(P.items())), next(iter(Q.items()))
            return self.cmpmono(k1, v1, k2, v2, r, c, facts, depth)
        # same monomials with other coefficients
        common = [k for k in P if k in Q]
        out = []
        if common and len(common) == len(P) == len(Q):
            return self.hard("coefficients", r, c)
        for k in common:
            out += self.hard("coefficient", from_poly({k: P.pop(k)}), from_poly({k: Q.pop(k)}))
        # pair by shared factors
        A, B = list(P), list(Q)
        cand = []
        for i, x in enumerate(A):
            for j, y in enumerate(B):
                s = monosim(x, P[x], y, Q[y])
                if s > 0:
                    cand.append((-s, i, j))
        cand.sort()
        ui, uj = set(), set()
        prs = []
        for s, i, j in cand:
            if i in ui or j in uj:
                continue
            ui.add(i)
            uj.add(j)
            prs.append((A[i], B[j]))
        ra = [x for i, x in enumerate(A) if i not in ui]
        rb = [y for j, y in enumerate(B) if j not in uj]
        if not ra and not rb:
            one = {}

            def mono(x, y):
                if (x, y) not in one:
                    one[x, y] = self.cmpmono(x, P[x], y, Q[y], r, c, facts, depth)
                return one[x, y]
            got = [mono(x, y) for x, y in prs]
            if 2 <= len(prs) <= 4 and any(d.hard for g in got for d in g):
                # another pairing of the terms may explain it better
                n = lambda gs: (sum(any(d.hard for d in g) for g in gs), sum(bool(g) for g in gs))
                xs, ys = [x for x, _ in prs], [y for _, y in prs]
                for q in itertools.permutations(ys):
                    if q != tuple(ys):
                        alt = [mono(x, y) for x, y in zip(xs, q)]
                        if n(alt) < n(got):
                            got = alt
            for g in got:
                out += g
            if len(prs) > 1 and not any(d.hard for d in out) and not out:
                return self.soft("sum", r, c)
            return dedup(out)
        tr_, tc = from_poly({k: P[k] for k in P}), from_poly({k: Q[k] for k in Q})
        if self.modelled(tr_, tc) and not (loopy(tr_) and loopy(tc)):
            w = "missing term" if not Q else "additional term" if not P else "terms"
            return self.hard(w, tr_, tc)
        for x, y in prs:
            out += self.cmpmono(x, P[x], y, Q[y], r, c, facts, depth)
        return dedup(out + self.soft("terms", tr_, tc))

    def cmpmono(self, k1, v1, k2, v2, r, c, facts, depth):
        out = []
        if v1 != v2:
            out += self.hard("coefficient", from_poly({k1: v1}), from_poly({k2: v2}))
        s1, s2 = dict(k1[0]), dict(k2[0])
        for u in list(s1):
            if s2.get(u) == s1[u]:
                del s1[u], s2[u]
        if s1 or s2:
            if len(s1) == 1 and len(s2) == 1:
                (u, e), (w, g) = next(iter(s1.items())), next(iter(s2.items()))
                if u is w:
                    out += self.hard("exponent", from_poly({k1: v1}), from_poly({k2: v2}))
                else:
                    if e != g:
                        out += self.hard("exponent", from_poly({k1: v1}), from_poly({k2: v2}))
                    out += self.cmp(u, w, facts, depth + 1)
            elif len(s1) == len(s2):
                A, B = list(s1), list(s2)
                pr, ua, ub = self.pair(A, B)
                if ua or ub or len(pr) != len(A):
                    out += self.hard("factors", from_poly({k1: v1}), from_poly({k2: v2})) if self.modelled(*A, *B) else self.soft("factors", r, c)
                else:
                    for x, y in pr:
                        if s1[x] != s2[y]:
                            out += self.hard("exponent", from_poly({k1: v1}), from_poly({k2: v2}))
                        out += self.cmp(x, y, facts, depth + 1)
            else:
                fr, fc = from_poly({(tuple(s1.items()), ()): Fr(1)}), from_poly({(tuple(s2.items()), ()): Fr(1)})
                out += self.hard("factors", fr, fc) if self.modelled(fr, fc) and not loopy(fr) and not loopy(fc) else self.soft("factors", fr, fc)
        m1, m2 = list(k1[1]), list(k2[1])
        while m1 and m2 and m1[0] is m2[0]:
            m1.pop(0)
            m2.pop(0)
        while m1 and m2 and m1[-1] is m2[-1]:
            m1.pop()
            m2.pop()
        if m1 or m2:
            if len(m1) == len(m2):
                # one factor per position, unless it is a permutation
                if len(m1) > 1 and sorted(x.h for x in m1) == sorted(x.h for x in m2):
                    out += self.hard("order of matrix factors", from_poly({k1: v1}), from_poly({k2: v2}))
                else:
                    for x, y in zip(m1, m2):
                        if x is not y:
                            if tr(x) is y:
                                out += self.hard("transpose", x, y)
                            else:
                                out += self.cmp(x, y, facts, depth + 1)
            else:
                fr, fc = mk("seqm", *m1), mk("seqm", *m2)
                out += self.hard("matrix factors", from_poly({k1: v1}), from_poly({k2: v2})) if self.modelled(*m1, *m2) and not any(map(loopy, m1 + m2)) else self.soft("matrix factors", r, c)
        return dedup(out)

    # ------------------------------------------------------------------ heads that differ
    def mismatch(self, r, c, f, d):
        if r.op == "tr" or c.op == "tr":
            if tr(r) is c:
                return self.hard("transpose", r, c)
        if r.op == "aft" or c.op == "aft":
            xs, ys = chain(r), chain(c)
            if xs[0] is ys[0]:
                return dedup(self.seqdiff(xs[1:], ys[1:], r, c, f, d))
            return self.soft("effects", r, c)
        if not self.modelled(r, c):
            return self.soft("unmodelled construct", r, c)
        if r in self.shared and c in self.shared and r.op not in ("ret", "out") and c.op not in ("ret", "out"):
            # both values are computed in both programs: a different one of them is used here
            return self.hard("value", r, c)
        if c.op == "app" and c.a[0] == "uninit":
            return self.hard("value never set", r, c)
        if c.op == "seq" and len(c.a) == 0 or c.op == "sym" and c.a[0] == "nullptr":
            if r.op not in ("ret", "out", "ite") and not r.op == "app" or r.op == "app" and r.a[0] not in CASTS:
                return self.hard("empty value", r, c)
        if r.op in ("seq",) and c.op in ("fld", "fldv") or r.op == "sym" and r.a[0] == "nullptr" and c.op in ("fld", "fldv"):
            return self.hard("value", r, c)
        if r.op == "bst" and c.op in ("sym", "fld", "fldv") and c.mat and r.a[0] is ZERO:
            # every element written one by one: does any of them differ from the matrix found?
            out = []
            for k, v in r.a[1]:
                out += self.cmp(v, blk(c, *k), f, d + 1)
            if out:
                return dedup(out)
        if r.op in LOOPY or c.op in LOOPY:
            # a loop whose contribution vanished
            x, y = (r, c) if r.op in LOOPY else (c, r)
            if r.op == "fold" and not r.a[3] and r.a[2] and r.a[2][0][0] is c:
                return self.hard("loop has no effect any more", r, c)
            return self.soft("loop against straight-line code", r, c)
        if r.op in ("ret", "out") or c.op in ("ret", "out"):
            e = self.soft("call against expression", r, c)
            e[0].calls = tuple(t.a[0].a[0] for t in (r, c) if t.op in ("ret", "out") and t.a[0].op == "call")
            # a call replaced by plain data
            o = c if r.op in ("ret", "out") else r
            return e
        if r.op == "push" and r.a[0] is c or c.op == "push" and c.a[0] is r:
            return self.hard("append", r, c)
        if r.op == "bst" or c.op == "bst":
            b1, b2 = (r.a[0], c) if r.op == "bst" else (r, c.a[0])
            if b1 is b2:
                return self.hard("block write", r, c)
        if r.op == "sto" and r.a[0] is c or c.op == "sto" and c.a[0] is r:
            return self.hard("element write", r, c)
        if r.op == "app" and c.op == "app":
            a, b = r.a[0], c.a[0]
            if "uninit" in (a, b):
                return self.hard("uninitialised", r, c) if b == "uninit" else self.soft("uninitialised", r, c)
            if a in self.heads and b in self.heads and simple(a) and simple(b):
                return self.hard("function", r, c)
            return self.soft("function", r, c)
        if r.op in DATA and c.op in DATA:
            return self.hard("value", r, c)
        if (r.op in DATA and c.op == "app" and simple(c.a[0])) or (c.op in DATA and r.op == "app" and simple(r.a[0])):
            return self.hard("value", r, c)
        return self.soft("structure", r, c)


CASTS = {"f32", "cast", "trunc", "uninit", "exc"}
SIMPLE_APP = {"sin", "cos", "tan", "acos", "asin", "atan", "atan2", "exp", "log", "floor", "ceil", "round", "trunc", "abs", "selfadj", "inverse", "Zero",
              "mkey", "findpos", "mod", "idiv", "filled", "sorted", "pow", "tri", "setri", "solve", "rows", "cols", "mat"}


def simple(h):
    return h in SIMPLE_APP or h.startswith("ov_core::")


def loopy(t):
    for x in subterms(t):
        if x.op in ("fold", "lam"):
            return True
    return False


def loopy2(t):
    return t.op in ("fold", "lam") or t.op == "ite" and (loopy2(t.a[1]) or loopy2(t.a[2])) or t.op in ("bst", "aft") and any(loopy2(x) for x in children(t)[:3])


def chain(t):
    xs = []
    while t.op == "aft":
        xs.append(t.a[1])
        t = t.a[0]
    xs.append(t)
    xs.reverse()
    return xs


def effname(t):
    if t.op == "call":
        return t.a[0]
    return t.op


def effrecv(t):
    if t.op == "call" and t.a[1]:
        return t.a[1][0]
    return t if t.op != "call" else None


def atoms_in(t):
    """atomic conditions of all conditionals not under a binder"""
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen or x.op in ("fold", "lam"):
            continue
        seen.add(id(x))
        if x.op == "ite":
            atoms_of(x.a[0], out)
        st.extend(children(x))
    return out


def dedup(ds):
    seen, out = set(), []
    for d in ds:
        k = d.key()
        if k not in seen:
            seen.add(k)
            out.append(d)
    return out


def score(d):
    return sum(1 if x.hard else 3 for x in d)


def strictness(x, y):
    """x: d<0   y: -d<0 (so that not y is d<=0)"""
    return x.op == "lt0" and y.op == "lt0" and neg(x.a[0]) is y.a[0]


def leaves(t, lim=400):
    out = {}
    seen = set()
    st = [t]
    while st and len(seen) < lim:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        out[x.h] = 1
        st.extend(children(x))
    return out


_simmemo = {}


def similarity(x, y):
    if x is y:
        return 10
    if x.op != y.op and not ({x.op, y.op} <= {"lt0", "eq0"}) and not (x.op in DATA and y.op in DATA) and not is_bool(x):
        return 0
    a, b = leaves(x), leaves(y)
    i = sum(1 for k in a if k in b)
    return (1 if x.op == y.op else 0.5) + 4.0 * i / max(1, len(a) + len(b) - i) + (0.5 if x.op == y.op == "app" and x.a[0] == y.a[0] else 0)


def monosim(x, vx, y, vy):
    s = 0.0
    sx, sy = dict(x[0]), dict(y[0])
    for u, e in sx.items():
        if u in sy:
            s += 2 if sy[u] == e else 1
    mx, my = list(x[1]), list(y[1])
    for u in mx:
        if u in my:
            s += 2
    n = max(len(sx) + len(mx), len(sy) + len(my), 1)
    if len(sx) == len(sy) and len(mx) == len(my):
        s += 0.6
        if n == 1:
            s += 0.3
    if vx == vy:
        s += 0.3
    return s if s >= 0.6 else 0


def bvof(p, j, L, c):
    for mt in (False, True):
        pass
    for x in subterms(c):
        if x.op == "bv" and x.a[0] == L and x.a[1] in (f"x{j}", f"X{j}"):
            return x
    return TM.bvx(L, j, False)


def relevel(t, old, new):
    m = {}
    for x in subterms(t):
        if x.op == "bv" and x.a[0] == old:
            m[x] = mk("bv", new, x.a[1], mat=x.mat)
    mm = {}
    return (subst(t.a[0], m, mm), subst(t.a[1], m, mm), tuple((i, subst(n, m, mm)) for i, n in t.a[2]), tuple(subst(x, m, mm) for x in t.a[3]))


def feats(t, lim=4000):
    """what a term is made of, whatever its variables are called"""
    out, st, seen = {}, [t], set()
    while st and len(seen) < lim:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        k = TM.skelb(x)
        out[k] = out.get(k, 0) + 1
        st.extend(x.a)
    return out


def likeness(a, b):
    n = sum(min(v, b[k]) for k, v in a.items() if k in b)
    return n / (sum(a.values()) + sum(b.values()) - n or 1)


def align(p1, p2, main):
    """permutation: position in p1 -> position in p2"""
    if len(p1) != len(p2):
        return None, None
    n = len(p1)
    perm = [None] * n
    used = set()
    if main and n:
        perm[0] = 0
        used.add(0)

    def take(i, j):
        perm[i] = j
        used.add(j)
    left = lambda: [i for i in range(n) if perm[i] is None]
    # the same value in the same loop: same start, same body up to names, unless several look like that
    for i in left():
        c = [j for j in range(n) if j not in used and p1[i][0] is p2[j][0] and skel(p1[i][1]) == skel(p2[j][1])]
        if i in c:
            take(i, i)
        elif c:
            take(i, c[0])
    sure = set(range(n)) - set(left())
    if left():
        fa = {i: feats(p1[i][1]) for i in left()}
        fb = {j: feats(p2[j][1]) for j in range(n) if j not in used}
        cand = []
        for i in fa:
            for j in fb:
                a, b = p1[i], p2[j]
                s = 1.0 if a[0] is b[0] else 0.5 if skel(a[0]) == skel(b[0]) else 0.25 if a[0].op == b[0].op else 0
                cand.append((-s - likeness(fa[i], fb[j]), i != j, i, j))
        cand.sort()
        for _, _, i, j in cand:
            if perm[i] is None and j not in used:
                take(i, j)
    return perm, sure


def cleared(P, Q):
    """is P - Q zero after multiplying out the denominators?"""
    dens = {}
    for k in list(P) + list(Q):
        for u, e in k[0]:
            if u.op == "grp" and e < 0 and e.denominator == 1:
                dens[u] = max(dens.get(u, 0), -int(e))
    if not dens or sum(dens.values()) > 4:
        return None
    tot = {}
    for S, sg in ((P, 1), (Q, -1)):
        for k, v in S.items():
            s = dict(k[0])
            x = num(v * sg)
            for u, n in dens.items():
                e = s.pop(u, Fr(0)) + n
                if e.denominator != 1:
                    return None
                for _ in range(int(e)):
                    x = mul(x, u.a[0])
            x = mul(x, from_poly({(tuple(sorted(s.items(), key=lambda z: z[0].h)), k[1]): Fr(1)}))
            for k2, v2 in poly_of(x).items():
                n2 = tot.get(k2, 0) + v2
                if n2 == 0:
                    tot.pop(k2, None)
                else:
                    tot[k2] = n2
            if len(tot) > 20000:
                return None
    return not tot

"""Hash-consed terms with an algebraic normal form.

A term is the value-numbering class of an expression.  Arithmetic on scalars and matrices is kept as a polynomial
normal form: sum of coefficient * (commuting scalar atoms with rational exponents) * (ordered matrix factors).
Booleans are kept in negation normal form over comparison atoms.  Equality of normal forms is equality of digests.
"""
import hashlib
from fractions import Fraction as Fr

_tab = {}
LIM = [96]          # largest number of monomials a product is expanded to


class T:
    __slots__ = ("op", "a", "h", "mat", "_at", "_co", "_bv", "_sk", "line")

    def __repr__(self):
        return pp(self)


FIELDMAT = {}       # "Class.field" -> is a (non 1x1) matrix; filled from the program
_base = [None]


INTEG = set()        # integer comparisons: they keep their orientation rule when atoms are renamed


def reset():
    """forget every term that is not a module-level constant (keeps results independent of the order of analysis)"""
    if _base[0] is None:
        return
    _tab.clear()
    _tab.update(_base[0])
    INTEG.clear()
    TIED.clear()
    SKB.clear()
    LEAFSETS.clear()
    BL.clear()
    REPL.clear()


def freeze_base():
    _base[0] = dict(_tab)


def _ser(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        return b"(" + b",".join(_ser(y) for y in x) + b")"
    if isinstance(x, Fr):
        return b"q" + str(x).encode()
    return repr(x).encode()


_FOPS = {"fld", "fldv", "getf"}


def mk(op, *a, mat=False):
    k = (op, a)
    t = _tab.get(k)
    if op in _FOPS:
        mat = FIELDMAT.get(a[1], mat)
    if t is None:
        t = T()
        t.op, t.a, t.mat = op, a, mat
        t.h = hashlib.blake2b(op.encode() + b":" + _ser(a), digest_size=12).digest()
        t._at = t._co = t._bv = t._sk = None
        t.line = 0
        _tab[k] = t
    elif mat and not t.mat:
        setmat(t)
    return REPL.get(t, t) if REPL else t


REPL = {}           # terms to be taken for others while a summary is built (see eq.rootcause)
UPGR = [0]          # how often a term turned out to be a matrix after it was first built


def setmat(t):
    if not t.mat and t.op not in ("num", "poly", "bool"):
        t.mat = True
        t._sk = t._at = t._co = None
        UPGR[0] += 1


def num(x):
    if isinstance(x, bool):
        return mk("bool", x)
    return mk("num", Fr(x))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("bool", True), mk("bool", False)
I = mk("I", mat=True)
HALF = Fr(1, 2)


def sym(n, mat=False):
    return mk("sym", n, mat=mat)


def app(f, *a, mat=False):
    return mk("app", f, *a, mat=mat)


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """dict {(smono, mseq): coef}"""
    if t.op == "poly":
        return {(s, m): c for c, s, m in t.a}
    if t.op == "num":
        return {((), ()): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "I":
        return {((), (I,)): Fr(1)}
    if t.op == "app" and t.a[0] == "Zero":
        return {}
    if t.mat:
        return {((), (t,)): Fr(1)}
    return {(((t, Fr(1)),), ()): Fr(1)}


def _mkey(x):
    return [(u.h, e) for u, e in x[1]], [u.h for u in x[2]]


def from_poly(d):
    items = [(c, s, m) for (s, m), c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        c, s, m = items[0]
        if c == 1 and not s and len(m) == 1:
            return m[0]
        if c == 1 and not m and len(s) == 1 and s[0][1] == 1:
            return s[0][0]
        if not s and not m:
            return num(c)
    items.sort(key=_mkey)
    mat = any(m for _, _, m in items)
    return mk("poly", *items, mat=mat)


def add(a, b):
    if a.op == "bool" or b.op == "bool":
        a, b = b2n(a), b2n(b)
    d = dict(poly_of(a))
    for k, c in poly_of(b).items():
        n = d.get(k, 0) + c
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = n
    return from_poly(d)


def b2n(t):
    if t.op == "bool":
        return num(1 if t.a[0] else 0)
    return t


def scale(t, c):
    return from_poly({k: v * c for k, v in poly_of(t).items()})


def neg(t):
    return scale(b2n(t), Fr(-1))


def sub(a, b):
    return add(a, neg(b))


def _smul(s1, s2):
    if not s1:
        return s2
    if not s2:
        return s1
    d = {}
    for t, e in s1 + s2:
        d[t] = d.get(t, 0) + e
    r = [(t, e) for t, e in d.items() if e != 0]
    # (p)^n with p a sum and n a positive integer would need re-expansion: kept as a power
    r.sort(key=lambda x: x[0].h)
    return tuple(r)


ROT_FN = {"quat_2_Rot", "exp_so3", "rot_x", "rot_y", "rot_z"}


def is_rot(t):
    if t.op == "tr":
        return is_rot(t.a[0])
    if t.op == "app":
        f = t.a[0]
        b = f.rsplit("::", 1)[-1]
        return b in ROT_FN or b in ("Rot", "Rot_fej")
    return False


def _mcat(m1, m2):
    l = list(m1)
    for f in m2:
        if f is I and l:
            continue
        if l and l[-1] is I:
            l.pop()
        if l and is_rot(f) and l[-1] is tr(f):
            l.pop()
            if not l:
                l = [I]
            continue
        l.append(f)
    return tuple(l)


def mul(a, b):
    a, b = b2n(a), b2n(b)
    pa, pb = poly_of(a), poly_of(b)
    if not pa or not pb:
        return ZERO
    if len(pa) * len(pb) > LIM[0] and len(pa) > 1 and len(pb) > 1:
        # too large to expand: keep the factors (still canonical for identical factors)
        fa = {((), (mk("grp", a, mat=True),)) if a.mat else (((mk("grp", a), Fr(1)),), ()): Fr(1)} if len(pa) > 1 else pa
        fb = {((), (mk("grp", b, mat=True),)) if b.mat else (((mk("grp", b), Fr(1)),), ()): Fr(1)} if len(pb) > 1 else pb
        pa, pb = fa, fb
    d = {}
    for (s1, m1), c1 in pa.items():
        for (s2, m2), c2 in pb.items():
            k = (_smul(s1, s2), _mcat(m1, m2) if m1 or m2 else ())
            n = d.get(k, 0) + c1 * c2
            if n == 0:
                d.pop(k, None)
            else:
                d[k] = n
    return from_poly(d)


def power(t, e):
    e = Fr(e)
    t = b2n(t)
    if e == 0:
        return ONE
    if e == 1:
        return t
    p = poly_of(t)
    if not p:
        return ZERO if e > 0 else mk("app", "div0")
    if e.denominator == 1 and 0 < e <= 6 and not t.mat and len(p) ** int(e) <= LIM[0]:
        r = t
        for _ in range(int(e) - 1):
            r = mul(r, t)
        return r
    if len(p) == 1:
        (s, m), c = next(iter(p.items()))
        if not m:
            if e.denominator == 1:
                return from_poly({(tuple((x, k * e) for x, k in s), ()): c ** int(e)})
            if c == 1 and len(s) == 1 and s[0][1].denominator != 1:
                return from_poly({(tuple((x, k * e) for x, k in s), ()): Fr(1)})
            if c == 1 and len(s) == 1 and s[0][1] == 1:
                return from_poly({(((s[0][0], e),), ()): Fr(1)})
    # a sum: normalise by its leading coefficient when the exponent is an integer
    if e.denominator == 1 and t.op == "poly":
        lead = t.a[0][0]
        base = scale(t, 1 / lead)
        return from_poly({(((mk("grp", base), e),), ()): lead ** int(e)})
    return from_poly({(((mk("grp", t) if t.op == "poly" else t, e),), ()): Fr(1)})


def div(a, b):
    return mul(a, power(b, -1))


def tr(t):
    if t.op == "tr":
        return t.a[0]
    if t is I or t.op == "num":
        return t
    if t.op == "grp":
        return mk("grp", tr(t.a[0]), mat=True)
    if t.op == "poly":
        if not t.mat:
            return t
        d = {}
        for c, s, m in t.a:
            r = from_poly({(s, ()): c}) if (s or c != 1) else ONE
            x = None
            for f in reversed(m):
                ft = tr(f)
                x = ft if x is None else mul(x, ft)
            x = mul(r, x) if x is not None else r
            for k, v in poly_of(x).items():
                d[k] = d.get(k, 0) + v
        return from_poly({k: v for k, v in d.items() if v})
    if t.op == "app" and t.a[0].rsplit("::", 1)[-1] == "skew_x":
        return neg(t)
    if t.op == "app" and t.a[0] in ("selfadj", "Zero"):
        return t
    if not t.mat:
        return t
    return mk("tr", t, mat=True)


def skew(v):
    """skew is linear"""
    if v.op == "poly" and v.mat:
        r = ZERO
        for c, s, m in v.a:
            x = from_poly({((), m): Fr(1)})
            r = add(r, mul(from_poly({(s, ()): c}), mk("app", "ov_core::skew_x", x, mat=True)))
        return r
    if v is ZERO:
        return ZERO
    return mk("app", "ov_core::skew_x", v, mat=True)


# ---------------------------------------------------------------- booleans
def as_bool(t):
    if t.op == "num":
        return TRUE if t.a[0] != 0 else FALSE
    if t.op in ("bool", "and", "or", "not", "lt0", "eq0", "eq", "bat"):
        return t
    if t.op == "ite":
        return ite(t.a[0], as_bool(t.a[1]), as_bool(t.a[2]))
    if t.op == "app" and t.a[0] in BOOLF:
        return t
    return mk("bat", t)      # opaque boolean atom


BOOLF = set()


def is_bool(t):
    return t.op in ("bool", "and", "or", "not", "lt0", "eq0", "eq", "bat")


def bnot(t):
    t = as_bool(t)
    if t.op == "bool":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "and":
        return bor(*[bnot(x) for x in t.a])
    if t.op == "or":
        return band(*[bnot(x) for x in t.a])
    if t.op == "ite":
        return ite(t.a[0], bnot(t.a[1]), bnot(t.a[2]))
    return mk("not", t)


def _nary(op, args):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    s = {}
    for x in args:
        x = as_bool(x)
        if x is unit:
            continue
        if x is zero:
            return zero
        if x.op == op:
            for y in x.a:
                s[y] = 1
        else:
            s[x] = 1
    for x in s:
        if bnot(x) in s:
            return zero
    dual = "or" if op == "and" else "and"
    # absorption and unit resolution of the dual clauses
    out = []
    changed = False
    for x in s:
        if x.op == dual:
            if any(y in s or y.op == op and all(z in s for z in y.a) for y in x.a):
                changed = True
                continue
            keep = []
            for y in x.a:
                if bnot(y) in s or y.op == op and any(bnot(z) in s for z in y.a):
                    continue
                if y.op == op and any(z in s for z in y.a):
                    y = _nary(op, [z for z in y.a if z not in s])
                keep.append(y)
            if len(keep) != len(x.a) or any(a is not b for a, b in zip(keep, x.a)):
                changed = True
                x = _nary(dual, keep)
        out.append(x)
    if changed:
        return _nary(op, out)
    cl = [x for x in out if x.op == dual]
    if len(cl) > 1:
        # a clause that contains another one says nothing more
        gone = {y for x in cl for y in cl if x is not y and len(x.a) < len(y.a) and set(x.a) <= set(y.a)}
        if gone:
            return _nary(op, [x for x in out if x not in gone])
        if len(cl) == len(out):
            # what all clauses share is factored out
            com = set(cl[0].a)
            for x in cl[1:]:
                com &= set(x.a)
            if com:
                return _nary(dual, list(com) + [_nary(op, [_nary(dual, [y for y in x.a if y not in com]) for x in cl])])
        # a clause and its copy with one literal turned round: (a b) + (a !b) = a
        for i, x in enumerate(cl):
            for y in cl[i + 1:]:
                if len(x.a) == len(y.a):
                    d = [z for z in x.a if z not in y.a]
                    if len(d) == 1 and bnot(d[0]) in y.a:
                        return _nary(op, [z for z in out if z is not x and z is not y] + [_nary(dual, [z for z in x.a if z is not d[0]])])
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.h)
    return mk(op, *out)


def band(*a):
    return _nary("and", a)


def bor(*a):
    return _nary("or", a)


MM = {"num", "poly", "sym", "bv", "fld", "fldv", "getf", "sel", "blk", "size", "app", "s11", "fold", "ret", "out"}


def _minmax(c, a, b):
    """is c ? a : b the smaller or the larger of a and b"""
    d, e = poly_of(c.a[0]), poly_of(sub(a, b))
    k = next((k for k in e if k != ((), ())), None)
    if k is None or k not in d or any(x[1] for x in e):
        return None
    r = d[k] / e[k]
    one = ((), ())
    if any(d.get(x, 0) != r * e.get(x, 0) for x in d.keys() | e.keys() if x != one):
        return None
    off = d.get(one, 0) - r * e.get(one, 0)
    if off and not (c in INTEG and abs(r) == 1 and off == -1):
        return None
    return "min" if r > 0 else "max"


def ite(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "or":
        return ite(bnot(c), b, a)
    if c.op == "ite":
        return ite(c.a[0], ite(c.a[1], a, b), ite(c.a[2], a, b))
    if a.op == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if (is_bool(a) or a.op == "num" and a.a[0] in (0, 1)) and (is_bool(b) or b.op == "num" and b.a[0] in (0, 1)) and (
            a.op == "bool" or b.op == "bool"):
        a, b = as_bool(a), as_bool(b)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
        if b is FALSE:
            return band(c, a)
    if is_bool(a) and is_bool(b):
        # one of the outcomes is decided by the condition itself
        n = bnot(c)
        if a is n:
            return band(n, b)
        if b is n:
            return bor(n, a)
        if a is c:
            return bor(c, b)
        if b is c:
            return band(c, a)
        if c.op == "and" and a.op == "not" and a.a[0] in c.a:
            return band(n, b)
        if c.op == "and" and a in c.a:
            return bor(c, b)
    if c.op == "lt0" and not (a.mat or b.mat or is_bool(a) or is_bool(b)) and a.op in MM and b.op in MM:
        k = _minmax(c, a, b)
        if k:
            u, v = (a, b) if a.h < b.h else (b, a)
            c2 = lt(u, v, c in INTEG)
            if c2.op in ("lt0", "not"):
                a, b = (u, v) if k == "min" else (v, u)
                c = c2
                if c.op == "not":
                    c, a, b = c.a[0], b, a
    # ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == "ite":
        if b.a[1] is a:
            return ite(bor(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if a.op == "ite":
        if a.a[1] is b:
            return ite(band(c, bnot(a.a[0])), a.a[2], b)
        if a.a[2] is b:
            return ite(band(c, a.a[0]), a.a[1], b)
    if a.op == "bst" and b.op == "bst" and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]) and all(x[0] == y[0] for x, y in zip(a.a[1], b.a[1])):
        return mk("bst", a.a[0], tuple((x[0], ite(c, x[1], y[1])) for x, y in zip(a.a[1], b.a[1])), mat=True)
    if a.op == b.op == "sto" and a.a[0] is b.a[0] and len(a.a) == len(b.a) == 2 and len(a.a[1]) == len(b.a[1]) and all(
            x[0] is y[0] and len(x) == len(y) == 2 for x, y in zip(a.a[1], b.a[1])):
        return mk("sto", a.a[0], tuple((x[0], ite(c, x[1], y[1])) for x, y in zip(a.a[1], b.a[1])), mat=a.mat)
    if a.op == b.op == "push" and a.a[0] is b.a[0] and len(a.a) == len(b.a) == 2:
        return mk("push", a.a[0], ite(c, a.a[1], b.a[1]), mat=a.mat)
    if a.op == b.op == "app" and a.a[0] == b.a[0] and len(a.a) == len(b.a) > 1 and a.mat == b.mat and a.a[0] not in APP_REBUILD and all(
            isinstance(x, T) and isinstance(y, T) or x == y for x, y in zip(a.a[1:], b.a[1:])):
        # the same function of different arguments
        return mk("app", a.a[0], *[x if x is y or not isinstance(x, T) else ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])], mat=a.mat)
    return mk("ite", c, a, b, mat=a.mat or b.mat)


def _const(t):
    return t.a[0] if t.op == "num" else None


def lt(a, b, integral=False):
    """a < b"""
    d = sub(a, b)
    c = _const(d)
    if c is not None:
        return TRUE if c < 0 else FALSE
    return _lt0(d, integral)


def counted(x):
    """the condition "some iteration counts" of a loop that counts iterations up from zero; None for any other term"""
    if x.op != "fold" or x.a[3] or x.a[1] is not FALSE or len(x.a[2]) != 1 or x.mat:
        return None
    i, n = x.a[2][0]
    if i is not ZERO or n.op != "ite" or not n.a[0] is not None:
        return None
    b = bvx(foldlevel(x), 0, False)
    c, u, v = n.a
    if u is b and v is add(b, ONE):
        c, u, v = bnot(c), v, u
    if v is not b or u is not add(b, ONE) or b in leaves(c):
        return None
    return as_bool(mk("fold", x.a[0], FALSE, ((FALSE, ite(c, TRUE, b)),), ()))


def _lt0(d, integral):
    p = poly_of(d)
    if len(p) <= 2:
        nc = [(k, c) for k, c in p.items() if k != ((), ())]
        if len(nc) == 1 and not nc[0][0][1] and len(nc[0][0][0]) == 1 and nc[0][0][0][0][1] == 1 and nc[0][0][0][0][0].op == "fold":
            x, c, k0 = nc[0][0][0][0][0], nc[0][1], p.get(((), ()), Fr(0))
            if c > 0 and 0 < -k0 / c <= 1 or c < 0 and 0 <= k0 / -c < 1:
                a = counted(x)
                if a is not None:
                    return bnot(a) if c > 0 else a
        nc = [(k, c) for k, c in p.items() if k != ((), ())]
        if len(nc) == 1 and not nc[0][0][1] and len(nc[0][0][0]) == 1 and nc[0][0][0][0][1] == 1 and nc[0][0][0][0][0].op in ("size", "abs0"):
            # sizes are non-negative integers
            x, c, k0 = nc[0][0][0][0][0], nc[0][1], p.get(((), ()), Fr(0))
            if c > 0:           # size < -k0/c
                b = -k0 / c
                if b <= 0:
                    return FALSE
                if b <= 1:
                    return mk("eq0", x)
            else:               # size > k0/-c
                b = k0 / -c
                if b < 0:
                    return TRUE
                if b < 1:
                    return mk("not", mk("eq0", x))
    lead = None
    nonconst = [c for k, c in p.items() if k != ((), ())]
    g = min(abs(c) for c in nonconst) if nonconst else Fr(1)
    if g != 1 and not integral:
        d = scale(d, 1 / g)
    if integral:
        # d<0 over the integers; canonical orientation: first monomial positive; otherwise not(-d-1 < 0)
        first = next(x for x in d.a if (x[1], x[2]) != ((), ())) if d.op == "poly" else None
        if first is not None and first[0] < 0:
            r = mk("lt0", sub(neg(d), ONE))
            INTEG.add(r)
            return bnot(r)
        r = mk("lt0", d)
        INTEG.add(r)
        return r
    return mk("lt0", d)


def le(a, b, integral=False):
    if integral:
        return lt(a, add(b, ONE), True)
    return bnot(lt(b, a))


def eq(a, b, numeric=True):
    if a is b:
        return TRUE
    if numeric:
        if is_bool(a) or is_bool(b):
            a1, b1 = as_bool(a), as_bool(b)
            if a1.op == "bool":
                return b1 if a1 is TRUE else bnot(b1)
            if b1.op == "bool":
                return a1 if b1 is TRUE else bnot(a1)
        d = sub(a, b)
        c = _const(d)
        if c is not None:
            return TRUE if c == 0 else FALSE
        if d.op == "poly":
            lead = d.a[0][0]
            d = scale(d, 1 / lead)
        return mk("eq0", d)
    if a.op == "str" and b.op == "str":
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y.op == "ite" and x.op != "ite":
            # equal to one of two things
            u, v = eq(x, y.a[1], False), eq(x, y.a[2], False)
            if u.op == "bool" or v.op == "bool" or u is y.a[0] or v is y.a[0]:
                c = y.a[0]
                return bor(band(c, TRUE if u is c else u), band(bnot(c), FALSE if v is c else v))
    if a.h > b.h:
        a, b = b, a
    return mk("eq", a, b)


# ---------------------------------------------------------------- traversal / rebuilding
def children(t):
    """direct sub-terms"""
    out = []
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(children(x))


def rebuild(t, f):
    """rebuild the head of t from children mapped through f, with normalisation"""
    op, a = t.op, t.a
    if op in ("num", "bool", "sym", "I", "str", "bv"):
        return t
    if op == "poly":
        r = ZERO
        for c, s, m in a:
            x = num(c)
            for u, e in s:
                fu = f(u)
                x = mul(x, power(fu, e) if e != 1 else fu)
            y = None
            for u in m:
                fu = f(u)
                y = fu if y is None else mul(y, fu)
            if y is not None:
                x = mul(x, y)
            r = add(r, x)
        return r
    if op == "grp":
        x = f(a[0])
        return x if x is not a[0] and x.op != "poly" else (mk("grp", x, mat=t.mat) if x.op == "poly" else x)
    if op == "tr":
        return tr(f(a[0]))
    if op == "not":
        return bnot(f(a[0]))
    if op == "and":
        return band(*[f(x) for x in a])
    if op == "or":
        return bor(*[f(x) for x in a])
    if op == "ite":
        c = f(a[0])
        if as_bool(c) is TRUE:
            return f(a[1])
        if as_bool(c) is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == "lt0":
        d = f(a[0])
        c = _const(d)
        if c is not None:
            return TRUE if c < 0 else FALSE
        return t if d is a[0] else _lt0(d, t in INTEG)
    if op == "eq0":
        d = f(a[0])
        return t if d is a[0] else eq(d, ZERO)
    if op == "eq":
        return eq(f(a[0]), f(a[1]), numeric=False)
    if op == "bat":
        return as_bool(f(a[0]))
    if op == "app":
        h = APP_REBUILD.get(a[0])

        def g(x):
            if isinstance(x, T):
                return f(x)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        args = [g(x) for x in a[1:]]
        if h:
            return h(*args)
        return mk("app", a[0], *args, mat=t.mat)

    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    r = mk(op, *[g(x) for x in a], mat=t.mat)
    if op == "fold" and t in TIED and r is not t:
        return canon_fold(*r.a, foldlevel(r), mat=r.mat, hints=TIED[t])
    return r


APP_REBUILD = {"ov_core::skew_x": skew}


NONE = set()
TIED = {}       # folds whose carried variables could not be ordered without looking at names: ordered again when names are replaced
SKB = {}


def bvx(lev, i, mat):
    """carried variable of a loop; a matrix and a scalar of different loops are different variables"""
    return mk("bv", lev, ("X%d" if mat else "x%d") % i, mat=mat)


def skelb(t):
    """digest that ignores every bound variable and analysis-generated symbol"""
    r = SKB.get(t)
    if r is not None:
        return r
    op, a = t.op, t.a
    if op == "bv" or op == "sym" and a[0].startswith("$cv"):
        r = b"$"
    elif op in ("num", "bool", "sym", "str", "I"):
        r = t.h
    else:
        r = digest(t, skelb)
    SKB[t] = r
    return r


def _H(*xs):
    return hashlib.blake2b(b"|".join(xs), digest_size=10).digest()


def fold_key(init, nxt, hint=b""):
    return _H(hint, skelb(init), skelb(nxt))


def canon_fold(dom, unt, prs, xn, lev, mat=False, hints=None):
    """fold with its carried variables in an order that depends on what they do, not on how they were found; the first one is the
    value of the fold itself when there is no result term"""
    n = len(prs)
    lo = 0 if xn else 1
    if n - lo < 2:
        return mk("fold", dom, unt, prs, xn, mat=mat)
    def find():
        names = {}
        for t in [dom, unt] + [p[1] for p in prs] + list(xn):
            for x in boundvars(t):
                if x.a[0] == lev and x.a[1][0] in "xX":
                    names.setdefault(int(x.a[1][1:]), set()).add(x)
        return names

    def done(order, tied, names=None):
        if order != list(range(n)):
            names = names or find()
            m = {}
            for i, j in enumerate(order):
                for x in names.get(j, ()):
                    m[x] = bvx(lev, i, x.mat)
            memo = {}
            r = mk("fold", subst(dom, m, memo), subst(unt, m, memo), tuple((prs[j][0], subst(prs[j][1], m, memo)) for j in order),
                   tuple(subst(x, m, memo) for x in xn), mat=mat)
        else:
            r = mk("fold", dom, unt, prs, xn, mat=mat)
        if tied:
            TIED[r] = [hints[j] for j in order]
        return r

    def ties(col):
        return len(set(col[lo:])) < n - lo

    def refine(col, dig):
        for _ in range(n):
            m = {x: mk("sym", "\u00a7" + col[i].hex(), mat=x.mat) for i in names for x in names[i] if i < n}
            memo = {}
            new = [_H(col[i], dig(subst(prs[i][1], m, memo))) for i in range(n)]
            k = len(set(new))
            grown = k > len(set(col))
            col = new
            if not ties(col):
                return col
            if not grown:
                # who uses it, and for what
                cnt = {c: col[lo:].count(c) for c in col[lo:]}
                new = list(col)
                for i in range(lo, n):
                    if cnt[col[i]] > 1:
                        mi = dict(m)
                        for j in names:
                            for x in names[j]:
                                if j < n:
                                    mi[x] = mk("sym", "\u00a7me" if j == i else "\u00a7" + col[j].hex(), mat=x.mat)
                        memo = {}
                        new[i] = _H(col[i], dig(subst(dom, mi, memo)), dig(subst(unt, mi, memo)), *([dig(subst(x, mi, memo)) for x in xn] +
                                    sorted(_H(col[j], dig(subst(prs[j][1], mi, memo))) for j in range(n)
                                           if j != i and not names.get(i, NONE).isdisjoint(leaves(prs[j][1])))))
                grown = len(set(new)) > len(set(col))
                col = new
                if not grown or not ties(col):
                    return col
        return col
    hints = hints or [b""] * n
    c0 = [fold_key(*p, h) for p, h in zip(prs, hints)]
    if lo:
        c0[0] = b"main"
    names = None
    if ties(c0):
        names = find()
        c0 = refine(c0, skelb)
    if not ties(c0):
        return done(list(range(lo)) + sorted(range(lo, n), key=lambda i: c0[i]), False, names)
    c1 = [_H(c0[i], skel(prs[i][0])) for i in range(n)]
    if ties(c1):
        c1 = refine(c1, skel)
    return done(list(range(lo)) + sorted(range(lo, n), key=lambda i: (c0[i], c1[i])), True, names)


def bvlevel(t):
    if t._bv is None:
        lv = 0
        if t.op == "bv":
            lv = t.a[0]
        elif t.op not in ("num", "sym", "str", "bool", "I"):
            for c in children(t):
                l2 = bvlevel(c)
                if l2 > lv:
                    lv = l2
        t._bv = lv
    return t._bv


NOLEAF = frozenset()
LEAFSETS = {}


def leaves(t):
    """bound variables and analysis-generated symbols in t"""
    r = t._at
    if r is None:
        if t.op == "bv" or t.op == "sym" and t.a[0].startswith(("$cv", "$nw")):
            r = frozenset((t,))
        elif t.op in ("num", "str", "bool", "I", "sym"):
            r = NOLEAF
        else:
            r = NOLEAF
            for c in children(t):
                l = leaves(c)
                if l is not r and not l <= r:
                    r = l if r <= l else r | l
            r = LEAFSETS.setdefault(r, r)
        t._at = r
    return r


def isname(k):
    return k.op == "bv" or k.op == "sym" and k.a[0].startswith(("$cv", "$nw"))


def boundvars(t):
    return [x for x in leaves(t) if x.op == "bv"]


def flat(t):
    for x in t:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


BL = {}


def boundlevel(t):
    """highest binder level bound inside t"""
    if t.op in ("num", "sym", "str", "bool", "I", "bv") or not any(x.op == "bv" for x in leaves(t)):
        return 0
    r = BL.get(t)
    if r is None:
        r = max([boundlevel(c) for c in children(t)], default=0)
        if t.op in ("fold", "lam"):
            L = foldlevel(t)
            if any(x.op == "bv" and x.a[0] == L for c in _scope(t) for x in leaves(c)):
                r = max(r, L)
        BL[t] = r
    return r


def _scope(t):
    """parts of a binder in which its variables are visible"""
    return [t.a[0], t.a[1]] + [p[1] for p in t.a[2]] + list(t.a[3]) if t.op == "fold" else children(t)


def foldlevel(t):
    """binder level of a fold: the level of the variables it binds itself; those of enclosing loops are higher"""
    sc = _scope(t)
    b = max([boundlevel(x) for x in sc], default=0)
    return min([x.a[0] for c in sc for x in leaves(c) if x.op == "bv" and x.a[0] > b], default=b + 1)


def subst(t, m, memo=None):
    """replace terms (keys of m, by identity) everywhere"""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    if all(map(isname, keys)):
        if keys.isdisjoint(leaves(t)):
            return t

        def go(x):
            r = m.get(x)
            if r is not None:
                return r
            r = memo.get(x)
            if r is None:
                r = x if keys.isdisjoint(leaves(x)) else rebuild(x, go)
                memo[x] = r
            return r
        return go(t)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def skel(t):
    """digest that does not depend on the names of analysis-generated symbols"""
    if t._sk is not None:
        return t._sk
    op, a = t.op, t.a
    if op == "sym" and a[0].startswith("$cv"):
        r = b"$"
    elif op in ("num", "bool", "sym", "str", "I", "bv"):
        r = t.h
    else:
        r = digest(t, skel)
    t._sk = r
    return r


def digest(t, skel):
    op, a = t.op, t.a

    def s(x):
        if isinstance(x, T):
            return skel(x)
        if isinstance(x, tuple):
            return b"(" + b",".join(s(y) for y in x) + b")"
        return repr(x).encode()
    def parts(items, k=1, add=0):
        out = []
        for c, sm, m in items:
            c = c * k
            if not sm and not m:
                c, add = c + add, 0
                if c == 0:
                    continue
            out.append(str(c).encode() + b"".join(sorted(skel(u) + str(e).encode() for u, e in sm)) + b"|" + b"".join(skel(u) for u in m))
        if add:
            out.append(str(add).encode() + b"|")
        return b"".join(sorted(out))

    # forms whose sign was chosen by the order of the monomials look the same either way round
    if op == "poly":
        body = parts(a)
    elif op == "eq0" and a[0].op == "poly":
        it = a[0].a
        k = 1 / max(abs(c) for c, _, _ in it)
        body = min(parts(it, k), parts(it, -k))
    elif op == "app" and a[0] == "abs" and len(a) == 2 and a[1].op == "poly":
        body = b"abs" + min(parts(a[1].a), parts(a[1].a, -1))
    elif (op == "lt0" and t in INTEG or op == "not" and a[0].op == "lt0" and a[0] in INTEG) and (a[0] if op == "lt0" else a[0].a[0]).op == "poly":
        it = (a[0] if op == "lt0" else a[0].a[0]).a
        x, y = parts(it), parts(it, -1, -1)
        body = (b"+" if (x <= y) == (op == "lt0") else b"-") + min(x, y)
        op = "ilt"
    elif op == "ite" and a[0].op == "lt0" and a[0] in INTEG and a[0].a[0].op == "poly":
        it = a[0].a[0].a
        x, y = parts(it), parts(it, -1, -1)
        body = min(x, y) + (skel(a[1]) + skel(a[2]) if x <= y else skel(a[2]) + skel(a[1]))
    elif op in ("and", "or", "eq"):
        body = b"".join(sorted(skel(x) for x in a))
    else:
        body = s(a)
    return hashlib.blake2b(op.encode() + body, digest_size=10).digest()


# ---------------------------------------------------------------- printing
def pp(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(pp(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.a
    d = depth - 1
    if op == "num":
        q = a[0]
        if q.denominator > 10 ** 6:
            return "%g" % float(q)
        return str(q)
    if op == "bool":
        return "true" if a[0] else "false"
    if op == "sym":
        return a[0]
    if op == "str":
        return '"' + a[0] + '"'
    if op == "bv":
        return f"{a[1]}{a[0]}"
    if op == "I":
        return "I"
    if op == "tr":
        return pp(a[0], d) + "ᵀ"
    if op == "grp":
        return "(" + pp(a[0], d) + ")"
    if op == "poly":
        out = []
        for c, s, m in a[:12]:
            fs = []
            if c != 1 and c != -1 or (not s and not m):
                fs.append(pp(num(abs(c))))
            for u, e in s:
                fs.append(pp(u, d) + ("" if e == 1 else f"^{e}"))
            fs += [pp(u, d) for u in m]
            out.append((" - " if c < 0 else " + ") + "*".join(fs))
        if len(a) > 12:
            out.append(" + …")
        r = "".join(out)
        return "(" + (r[3:] if r.startswith(" + ") else r.strip()) + ")"
    if op == "not":
        return "!" + pp(a[0], d)
    if op in ("and", "or"):
        return "(" + (" && " if op == "and" else " || ").join(pp(x, d) for x in a) + ")"
    if op == "ite":
        return f"[{pp(a[0], d)} ? {pp(a[1], d)} : {pp(a[2], d)}]"
    if op == "lt0":
        return f"{pp(a[0], d)}<0"
    if op == "eq0":
        return f"{pp(a[0], d)}==0"
    if op == "eq":
        return f"{pp(a[0], d)}=={pp(a[1], d)}"
    if op == "bat":
        return pp(a[0], d)
    if op == "fld":
        return f"{pp(a[0], d)}.{a[1]}"
    if op == "getf":
        return f"{pp(a[0], d)}.{a[1]}"
    if op == "sel":
        return f"{pp(a[0], d)}[{pp(a[1], d)}]"
    if op == "app":
        return str(a[0]).rsplit("::", 1)[-1] + "(" + ", ".join(pp(x, d) for x in a[1:]) + ")"
    return op + "<" + ", ".join(pp(x, d) for x in a) + ">"


def allterms(ts):
    """every subterm of the given terms"""
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen

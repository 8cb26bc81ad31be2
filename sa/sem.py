"""Value-numbering abstract interpreter.

Forward dataflow over the structured IR.  The abstract value of every location is a term (sa/term.py); control-flow
joins build gated terms, loops become fold terms over bound symbols, calls to functions known to the reference are
uninterpreted (with the effects computed by sa/effects.py), every other repo function is inlined.  No path is
enumerated and nothing is executed.  The result of a function is its summary: slot -> term, for the return value,
every written heap field, every written reference parameter and the termination condition.
"""
import re
from fractions import Fraction as Fr
from .term import *
from . import term as TM
from .effects import ignorable, short, strip, pure_method
from .ir import walk as ir_walk

sys_limit = 100000
import sys
sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ lvalues and python-level values
class LV:
    __slots__ = ()


class LVar(LV):
    __slots__ = ("id",)

    def __init__(s, i):
        s.id = i


class LFld(LV):
    __slots__ = ("base", "name")

    def __init__(s, b, n):
        s.base, s.name = b, n


class LGlob(LV):
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n


class LGet(LV):
    __slots__ = ("lv", "name")

    def __init__(s, l, n):
        s.lv, s.name = l, n


class LSel(LV):
    __slots__ = ("lv", "idx")

    def __init__(s, l, i):
        s.lv, s.idx = l, i


class LBlk(LV):
    __slots__ = ("lv", "r", "c", "h", "w", "el", "tr", "dims")

    def __init__(s, l, r, c, h, w, el=False, dims=None):
        s.lv, s.r, s.c, s.h, s.w, s.el, s.dims = l, r, c, h, w, el, dims


class LTmp(LV):
    __slots__ = ("t",)

    def __init__(s, t):
        s.t = t


class LObj(LV):
    """*p"""
    __slots__ = ("p",)

    def __init__(s, p):
        s.p = p


class LTr(LV):
    __slots__ = ("lv",)

    def __init__(s, l):
        s.lv = l


class LIte(LV):
    """c ? a : b used as an lvalue"""
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b


class Iter:
    __slots__ = ("lv", "pos", "rev")

    def __init__(s, l, p, rev=False):
        s.lv, s.pos, s.rev = l, p, rev


class Ref:
    __slots__ = ("lv",)

    def __init__(s, l):
        s.lv = l


class Ptr:
    """address of a local lvalue"""
    __slots__ = ("lv",)

    def __init__(s, l):
        s.lv = l


class Lam:
    __slots__ = ("node", "env", "this")

    def __init__(s, n, e, t):
        s.node, s.env, s.this = n, e, t


def same_lv(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, LVar):
        return a.id == b.id
    if isinstance(a, LFld):
        return a.base is b.base and a.name == b.name
    if isinstance(a, LGlob):
        return a.name == b.name
    if isinstance(a, LGet):
        return a.name == b.name and same_lv(a.lv, b.lv)
    if isinstance(a, LSel):
        return a.idx is b.idx and same_lv(a.lv, b.lv)
    if isinstance(a, LTmp):
        return a.t is b.t
    if isinstance(a, LObj):
        return a.p is b.p
    if isinstance(a, LTr):
        return same_lv(a.lv, b.lv)
    if isinstance(a, LBlk):
        return same_lv(a.lv, b.lv) and (a.r, a.c, a.h, a.w, a.el) == (b.r, b.c, b.h, b.w, b.el)
    return False


class State:
    __slots__ = ("env", "heap", "bulk", "meta")

    def __init__(s):
        s.env, s.heap, s.bulk, s.meta = {}, {}, {}, {}

    def copy(s):
        n = State()
        n.env, n.heap, n.bulk = dict(s.env), dict(s.heap), dict(s.bulk)
        n.meta = s.meta
        return n


class Out:
    """outcome of a statement list: normal state (or None) and guarded exits"""
    __slots__ = ("n", "ret", "brk", "cont", "halt")

    def __init__(s, n):
        s.n = n
        s.ret = s.brk = s.cont = None     # (cond, state[, value])
        s.halt = FALSE


# ------------------------------------------------------------------ types
_dim = re.compile(r"Eig<(-?\d+),(-?\d+)>")


def bare(t):
    t = t or "?"
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("R<") and t.endswith(">"):
            t = t[2:-1]
        elif t.startswith("RR<") and t.endswith(">"):
            t = t[3:-1]
        else:
            return t


def dims(t):
    m = _dim.match(bare(t))
    return (int(m.group(1)), int(m.group(2))) if m else None


def ismat(t):
    d = dims(t)
    return d is not None and d != (1, 1)


INTT = {"int", "unsigned int", "unsigned long", "long", "size_t", "short", "unsigned short", "char", "unsigned char", "signed char", "long long", "unsigned long long"}


def isint(t):
    return bare(t) in INTT


def isnum(t):
    b = bare(t)
    return b in INTT or b in ("double", "float", "bool", "long double") or dims(t) == (1, 1) or "::" in b and False


UNSIGNED = {"unsigned int", "unsigned long", "size_t", "unsigned short", "unsigned char", "unsigned long long"}

# ------------------------------------------------------------------ matrices as block stores


def _cdiff(a, b):
    d = sub(a, b)
    return d.a[0] if d.op == "num" else None


def disjoint(e1, e2):
    (r1, c1, h1, w1), (r2, c2, h2, w2) = e1, e2

    def sep(p, n, q, m):
        # [p,p+n) and [q,q+m) provably disjoint
        d = _cdiff(add(p, n), q)
        if d is not None and d <= 0:
            return True
        d = _cdiff(add(q, m), p)
        return d is not None and d <= 0
    return sep(r1, h1, r2, h2) or sep(c1, w1, c2, w2)


def bst(M, r, c, h, w, V):
    """functional block store"""
    if M.op == "bst":
        base, ents = M.a[0], list(M.a[1])
    else:
        base, ents = M, []
    key = (r, c, h, w)
    # an exact overwrite of an entry not overlapped by anything after it
    for i, (k, v) in enumerate(ents):
        if k == key:
            if all(disjoint(key, k2) for k2, _ in ents[i + 1:]):
                del ents[i]
                break
    zero_base = base is ZERO or (base.op == "app" and base.a[0] == "Zero")
    if V is ZERO and zero_base and all(disjoint(key, k2) for k2, _ in ents):
        return mk("bst", base, tuple(ents), mat=True) if ents else base
    if zero_base and base is not ZERO and r is ZERO and c is ZERO and h is base.a[1] and w is base.a[2]:
        return V
    new = (key, V)
    i = len(ents)
    hk = TM._ser(key)
    while i > 0 and disjoint(key, ents[i - 1][0]) and TM._ser(ents[i - 1][0]) > hk:
        i -= 1
    ents.insert(i, new)
    return mk("bst", base, tuple(ents), mat=True)


def _bst_rebuild_from(base, ents):
    M = base
    for (k, v) in ents:
        M = bst(M, k[0], k[1], k[2], k[3], v)
    return M


def blk(M, r, c, h, w, md=None):
    """read a block; el blocks are 1x1"""
    one = h is ONE and w is ONE
    if md and h.op == "num" and w.op == "num" and md == (h.a[0], w.a[0]):
        return M
    if not M.mat and one and M.op not in ("ite", "bst") and not (M.op == "app" and M.a[0] == "Zero"):
        if M.op == "num" or True:
            if M is ZERO:
                return ZERO
    if M is ZERO or (M.op == "app" and M.a[0] == "Zero"):
        return ZERO if one else ZERO
    if M.op == "ite":
        return ite(M.a[0], blk(M.a[1], r, c, h, w), blk(M.a[2], r, c, h, w))
    if one and M.op == "app" and M.a[0] == "diagonal" and M.a[1] is ZERO and c is ZERO:
        return blk(M.a[2], r, r, h, w)
    if M.op == "bst":
        key = (r, c, h, w)
        ents = M.a[1]
        for i in range(len(ents) - 1, -1, -1):
            k, v = ents[i]
            if k == key:
                return v
            if not disjoint(k, key):
                # contained in the entry?
                dr, dc = _cdiff(r, k[0]), _cdiff(c, k[1])
                if dr is not None and dc is not None and dr >= 0 and dc >= 0:
                    er, ec = _cdiff(add(r, h), add(k[0], k[2])), _cdiff(add(c, w), add(k[1], k[3]))
                    if er is not None and ec is not None and er <= 0 and ec <= 0:
                        return blk(v, num(dr), num(dc), h, w)
                rest = mk("bst", M.a[0], tuple(ents[:i + 1]), mat=True)
                return mk("blk", rest, r, c, h, w, mat=not one)
        return blk(M.a[0], r, c, h, w)
    if M is I:
        if one:
            d = _cdiff(r, c)
            if d is not None:
                return ONE if d == 0 else ZERO
        elif r is c and h is w:
            return I
    if M.op == "tr":
        x = blk(M.a[0], c, r, w, h)
        return x if one else tr(x)
    if M.op == "poly" and M.mat:
        if not any(len(m) > 1 for _, _, m in M.a):
            R = ZERO
            for cf, s, m in M.a:
                R = add(R, mul(from_poly({(s, ()): cf}), blk(m[0], r, c, h, w) if m else ZERO))
            return R
        if len(M.a) == 1:
            cf, s, m = M.a[0]
            if s or cf != 1:
                return mul(from_poly({(s, ()): cf}), mk("blk", from_poly({((), m): Fr(1)}), r, c, h, w, mat=not one))
        else:
            R = ZERO
            for cf, s, m in M.a:
                R = add(R, mul(from_poly({(s, ()): cf}), blk(from_poly({((), m): Fr(1)}), r, c, h, w)))
            return R
    if M.op == "blk":
        return blk(M.a[0], add(M.a[1], r), add(M.a[2], c), h, w)
    return mk("blk", M, r, c, h, w, mat=not one)


def _rb_bst(base, ents):
    return _bst_rebuild_from(base, ents)


_old_rebuild = TM.rebuild


def _rebuild(t, f):
    if t.op == "bst":
        M = f(t.a[0])
        for (k, v) in t.a[1]:
            M = bst(M, f(k[0]), f(k[1]), f(k[2]), f(k[3]), f(v))
        return M
    if t.op == "blk":
        return blk(f(t.a[0]), *[f(x) for x in t.a[1:]])
    if t.op == "sel":
        return sel(f(t.a[0]), f(t.a[1]), t.mat)
    if t.op == "getf":
        return getf(f(t.a[0]), t.a[1], t.mat)
    if t.op == "s11":
        return s11(f(t.a[0]))
    if t.op == "size":
        return size(f(t.a[0]))
    if t.op == "fldv":
        return fldv(f(t.a[0]), t.a[1], f(t.a[2]), t.mat)
    if t.op == "aft":
        r = f(t.a[2])
        return aft(f(t.a[0]), f(t.a[1]), None if r is NOREC else r)
    return _old_rebuild(t, f)


TM.rebuild = _rebuild


# ------------------------------------------------------------------ records and containers
def setf(v, f, x):
    if v.op == "setf":
        d = dict(v.a[1])
        d[f] = x
        return mk("setf", v.a[0], tuple(sorted(d.items())), mat=False)
    return mk("setf", v, ((f, x),))


def getf(v, f, mat=False):
    if v.op == "setf":
        for k, x in v.a[1]:
            if k == f:
                return x
        return getf(v.a[0], f, mat)
    if v.op == "rec":
        for k, x in v.a[0]:
            if k == f:
                return x
    if v.op == "ite":
        return ite(v.a[0], getf(v.a[1], f, mat), getf(v.a[2], f, mat))
    if v.op == "app" and v.a[0] == "obj":
        return mk("fld", v.a[1], f, mat=mat)
    return mk("getf", v, f, mat=mat)


def sto(C, k, v):
    if C.op == "sto":
        ents = list(C.a[1])
        base = C.a[0]
    else:
        ents, base = [], C
    for i, (k2, v2) in enumerate(ents):
        if k2 is k:
            if all(_kdist(k, k3) for k3, _ in ents[i + 1:]):
                del ents[i]
                break
    i = len(ents)
    while i > 0 and _kdist(k, ents[i - 1][0]) and ents[i - 1][0].h > k.h:
        i -= 1
    ents.insert(i, (k, v))
    return mk("sto", base, tuple(ents))


def _kdist(a, b):
    if a.op == "str" and b.op == "str":
        return a is not b
    if a.op == "rec" and b.op == "rec" and len(a.a[0]) == len(b.a[0]):
        return any(m == n and _kdist(x, y) for (m, x), (n, y) in zip(a.a[0], b.a[0]))
    d = _cdiff(a, b) if a.op not in ("str", "rec", "app") or b.op not in ("str", "rec", "app") else None
    return d is not None and d != 0


def sel(C, k, mat=False):
    if C.op == "sto":
        for k2, v in reversed(C.a[1]):
            if k2 is k:
                return v
            if not _kdist(k, k2):
                return mk("sel", C, k, mat=mat)
        return sel(C.a[0], k, mat)
    if C.op == "ite":
        return ite(C.a[0], sel(C.a[1], k, mat), sel(C.a[2], k, mat))
    if C.op == "push":
        d = _cdiff(k, size(C.a[0]))
        if d == 0:
            return C.a[1]
        if d is not None and d < 0:
            return sel(C.a[0], k, mat)
    if C.op == "seq":
        if k.op == "num" and k.a[0].denominator == 1 and 0 <= k.a[0] < len(C.a):
            return C.a[int(k.a[0])]
    if k.op == "app" and k.a[0] == "findpos" and k.a[1] is C:
        return k.a[2]
    if C.op == "fold":
        v = pushed(C)
        if v is not None:
            L = TM.foldlevel(C)
            own = [x for x in TM.boundvars(v) if x.a[0] == L]
            if all(x.a[1] == "i" for x in own):
                return subst(v, {x: k for x in own})
    return mk("sel", C, k, mat=mat)


def size(C):
    if C.op == "push":
        return add(size(C.a[0]), ONE)
    if C.op == "seq":
        return num(len(C.a))
    if C.op == "ite":
        a, b = size(C.a[1]), size(C.a[2])
        return ite(C.a[0], a, b)
    if C.op == "app" and C.a[0] == "resize":
        return C.a[2]
    if C.op == "app" and C.a[0] == "filled":
        return C.a[1]
    if C.op == "fold" and pushed(C) is not None:
        n = C.a[0].a[1]
        return n if n.op == "size" else mk("app", "end", ZERO, n, ONE)
    if C.op == "sto":
        b = C.a[0]
        if b.op in ("push", "seq") or (b.op == "app" and b.a[0] in ("filled", "resize")):
            return size(b)
    return mk("size", C)


EMPTY = mk("seq")


def pushed(F):
    """what iteration i appends in a loop over 0..n-1 that builds a sequence from nothing, one element at a time; None for other loops"""
    if F.op != "fold" or F.a[3] or F.a[1] is not FALSE or F.a[0].op != "range" or F.a[0].a[0] is not ZERO or F.a[0].a[2] is not ONE:
        return None
    i, n = F.a[2][0]
    if i is not EMPTY or n.op != "push" or n.a[0].op != "bv" or n.a[0].a[1] not in ("x0", "X0") or n.a[0].a[0] != TM.foldlevel(F):
        return None
    return None if contains(n.a[1], {n.a[0]}) or any(contains(p[1], {n.a[0]}) for p in F.a[2][1:]) else n.a[1]


# ------------------------------------------------------------------ state of a field over all objects, as a chain of effects
def rootpath(t):
    path = []
    while True:
        if t.op in ("fld", "fldv"):
            path.append(t.a[1])
            t = t.a[0]
        elif t.op == "getf":
            path.append(t.a[1])
            t = t.a[0]
        elif t.op == "sel":
            path.append(t.a[1])
            t = t.a[0]
        elif t.op == "app" and t.a[0] == "obj":
            t = t.a[1]
        else:
            path.reverse()
            return t, path


def distinct_obj(a, b):
    ra, pa = rootpath(a)
    rb, pb = rootpath(b)
    if ra is not rb:
        fa, fb = _freshroot(ra), _freshroot(rb)
        return fa and fb or fa and not _occurs(ra, b) or fb and not _occurs(rb, a)
    for x, y in zip(pa, pb):
        if x is y or x == y:
            continue
        if isinstance(x, str) and isinstance(y, str):
            return True
        if isinstance(x, T) and isinstance(y, T):
            return _kdist(x, y)
        return False
    return False


def _freshroot(t):
    return t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith("newp:")


def _occurs(x, t):
    return bool(contains(t, {x}))


NOREC = mk("sym", "norec")


def aft(prev, e, recv=None):
    """the state of a field after effect e, which touches only objects hanging off recv when given"""
    r = recv if recv is not None else NOREC
    if recv is not None and prev.op == "aft" and prev.a[2] is not NOREC and distinct_obj(recv, prev.a[2]) and prev.a[2].h > recv.h:
        return mk("aft", aft(prev.a[0], e, recv), prev.a[1], prev.a[2])
    return mk("aft", prev, e, r)


def proj(chain, base):
    """the part of the chain that can matter for objects hanging off base"""
    if chain.op == "aft":
        p = proj(chain.a[0], base)
        if chain.a[2] is not NOREC and distinct_obj(chain.a[2], base):
            return p
        return chain if p is chain.a[0] else aft(p, chain.a[1], None if chain.a[2] is NOREC else chain.a[2])
    if chain.op == "ite":
        return ite(chain.a[0], proj(chain.a[1], base), proj(chain.a[2], base))
    return chain


INITC = mk("sym", "$init")


def fldv(b, n, chain, mat=False):
    c = proj(chain, b)
    if c is INITC:
        return mk("fld", b, n, mat=mat)
    return mk("fldv", b, n, c, mat=mat)


def s11(M):
    """1x1 matrix as a scalar"""
    if M is ZERO or M.op == "num":
        return M
    if M.op == "ite":
        return ite(M.a[0], s11(M.a[1]), s11(M.a[2]))
    if M.op == "poly" and M.mat:
        R = ZERO
        for cf, s, m in M.a:
            if not m:
                R = add(R, from_poly({(s, ()): cf}))
                continue
            p = from_poly({((), m): Fr(1)})
            q = tr(p)
            if q.op == "poly" and len(q.a) == 1 and q.h < p.h:
                c2, s2, m2 = q.a[0]
                R = add(R, mul(from_poly({(s, ()): cf * c2}), mk("s11", from_poly({((), m2): Fr(1)}))))
            else:
                R = add(R, mul(from_poly({(s, ()): cf}), mk("s11", p)))
        return R
    if M.mat:
        return mk("s11", M)
    return M


def rows_of(M, t=None, which="rows"):
    d = dims(t) if t else None
    i = 0 if which == "rows" else 1
    if d and d[i] >= 0:
        return num(d[i])
    if M.op == "bst":
        return rows_of(M.a[0], None, which)
    if M.op == "app":
        if M.a[0] in ("Zero", "Ones", "Random", "mat"):
            return M.a[1 + i]
        if M.a[0] == "cresize":
            return M.a[2 + i]
    if M.op == "blk":
        return M.a[3 + i]
    if M.op == "ite":
        return ite(M.a[0], rows_of(M.a[1], None, which), rows_of(M.a[2], None, which))
    if M.op == "poly" and M.mat and M.a[0][2]:
        m = M.a[0][2]
        return rows_of(m[0] if i == 0 else m[-1], None, which)
    if M.op == "tr":
        return rows_of(M.a[0], None, "cols" if i == 0 else "rows")
    if M.op == "app" and M.a[0] in ("selfadj", "triu", "inverse"):
        return rows_of(M.a[1], None, "rows")
    if M.op == "app" and M.a[0] == "setri":
        return rows_of(M.a[2], None, which)
    if M.op == "app" and M.a[0] == "diagonal" and i == 0:
        return rows_of(M.a[2], None, which)
    if M.op in ("fld", "fldv") and M.a[1] in SQUARE:
        which = "rows"
    if M.op == "fold" and not M.a[3]:
        r = rows_of(M.a[2][0][1], None, which)
        if r.op == "app" and r.a[0] == which and r.a[1].op == "bv" and r.a[1] is TM.bvx(foldlevel(M), 0, True):
            return rows_of(M.a[2][0][0], None, which)
    return mk("app", which, M)


SQUARE = {"State._Cov"}         # matrices with as many columns as rows; that every write keeps them so is part of C02


# ------------------------------------------------------------------ bound symbols
def contains(t, syms, memo=None):
    """subset of syms (set of terms) occurring in t"""
    found = set()
    if all(x.op == "sym" and x.a[0].startswith("$cv") for x in syms):
        return {x for x in TM.leaves(t) if x in syms}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x in syms:
            found.add(x)
            continue
        if x.op in ("num", "str", "bool", "I", "bv", "sym"):
            continue
        st.extend(children(x))
    return found


# ------------------------------------------------------------------ the interpreter
MATH_ATOMS = {"skew_x", "exp_so3", "log_so3", "Jl_so3", "Jr_so3", "quat_2_Rot", "rot_2_quat", "quat_multiply", "quatnorm", "Inv", "Omega",
              "exp_se3", "log_se3", "hat_se3", "Inv_se3", "vee", "rot2rpy", "rot_x", "rot_y", "rot_z"}
NOEFFECT_STMT = re.compile(r"^(boost::posix_time|boost::date_time)")


class Interp:
    def __init__(self, P, E, known=None, inline_extra=(), noinline=(), budget=400000, maxdepth=7):
        self.P, self.E = P, E
        self.known = known            # names that are *not* inlined unless trivially small (None: current program)
        self.inline_extra = set(inline_extra)
        self.noinline = set(noinline)
        self.n = 0
        self.budget = budget
        self.stack = []
        self.maxdepth = maxdepth
        self.notes = set()
        self.newc = {}
        self.alloc = {}           # allocation site -> its name while the function is being evaluated
        self.allocarg = {}        # name -> (type, had arguments)
        self.fresh = 0
        self.this = None
        self.inlined = set()
        self.lastline = {}
        self.curline = 0
        self.path = []            # conditions under which the statement being evaluated is reached

    # -------------------------------------------------------------- helpers
    def opaque(self, why):
        self.notes.add(why)
        return mk("opaque", why)

    def freshsym(self, mat=False):
        self.fresh += 1
        return mk("sym", f"$cv{self.fresh}" + ("M" if mat else ""), mat=mat)

    # -------------------------------------------------------------- reading / writing locations
    def read(self, S, lv, t=None):
        if isinstance(lv, T):
            return lv
        if isinstance(lv, LTmp):
            return lv.t
        if isinstance(lv, LVar):
            v = S.env.get(lv.id)
            if v is None:
                return mk("sym", f"$u{lv.id}", mat=ismat(t))
            if isinstance(v, Ref):
                return self.read(S, v.lv, t)
            return self.asT(S, v)
        if isinstance(lv, LFld):
            v = S.heap.get((lv.base, lv.name))
            if v is None:
                if lv.base.op == "ite":
                    a = self.read(S, LFld(lv.base.a[1], lv.name), t)
                    b = self.read(S, LFld(lv.base.a[2], lv.name), t)
                    return ite(lv.base.a[0], a, b)
                b = S.bulk.get(lv.name)
                if b is not None:
                    return fldv(lv.base, lv.name, b, ismat(t))
                return mk("fld", lv.base, lv.name, mat=ismat(t))
            return self.asT(S, v)
        if isinstance(lv, LGlob):
            v = S.heap.get((None, lv.name))
            return v if v is not None else mk("sym", "::" + lv.name, mat=ismat(t))
        if isinstance(lv, LObj):
            v = mk("app", "obj", lv.p)
            w = [(k[1], x) for k, x in S.heap.items() if k[0] is lv.p]
            for f, x in w:
                v = setf(v, f, self.asT(S, x))
            if ismat(t):
                setmat(v)
            return v
        if isinstance(lv, LGet):
            return getf(self.read(S, lv.lv), lv.name, ismat(t))
        if isinstance(lv, LSel):
            return sel(self.read(S, lv.lv), lv.idx, ismat(t))
        if isinstance(lv, LTr):
            return tr(self.read(S, lv.lv))
        if isinstance(lv, LIte):
            a, b = self.read(S, lv.a, t), self.read(S, lv.b, t)
            if is_bool(a) or is_bool(b):
                a, b = as_bool(a), as_bool(b)
            return ite(lv.c, a, b)
        if isinstance(lv, LBlk):
            M = self.read(S, lv.lv)
            if lv.el and not M.mat and M.op not in ("ite", "bst", "app", "num", "poly", "sym", "fld", "getf", "sel", "fldv", "grp", "blk"):
                pass
            return blk(M, lv.r, lv.c, lv.h, lv.w, lv.dims)
        raise Unsupported("read " + type(lv).__name__)

    def write(self, S, lv, v):
        if isinstance(lv, T):
            return            # a store into a temporary
        if isinstance(lv, LVar):
            o = S.env.get(lv.id)
            if isinstance(o, Ref):
                return self.write(S, o.lv, v)
            S.env[lv.id] = v
            return
        if isinstance(lv, LFld):
            S.heap[(lv.base, lv.name)] = self.asT(S, v) if not isinstance(v, Lam) else self.lamterm(S, v)
            self.settle(S, S.heap[(lv.base, lv.name)], lv)
            self.lastline[(lv.base, lv.name)] = self.curline
            return
        if isinstance(lv, LGlob):
            S.heap[(None, lv.name)] = self.asT(S, v)
            return
        v = self.asT(S, v)
        if isinstance(lv, LObj):
            for k in [k for k in S.heap if k[0] is lv.p]:
                del S.heap[k]
            S.heap[(lv.p, "*")] = v
            return
        if isinstance(lv, LGet):
            return self.write(S, lv.lv, setf(self.read(S, lv.lv), lv.name, v))
        if isinstance(lv, LSel):
            return self.write(S, lv.lv, sto(self.read(S, lv.lv), lv.idx, v))
        if isinstance(lv, LTr):
            return self.write(S, lv.lv, tr(v))
        if isinstance(lv, LIte):
            self.write(S, lv.a, ite(lv.c, v, self.read(S, lv.a)))
            self.write(S, lv.b, ite(lv.c, self.read(S, lv.b), v))
            return
        if isinstance(lv, LBlk):
            if lv.dims and lv.h.op == "num" and lv.w.op == "num" and lv.dims == (lv.h.a[0], lv.w.a[0]):
                return self.write(S, lv.lv, v)
            M = self.read(S, lv.lv)
            return self.write(S, lv.lv, self.cover(bst(M, lv.r, lv.c, lv.h, lv.w, v), lv.dims))
        if isinstance(lv, LTmp):
            return
        raise Unsupported("write " + type(lv).__name__)

    # -------------------------------------------------- identity of allocated objects
    def newptr(self, e, ty, vals):
        """pointer to an object allocated here: named by the site for now, by the field that owns it once it is stored in one"""
        k = (id(e), tuple(self.stack))
        m = self.alloc.get(k)
        if m is None:
            m = self.alloc[k] = mk("sym", "$nw%d" % len(self.alloc))
            self.allocarg[m] = (ty, bool(vals))
        return mk("app", "newp:" + ty, *vals, m)

    def settle(self, S, v, lv):
        if _freshroot(v) and isinstance(v.a[-1], T) and v.a[-1] in self.allocarg:
            self.rename(S, {v.a[-1]: mk("sym", "@" + lv.name)})

    def rename(self, S, m):
        memo = {}
        keys = frozenset(m)

        def t(x):
            return subst(x, m, memo)

        def obj(x):
            if isinstance(x, T):
                return t(x)
            if isinstance(x, (list, tuple)):
                return type(x)(obj(y) for y in x)
            if isinstance(x, Lam):
                return Lam(x.node, {k: obj(y) for k, y in x.env.items()}, obj(x.this))
            if isinstance(x, (LV, Iter, Ref, Ptr)):
                y = object.__new__(type(x))
                for c in type(x).__mro__:
                    for a in getattr(c, "__slots__", ()):
                        if hasattr(x, a):
                            setattr(y, a, obj(getattr(x, a)))
                return y
            return x

        S.env = {k: obj(x) for k, x in S.env.items()}
        S.heap = {(t(b) if b is not None else None, n): obj(x) for (b, n), x in S.heap.items()}
        S.bulk = {n: obj(x) for n, x in S.bulk.items()}
        self.lastline = {(t(b) if isinstance(b, T) else b, n): x for (b, n), x in self.lastline.items()}

    def settle_rest(self, S, extra):
        """objects that no field owns: numbered by creation (eq.align pairs them by contents)"""
        left = set()
        for x in list(S.env.values()) + list(S.heap.values()) + list(S.bulk.values()) + [b for b, _ in S.heap if b is not None] + list(extra):
            if isinstance(x, T):
                left |= {y for y in leaves(x) if y in self.allocarg}
        if not left:
            return {}
        left = sorted(left, key=lambda x: int(x.a[0][3:]))
        m, cnt = {}, {}
        for x in left:
            ty, args = self.allocarg[x]
            if args and ty.startswith(("ov_", "std::", "Eig")):
                m[x] = ZERO
            else:
                n = cnt.get(ty, 0)
                cnt[ty] = n + 1
                m[x] = num(n)
        return m

    def cover(self, M, md):
        """a fixed-size matrix whose every element has been stored does not depend on its base"""
        if M.op != "bst" or not md or md[0] < 0 or md[1] < 0 or M.a[0].op == "num":
            return M
        area = 0
        ents = M.a[1]
        for k, _ in ents:
            if any(x.op != "num" for x in k):
                return M
            area += k[2].a[0] * k[3].a[0]
        if area < md[0] * md[1]:
            return M
        for i in range(len(ents)):
            for j in range(i):
                if not disjoint(ents[i][0], ents[j][0]):
                    return M
        if area == md[0] * md[1]:
            R = ZERO
            for k, v in ents:
                R = bst(R, *k, v)
            if R is ZERO:
                return R
            # identity pattern
            return R
        return M

    def asT(self, S, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            return self.read(S, v.lv)
        if isinstance(v, Iter):
            return mk("app", "it", v.pos)
        if isinstance(v, Ptr):
            return mk("app", "addr", self.read(S, v.lv))
        if isinstance(v, Lam):
            return self.lamterm(S, v)
        if isinstance(v, LV):
            return self.read(S, v)
        if v is None:
            return mk("sym", "void")
        raise Unsupported("asT " + type(v).__name__)

    def lamterm(self, S, v):
        """normal form of a lambda: its body as a function of bound parameters"""
        S2 = S.copy()
        syms = []
        for p in v.node["ps"]:
            s = self.freshsym(ismat(p["t"]))
            syms.append(s)
            S2.env[p["id"]] = s
        S2.env.update({k: x for k, x in v.env.items() if k not in S2.env})
        o = self.run_body(S2, v.node["body"], v.this)
        r = o[1]
        eff = self.diff_state(S, o[0]) if o[0] is not None else ()
        body = mk("lam", self.asT(S, r) if r is not None else mk("sym", "void"), tuple(eff))
        lev = bvlevel(body) + 1
        return subst(body, {s: mk("bv", lev, f"a{i}", mat=s.mat) for i, s in enumerate(syms)})

    def diff_state(self, A, B):
        out = []
        for k, v in B.heap.items():
            if A.heap.get(k) is not v and k[0] is not None:
                out.append((mk("loc", k[0], k[1]), self.asT(B, v)))
        for k, v in B.env.items():
            if k in A.env and A.env.get(k) is not v and not isinstance(v, (Lam, Ref)):
                out.append((mk("sym", "$env"), self.asT(B, v)))
        for k, v in B.bulk.items():
            if A.bulk.get(k) is not v:
                out.append((mk("bulk", k), v))
        out.sort(key=lambda x: (x[0].h, x[1].h))
        return out

    # -------------------------------------------------------------- merging
    def merge(self, c, A, B):
        if A is None:
            return B
        if B is None:
            return A
        if c is TRUE:
            return A
        if c is FALSE:
            return B
        R = State()
        R.meta = A.meta
        for k in A.env.keys() | B.env.keys():
            a, b = A.env.get(k), B.env.get(k)
            if a is b:
                R.env[k] = a
            elif a is None or b is None:
                R.env[k] = a if a is not None else b
            else:
                R.env[k] = self.mergeval(c, A, a, B, b)
        for k in A.heap.keys() | B.heap.keys():
            a, b = A.heap.get(k), B.heap.get(k)
            if a is b:
                R.heap[k] = a
                continue
            if a is None:
                a = self.initval(A, k, b)
            if b is None:
                b = self.initval(B, k, a)
            R.heap[k] = ite(c, a, b)
        for k in A.bulk.keys() | B.bulk.keys():
            a = A.bulk.get(k) or mk("sym", "$init")
            b = B.bulk.get(k) or mk("sym", "$init")
            R.bulk[k] = ite(c, a, b)
        return R

    def initval(self, S, k, like):
        if k[0] is None:
            return mk("sym", "::" + k[1], mat=like.mat)
        if k[1] == "*":
            return mk("app", "obj", k[0])
        b = S.bulk.get(k[1])
        if b is not None:
            return fldv(k[0], k[1], b, like.mat)
        return mk("fld", k[0], k[1], mat=like.mat)

    def mergeval(self, c, A, a, B, b):
        if isinstance(a, Iter) and isinstance(b, Iter) and same_lv(a.lv, b.lv):
            return Iter(a.lv, ite(c, a.pos, b.pos), a.rev)
        if isinstance(a, Ref) and isinstance(b, Ref) and same_lv(a.lv, b.lv):
            return a
        if isinstance(a, Lam) and isinstance(b, Lam):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and same_lv(a.lv, b.lv):
            return a
        return ite(c, self.asT(A, a), self.asT(B, b))

    def merge_exit(self, cond1, e1, cond2, e2):
        """combine two exits: the first is taken under its own condition, else the second"""
        if e1 is None:
            return e2
        if e2 is None:
            return e1
        raise NotImplementedError

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, S):
        o = Out(S)
        for i, s in enumerate(stmts):
            if o.n is None:
                break
            p = self.exec(s, o.n)
            self.seq(o, p)
        return o

    def seq(self, o, p):
        """o := o ; p  where p was executed from o.n"""
        # conditions under which o already left
        left = FALSE
        for e in (o.ret, o.brk, o.cont):
            if e:
                left = bor(left, e[0])
        here = bnot(left)       # where the program was terminated the state does not matter: that condition stays out of the exits
        left = bor(left, o.halt)
        stay = bnot(left)

        def comb(a, b, withval=False):
            if b is None:
                return a
            bc = band(here, b[0])
            if a is None:
                return (bc,) + tuple(b[1:])
            st = self.merge(a[0], a[1], b[1])
            if withval:
                return (bor(a[0], bc), st, self.mergeret(a[0], a[2], b[2]))
            return (bor(a[0], bc), st)
        o.ret = comb(o.ret, p.ret, True)
        o.brk = comb(o.brk, p.brk)
        o.cont = comb(o.cont, p.cont)
        if p.halt is not FALSE:
            o.halt = bor(o.halt, band(stay, p.halt))
        o.n = p.n

    def mergeret(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, LV) and isinstance(b, LV) and same_lv(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Iter) and isinstance(b, Iter) and same_lv(a.lv, b.lv):
            return Iter(a.lv, ite(c, a.pos, b.pos))
        return ite(c, self.asT(State(), a), self.asT(State(), b))

    def exec(self, s, S):
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        k = s["k"]
        if "l" in s and not self.stack:
            self.curline = s["l"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.opaque("stmt " + k)
            return Out(S)
        return m(s, S)

    def s_block(self, s, S):
        return self.exec_block(s["b"], S)

    def s_expr(self, s, S):
        o = Out(S)
        h = self.evstmt(s["e"], S)
        if h is not None and h is not FALSE:
            o.halt = h
            if h is TRUE:
                o.n = None
        return o

    def evstmt(self, e, S):
        """evaluate for effects; returns the halt condition"""
        x = strip(e)
        if x["k"] == "call" and (x.get("noret") or x["fn"] in ("exit", "std::exit", "abort", "std::abort", "std::terminate")):
            return TRUE if x["fn"] != "__assert_fail" else FALSE
        if x["k"] == "throw":
            return TRUE
        if x["k"] == "cond":
            # assert(...) and friends
            def isassert(y):
                y = strip(y)
                return y["k"] == "call" and y["fn"] == "__assert_fail"
            if isassert(x["b"]) or isassert(x["a"]):
                return None
            c = as_bool(self.ev(x["c"], S))
            S1, S2 = S.copy(), S.copy()
            h1, h2 = self.evstmt(x["a"], S1), self.evstmt(x["b"], S2)
            self.assign_state(S, self.merge(c, S1, S2))
            h = bor(band(c, h1 or FALSE), band(bnot(c), h2 or FALSE))
            return h
        self.lval(e, S)
        h = getattr(S, "meta", {}).pop("$halt", None) if isinstance(S.meta, dict) else None
        return h

    def assign_state(self, S, R):
        S.env, S.heap, S.bulk = R.env, R.heap, R.bulk

    def s_decl(self, s, S):
        o = Out(S)
        for v in s["v"]:
            self.declare(v, S)
        h = S.meta.pop("$halt", None)
        if h is not None:
            o.halt = h
        return o

    def declare(self, v, S):
        t = v["t"]
        if "static" in v:
            S.env[v["id"]] = mk("sym", "static:" + v["n"], mat=ismat(t))
            return
        if "i" not in v or v["i"] is None:
            S.env[v["id"]] = mk("app", "uninit", mat=ismat(t))
            return
        if t.startswith(("R<", "RR<")):
            lv = self.lval(v["i"], S)
            if isinstance(lv, LV):
                S.env[v["id"]] = Ref(lv) if not isinstance(lv, LTmp) else lv.t
            else:
                S.env[v["id"]] = lv
            return
        if "binds" in v:
            val = self.ev(v["i"], S)
            S.env[v["id"]] = val
            for i, b in enumerate(v["binds"]):
                S.env[b["id"]] = getf(val, ("first", "second")[i] if i < 2 else f"b{i}")
            return
        if v["i"].get("c") == "Eigen::Map":
            lv = self.pyval(v["i"], S)
            S.env[v["id"]] = Ref(lv) if isinstance(lv, LV) and not isinstance(lv, LTmp) else self.asT(S, lv)
            return
        S.env[v["id"]] = self.val(v["i"], S)
        x = S.env[v["id"]]
        if isinstance(x, T) and ismat(t):
            setmat(x)

    def s_if(self, s, S):
        if s.get("init"):
            self.exec(s["init"], S)
        if s.get("cv"):
            self.declare(s["cv"], S)
        c = as_bool(self.ev(s["c"], S))
        h = S.meta.pop("$halt", None)
        if c is TRUE:
            o = self.exec(s["a"], S) if s.get("a") else Out(S)
        elif c is FALSE:
            o = self.exec(s["b"], S) if s.get("b") else Out(S)
        else:
            SA, SB = S.copy(), S.copy()
            self.path.append(c)
            oa = self.exec(s["a"], SA) if s.get("a") else Out(SA)
            self.path[-1] = bnot(c)
            ob = self.exec(s["b"], SB) if s.get("b") else Out(SB)
            self.path.pop()
            o = self.join(c, oa, ob)
        if h is not None and h is not FALSE:
            o.halt = bor(h, o.halt)
        return o

    def join(self, c, oa, ob):
        o = Out(None)
        if oa.n is not None and ob.n is not None:
            o.n = self.merge(c, oa.n, ob.n)
        else:
            o.n = oa.n or ob.n
        nc = bnot(c)

        def comb(a, b, val=False):
            if a is None and b is None:
                return None
            if a is None:
                return (band(nc, b[0]),) + tuple(b[1:])
            if b is None:
                return (band(c, a[0]),) + tuple(a[1:])
            r = (ite(c, a[0], b[0]), self.merge(c, a[1], b[1]))
            return r + (self.mergeret(c, a[2], b[2]),) if val else r
        o.ret = comb(oa.ret, ob.ret, True)
        o.brk = comb(oa.brk, ob.brk)
        o.cont = comb(oa.cont, ob.cont)
        o.halt = bor(band(c, oa.halt), band(nc, ob.halt))
        return o

    def s_ret(self, s, S):
        o = Out(None)
        v = None
        if s.get("e") is not None:
            v = self.lval(s["e"], S) if self.retref else self.val(s["e"], S)
        h = S.meta.pop("$halt", None)
        if h is not None:
            o.halt = h
        o.ret = (TRUE, S, v)
        return o

    def s_break(self, s, S):
        o = Out(None)
        o.brk = (TRUE, S)
        return o

    def s_continue(self, s, S):
        o = Out(None)
        o.cont = (TRUE, S)
        return o

    def s_try(self, s, S):
        o = self.exec(s["b"], S.copy())
        for i, h in enumerate(s["h"]):
            c = as_bool(mk("app", "exc", self.exccount()))
            oh = self.exec(h, S.copy())
            o = self.join(c, oh, o)
        return o

    def exccount(self):
        self.newc["exc"] = self.newc.get("exc", 0) + 1
        return str(self.newc["exc"])

    def s_switch(self, s, S):
        v = self.ev(s["c"], S)
        # split into cases
        items = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        groups = []
        for it in items:
            conds = []
            while it and it["k"] in ("case", "default"):
                conds.append(it["c"] if it["k"] == "case" else None)
                it = it["b"]
            if conds or not groups:
                groups.append([conds, []])
            if it:
                groups[-1][1].append(it)
        taken = FALSE
        res = Out(S)
        allc = []
        for conds, _ in groups:
            for c in conds:
                if c is not None:
                    allc.append(eq(v, self.ev(c, S)))
        none = bnot(bor(*allc)) if allc else TRUE
        # fallthrough-free evaluation from the last group backwards
        outs = None
        n = len(groups)

        def run(i, St):
            body = []
            for j in range(i, n):
                body += groups[j][1]
            o = self.exec_block(body, St)
            # breaks end the switch
            if o.brk:
                bc, bs = o.brk
                o.n = self.merge(bc, bs, o.n)
                o.brk = None
            return o
        acc = Out(S.copy())
        for i in range(n - 1, -1, -1):
            conds = groups[i][0]
            c = FALSE
            for x in conds:
                c = bor(c, none if x is None else eq(v, self.ev(x, S)))
            acc = self.join(c, run(i, S.copy()), acc)
        return acc

    def s_for(self, s, S):
        pre = FALSE
        if s.get("init"):
            self.exec(s["init"], S)
        return self.loop(S, s.get("c"), s["b"], s.get("inc"))

    def s_while(self, s, S):
        return self.loop(S, s.get("c"), s["b"], None, cv=s.get("cv"))

    def s_do(self, s, S):
        # do B while (c)  ==  B; while (c) B   when B has no break/continue
        o = self.exec(s["b"], S)
        if o.brk or o.cont or o.n is None:
            self.opaque("do-while with jumps")
            return o
        p = self.loop(o.n, s.get("c"), s["b"], None)
        self.seq(o, p)
        return o

    def s_rfor(self, s, S):
        lv = self.lval(s["range"], S)
        if not isinstance(lv, LV):
            lv = LTmp(self.asT(S, lv))
        return self.loop(S, None, s["b"], None, rng=(lv, s["v"], s.get("rt", "?")))

    def s_unks(self, s, S):
        self.opaque("stmt " + s.get("cls", "?"))
        return Out(S)

    # -------------------------------------------------------------- loops
    def loop(self, S, cond, body, inc, rng=None, cv=None):
        S = S.copy()
        base = S
        carried = {}       # key -> phi symbol ; key = ('e', id) | ('h', base, name) | ('b', name)
        ix = self.freshsym()
        self.depth_guard()
        for attempt in range(6):
            A = base.copy()
            phis = {}
            for key in carried:
                sy = carried[key]
                if key[0] == "e":
                    old = base.env.get(key[1])
                    if isinstance(old, Iter):
                        A.env[key[1]] = Iter(old.lv, sy, old.rev)
                    elif isinstance(old, Ref):
                        A.env[key[1]] = sy
                    else:
                        A.env[key[1]] = sy
                elif key[0] == "h":
                    A.heap[(key[1], key[2])] = sy
                else:
                    A.bulk[key[1]] = sy
            before = A.copy()
            c = TRUE
            if rng:
                lv, v, rt = rng
                self.bind_elem(A, lv, v, ix, rt)
            else:
                if cv:
                    self.declare(cv, A)
                c = as_bool(self.ev(cond, A)) if cond else TRUE
            chalt = A.meta.pop("$halt", None)
            self.path.append(c)
            o = self.exec(body, A)
            self.path.pop()
            N = o.n
            if o.cont:
                cc, cs = o.cont
                N = self.merge(cc, cs, N)
            if N is not None and inc:
                N = N.copy()
                self.lval(inc, N)
            # changed locations
            changed = {}
            for X in [N, o.brk[1] if o.brk else None, o.ret[1] if o.ret else None]:
                if X is None:
                    continue
                for k, v in X.env.items():
                    if k in base.env:
                        b4 = before.env.get(k)
                        if v is not b4 and not self.sameval(b4, v):
                            changed[("e", k)] = v
                for k, v in X.heap.items():
                    if before.heap.get(k) is not v:
                        changed[("h", k[0], k[1])] = v
                for k, v in X.bulk.items():
                    if before.bulk.get(k) is not v:
                        changed[("b", k)] = v
            new = False
            bound = set(carried.values()) | {ix}
            for key, v in changed.items():
                if key in carried:
                    continue
                if key[0] == "h" and key[1] is not None and contains(key[1], bound):
                    continue          # a write to an element-dependent object
                if key[0] == "e":
                    init = base.env.get(key[1])
                    mat = isinstance(init, T) and init.mat or isinstance(v, T) and v.mat
                elif key[0] == "h":
                    mat = v.mat if isinstance(v, T) else False
                else:
                    mat = False
                carried[key] = self.freshsym(mat)
                new = True
            if not new:
                break
        else:
            self.opaque("loop fixpoint")
        if not rng:
            # a conjunct of the guard that no iteration changes decides whether the loop runs at all
            var = set(carried.values()) | {ix}
            inv = [x for x in self.guard_split(c) if x is not TRUE and not contains(x, var)]
            if inv and len(inv) < len(self.guard_split(c)):
                c = band(*[x for x in self.guard_split(c) if x not in inv])
                inv = band(*inv)
                R = self.close_loop(base, before, carried, ix, c, o, N, rng, changed, chalt)
                R.n = self.merge(inv, R.n, base)
                if R.ret:
                    R.ret = (band(inv, R.ret[0]),) + tuple(R.ret[1:])
                R.halt = band(inv, R.halt)
                return R
        return self.close_loop(base, before, carried, ix, c, o, N, rng, changed, chalt)

    def depth_guard(self):
        pass

    def sameval(self, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a.pos is b.pos and same_lv(a.lv, b.lv)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return same_lv(a.lv, b.lv)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return same_lv(a.lv, b.lv)
        if isinstance(a, Lam) and isinstance(b, Lam):
            return True
        return a is b

    def bind_elem(self, S, lv, v, ix, rt):
        t = v["t"]
        b = bare(rt)
        if b.startswith(("std::map", "std::unordered_map", "std::set", "std::multimap", "std::unordered_set")):
            C = self.read(S, lv)
            key = mk("app", "mkey", C, ix)
            if "set" in b.split("<")[0]:
                S.env[v["id"]] = key
                return
            el = LSel(lv, key)
            ent = PairLV(key, el)
            if "binds" in v:
                S.env[v["binds"][0]["id"]] = key
                S.env[v["binds"][1]["id"]] = Ref(el)
                return
            S.env[v["id"]] = Ref(ent) if t.startswith(("R<", "RR<")) else mk("rec", (("first", key), ("second", self.read(S, el))))
            return
        if b == "cv::FileNode" or not lv:
            pass
        el = LSel(lv, ix)
        if "binds" in v:
            S.env[v["binds"][0]["id"]] = Ref(LGet(el, "first"))
            S.env[v["binds"][1]["id"]] = Ref(LGet(el, "second"))
            return
        if t.startswith(("R<", "RR<")):
            S.env[v["id"]] = Ref(el)
        else:
            S.env[v["id"]] = self.read(S, el, t)

    def close_loop(self, base, before, carried, ix, c, o, N, rng, changed, chalt):
        pre = self.shapes(base, carried, N)
        c = pre(c)
        brk = pre(o.brk[0]) if o.brk else FALSE
        ret = pre(o.ret[0]) if o.ret else FALSE
        halt = pre(o.halt)
        if chalt is not None:
            halt = bor(halt, pre(chalt))
        until = bor(brk, ret)

        def initof(key):
            if key[0] == "e":
                return self.posof(base, base.env.get(key[1]))
            if key[0] == "h":
                v = base.heap.get((key[1], key[2]))
                return v if v is not None else self.initval(base, (key[1], key[2]), carried[key])
            return base.bulk.get(key[1]) or mk("sym", "$init")

        def valof(X, key):
            if key[0] == "e":
                return pre(self.posof(X, X.env.get(key[1])))
            if key[0] == "h":
                v = X.heap.get((key[1], key[2]))
                return pre(v) if v is not None else self.initval(X, (key[1], key[2]), carried[key])
            return pre(X.bulk.get(key[1]) or mk("sym", "$init"))

        nxt, plain = {}, {}
        for key, sy in carried.items():
            v = valof(N, key) if N is not None else sy
            plain[key] = v
            if o.ret:
                v = ite(ret, valof(o.ret[1], key), v)
            if o.brk:
                v = ite(brk, valof(o.brk[1], key), v)
            nxt[key] = v
        # element-dependent object writes
        bound = set(carried.values()) | {ix}
        objw = {}
        for key in changed:
            if key in carried:
                continue
            if key[0] == "h":
                v = valof2(self, N, key, carried) if N is not None else None
                if o.brk:
                    bv_ = valof2(self, o.brk[1], key, carried)
                    v = bv_ if v is None else ite(brk, bv_, v)
                if o.ret:
                    rv_ = valof2(self, o.ret[1], key, carried)
                    v = rv_ if v is None else ite(ret, rv_, v)
                objw[key] = v if v is None else pre(v)
        # induction variables
        phis = {sy: key for key, sy in carried.items()}
        ind = {}
        for key, sy in carried.items():
            d = sub(plain[key], sy) if not sy.mat and not is_bool(plain[key]) else None
            if d is not None and d.op == "num" and d.a[0] != 0:
                ind[key] = d.a[0]
        domain = None
        smap = {}
        if rng:
            lv, v, rt = rng
            C = self.read(base, lv)
            if contains(C, set()) or any(same_loc(lv, k) for k in carried):
                pass
            domain = mk("range", ZERO, size(C), ONE)
            if any(same_loc(lv, k) for k in carried):
                domain = mk("range", ZERO, pre(size(self.read(before, lv))), ONE)
            main = None
            start, step = ZERO, Fr(1)
        else:
            main = None
            start, step = None, None
            g = self.guard_split(c)
            for key, k in ind.items():
                sy = carried[key]
                r = self.range_of(g, sy, k, phis, ind, carried)
                if r is not None:
                    main, bound_t, rest = key, r[0], r[1]
                    start, step = initof(key), k
                    domain = mk("range", start, bound_t, num(k))
                    if rest is not TRUE:
                        until = None      # extra loop guard: handled as a general loop
                        domain = None
                        main = None
                        continue
                    break
            if until is None:
                until = bor(brk, ret)
        if domain is not None:
            # every induction variable in closed form of the index
            for key, k in ind.items():
                sy = carried[key]
                if main is not None and key == main:
                    smap[sy] = ix
                else:
                    smap[sy] = add(initof(key), scale(sub(ix, start), Fr(k) / step))
        else:
            domain = mk("while", c)
        if smap:
            memo = {}

            def sb(t):
                return subst(t, smap, memo)
            for key in list(nxt):
                if key in ind and (until is FALSE):
                    continue
                nxt[key] = sb(nxt[key])
            for key in list(objw):
                nk = ("h", sb(key[1]), key[2])
                objw[key] = (nk, sb(objw[key]))
            until = sb(until)
            domain = sb(domain) if domain.op != "range" else domain
            halt = sb(halt)
        else:
            memo = {}

            def sb(t):
                return t
            objw = {k: (k, v) for k, v in objw.items()}

        active = {k: sy for k, sy in carried.items() if sy not in smap}
        aphi = {sy: k for k, sy in active.items()}
        initc = {k: initof(k) for k in carried}

        if domain.op == "range" and domain.a[0] is ZERO and domain.a[2] is ONE:
            self.fuse(domain, ix, nxt, objw, active, aphi, initc)
            if until is FALSE:
                for k, sy in active.items():
                    i, v = initc[k], nxt[k]
                    if i.op == "app" and i.a[0] == "filled" and i.a[1] is domain.a[1] and v.op == "sto" and v.a[0] is sy and len(
                            v.a[1]) == 1 and v.a[1][0][0] is ix and not contains(v.a[1][0][1], {sy}) and not any(
                            contains(nxt[o], {sy}) for o in active if o != k):
                        # one element filled in per iteration, in order: the same as appending it
                        initc[k], nxt[k] = EMPTY, mk("push", sy, v.a[1][0][1])

        def close(xnext, xkey=None, unt=None):
            """fold term for a value"""
            unt = until if unt is None else unt
            pend = [xnext, unt, domain]
            seen = set([xkey] if xkey is not None else [])
            while pend:
                t = pend.pop(0)
                for sy in contains(t, aphi):
                    k = aphi[sy]
                    if k not in seen:
                        seen.add(k)
                        pend.append(nxt[k])
            if xkey is not None:
                seen.discard(xkey)
            hint = lambda k: k[-1].encode() if isinstance(k[-1], str) else b""
            order = sorted(seen, key=lambda k: fold_key(initc[k], nxt[k], hint(k)))
            if xkey is not None:
                order.insert(0, xkey)
            body = [nxt[k] for k in order]
            lev = 1 + max([bvlevel(t) for t in body + [xnext, unt, domain]])
            m = {ix: mk("bv", lev, "i")}
            dom = domain
            if domain.op == "range" and domain.a[2] is ONE and domain.a[0].op == "num" and domain.a[0] is not ZERO:
                m[ix] = add(m[ix], domain.a[0])         # counted from zero
                dom = mk("range", ZERO, sub(domain.a[1], domain.a[0]), ONE)
            for i, k in enumerate(order):
                m[active[k]] = TM.bvx(lev, i, active[k].mat)
            mm = {}
            prs = tuple((initc[k], subst(nxt[k], m, mm)) for k in order)
            xn = () if xkey is not None else (subst(xnext, m, mm),)
            return canon_fold(subst(dom, m, mm), subst(unt, m, mm), prs, xn, lev, mat=(active[xkey].mat if xkey is not None else False), hints=[hint(k) for k in order])

        S = State()
        S.env, S.heap, S.bulk = dict(base.env), dict(base.heap), dict(base.bulk)
        S.meta = base.meta
        for key, sy in carried.items():
            if key in ind and domain.op == "range" and until is FALSE:
                # final value of a counter of a loop that cannot be left early
                if rng or main is not None:
                    cnt = mk("app", "trips", domain)
                    out = self.trip_value(initc[key], ind[key], domain)
            elif sy in smap:
                # counter of a loop with early exit
                nk = ite(until, smap[sy], add(smap[sy], num(ind[key])))
                out = close(mk("cnt", initc[key], nk))
            elif nxt[key] is sy:
                continue
            else:
                u = until
                nx = nxt[key]
                # monotone flags need no early exit
                if is_bool(nx) and u is not FALSE:
                    acc = None
                    if nx.op == "or" and as_bool(sy) in nx.a:
                        acc = [y for y in nx.a if y is not as_bool(sy)]
                        if u in acc and not any(contains(y, set(aphi)) for y in acc) and all(True for y in acc):
                            if len(acc) == 1:
                                u = FALSE
                out = close(nx, key, u)
                out = self.simplify_fold(out)
            self.put(S, base, key, out)
        for key, (nk, v) in objw.items():
            if v is None:
                continue
            f = close(mk("w", nk[1], v))
            prev = S.bulk.get(nk[2]) or mk("sym", "$init")
            S.bulk[nk[2]] = aft(prev, f)
            self.lastline[("bulk", nk[2])] = self.curline
            for hk in list(S.heap):
                if hk[1] == nk[2] and hk[0] is not None:
                    S.heap[hk] = mk("app", "mayaft", S.heap[hk], f, mat=S.heap[hk].mat)
        R = Out(S)
        if o.ret:
            flag = self.fresh_flag(close, ret, until)
            rv = o.ret[2]
            rvt = pre(self.asT(o.ret[1], rv)) if rv is not None else None
            val = None
            if rvt is not None:
                if rvt.op in ("num", "bool", "str") :
                    val = rvt
                else:
                    val = close(mk("first", subst(rvt, smap, memo) if smap else rvt), None, until)
                    if rvt.mat:
                        setmat(val)
            R.ret = (as_bool(flag), S.copy(), val)
        if halt is not FALSE:
            R.halt = as_bool(self.fresh_flag(close, halt, bor(until, halt)))
        return R

    def fuse(self, domain, ix, nxt, objw, active, aphi, initc):
        """a sequence built by an earlier loop over the same range and read here one element per iteration: compute the element here"""
        done = {}
        for key in list(nxt) + list(objw):
            t = nxt[key] if key in nxt else objw[key][1]
            if t is None:
                continue
            for x in TM.subterms(t):
                if x.op == "sel" and x.a[1] is ix and x not in done and x.a[0].op == "fold" and x.a[0].a[0] is domain:
                    F = x.a[0]
                    v = pushed(F)
                    if v is None:
                        continue
                    L = TM.foldlevel(F)
                    m = {mk("bv", L, "i"): ix}
                    sy = {}
                    for j in range(1, len(F.a[2])):
                        for mt in (False, True):
                            b = TM.bvx(L, j, mt)
                            if b is bvmat(F, L, j):
                                sy[j] = m[b] = self.freshsym(mt)
                    for j, s_ in sy.items():
                        k = ("s", F.h.hex(), str(j))
                        i, n = F.a[2][j]
                        nxt[k], initc[k], active[k] = subst(n, m), i, s_
                        aphi[s_] = k
                    done[x] = subst(v, m)
        if done:
            memo = {}
            for key in list(nxt):
                nxt[key] = subst(nxt[key], done, memo)
            for key in list(objw):
                k, t = objw[key]
                objw[key] = (k, None if t is None else subst(t, done, memo))

    def shapes(self, base, carried, N):
        """a matrix (container) that no iteration resizes has the size it had before the loop"""
        m = {}
        if N is not None:
            for key, sy in carried.items():
                if key[0] == "e":
                    a, b = base.env.get(key[1]), N.env.get(key[1])
                elif key[0] == "h":
                    a, b = base.heap.get((key[1], key[2])), N.heap.get((key[1], key[2]))
                    if a is None:
                        a = self.initval(base, (key[1], key[2]), sy)
                else:
                    continue
                if not isinstance(a, T) or not isinstance(b, T):
                    continue
                if sy.mat:
                    for w in ("rows", "cols"):
                        k = mk("app", w, sy)
                        if rows_of(b, None, w) is k:
                            m[k] = rows_of(a, None, w)
                elif b.op == "sto" and b is not sy and size(b) is mk("size", sy):
                    m[mk("size", sy)] = size(a)
        if not m:
            return lambda t: t
        memo = {}
        return lambda t: subst(t, m, memo)

    def fresh_flag(self, close, c, until):
        """exists an iteration (before leaving) where c holds"""
        return close(mk("any", c), None, FALSE if c is until else until)

    def trip_value(self, init, k, domain):
        a, b, st = domain.a
        if st is ONE and k == 1:
            n = sub(b, a)
            n = n if n.op == "size" else mk("app", "end", ZERO, n, ONE)
            return add(init, n)
        if st.a[0] == k and init is a:
            return mk("app", "end", a, b, st)
        return add(init, scale(mk("app", "ntrips", a, b, st), Fr(k)))

    def simplify_fold(self, f):
        return f

    def put(self, S, base, key, out):
        if key[0] == "e":
            old = base.env.get(key[1])
            S.env[key[1]] = Iter(old.lv, out, old.rev) if isinstance(old, Iter) else out
        elif key[0] == "h":
            S.heap[(key[1], key[2])] = out
            self.lastline[(key[1], key[2])] = self.curline
        else:
            S.bulk[key[1]] = out

    def posof(self, S, v):
        if isinstance(v, Iter):
            return v.pos
        if v is None:
            return mk("app", "uninit")
        return self.asT(S, v)

    def guard_split(self, c):
        return list(c.a) if c.op == "and" else [c]

    def range_of(self, conj, sy, k, phis, ind, carried):
        """conjuncts of a loop condition; recognise  sy < b  (or !=, <=, >, >=)"""
        for i, g in enumerate(conj):
            b = self.bound(g, sy, k)
            if b is None:
                continue
            if contains(b, set(phis)):
                # the bound itself may not be carried, except through induction variables
                continue
            rest = band(*[x for j, x in enumerate(conj) if j != i]) if len(conj) > 1 else TRUE
            return b, rest
        return None

    def bound(self, g, sy, k):
        neg_ = False
        if g.op == "not":
            neg_, g = True, g.a[0]
        if g.op == "lt0":
            d = g.a[0]
            p = poly_of(d)
            key = (((sy, Fr(1)),), ())
            co = p.get(key)
            if co is None:
                return None
            rest = from_poly({kk: vv for kk, vv in p.items() if kk != key})
            if contains(rest, {sy}):
                return None
            if not neg_:
                # co*sy + rest < 0
                if co == 1 and k > 0:
                    return neg(rest)
                if co == -1 and k < 0:      # sy > rest
                    return rest
            else:
                # co*sy + rest >= 0  <=> co*sy + rest + 1 > 0 (integers)
                if co == -1 and k > 0:      # sy <= rest  -> sy < rest+1
                    return add(rest, ONE)
                if co == 1 and k < 0:       # sy >= -rest -> sy > -rest-1
                    return sub(neg(rest), ONE)
            return None
        if g.op == "eq0" and neg_:
            p = poly_of(g.a[0])
            key = (((sy, Fr(1)),), ())
            co = p.get(key)
            if co is None or abs(k) != 1:
                return None
            rest = from_poly({kk: vv for kk, vv in p.items() if kk != key})
            if contains(rest, {sy}):
                return None
            return scale(rest, -1 / co)
        return None


def bvmat(F, L, j):
    """carried variable j of a loop, as a matrix or a scalar, whichever occurs"""
    for c in [p[1] for p in F.a[2]]:
        for x in TM.leaves(c):
            if x.op == "bv" and x.a[0] == L and x.a[1] in ("x%d" % j, "X%d" % j):
                return x
    return TM.bvx(L, j, False)


class PairLV(LV):
    """entry of an associative container: constant key, assignable value"""
    __slots__ = ("key", "el")

    def __init__(s, k, e):
        s.key, s.el = k, e


def valof2(self, X, key, carried):
    v = X.heap.get((key[1], key[2]))
    return v if v is not None else self.initval(X, (key[1], key[2]), mk("sym", "void"))


def same_loc(lv, key):
    while isinstance(lv, (LGet, LSel, LBlk)):
        lv = lv.lv
    if isinstance(lv, LVar):
        return key == ("e", lv.id)
    if isinstance(lv, LFld):
        return key[0] == "h" and key[1] is lv.base and key[2] == lv.name
    return False


# ------------------------------------------------------------------ expressions
TRANSPARENT = {"eval", "noalias", "derived", "matrix", "array", "get", "c_str", "string", "finished", "cwiseAbs2_"}
SCALARF = {"sin": "sin", "cos": "cos", "tan": "tan", "acos": "acos", "asin": "asin", "atan": "atan", "atan2": "atan2", "exp": "exp", "log": "log",
           "floor": "floor", "ceil": "ceil", "round": "round", "isnan": "isnan", "isinf": "isinf", "fmod": "fmod", "atof": "atof", "atoi": "atoi",
           "stod": "atof", "stoi": "atoi", "isfinite": "isfinite"}
CONTAINERS = ("std::vector", "std::map", "std::unordered_map", "std::deque", "std::set", "std::array", "std::unordered_set", "std::list", "std::multimap")
MAPS = ("std::map", "std::unordered_map", "std::set", "std::multimap", "std::unordered_set")


def base_name(fn):
    return fn.rsplit("::", 1)[-1] if not fn.endswith(("operator->",)) else "operator->"


def container_of(t):
    b = bare(t)
    for c in CONTAINERS:
        if b.startswith(c + "<") or b == c:
            return c
    return None


def _ev(self, e, S):
    """rvalue term"""
    v = self.lval(e, S)
    t = e.get("t") if isinstance(e, dict) else None
    if isinstance(v, LV):
        v = self.read(S, v, t)
    elif not isinstance(v, T):
        v = self.asT(S, v)
    if not v.mat and v.op not in ("num", "poly", "bool") and ismat(t):
        setmat(v)
    return v


def _val(self, e, S):
    """rvalue that may stay a python-level value (iterator, lambda, pointer to local)"""
    v = self.lval(e, S)
    if isinstance(v, (Iter, Lam, Ptr)):
        return v
    if isinstance(v, LVar):
        x = S.env.get(v.id)
        if isinstance(x, (Iter, Lam, Ptr)):
            return x
    t = e.get("t") if isinstance(e, dict) else None
    if isinstance(v, LV):
        return self.read(S, v, t)
    return self.asT(S, v)


def _pyval(self, e, S):
    """python-level value if there is one, else the lvalue/term"""
    v = self.lval(e, S)
    if isinstance(v, LVar):
        x = S.env.get(v.id)
        hops = 0
        while isinstance(x, Ref) and isinstance(x.lv, LVar) and hops < 5:
            x = S.env.get(x.lv.id)
            hops += 1
        if isinstance(x, (Iter, Lam, Ptr)):
            return x
    return v


def _lval(self, e, S):
    self.n += 1
    if self.n > self.budget:
        raise Budget()
    m = getattr(self, "e_" + e["k"], None)
    if m is None:
        return self.opaque("expr " + e["k"])
    return m(e, S)


def e_int(self, e, S):
    if "v" in e:
        return num(e["v"])
    return num(int(e["s"]))


def e_flt(self, e, S):
    v = e["v"]
    if v in ("inf", "-inf", "nan", "-nan"):
        return mk("sym", v)
    f = float(v)
    return num(Fr(repr(f)))


def e_bool(self, e, S):
    return TRUE if e["v"] else FALSE


def e_char(self, e, S):
    return num(e["v"])


def e_str(self, e, S):
    return mk("str", e["v"])


def e_null(self, e, S):
    return mk("sym", "nullptr")


def e_enum(self, e, S):
    return mk("sym", "enum:" + e["n"]) if False else num(e["v"])


def e_zero(self, e, S):
    if ismat(e.get("t")):
        return ZERO
    if isnum(e.get("t")):
        return ZERO
    return self.default_of(e.get("t"))


def e_this(self, e, S):
    if isinstance(self.this, LV):
        return Ptr(self.this)
    return self.this if self.this is not None else mk("sym", "this")


def e_fnref(self, e, S):
    return mk("app", "fn", e["fn"])


def e_memfn(self, e, S):
    return mk("app", "fn", e["fn"])


def e_typeid(self, e, S):
    return mk("sym", "typeid")


def e_var(self, e, S):
    if "g" in e and e["g"] is not None:
        return LGlob(e["g"])
    v = S.env.get(e["id"])
    if isinstance(v, Ref):
        return v.lv
    return LVar(e["id"])


def e_mem(self, e, S):
    name = short(e["c"]) + "." + e["n"]
    o = e["o"]
    if e["c"].startswith("std::pair") or e["n"] in ("first", "second") and "pair" in e["c"]:
        name = e["n"]
    so = strip(o)
    if e.get("arrow") or (so["k"] == "this"):
        p = self.pyval(o, S)
        if isinstance(p, Iter):
            return self.memof(S, self.deref(S, p), name)
        if isinstance(p, Ptr):
            return self.memof(S, p.lv, name)
        pt = p if isinstance(p, T) else self.asT(S, p)
        return self.memof_ptr(pt, name)
    # o.f
    lv = self.lval(o, S)
    if isinstance(lv, (Iter, Lam)):
        lv = LTmp(self.asT(S, lv))
    if isinstance(lv, Ptr):
        lv = lv.lv
    if isinstance(lv, T):
        lv = LTmp(lv)
    return self.memof(S, lv, name)


def memof_ptr(self, p, name):
    if p.op == "app" and p.a[0] == "addrof":
        pass
    return LFld(p, name)


def memof(self, S, lv, name):
    if isinstance(lv, PairLV):
        return LTmp(lv.key) if name == "first" else lv.el
    if isinstance(lv, LObj):
        return LFld(lv.p, name)
    return LGet(lv, name)


def deref(self, S, it):
    """lvalue an iterator designates"""
    C = self.read(S, it.lv)
    k = getattr(it, "kind", None)
    return self.iter_elem(S, it)


def iter_elem(self, S, it):
    if it.rev:
        C = self.read(S, it.lv)
        return LSel(it.lv, sub(sub(size(C), ONE), it.pos))
    if isinstance(it.lv, _MapLV):
        C = self.read(S, it.lv.lv)
        key = mkey(C, it.pos)
        return PairLV(key, LSel(it.lv.lv, key)) if not it.lv.isset else LTmp(key)
    return LSel(it.lv, it.pos)


class _MapLV(LV):
    """an associative container seen through iterators"""
    __slots__ = ("lv", "isset")

    def __init__(s, l, isset=False):
        s.lv, s.isset = l, isset


_same_lv0 = same_lv


def same_lv(a, b):       # noqa: F811
    if isinstance(a, _MapLV) and isinstance(b, _MapLV):
        return _same_lv0(a.lv, b.lv)
    if isinstance(a, PairLV) and isinstance(b, PairLV):
        return a.key is b.key
    return _same_lv0(a, b)


def mkey(C, pos):
    if pos.op == "app" and pos.a[0] == "mpos":
        return pos.a[2]
    if pos.op == "ite":
        return ite(pos.a[0], mkey(C, pos.a[1]), mkey(C, pos.a[2]))
    return mk("app", "mkey", C, pos)


def e_copy(self, e, S):
    v = self.val(e["e"], S)
    return v


def e_cast(self, e, S):
    ck = e["ck"]
    if ck == "FloatingCast" and bare(e.get("t")) == "float" and bare(strip0(e["e"]).get("t")) == "double":
        return f32(self.ev(e["e"], S))
    if ck in ("IntegralToFloating", "FloatingCast", "Dynamic", "BaseToDerived"):
        return self.val(e["e"], S)
    if ck == "IntegralCast":
        v = self.ev(e["e"], S)
        w, w0 = WIDTH.get(bare(e.get("t"))), WIDTH.get(bare(e["e"].get("t")), 0)
        if w and w < w0 and v.op != "num" and not is_bool(v):
            return mk("app", "narrow:" + bare(e["t"]), v)
        return v
    v = self.ev(e["e"], S)
    if ck in ("IntegralToBoolean", "FloatingToBoolean"):
        if is_bool(v) or v.op == "ite" and is_bool(v.a[1]):
            return v
        return bnot(eq(v, ZERO))
    if ck == "PointerToBoolean":
        return bnot(eq(v, mk("sym", "nullptr"), numeric=False))
    if ck == "FloatingToIntegral":
        return trunc(v)
    return v


WIDTH = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64,
         "unsigned long": 64, "long long": 64, "unsigned long long": 64}
WIDTH = {k: (v if v < 32 else 32) for k, v in WIDTH.items()}      # int / size_t / long conversions are not distinguished


def strip0(e):
    """through float -> double widenings"""
    while e["k"] == "cast" and e.get("ck") == "FloatingCast" and bare(e.get("t")) == "double":
        e = e["e"]
    return e


def f32(v):
    """rounding to single precision"""
    if v.op == "num" or v.op == "app" and v.a[0] == "f32" or v.op == "app" and v.a[0] == "Zero":
        return v
    if v.op == "ite":
        return ite(v.a[0], f32(v.a[1]), f32(v.a[2]))
    return mk("app", "f32", v, mat=v.mat)


def trunc(v):
    if v.op == "num":
        import math
        return num(math.trunc(v.a[0]))
    if v.op == "ite":
        return ite(v.a[0], trunc(v.a[1]), trunc(v.a[2]))
    if v.op == "app" and v.a[0] in ("trunc", "floor_i"):
        return v
    if v.op in ("size",):
        return v
    return mk("app", "trunc", v)


def place(x):
    """an expression that names a storage location without computing anything"""
    return x["k"] in ("var", "this") and not x.get("lam") or x["k"] == "mem" and place(x["o"]) if x["k"] != "mem" or isinstance(x.get("o"), dict) else False


def e_cond(self, e, S):
    def isassert(y):
        y = strip(y)
        return y["k"] == "call" and y["fn"] == "__assert_fail"
    if isassert(e["b"]) or isassert(e["a"]):
        return mk("sym", "void")
    c = as_bool(self.ev(e["c"], S))
    if c is TRUE:
        return self.lval(e["a"], S)
    if c is FALSE:
        return self.lval(e["b"], S)
    A, B = S.copy(), S.copy()
    if place(e["a"]) and place(e["b"]):
        la, lb = self.pyval(e["a"], A), self.pyval(e["b"], B)
        if isinstance(la, LV) and isinstance(lb, LV) and not isinstance(la, LTmp) and not isinstance(lb, LTmp):
            self.assign_state(S, self.merge(c, A, B))
            return LIte(c, la, lb)
    a, b = self.val(e["a"], A), self.val(e["b"], B)
    self.assign_state(S, self.merge(c, A, B))
    if isinstance(a, Iter) and isinstance(b, Iter):
        return self.mergeval(c, A, a, B, b)
    a, b = self.asT(A, a), self.asT(B, b)
    if is_bool(a) or is_bool(b):
        a, b = as_bool(a), as_bool(b)
    return ite(c, a, b)


def e_list(self, e, S):
    t = bare(e.get("t"))
    vals = [self.ev(x, S) for x in e["a"]]
    if t.startswith("std::pair"):
        return mk("rec", (("first", vals[0]), ("second", vals[1])))
    if t.startswith("A<") or t.startswith("std::initializer_list") or t in ("?",):
        return mk("seq", *vals)
    if len(vals) == 1 and (isnum(t) or t.startswith("P<")):
        return vals[0]
    return mk("app", "init:" + t.split("<")[0], *vals) if not container_of(t) else mk("seq", *vals)


def e_lambda(self, e, S):
    env = {}
    for c in e["caps"]:
        if "id" in c:
            if c.get("init"):
                env[c["id"]] = self.val(c["init"], S)
            elif c["ref"]:
                v = S.env.get(c["id"])
                env[c["id"]] = v if isinstance(v, Ref) else Ref(LVar(c["id"]))
            else:
                env[c["id"]] = S.env.get(c["id"])
    return Lam(e, env, self.this)


def e_new(self, e, S):
    ty = bare(e["t"])
    x = strip(e["e"]) if e.get("e") else None
    if x is None or x["k"] == "ctor":
        vals = [self.ev(y, S) for y in x["a"] if strip(y)["k"] != "zero"] if x is not None else []
        if e.get("sz"):
            vals.append(self.ev(e["sz"], S))
        return self.newptr(e, ty.split("<")[0] if not ty.startswith("std::") else ty, vals)
    v = self.lval(e["e"], S) if e.get("e") else None
    v = self.asT(S, v) if v is not None else None
    return mk("app", "new:" + bare(e["t"]), *([v] if v is not None else []))


def e_delete(self, e, S):
    self.ev(e["e"], S)
    return mk("sym", "void")


def e_throw(self, e, S):
    S.meta["$halt"] = TRUE
    return mk("sym", "void")


def e_stmtexpr(self, e, S):
    self.opaque("stmtexpr")
    return mk("sym", "void")


def e_unk(self, e, S):
    self.opaque("expr " + e.get("cls", "?"))
    return mk("opaque", e.get("cls", "?"))


def e_idx(self, e, S):
    a = self.pyval(e["a"], S)
    i = self.ev(e["b"], S)
    if isinstance(a, Ptr):
        return LSel(a.lv, i) if not (i is ZERO and isinstance(a.lv, LVar) and False) else a.lv
    if isinstance(a, T):
        return LSel(LFld(a, "*"), i)
    if isinstance(a, LV):
        t = bare(e["a"].get("t"))
        if t.startswith("A<"):
            return LSel(a, i)
        p = self.read(S, a, t)
        return LSel(LFld(p, "*"), i)
    return self.opaque("idx")


def e_un(self, e, S):
    op = e["op"]
    if op == "!":
        return bnot(self.ev(e["e"], S))
    if op == "-":
        return neg(self.ev(e["e"], S))
    if op == "~":
        return mk("app", "~", self.ev(e["e"], S))
    if op == "*":
        p = self.pyval(e["e"], S)
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, Iter):
            return self.iter_elem(S, p)
        pt = p if isinstance(p, T) else self.asT(S, p)
        return LObj(pt)
    if op == "&":
        lv = self.lval(e["e"], S)
        if isinstance(lv, LObj):
            return lv.p
        if isinstance(lv, LV):
            return Ptr(lv)
        return mk("app", "addr", self.asT(S, lv))
    if op in ("++", "--"):
        lv = self.pyval(e["e"], S)
        d = ONE if op == "++" else num(-1)
        if isinstance(lv, Iter):
            tgt = self.lval(e["e"], S)
            new = Iter(lv.lv, add(lv.pos, d), lv.rev)
            self.write_py(S, tgt, new)
            return lv if e.get("post") else new
        old = self.read(S, lv, e.get("t"))
        self.write(S, lv, add(old, d))
        return old if e.get("post") else lv
    return self.opaque("un " + op)


def write_py(self, S, lv, v):
    if isinstance(lv, LVar):
        o = S.env.get(lv.id)
        if isinstance(o, Ref):
            return self.write_py(S, o.lv, v)
        S.env[lv.id] = v
        return
    if isinstance(lv, LFld):
        S.heap[(lv.base, lv.name)] = self.asT(S, v)
        return
    self.write(S, lv, self.asT(S, v))


def cmpop(self, op, a, b, ta, tb):
    intg = isint(ta) and isint(tb)
    if op == "<":
        return lt(a, b, intg)
    if op == ">":
        return lt(b, a, intg)
    if op == "<=":
        return le(a, b, intg)
    if op == ">=":
        return le(b, a, intg)
    numeric = isnum(ta) and isnum(tb) or dims(ta) is not None
    if ta and "::" in bare(ta) and not dims(ta) and not bare(ta).startswith("std::"):
        numeric = True      # enums
    r = eq(a, b, numeric or (a.op == "num" and b.op == "num") or is_bool(a) or is_bool(b))
    return r if op == "==" else bnot(r)


ARITH = {"+", "-", "*", "/"}


def arith(self, op, a, b, ta, tb, tr_):
    if op == "+":
        return add(a, b)
    if op == "-":
        return sub(a, b)
    if op == "*":
        r = mul(a, b)
        if dims(tr_) == (1, 1):
            r = s11(r)
        return r
    if op == "/":
        if isint(ta) and isint(tb):
            if a.op == "num" and b.op == "num" and b.a[0] != 0:
                q = a.a[0] / b.a[0]
                import math
                return num(math.trunc(q))
            return mk("app", "idiv", a, b)
        return div(a, b)
    if op == "%":
        return mk("app", "mod", a, b)
    return mk("app", "op" + op, a, b)


def e_bin(self, e, S):
    op = e["op"]
    if op == "=":
        r = self.val(e["b"], S)
        lv = self.lval(e["a"], S)
        if isinstance(r, (Iter, Lam, Ptr)):
            self.write_py(S, lv, r)
        else:
            self.write(S, lv, r)
        return lv
    if op == ",":
        self.lval(e["a"], S)
        return self.lval(e["b"], S)
    if op in ("&&", "||"):
        a = as_bool(self.ev(e["a"], S))
        if op == "&&" and a is FALSE or op == "||" and a is TRUE:
            return a
        S2 = S.copy()
        b = as_bool(self.ev(e["b"], S2))
        # effects of the right operand happen only if it is evaluated
        if any(S2.heap.get(k) is not S.heap.get(k) for k in S2.heap) or any(S.env.get(k) is not v for k, v in S2.env.items() if k in S.env):
            self.assign_state(S, self.merge(a if op == "&&" else bnot(a), S2, S))
        return band(a, b) if op == "&&" else bor(a, b)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        pa, pb = self.pyval(e["a"], S), self.pyval(e["b"], S)
        if isinstance(pa, Iter) and isinstance(pb, Iter):
            return self.itercmp(S, op, pa, pb)
        a = self.rd(S, pa, e["a"])
        b = self.rd(S, pb, e["b"])
        return self.cmpop(op, a, b, e["a"].get("t"), e["b"].get("t"))
    if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
        lv = self.lval(e["a"], S)
        b = self.ev(e["b"], S)
        a = self.read(S, lv, e["a"].get("t"))
        r = self.arith(op[:-1], a, b, e.get("ct", e["a"].get("t")), e["b"].get("t") if isint(e.get("ct", "")) else e.get("ct", e["b"].get("t")), e.get("t"))
        if isint(e["a"].get("t")) and not isint(e.get("ct", "int")):
            r = trunc(r)
        self.write(S, lv, r)
        return lv
    a, b = self.ev(e["a"], S), self.ev(e["b"], S)
    if op in ("+", "-") and bare(e.get("t")).startswith("P<"):
        return mk("app", "ptr" + op, a, b)
    return self.arith(op, a, b, e["a"].get("t"), e["b"].get("t"), e.get("t"))


def rd(self, S, v, e):
    if isinstance(v, LV):
        r = self.read(S, v, e.get("t"))
    else:
        r = self.asT(S, v)
    if not r.mat and r.op not in ("num", "poly", "bool") and ismat(e.get("t")):
        setmat(r)
    return r


def itercmp(self, S, op, a, b):
    pa, pb = a.pos, b.pos
    x, y = pa, pb
    for p, q in ((pa, pb), (pb, pa)):
        if p.op == "app" and p.a[0] in ("mpos", "findpos") and q.op == "size":
            has = mk("app", "has", p.a[1], p.a[2])
            h = as_bool(has)
            return bnot(h) if op == "==" else h
        if p.op == "ite" and q.op == "size":
            pass
    return self.cmpop(op, x, y, "int", "int")


# ------------------------------------------------------------------ operator calls
def e_op(self, e, S):
    op = e["op"]
    fn = e.get("fn", "?")
    a = e["a"]
    t = e.get("t")
    if e.get("key") and e["key"] in self.P.fns:
        # operator defined in the repo
        return self.call_repo(e, S, None if not e.get("m") else a[0], a[1:] if e.get("m") else a)
    if op == "->":
        return self.lval(a[0], S)
    if op == "=":
        r = self.val(a[1], S)
        lv = self.lval(a[0], S)
        at = bare(a[0].get("t"))
        if isinstance(r, (Iter, Lam, Ptr)) and isinstance(lv, LV):
            self.write_py(S, lv, r)
            return lv
        if isinstance(lv, Iter):
            return lv
        if isinstance(lv, T):
            lv = LTmp(lv)
        if ismat(at) and isinstance(r, T) and not r.mat and r.op not in ("num",):
            pass
        self.write(S, lv, r)
        return lv
    if op == "()":
        if fn == "lambda::operator()":
            f = self.pyval(a[0], S)
            if isinstance(f, Lam):
                return self.call_lambda(f, a[1:], S)
        if fn.startswith("Eigen::DenseCoeffsBase"):
            return self.element(S, a[0], [self.ev(x, S) for x in a[1:]])
        if fn.startswith("std::function"):
            f = self.pyval(a[0], S)
            if isinstance(f, Lam):
                return self.call_lambda(f, a[1:], S)
        if "distribution" in fn:
            d = self.ev(a[0], S)
            g = self.lval(a[1], S)
            gs = self.read(S, g) if isinstance(g, LV) else g
            if isinstance(g, LV):
                self.write(S, g, mk("app", "rngnext", gs, d))
            return mk("app", "draw", d, gs)
        if fn.startswith(("cv::Matx", "cv::Vec", "cv::Mat")):
            lv = self.lval(a[0], S)
            idx = [self.ev(x, S) for x in a[1:]]
            if fn.startswith("cv::Mat::"):
                return mk("app", "cvsub", self.asT(S, lv), *idx)
            k = idx[0] if len(idx) == 1 else mk("rec", (("i", idx[0]), ("j", idx[1])))
            return LSel(lv, k) if isinstance(lv, LV) else sel(lv, k)
    if op == "[]":
        pa = self.pyval(a[0], S)
        i = self.ev(a[1], S)
        if fn.startswith("Eigen::"):
            return self.element(S, a[0], [i])
        if isinstance(pa, T):
            pa = LTmp(pa)
        if isinstance(pa, Iter):
            return LSel(pa.lv, add(pa.pos, i))
        return LSel(pa, i)
    if op == "*" and len(a) == 1:
        p = self.pyval(a[0], S)
        if isinstance(p, Iter):
            return self.iter_elem(S, p)
        if isinstance(p, Ptr):
            return p.lv
        return LObj(self.asT(S, p))
    if op in ("++", "--"):
        return self.e_un({"k": "un", "op": op, "e": a[0], "post": len(a) > 1, "t": t, "l": e.get("l")}, S)
    if op == "<<" and fn.startswith("Eigen::DenseBase") or op == "," and fn.startswith("Eigen::CommaInitializer"):
        return self.comma(e, S)
    if op in ("<<", ">>") and not fn.startswith("Eigen::"):
        lv = self.lval(a[0], S)
        if op == "<<":
            x = self.pyval(a[1], S)
            x = self.rd(S, x, a[1])
            if isinstance(lv, LGlob) and lv.name in ("std::cout", "std::cerr"):
                return lv
            if isinstance(lv, LV):
                self.write(S, lv, mk("app", "<<", self.read(S, lv), x))
                return lv
            return mk("app", "<<", self.asT(S, lv), x)
        # extraction
        d = self.lval(a[1], S)
        if isinstance(lv, LV):
            st = self.read(S, lv)
            if isinstance(d, LV):
                self.write(S, d, mk("app", "extract", st))
            self.write(S, lv, mk("app", "advance", st))
            return lv
        if isinstance(d, LV):
            self.write(S, d, mk("app", "extract", self.asT(S, lv)))
        return lv
    if op in ("==", "!=", "<", ">", "<=", ">="):
        pa, pb = self.pyval(a[0], S), self.pyval(a[1], S)
        if isinstance(pa, Iter) and isinstance(pb, Iter):
            return self.itercmp(S, op, pa, pb)
        x, y = self.rd(S, pa, a[0]), self.rd(S, pb, a[1])
        # comparing a std::find position
        return self.cmpop(op, x, y, a[0].get("t"), a[1].get("t"))
    if op in ("+=", "-=", "*=", "/="):
        lv = self.lval(a[0], S)
        if isinstance(lv, Iter) or isinstance(lv, LVar) and isinstance(S.env.get(lv.id), Iter):
            it = lv if isinstance(lv, Iter) else S.env[lv.id]
            k = self.ev(a[1], S)
            new = Iter(it.lv, add(it.pos, k if op == "+=" else neg(k)), it.rev)
            if isinstance(lv, LV):
                self.write_py(S, lv, new)
            return new
        r = self.ev(a[1], S)
        if isinstance(lv, T):
            lv = LTmp(lv)
        x = self.read(S, lv, a[0].get("t"))
        if bare(a[0].get("t")).startswith("std::basic_string"):
            self.write(S, lv, cat(x, r))
            return lv
        if dims(a[0].get("t")) is not None or isnum(a[0].get("t")):
            if not x.mat and ismat(a[0].get("t")) and x.op not in ("num", "poly"):
                setmat(x)
            v = self.arith(op[0], x, r, "double", "double", a[0].get("t"))
        else:
            v = mk("app", "op" + op[0], x, r)
        self.write(S, lv, v)
        return lv
    if op in ("+", "-", "*", "/") and len(a) == 2:
        pa = self.pyval(a[0], S)
        if isinstance(pa, Iter):
            pb = self.pyval(a[1], S)
            if isinstance(pb, Iter):
                return sub(pa.pos, pb.pos)
            k = self.rd(S, pb, a[1])
            return Iter(pa.lv, add(pa.pos, k if op == "+" else neg(k)), pa.rev)
        x, y = self.rd(S, pa, a[0]), self.ev(a[1], S)
        if bare(a[0].get("t")).startswith("std::basic_string") or bare(t).startswith("std::basic_string"):
            return cat(x, y)
        if fn.startswith("Eigen::") or dims(t) is not None or isnum(t):
            return self.arith(op, x, y, "double", "double", t)
        return mk("app", "op" + op, x, y)
    if op == "-" and len(a) == 1:
        return neg(self.ev(a[0], S))
    if op == "!" and len(a) == 1:
        return bnot(self.ev(a[0], S))
    return self.call_ext(e, S, a[0] if e.get("m") else None, a[1:] if e.get("m") else a)


def cat(x, y):
    if x.op == "str" and y.op == "str":
        return mk("str", x.a[0] + y.a[0])
    xs = list(x.a) if x.op == "cat" else [x]
    ys = list(y.a) if y.op == "cat" else [y]
    if xs and ys and xs[-1].op == "str" and ys[0].op == "str":
        xs[-1] = mk("str", xs[-1].a[0] + ys[0].a[0])
        ys = ys[1:]
    r = [z for z in xs + ys if not (z.op == "str" and z.a[0] == "")]
    if len(r) == 1:
        return r[0]
    return mk("cat", *r)


def element(self, S, obj, idx):
    lv = self.lval(obj, S)
    d = dims(obj.get("t"))
    if isinstance(lv, T):
        lv = LTmp(lv)
    if d == (1, 1):
        return lv
    if len(idx) == 1:
        if d and d[0] == 1 and d[1] != 1:
            r, c = ZERO, idx[0]
        else:
            r, c = idx[0], ZERO
    else:
        r, c = idx
    return LBlk(lv, r, c, ONE, ONE, el=True, dims=d)


def comma(self, e, S):
    # flatten M << a, b, c
    items = []
    x = e
    while x["k"] == "op" and x["op"] == ",":
        items.append(x["a"][1])
        x = strip(x["a"][0])
    items.append(x["a"][1])
    items.reverse()
    tgt = x["a"][0]
    lv = self.lval(tgt, S)
    if isinstance(lv, T):
        lv = LTmp(lv)
    d = dims(tgt.get("t"))
    vals = []
    for it in items:
        vals.append((self.ev(it, S), dims(it.get("t")) or (1, 1)))
    ok = all(v[1][0] >= 0 and v[1][1] >= 0 for v in vals)
    if ok and d and d[1] >= 0 and d[0] >= 0 or ok and d and d[1] == 1:
        M = ZERO if (d[0] >= 0) else mk("app", "vecfill", num(sum(v[1][0] for v in vals)))
        r = c = 0
        rowh = None
        W = d[1]
        M = ZERO
        for v, (h, w) in vals:
            if W >= 0 and c >= W:
                r += rowh
                c = 0
                rowh = None
            if rowh is None:
                rowh = h
            M = v if (h, w) == d else bst(M, num(r), num(c), num(h), num(w), v)
            c += w
        M = canon_const(M, d)
        self.write(S, lv, M)
        return lv
    M = mk("app", "comma", *[v for v, _ in vals], mat=True)
    self.write(S, lv, M)
    return lv


def canon_const(M, d):
    """recognise the identity written out element by element"""
    if M.op == "bst" and M.a[0] is ZERO and d[0] == d[1] and len(M.a[1]) == d[0]:
        if all(k[0] is k[1] and k[2] is ONE and v is ONE for k, v in M.a[1]):
            return I
    return M


for _n, _f in list(globals().items()):
    if _n.startswith("e_") and callable(_f):
        setattr(Interp, _n, _f)
for _f in (memof, memof_ptr, deref, iter_elem, write_py, cmpop, arith, rd, itercmp, element, comma):
    setattr(Interp, _f.__name__, _f)
Interp.ev, Interp.val, Interp.pyval, Interp.lval = _ev, _val, _pyval, _lval


# ------------------------------------------------------------------ calls
def default_of(self, t):
    b = bare(t)
    if isnum(b):
        return ZERO
    if ismat(b):
        return mk("app", "uninit", mat=True)
    c = container_of(b)
    if c and c != "std::array":
        return EMPTY
    if b.startswith("std::basic_string"):
        return mk("str", "")
    if b.startswith(("std::shared_ptr", "std::unique_ptr", "cv::Ptr")):
        return mk("sym", "nullptr")
    if b.startswith("std::pair"):
        return mk("rec", (("first", ZERO), ("second", ZERO))) if False else mk("app", "new:" + b.split("<")[0])
    return mk("app", "new:" + b.split("<")[0])


def e_ctor(self, e, S):
    c = e["c"]
    t = bare(e.get("t"))
    a = e["a"]
    d = dims(t)
    if c == "Eigen::Map" and a:
        # a window on the memory behind a pointer: an lvalue, not a value
        p = self.pyval(a[0], S)
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, LV):
            p = self.read(S, p)
        if not isinstance(p, T):
            return self.opaque("map")
        # the memory is addressed row by row: the name carries the row stride of a true matrix
        n, flip = "*map", False
        if d and 1 not in d:
            nc = [self.ev(x, S) for x in a[1:3] if isnum(x.get("t"))]
            flip = e.get("maj") != 1
            w = d[0] if flip else d[1]
            if w < 0 and len(nc) == 2:
                w = nc[0] if flip else nc[1]
                w = int(w.a[0]) if w.op == "num" else -1
            n = f"*map{w}" if w > 0 else "*map"
        FIELDMAT[n] = True
        lv = LFld(p, n)
        setmat(self.read(S, lv))
        return LTr(lv) if flip else lv
    if d is not None or c == "Eigen::Matrix":
        args = [x for x in a if not (strip(x)["k"] == "zero")]
        if not args:
            return mk("app", "uninit", mat=True)
        if len(args) == 1:
            at = args[0].get("t")
            if dims(at) is not None or not isnum(at):
                v = self.ev(args[0], S)
                return s11(v) if d == (1, 1) else v
            x = self.ev(args[0], S)
            if d and d[0] == -1:
                return mk("app", "mat", x, ONE if d[1] == 1 else x, mat=True)
            if d == (1, 1):
                return x
            return mk("app", "uninit", mat=True)
        vals = [self.ev(x, S) for x in args]
        if d and d[0] == -1 and len(vals) == 2:
            return mk("app", "mat", vals[0], vals[1], mat=True)
        M = ZERO
        for i, v in enumerate(vals):
            M = bst(M, num(i), ZERO, ONE, ONE, v) if d and d[1] == 1 else bst(M, ZERO, num(i), ONE, ONE, v)
        setmat(M)
        return M
    if c in ("std::shared_ptr", "std::unique_ptr", "cv::Ptr"):
        if not a:
            return mk("sym", "nullptr")
        v = self.pyval(a[0], S)
        return v if isinstance(v, T) else (v if isinstance(v, Ptr) else self.asT(S, v))
    if c in ("std::function", "cv::ParallelLoopBody", "ov_core::LambdaBody", "cv::ParallelLoopBodyLambdaWrapper") or c.endswith("::LambdaBody"):
        if a:
            v = self.pyval(a[0], S)
            return v if isinstance(v, (Lam, T)) else self.asT(S, v)
        return mk("sym", "nullptr")
    if c in ("std::thread", "std::jthread", "boost::thread") and a:
        # the body's effects, as if it ran to completion here; interleavings are the business of the lock rules
        v = self.pyval(a[0], S)
        if isinstance(v, LV):
            v = self.asT(S, v)
        if isinstance(v, Lam) and len(v.node["ps"]) == len(a) - 1:
            self.call_lambda(v, a[1:], S)
            return mk("app", "std::thread")
    if c == "__gnu_cxx::__normal_iterator" or "iterator" in c.lower():
        if a:
            v = self.pyval(a[0], S)
            return v
        return mk("app", "uninit")
    if c == "std::pair":
        if len(a) == 2:
            x, y = self.ev(a[0], S), self.ev(a[1], S)
            return mk("rec", (("first", x), ("second", y)))
        if len(a) == 1:
            return self.val(a[0], S)
        tt = t
        return mk("app", "new:std::pair")
    if c == "std::basic_string":
        args = [x for x in a if bare(x.get("t")) != "std::allocator" and not bare(x.get("t")).startswith("std::allocator")]
        if not args:
            return mk("str", "")
        if len(args) == 1:
            return self.ev(args[0], S)
        return mk("app", "string", *[self.ev(x, S) for x in args])
    if c in CONTAINERS:
        args = [x for x in a if not bare(x.get("t")).startswith(("std::allocator", "std::less", "std::hash", "std::equal_to")) or x["k"] not in ("ctor", "zero")]
        args = [x for x in args if not (x["k"] == "ctor" and x["c"] in ("std::allocator", "std::less", "std::hash", "std::equal_to"))]
        if not args:
            return EMPTY
        vs = [self.pyval(x, S) for x in args]
        if len(vs) == 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter):
            return self.rangecopy(S, vs[0], vs[1])
        if len(vs) >= 1:
            x0 = self.rd(S, vs[0], args[0])
            if x0.op == "seq" and args[0]["k"] in ("list", "ctor"):
                if c in MAPS:
                    M = EMPTY
                    ok = True
                    for it in x0.a:
                        if it.op == "rec":
                            M = sto(M, getf(it, "first"), getf(it, "second"))
                        else:
                            ok = False
                    if ok and "set" not in c:
                        return M
                return x0
            if isnum(args[0].get("t")) and c in ("std::vector", "std::deque"):
                if len(vs) > 1:
                    return mk("app", "filled", x0, self.rd(S, vs[1], args[1]))
                el = t[t.find("<") + 1:-1]
                return mk("app", "filled", x0, self.default_of(el))
            return x0
    if c in ("cv::_InputArray", "cv::_OutputArray", "cv::_InputOutputArray"):
        return self.lval(a[0], S) if a else mk("sym", "noArray")
    if c.startswith(("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::mutex", "std::allocator")) or c.startswith("boost::posix_time"):
        if c.startswith("boost::posix_time") and a:
            return self.ev(a[0], S)
        return mk("sym", "void")
    if c == "std::atomic":
        return self.ev(a[0], S) if a else mk("app", "uninit")
    if c in ("cv::Point_", "cv::Size_", "cv::Rect_", "cv::Scalar_"):
        vals = [self.ev(x, S) for x in a]
        if c == "cv::Point_" and len(vals) == 2:
            return mk("rec", (("Point_.x", vals[0]), ("Point_.y", vals[1])))
        if len(vals) == 1 and c != "cv::Scalar_":
            return vals[0]
        return mk("app", c, *vals)
    key = e.get("key")
    if key and key in self.P.fns:
        return self.construct(e, S)
    vals = []
    for x in a:
        if strip(x)["k"] == "zero":
            continue
        vals.append(self.ev(x, S))
    if not vals:
        return self.default_of(t)
    if c.startswith("Eigen::Stride"):
        return mk("sym", "void")
    if c == "Eigen::Map" or c == "Eigen::Ref":
        if isinstance(self.pyval(a[0], S), T) or True:
            p = vals[0]
            return mk("app", "map", p, mat=True)
    return mk("app", "new:" + c, *vals)


def construct(self, e, S):
    """object of a repo class by value: opaque constructor call over its arguments (+ in-class defaults elsewhere)"""
    f = self.P.fns[e["key"]]
    args = [self.ev(x, S) for x in e["a"]]
    if self.should_inline_ctor(f):
        pass
    return mk("app", "new:" + e["c"], *args)


def should_inline_ctor(self, f):
    return False


def rangecopy(self, S, a, b):
    C = self.read(S, a.lv.lv if isinstance(a.lv, _MapLV) else a.lv)
    if a.pos is ZERO and b.pos is size(C) and not a.rev:
        return C
    return mk("app", "slice", C, a.pos, b.pos)


def nostmts(body):
    return body["b"] if body and body["k"] == "block" else [body]


def should_inline(self, f, e):
    name = f["n"]
    b = name.rsplit("::", 1)[-1]
    if b in MATH_ATOMS and name.startswith("ov_core::"):
        return False
    if name in self.noinline:
        return False
    if f.get("virt") and e.get("virt"):
        tg = self.E.targets(e)
        if len(tg) != 1:
            return False
    if name in self.inline_extra:
        return True
    st = nostmts(f["body"])
    st = [s for s in st if not is_noop_stmt(s)]
    if len(st) == 1 and st[0]["k"] == "ret":
        return True
    if len(st) == 0:
        return True
    if len(st) == 1 and st[0]["k"] == "expr" and not any(True for _ in ()):
        return True
    if self.known is not None and name not in self.known:
        return True
    return False


def is_noop_stmt(s):
    if s["k"] == "expr":
        x = strip(s["e"])
        if x["k"] == "call" and ignorable(x["fn"]):
            return True
        if x["k"] == "cond":
            y = strip(x["b"])
            return y["k"] == "call" and y["fn"] == "__assert_fail"
        if x["k"] in ("int", "var", "str"):
            return True
    if s["k"] == "decl":
        return all(v.get("t", "").startswith(("std::lock_guard", "std::unique_lock")) for v in s["v"])
    return False


def call_lambda(self, f, args, S):
    if len(self.stack) > self.maxdepth:
        self.opaque("lambda depth")
        return mk("opaque", "depth")
    vals = []
    for p, x in zip(f.node["ps"], args):
        vals.append((p, self.lval(x, S) if p["t"].startswith("R<") else self.val(x, S)))
    saved = {}
    for k, v in f.env.items():
        if not (isinstance(v, Ref) and isinstance(v.lv, LVar) and v.lv.id == k):
            saved[k] = S.env.get(k)
            S.env[k] = v
    for p, v in vals:
        S.env[p["id"]] = Ref(v) if isinstance(v, LV) else v
    self.stack.append("lambda")
    try:
        S2, r = self.run_body(S, f.node["body"], f.this)
    finally:
        self.stack.pop()
    if S2 is not None:
        self.assign_state(S, S2)
    for k, v in saved.items():
        S.env[k] = v
    return r if r is not None else mk("sym", "void")


def run_body(self, S, body, this, retref=False):
    """execute a body to its merged exit state; returns (state, return value)"""
    old, self.this = self.this, this
    oldr, self.retref = self.retref, retref
    try:
        o = self.exec_block(nostmts(body), S)
    finally:
        self.this = old
        self.retref = oldr
    if o.halt is not FALSE and o.halt is not None:
        h = S.meta.get("$halt")
        S.meta["$halt"] = bor(h, o.halt) if h is not None else o.halt
    if o.ret:
        c, st, v = o.ret
        if o.n is not None:
            if v is not None:
                # value-returning function: the fallthrough is unreachable or halts
                return self.merge(c, st, o.n), v
            return self.merge(c, st, o.n), None
        return st, v
    return o.n, None


Interp.retref = False


def call_repo(self, e, S, obj, args):
    f = self.P.fns[e["key"]]
    this = None
    if obj is not None and not f.get("stat"):
        pv = self.pyval(obj, S)
        arrow = e.get("arrow") or strip(obj)["k"] == "this"
        if isinstance(pv, Ptr):
            this = pv.lv
        elif isinstance(pv, Iter):
            this = self.iter_elem(S, pv)
        elif isinstance(pv, T):
            this = pv
        elif isinstance(pv, LObj):
            this = pv.p
        elif isinstance(pv, LV):
            ot = bare(e.get("ot") or obj.get("t"))
            if arrow and not ov_value_type(ot):
                this = self.read(S, pv)
            else:
                this = pv
                if isinstance(pv, LTmp):
                    this = pv
    if isinstance(this, LObj):
        this = this.p
    inl = self.should_inline(f, e) and len(self.stack) < self.maxdepth and f["key"] not in self.stack
    if inl:
        return self.inline(f, e, S, this, args)
    return self.atom_call(f, e, S, this, args)


def ov_value_type(t):
    return not t.startswith(("P<", "std::shared_ptr", "std::unique_ptr", "cv::Ptr"))


def inline(self, f, e, S, this, args):
    if f["n"].rsplit("::", 1)[-1] not in ("id", "size", "value", "fej"):
        self.inlined.add(f["key"])
    binds = []
    for p, x in zip(f["ps"], args):
        if p["t"].startswith(("R<", "RR<")):
            v = self.pyval(x, S)
            if isinstance(v, Iter) and not p["t"].startswith("R<const "):
                # an iterator handed on by reference: the helper moves the caller's iterator
                lv = self.lval(x, S)
                if isinstance(lv, LVar):
                    v = lv
            binds.append((p, Ref(v) if isinstance(v, LV) else v))
        else:
            binds.append((p, self.val(x, S)))
    saved = {p["id"]: S.env.get(p["id"]) for p in f["ps"]}
    for p, v in binds:
        S.env[p["id"]] = v
    self.stack.append(f["key"])
    try:
        th = this
        rt = f.get("rt", "")
        S2, r = self.run_body(S, f["body"], th, retref=rt.startswith("R<"))
    finally:
        self.stack.pop()
    if S2 is not None:
        self.assign_state(S, S2)
    return r if r is not None else mk("sym", "void")


Interp_this_types = (T,)


def thisT(self, S, this):
    if this is None:
        return mk("sym", "static")
    if isinstance(this, T):
        return this
    return self.read(S, this)


def atom_call(self, f, e, S, this, args):
    """call kept as an uninterpreted function with its computed effects"""
    name = f["n"]
    b = name.rsplit("::", 1)[-1]
    lvs, vals = [], []
    for p, x in zip(f["ps"], args):
        v = self.pyval(x, S)
        lvs.append(v)
        tv = self.rd(S, v, x)
        vals.append(tv)
    mat = ismat(f.get("rt"))
    if b in MATH_ATOMS and name.startswith("ov_core::"):
        return math_atom(b, vals, mat)
    tg = self.E.targets(e) or [f["key"]]
    mods, refs, pm = set(), set(), set()
    for t in tg:
        mods |= self.E.mods.get(t, set())
        refs |= self.E.refs.get(t, set())
        pm |= self.E.pmods.get(t, set())
    recv = self.thisT(S, this) if this is not None else None
    tonly = recv is not None and all(self.E.thisonly.get(t, False) for t in tg)
    tref = recv is not None and all(self.E.refthis.get(t, False) for t in tg)
    deps = []
    for k, v in S.heap.items():
        if k[1] in refs or k[1] == "*":
            if k[0] is None or tref and distinct_obj(k[0], recv):
                continue
            deps.append((mk("loc", k[0], k[1]), self.asT(S, v)))
    for k, v in S.bulk.items():
        if k in refs or k == "*":
            if tref and k != "*":
                v = proj(v, recv)
            if v is not INITC:
                deps.append((mk("sym", "bulk:" + k), v))
    deps.sort(key=lambda x: (skel(x[0]), skel(x[1]), x[0].h))
    th = [recv] if this is not None else []
    nm = canonical_virtual(self, f)
    call = mk("call", nm, tuple(th), tuple(vals), tuple(deps))
    # effects
    for i in sorted(pm):
        if i < len(lvs):
            lv = lvs[i]
            if isinstance(lv, (LV, Ptr)):
                l2 = lv.lv if isinstance(lv, Ptr) else lv
                if not isinstance(l2, LTmp):
                    self.write(S, l2, mk("out", call, str(i), mat=ismat(f["ps"][i]["t"])))
    if isinstance(this, LV) and mods and not isinstance(this, LTmp):
        self.write(S, this, mk("out", call, "this"))
        if tonly:
            return mk("ret", call, mat=mat)
    for m in sorted(mods):
        prev = S.bulk.get(m) or INITC
        S.bulk[m] = aft(prev, call, recv if tonly else None)
        self.lastline[("bulk", m)] = self.curline
        for hk in list(S.heap):
            if hk[1] == m and hk[0] is not None and not (tonly and distinct_obj(hk[0], recv)):
                S.heap[hk] = mk("fldv", hk[0], m, aft(self.asT(S, S.heap[hk]), call), mat=S.heap[hk].mat)
    return mk("ret", call, mat=mat)


def canonical_virtual(self, f):
    """overriders share the name of the root declaration only when the callee itself is abstract; keep own name"""
    return f["n"]


def math_atom(b, v, mat):
    if b == "skew_x":
        return skew(v[0])
    if b == "Inv" or b == "Inv_se3":
        pass
    return mk("app", "ov_core::" + b, *v, mat=mat)


def e_call(self, e, S):
    fn = e["fn"]
    if ignorable(fn):
        return mk("sym", "void")
    if e.get("noret") or fn in ("exit", "abort"):
        if fn != "__assert_fail":
            S.meta["$halt"] = TRUE
        return mk("sym", "void")
    if e.get("key") and e["key"] in self.P.fns:
        return self.call_repo(e, S, e.get("o"), e["a"])
    if e.get("key") and e.get("virt"):
        # pure virtual declared in the repo
        return self.call_virtual(e, S)
    if fn == "lambda::operator()":
        f = self.pyval(e["o"], S)
        if isinstance(f, Lam):
            return self.call_lambda(f, e["a"], S)
    return self.call_ext(e, S, e.get("o"), e["a"])


def call_virtual(self, e, S):
    tg = self.E.targets(e)
    if not tg:
        return self.call_ext(e, S, e.get("o"), e["a"])
    f = dict(self.P.fns[tg[0]])
    f["n"] = e["fn"]
    pv = self.pyval(e["o"], S) if e.get("o") else None
    this = pv
    if isinstance(pv, Ptr):
        this = pv.lv
    elif isinstance(pv, Iter):
        this = self.iter_elem(S, pv)
    elif isinstance(pv, LV):
        this = self.read(S, pv)
    if strip(e["o"])["k"] == "this":
        this = self.this if self.this is not None else mk("sym", "this")
    return self.atom_call(f, e, S, this, e["a"])


# external functions whose effect is on the process or the file system
WORLD = {"cv::setNumThreads", "cv::setRNGSeed", "boost::filesystem::create_directories", "boost::filesystem::remove", "boost::filesystem::create_directory", "boost::filesystem::remove_all", "srand"}


def call_ext(self, e, S, obj, args):
    fn = e["fn"]
    b = fn.rsplit("::", 1)[-1]
    if fn.startswith("std::") and b.startswith("operator"):
        b = fn[fn.index("operator"):]
    t = e.get("t")
    m = EXT.get(fn) or EXT.get(b if not fn.startswith("cv::") else fn)
    if m is not None:
        r = m(self, e, S, obj, args)
        if r is not NotImplemented:
            return r
    # generic external function
    olv = self.pyval(obj, S) if obj is not None else None
    if isinstance(olv, Ptr):
        olv = olv.lv
    vals = []
    lvs = []
    for x in args:
        v = self.pyval(x, S)
        lvs.append(v)
        vals.append(self.rd(S, v, x))
    # what a raw pointer points at is part of what the callee sees
    rawp = {}
    for i, x in enumerate(args):
        if bare(x.get("t")).startswith("P<") and not isinstance(lvs[i], Ptr):
            rawp[i] = vals[i]
    for i in sorted(rawp):
        if fn.startswith("ceres::"):
            continue
        if (rawp[i], "*") in S.heap:
            vals.append(mk("app", "deref", num(i), S.heap[(rawp[i], "*")]))
    ot = None
    if obj is not None:
        if isinstance(olv, Iter):
            ot = mk("app", "it", olv.pos)
        else:
            ot = self.rd(S, olv, obj)
    name = fn
    pre = ([ot] if ot is not None else [])
    ret = mk("app", name, *pre, *vals, mat=ismat(t))
    if obj is not None and not e.get("cst") and not e.get("stat") and not pure_method(fn):
        if e.get("arrow"):
            p = ot
            lv = LFld(p, "*")
            st = self.read(S, lv)
            ret = mk("app", name, p, st, *vals, mat=ismat(t)) if st.op != "fld" else ret
            self.write(S, lv, mk("app", "mut:" + name, st, *vals))
        elif isinstance(olv, LV) and not isinstance(olv, LTmp):
            self.write(S, olv, mk("app", "mut:" + name, ot, *vals))
    elif obj is not None and e.get("arrow"):
        lv = LFld(ot, "*")
        if (ot, "*") in S.heap:
            ret = mk("app", name, ot, self.read(S, lv), *vals, mat=ismat(t))
    if fn in WORLD:
        k = "::ext:" + fn
        prev = self.read(S, LGlob(k))
        self.write(S, LGlob(k), mk("app", "did:" + name, prev, *vals))
    if fn == "ceres::Solve":
        # the solver writes through every parameter pointer registered with the problem
        S.bulk["*"] = aft(S.bulk.get("*") or INITC, ret)
        self.lastline[("bulk", "*")] = self.curline
        for hk in [hk for hk in S.heap if hk[1] == "*" and hk[0] is not None]:
            S.heap[hk] = mk("fldv", hk[0], "*", aft(self.asT(S, S.heap[hk]), ret), mat=S.heap[hk].mat)
    pm = e.get("pm", "")
    for i, c in enumerate(pm):
        if i < len(lvs) and c in "wp":
            lv = lvs[i]
            if isinstance(lv, Ptr):
                lv = lv.lv
            elif c == "p" and i in rawp:
                if fn.startswith("ceres::"):
                    continue          # parameter blocks are only registered; Solve writes them
                lv = LFld(rawp[i], "*")
            if isinstance(lv, LV) and not isinstance(lv, LTmp):
                self.write(S, lv, mk("app", "out:" + name, num(i), *pre, *vals))
        elif i < len(lvs) and c in "cv":
            # cv::_OutputArray and friends wrap an lvalue
            x = args[i]
            if x["k"] == "ctor" and x["c"] in ("cv::_OutputArray", "cv::_InputOutputArray"):
                lv = lvs[i]
                if isinstance(lv, LV) and not isinstance(lv, LTmp):
                    self.write(S, lv, mk("app", "out:" + name, num(i), *pre, *vals))
    return ret


for _f in (default_of, construct, should_inline_ctor, rangecopy, should_inline, call_lambda, run_body, call_repo, inline, thisT, atom_call,
           call_virtual, call_ext):
    setattr(Interp, _f.__name__, _f)
Interp.e_ctor, Interp.e_call = e_ctor, e_call


# ------------------------------------------------------------------ models of the external API
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def olv_of(self, obj, S):
    v = self.pyval(obj, S)
    if isinstance(v, Ptr):
        return v.lv
    if bare(obj.get("t")).startswith("P<") and isinstance(v, (T, LV)):
        return LFld(self.asT(S, v), "*")
    if isinstance(v, T):
        return LTmp(v)
    return v


@ext(*TRANSPARENT)
def x_transparent(self, e, S, obj, args):
    if obj is None:
        return NotImplemented
    if e["fn"].startswith(("std::atomic", "cv::")):
        return NotImplemented
    return self.lval(obj, S)


@ext("at", "operator[]", "front", "back", "cv::Mat::at")
def x_at(self, e, S, obj, args):
    fn = e["fn"]
    if not fn.startswith("std::"):
        if fn.startswith("cv::Mat::at"):
            lv = olv_of(self, obj, S)
            M = self.read(S, lv)
            return LSel(lv, mk("rec", tuple((f"i{i}", self.ev(x, S)) for i, x in enumerate(args))))
        return NotImplemented
    lv = olv_of(self, obj, S)
    if fn.endswith("front"):
        return LSel(lv, ZERO)
    if fn.endswith("back"):
        return LSel(lv, sub(size(self.read(S, lv)), ONE))
    return LSel(lv, self.ev(args[0], S))


@ext("data")
def x_data(self, e, S, obj, args):
    # address of a matrix' coefficients: what is written through it lands in the matrix
    if not e["fn"].startswith("Eigen::") or (e.get("t") or "").startswith("P<const"):
        return NotImplemented
    lv = olv_of(self, obj, S)
    if isinstance(lv, LV) and not isinstance(lv, LTmp):
        return Ptr(lv)
    return NotImplemented


@ext("size", "length")
def x_size(self, e, S, obj, args):
    if e["fn"].startswith("Eigen::"):
        v = self.ev(obj, S)
        d = dims(obj.get("t"))
        r, c = rows_of(v, obj.get("t")), rows_of(v, obj.get("t"), "cols")
        return mul(r, c)
    if not e["fn"].startswith("std::"):
        return NotImplemented
    return size(self.read(S, olv_of(self, obj, S)))


@ext("empty")
def x_empty(self, e, S, obj, args):
    if not e["fn"].startswith("std::"):
        return NotImplemented
    return eq(size(self.read(S, olv_of(self, obj, S))), ZERO)


@ext("push_back", "emplace_back", "push")
def x_push(self, e, S, obj, args):
    if not e["fn"].startswith("std::"):
        return NotImplemented
    lv = olv_of(self, obj, S)
    vals = [self.ev(x, S) for x in args]
    t = bare(obj.get("t"))
    el = t[t.find("<") + 1:-1] if "<" in t else ""
    if len(vals) == 0:
        v = self.default_of(el)
    elif len(vals) == 1:
        v = vals[0]
    elif el.startswith("std::pair"):
        v = mk("rec", (("first", vals[0]), ("second", vals[1])))
    else:
        v = mk("app", "new:" + el.split("<")[0], *vals)
    self.write(S, lv, mk("push", self.read(S, lv), v))
    return mk("sym", "void")


@ext("pop_back", "pop_front")
def x_pop(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    self.write(S, lv, mk("app", e["fn"].rsplit("::", 1)[-1], self.read(S, lv)))
    return mk("sym", "void")


@ext("clear")
def x_clear(self, e, S, obj, args):
    if not e["fn"].startswith("std::"):
        return NotImplemented
    self.write(S, olv_of(self, obj, S), EMPTY)
    return mk("sym", "void")


@ext("begin", "cbegin", "end", "cend", "rbegin", "rend")
def x_begin(self, e, S, obj, args):
    fn = e["fn"]
    if obj is None:
        obj = args[0]
    if not fn.startswith("std::") or fn.startswith("std::filesystem"):
        return NotImplemented
    lv = olv_of(self, obj, S)
    c = container_of(obj.get("t")) or container_of(e.get("ot"))
    rev = "rbegin" in fn or "rend" in fn
    if c is None:
        n = fn.split("::")
        for k in CONTAINERS:
            if fn.startswith(k + "::"):
                c = k
    l2 = _MapLV(lv, "set" in c) if c in MAPS else lv
    return Iter(l2, ZERO if "begin" in fn else size(self.read(S, lv)), rev)


@ext("find")
def x_find(self, e, S, obj, args):
    fn = e["fn"]
    if fn == "std::find":
        a, b = self.pyval(args[0], S), self.pyval(args[1], S)
        v = self.ev(args[2], S)
        if isinstance(a, Iter) and isinstance(b, Iter):
            C = self.read(S, a.lv)
            return Iter(a.lv, mk("app", "findpos", C, v) if a.pos is ZERO else mk("app", "findpos", self.rangecopy(S, a, b), v))
        return NotImplemented
    for k in MAPS:
        if fn.startswith(k + "::"):
            lv = olv_of(self, obj, S)
            C = self.read(S, lv)
            return Iter(_MapLV(lv, "set" in k), mk("app", "mpos", C, self.ev(args[0], S)))
    return NotImplemented


@ext("count", "contains")
def x_count(self, e, S, obj, args):
    for k in MAPS:
        if e["fn"].startswith(k + "::"):
            C = self.read(S, olv_of(self, obj, S))
            h = as_bool(mk("app", "has", C, self.ev(args[0], S)))
            return ite(h, ONE, ZERO) if e["fn"].endswith("count") else h
    return NotImplemented


@ext("insert", "emplace")
def x_insert(self, e, S, obj, args):
    fn = e["fn"]
    if not fn.startswith("std::"):
        return NotImplemented
    lv = olv_of(self, obj, S)
    C = self.read(S, lv)
    for k in MAPS:
        if fn.startswith(k + "::"):
            vals = [self.ev(x, S) for x in args]
            if len(vals) == 1:
                key, v = (vals[0], None) if "set" in k else (getf(vals[0], "first"), getf(vals[0], "second"))
            else:
                key, v = vals[0], vals[1]
            self.write(S, lv, mk("ins", C, key, v if v is not None else key))
            return mk("app", "insres", C, key)
    pos = [self.pyval(x, S) for x in args]
    if len(pos) == 3 and all(isinstance(p, Iter) for p in pos):
        src = self.rangecopy(S, pos[1], pos[2])
        self.write(S, lv, mk("app", "append", C, src) if pos[0].pos is size(C) else mk("app", "insrange", C, pos[0].pos, src))
        return mk("sym", "void")
    if isinstance(pos[0], Iter):
        v = self.rd(S, pos[1], args[1])
        if v.op == "seq" and not str(bare(args[1].get("t"))).startswith(("std::vector", "std::pair")) and args[1]["k"] in ("list", "ctor"):
            if pos[0].pos is not size(C):
                return NotImplemented
            for x in v.a:
                C = mk("push", C, x)
            self.write(S, lv, C)
            return Iter(lv, pos[0].pos)
        if len(pos) != 2:
            return NotImplemented
        self.write(S, lv, mk("app", "insat", C, pos[0].pos, v) if pos[0].pos is not size(C) else mk("push", C, v))
        return Iter(lv, pos[0].pos)
    return NotImplemented


@ext("reserve", "shrink_to_fit")
def x_reserve(self, e, S, obj, args):
    if not e["fn"].startswith("std::"):
        return NotImplemented
    return mk("sym", "void")


@ext("erase")
def x_erase(self, e, S, obj, args):
    fn = e["fn"]
    if not fn.startswith("std::"):
        return NotImplemented
    lv = olv_of(self, obj, S)
    C = self.read(S, lv)
    pos = [self.pyval(x, S) for x in args]
    ismap = any(fn.startswith(k + "::") for k in MAPS)
    if len(pos) == 1 and isinstance(pos[0], Iter):
        p = pos[0].pos
        key = mkey(C, p) if ismap else p
        self.write(S, lv, mk("app", "erasek" if ismap else "erase", C, key))
        return Iter(pos[0].lv, p)
    if len(pos) == 1:
        self.write(S, lv, mk("app", "erasek", C, self.rd(S, pos[0], args[0])))
        return mk("sym", "void")
    if len(pos) == 2 and all(isinstance(p, Iter) for p in pos):
        if pos[0].pos.op == "app" and pos[0].pos.a[0] == "removeif":
            self.write(S, lv, mk("app", "filterout", *pos[0].pos.a[1:]))
        elif pos[0].pos is ZERO and pos[1].pos is size(C):
            self.write(S, lv, EMPTY)
        else:
            self.write(S, lv, mk("app", "eraserange", C, pos[0].pos, pos[1].pos))
        return Iter(lv, pos[0].pos)
    return NotImplemented


@ext("resize")
def x_resize(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    vals = [self.ev(x, S) for x in args]
    if e["fn"].startswith("Eigen::"):
        d = dims(obj.get("t"))
        if len(vals) == 1:
            vals = [vals[0], ONE]
        self.write(S, lv, mk("app", "mat", *vals, mat=True))
        return mk("sym", "void")
    if e["fn"].startswith("std::"):
        self.write(S, lv, mk("app", "resize", self.read(S, lv), *vals))
        return mk("sym", "void")
    return NotImplemented


@ext("conservativeResize")
def x_cresize(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    vals = [self.ev(x, S) for x in args]
    if len(vals) == 1:
        vals.append(ONE)
    self.write(S, lv, mk("app", "cresize", self.read(S, lv), *vals, mat=True))
    return mk("sym", "void")


@ext("conservativeResizeLike")
def x_cresizelike(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    v = self.ev(args[0], S)
    self.write(S, lv, mk("app", "cresizelike", self.read(S, lv), v, mat=True))
    return mk("sym", "void")


@ext("setZero", "Zero", "Identity", "setIdentity", "Ones", "setOnes", "Random")
def x_const(self, e, S, obj, args):
    fn = e["fn"]
    if not fn.startswith("Eigen::"):
        return NotImplemented
    b = fn.rsplit("::", 1)[-1]
    vals = [self.ev(x, S) for x in args]
    st = b.startswith("set")
    lv = olv_of(self, obj, S) if st else None
    d = dims(obj.get("t")) if st else dims(e.get("t"))
    kind = b[3:] if st else b
    if len(vals) == 1:
        vals = [vals[0], ONE if (d and d[1] == 1) else vals[0]]
    if kind == "Zero":
        if not vals and d and d[0] >= 0 and d[1] >= 0:
            v = ZERO
        elif not vals:
            if isinstance(lv, LBlk):
                v = ZERO
            else:
                cur = self.read(S, lv)
                v = mk("app", "Zero", rows_of(cur), rows_of(cur, None, "cols"), mat=True)
        else:
            v = mk("app", "Zero", *vals, mat=True)
    elif kind == "Identity":
        v = I
    elif kind == "Random":
        v = mk("app", "Random", *vals, mat=True)
    else:
        if not vals and d:
            vals = [num(d[0]), num(d[1])]
        v = mk("app", "Ones", *vals, mat=True)
    if st:
        self.write(S, lv, v)
        return lv
    return v


@ext("block", "topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner", "topRows", "bottomRows", "leftCols", "rightCols",
     "middleRows", "middleCols", "row", "col", "head", "tail", "segment")
def x_block(self, e, S, obj, args):
    fn = e["fn"]
    if not fn.startswith("Eigen::"):
        return NotImplemented
    b = fn.rsplit("::", 1)[-1]
    lv = self.lval(obj, S)
    if isinstance(lv, T):
        lv = LTmp(lv)
    ta = [x for x in e.get("ta", []) if isinstance(x, int)]
    v = [self.ev(x, S) for x in args]
    ot = obj.get("t")
    d = dims(ot)
    M = self.read(S, lv, ot)
    R, C = rows_of(M, ot), rows_of(M, ot, "cols")
    vec_row = d and d[0] == 1 and d[1] != 1
    if b == "block":
        if len(v) == 4:
            r, c, h, w = v
        else:
            r, c = v[0], v[1]
            h, w = num(ta[0]), num(ta[1])
    elif b in ("head", "tail", "segment"):
        n = num(ta[0]) if ta else v[-1]
        N = C if vec_row else R
        off = ZERO if b == "head" else (sub(N, n) if b == "tail" else v[0])
        r, c, h, w = (ZERO, off, ONE, n) if vec_row else (off, ZERO, n, ONE)
    elif b == "row":
        r, c, h, w = v[0], ZERO, ONE, C
    elif b == "col":
        r, c, h, w = ZERO, v[0], R, ONE
    elif b in ("topRows", "bottomRows"):
        n = num(ta[0]) if ta else v[-1]
        r, c, h, w = (ZERO if b == "topRows" else sub(R, n)), ZERO, n, C
    elif b in ("leftCols", "rightCols"):
        n = num(ta[0]) if ta else v[-1]
        r, c, h, w = ZERO, (ZERO if b == "leftCols" else sub(C, n)), R, n
    elif b in ("middleRows", "middleCols"):
        n = num(ta[0]) if ta else v[1]
        r, c, h, w = (v[0], ZERO, n, C) if b == "middleRows" else (ZERO, v[0], R, n)
    else:
        h, w = (num(ta[0]), num(ta[1])) if len(ta) == 2 else (v[0], v[1])
        r = ZERO if b.startswith("top") else sub(R, h)
        c = ZERO if "Left" in b else sub(C, w)
    if isinstance(lv, LBlk) and not lv.el:
        return LBlk(lv.lv, add(lv.r, r), add(lv.c, c), h, w, dims=lv.dims)
    return LBlk(lv, r, c, h, w, dims=d)


@ext("rows", "cols")
def x_rows(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    return rows_of(self.ev(obj, S), obj.get("t"), e["fn"].rsplit("::", 1)[-1])


@ext("transpose", "adjoint")
def x_tr(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    v = self.ev(obj, S)
    return tr(v) if v.mat or v.op == "poly" else (mk("tr", v, mat=True) if ismat(obj.get("t")) and v.op != "num" else v)


@ext("transposeInPlace")
def x_trip(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    self.write(S, lv, tr(self.read(S, lv)))
    return mk("sym", "void")


@ext("inverse")
def x_inv(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    v = self.ev(obj, S)
    return inv(v)


def inv(v):
    if is_rot(v):
        return tr(v)
    if v.op == "app" and v.a[0] == "inverse":
        return v.a[1]
    if v is I:
        return I
    if v.op == "ite":
        return ite(v.a[0], inv(v.a[1]), inv(v.a[2]))
    if v.op == "poly" and len(v.a) == 1:
        c, s, m = v.a[0]
        if (c != 1 or s) and m:
            return mul(from_poly({(tuple((x, -k) for x, k in s), ()): 1 / c}), inv(from_poly({((), m): Fr(1)})))
        if len(m) > 1 and all(is_rot(x) for x in m):
            return tr(v)
    return mk("app", "inverse", v, mat=True)


APP_REBUILD["inverse"] = inv
APP_REBUILD["rows"] = lambda m: rows_of(m, None, "rows")
APP_REBUILD["cols"] = lambda m: rows_of(m, None, "cols")
APP_REBUILD["trunc"] = trunc
APP_REBUILD["abs"] = lambda a: absT(a)


@ext("norm", "squaredNorm")
def x_norm(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    v = self.ev(obj, S)
    n2 = s11(mul(tr(v), v)) if v.mat else mul(v, v)
    return n2 if e["fn"].endswith("squaredNorm") else power(n2, HALF)


@ext("dot")
def x_dot(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    return s11(mul(tr(self.ev(obj, S)), self.ev(args[0], S)))


@ext("cross")
def x_cross(self, e, S, obj, args):
    return mul(skew(self.ev(obj, S)), self.ev(args[0], S))


@ext("normalized")
def x_normalized(self, e, S, obj, args):
    v = self.ev(obj, S)
    return mul(v, power(s11(mul(tr(v), v)), -HALF))


@ext("normalize")
def x_normalize(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    v = self.read(S, lv)
    self.write(S, lv, mul(v, power(s11(mul(tr(v), v)), -HALF)))
    return mk("sym", "void")


@ext("cast")
def x_cast(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    ta = [x for x in e.get("ta", []) if isinstance(x, str)]
    if ta and ta[0] == "float":
        return f32(self.ev(obj, S))
    if ta and ta[0] == "double":
        return self.lval(obj, S)
    return NotImplemented


@ext("selfadjointView")
def x_sadj(self, e, S, obj, args):
    return mk("app", "selfadj", self.ev(obj, S), mat=True)


@ext("triangularView")
def x_triu(self, e, S, obj, args):
    lv = olv_of(self, obj, S)
    ta = [x for x in e.get("ta", []) if isinstance(x, int)]
    return LTri(lv, ta[0] if ta else 0)


@ext("diagonal")
def x_diag(self, e, S, obj, args):
    if not e["fn"].startswith("Eigen::"):
        return NotImplemented
    ta = [x for x in e.get("ta", []) if isinstance(x, int)]
    k = self.ev(args[0], S) if args else num(ta[0] if ta else 0)
    lv = olv_of(self, obj, S)
    return mk("app", "diagonal", k, lv, mat=True) if isinstance(lv, T) else LDiag(lv, k)


class LDiag(LV):
    """the k-th diagonal of a matrix"""
    __slots__ = ("lv", "k")

    def __init__(s, l, k):
        s.lv, s.k = l, k


def add_to_diag(M, d):
    """M with d added along its main diagonal, as a sum of matrices; None when d is not a multiple of Ones"""
    out = {}
    for (sm, ms), c in poly_of(d).items():
        if len(ms) != 1 or ms[0].op != "app" or ms[0].a[0] != "Ones":
            return None
        out[(sm, (I,))] = out.get((sm, (I,)), 0) + c
    return add(M, from_poly(out))


class LTri(LV):
    __slots__ = ("lv", "mode")

    def __init__(s, l, m):
        s.lv, s.mode = l, m


_read0, _write0 = Interp.read, Interp.write


def _read(self, S, lv, t=None):
    if isinstance(lv, LTri):
        return mk("app", "tri", num(lv.mode), self.read(S, lv.lv), mat=True)
    if isinstance(lv, LDiag):
        return mk("app", "diagonal", lv.k, self.read(S, lv.lv), mat=True)
    if isinstance(lv, PairLV):
        return mk("rec", (("first", lv.key), ("second", self.read(S, lv.el))))
    if isinstance(lv, _MapLV):
        return self.read(S, lv.lv, t)
    return _read0(self, S, lv, t)


def _write(self, S, lv, v):
    if isinstance(lv, LDiag):
        M, v = self.read(S, lv.lv), self.asT(S, v)
        r = add_to_diag(M, sub(v, mk("app", "diagonal", lv.k, M, mat=True))) if lv.k is ZERO else None
        return self.write(S, lv.lv, r if r is not None else mk("app", "setdiag", M, lv.k, v, mat=True))
    if isinstance(lv, LTri):
        M = self.read(S, lv.lv)
        return self.write(S, lv.lv, mk("app", "setri", num(lv.mode), M, self.asT(S, v), mat=True))
    if isinstance(lv, PairLV):
        return self.write(S, lv.el, getf(self.asT(S, v), "second"))
    if isinstance(lv, _MapLV):
        return self.write(S, lv.lv, v)
    return _write0(self, S, lv, v)


Interp.read, Interp.write = _read, _write


@ext("solve")
def x_solve(self, e, S, obj, args):
    a, b = self.ev(obj, S), self.ev(args[0], S)
    return mk("app", "solve", a, b, mat=True)


@ext("solveInPlace")
def x_solveip(self, e, S, obj, args):
    a = self.ev(obj, S)
    lv = olv_of(self, args[0], S)
    self.write(S, lv, mk("app", "solve", a, self.read(S, lv), mat=True))
    return mk("sym", "void")


@ext("pow")
def x_pow(self, e, S, obj, args):
    a, b = self.ev(args[0], S), self.ev(args[1], S)
    if b.op == "num" and (b.a[0].denominator in (1, 2)) and abs(b.a[0]) <= 12:
        return power(a, b.a[0])
    return mk("app", "pow", a, b)


@ext("sqrt")
def x_sqrt(self, e, S, obj, args):
    a = self.ev(args[0], S)
    if a.op == "num":
        import math
        n, d = a.a[0].numerator, a.a[0].denominator
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return num(Fr(math.isqrt(n), math.isqrt(d)))
    return power(a, HALF)


@ext("abs", "fabs")
def x_abs(self, e, S, obj, args):
    if obj is not None:
        return NotImplemented
    a = self.ev(args[0], S)
    return absT(a)


def absT(a):
    if a.op == "num":
        return num(abs(a.a[0]))
    if a.op == "poly" and not a.mat:
        lead = a.a[0][0]
        if lead < 0:
            a = neg(a)
    return mk("app", "abs", a)


@ext("min", "max")
def x_minmax(self, e, S, obj, args):
    if obj is not None or len(args) != 2:
        return NotImplemented
    a, b = self.ev(args[0], S), self.ev(args[1], S)
    return minmax(e["fn"].rsplit("::", 1)[-1], a, b, isint(args[0].get("t")))


def minmax(k, a, b, integral):
    c = lt(a, b, integral)
    if c.op == "bool":
        return (a if c is TRUE else b) if k == "min" else (b if c is TRUE else a)
    return ite(c, a, b) if k == "min" else ite(c, b, a)


for _n, _c in SCALARF.items():
    def _mkf(c):
        def f(self, e, S, obj, args):
            if obj is not None:
                return NotImplemented
            return mk("app", c, *[self.ev(x, S) for x in args])
        return f
    EXT[_n] = _mkf(_c)


@ext("make_shared", "make_unique")
def x_make_shared(self, e, S, obj, args):
    t = bare(e.get("t"))
    ty = t[t.find("<") + 1:-1] if "<" in t else t
    ty = ty.split("<")[0] if not ty.startswith("std::") else ty
    vals = [self.ev(x, S) for x in args]
    return self.newptr(e, ty, vals)


@ext("make_pair")
def x_make_pair(self, e, S, obj, args):
    return mk("rec", (("first", self.ev(args[0], S)), ("second", self.ev(args[1], S))))


@ext("dynamic_pointer_cast", "static_pointer_cast", "move", "forward", "ref", "cref")
def x_id(self, e, S, obj, args):
    if obj is not None:
        return NotImplemented
    return self.lval(args[0], S)


@ext("std::distance")
def x_distance(self, e, S, obj, args):
    a, b = self.pyval(args[0], S), self.pyval(args[1], S)
    if isinstance(a, Iter) and isinstance(b, Iter):
        return sub(b.pos, a.pos)
    return NotImplemented


@ext("next", "prev", "advance")
def x_next(self, e, S, obj, args):
    if obj is not None or not e["fn"].startswith("std::"):
        return NotImplemented
    a = self.pyval(args[0], S)
    k = self.ev(args[1], S) if len(args) > 1 else ONE
    if isinstance(a, Iter):
        return Iter(a.lv, add(a.pos, k if not e["fn"].endswith("prev") else neg(k)), a.rev)
    return NotImplemented


@ext("sort", "stable_sort")
def x_sort(self, e, S, obj, args):
    if obj is not None or not e["fn"].startswith("std::"):
        return NotImplemented
    a = self.pyval(args[0], S)
    if isinstance(a, Iter):
        C = self.read(S, a.lv)
        cmp_ = []
        if len(args) > 2:
            f = self.pyval(args[2], S)
            cmp_ = [self.asT(S, f)]
        self.write(S, a.lv, mk("app", "sorted", C, *cmp_))
        return mk("sym", "void")
    return NotImplemented


@ext("swap")
def x_swap(self, e, S, obj, args):
    if obj is not None:
        x, y = olv_of(self, obj, S), olv_of(self, args[0], S)
    else:
        x, y = olv_of(self, args[0], S), olv_of(self, args[1], S)
    a, b = self.read(S, x), self.read(S, y)
    self.write(S, x, b)
    self.write(S, y, a)
    return mk("sym", "void")


@ext("assign")
def x_assign(self, e, S, obj, args):
    if not e["fn"].startswith("std::vector"):
        return NotImplemented
    lv = olv_of(self, obj, S)
    pos = [self.pyval(x, S) for x in args]
    if len(pos) == 2 and all(isinstance(p, Iter) for p in pos):
        self.write(S, lv, self.rangecopy(S, pos[0], pos[1]))
    else:
        self.write(S, lv, mk("app", "filled", *[self.rd(S, p, x) for p, x in zip(pos, args)]))
    return mk("sym", "void")


@ext("remove_if")
def x_removeif(self, e, S, obj, args):
    a = self.pyval(args[0], S)
    if isinstance(a, Iter):
        C = self.read(S, a.lv)
        return Iter(a.lv, mk("app", "removeif", C, self.ev(args[2], S)))
    return NotImplemented


@ext("min_element", "max_element", "lower_bound", "upper_bound")
def x_minel(self, e, S, obj, args):
    b = e["fn"].rsplit("::", 1)[-1]
    if obj is not None:
        for k in MAPS:
            if e["fn"].startswith(k + "::"):
                lv = olv_of(self, obj, S)
                return Iter(_MapLV(lv, "set" in k), mk("app", b, self.read(S, lv), self.ev(args[0], S)))
        return NotImplemented
    a = self.pyval(args[0], S)
    if isinstance(a, Iter):
        C = self.rangecopy(S, a, self.pyval(args[1], S))
        return Iter(a.lv, mk("app", b, C, *[self.ev(x, S) for x in args[2:]]))
    return NotImplemented


@ext("cv::parallel_for_")
def x_parfor(self, e, S, obj, args):
    r = self.ev(args[0], S)
    f = self.pyval(args[1], S)
    if isinstance(f, LV):
        f = self.asT(S, f)
    if isinstance(f, Lam) and len(f.node["ps"]) == 1:
        # body(Range) iterates range.start..range.end
        vs = r.a[1:] if r.op == "app" else ()
        saved = S.env.get(f.node["ps"][0]["id"])
        S.env[f.node["ps"][0]["id"]] = mk("setf", mk("app", "rng"), (("Range.end", vs[1]), ("Range.start", vs[0]))) if len(vs) == 2 else r
        for k, v in f.env.items():
            if not (isinstance(v, Ref) and isinstance(v.lv, LVar) and v.lv.id == k):
                S.env[k] = v
        self.stack.append("lambda")
        try:
            S2, _ = self.run_body(S, f.node["body"], f.this)
        finally:
            self.stack.pop()
        if S2 is not None:
            self.assign_state(S, S2)
        return mk("sym", "void")
    return NotImplemented


@ext("bind")
def x_bind(self, e, S, obj, args):
    return NotImplemented


@ext("load", "operator bool", "operator double", "operator int", "store")
def x_atomic(self, e, S, obj, args):
    if e["fn"].startswith(("std::atomic", "std::__atomic")):
        if e["fn"].endswith("store"):
            self.write(S, olv_of(self, obj, S), self.ev(args[0], S))
            return mk("sym", "void")
        return self.lval(obj, S)
    if e["fn"].startswith(("std::__shared_ptr", "std::shared_ptr", "std::unique_ptr", "cv::Ptr")):
        return bnot(eq(self.ev(obj, S), mk("sym", "nullptr"), numeric=False))
    if "dense_product_base" in e["fn"]:
        return s11(self.ev(obj, S))
    return NotImplemented


@ext("coeff", "coeffRef")
def x_coeff(self, e, S, obj, args):
    return self.element(S, obj, [self.ev(x, S) for x in args])


@ext("x", "y", "z", "w")
def x_xyz(self, e, S, obj, args):
    if e["fn"].startswith("Eigen::DenseCoeffsBase"):
        return self.element(S, obj, [num("xyzw".index(e["fn"][-1]))])
    return NotImplemented


@ext("to_string", "__builtin_expect")
def x_tostr(self, e, S, obj, args):
    if e["fn"] == "__builtin_expect":
        return self.ev(args[0], S)
    return mk("app", "to_string", self.ev(args[0], S))


# ------------------------------------------------------------------ summaries
def summarize(P, E, f, known=None, keep=False, make=None, **kw):
    """slot -> term for function f (dict of the IR); plus notes and the set of inlined callees"""
    if not keep:
        reset()
    if not FIELDMAT:
        for c in P.classes.values():
            for fl in c.get("fields", []):
                FIELDMAT[short(c["n"]) + "." + fl["n"]] = ismat(fl["t"])
        FIELDMAT["*map"] = True
    I_ = (make or Interp)(P, E, known, **kw)
    S = State()
    pn = []
    for i, p in enumerate(f["ps"]):
        t = p["t"]
        S.env[p["id"]] = mk("sym", f"p{i}", mat=ismat(t))
        if ismat(t):
            setmat(S.env[p["id"]])
    this = mk("sym", "this")
    I_.stack = []
    I_.top = f["key"]
    I_.this = this
    # constructor initialisers
    for i in f.get("inits", []):
        if "m" in i and i.get("e") is not None:
            v = I_.val(i["e"], S)
            I_.write_py(S, LFld(this, short(f["cls"]) + "." + i["m"]), v)
        elif "base" in i and i.get("e") is not None:
            v = I_.ev(i["e"], S)
            S.heap[(this, "base:" + short(i["base"].split("<")[0]))] = v
    I_.retref = False
    o = I_.exec_block(nostmts(f["body"]), S)
    slots = {}
    fin = o.n
    if o.ret:
        c, st, v = o.ret
        fin = I_.merge(c, st, o.n) if o.n is not None else st
        if v is not None:
            slots["ret"] = I_.asT(st, v)
            if bare(f.get("rt")) == "bool":
                slots["ret"] = as_bool(slots["ret"])
    if o.halt is not FALSE:
        slots["halt"] = o.halt
    lines = {}
    if I_.allocarg:
        S2 = fin if fin is not None else State()
        m = I_.settle_rest(S2, [x for x in slots.values()])
        if m:
            memo = {}
            slots = {k: subst(x, m, memo) for k, x in slots.items()}
            I_.rename(S2, m)
    if fin is not None:
        for i, p in enumerate(f["ps"]):
            t = p["t"]
            if t.startswith("R<") and not t.startswith("R<const"):
                v = fin.env.get(p["id"])
                v = I_.asT(fin, v) if v is not None else None
                if v is not None and v is not mk("sym", f"p{i}"):
                    slots[f"param{i}:{p['n']}" if False else f"param{i}"] = v
        # what has been written to a file opened here is observable after the function has returned
        outs = [n["id"] for n in ir_walk(f["body"]) if n["k"] == "vd" and "ofstream" in n.get("t", "")[:30]]
        for i, x in enumerate(outs):
            v = fin.env.get(x)
            v = I_.asT(fin, v) if v is not None else None
            if v is not None:
                slots[f"file:{i}"] = v
        for (b, n), v in fin.heap.items():
            v = I_.asT(fin, v)
            init = I_.initval(State(), (b, n), v)
            if v is init:
                continue
            key = f"{pp(b, 4) if b is not None else 'global'}.{n}" if True else n
            k = "heap:" + (short_hash(b) if b is not None else "global") + ":" + n
            slots[k] = mk("loc", b if b is not None else mk("sym", "global"), n, v)
            lines[k] = I_.lastline.get((b, n), 0)
        for n, v in fin.bulk.items():
            slots["bulk:" + n] = v
            lines["bulk:" + n] = I_.lastline.get(("bulk", n), 0)
    return slots, I_, lines


def short_hash(t):
    return t.a[0] if t.op == "sym" else t.h.hex()[:10]


freeze_base()


@ext("makeGivens")
def x_givens(self, e, S, obj, args):
    """overwrites the whole rotation"""
    lv = olv_of(self, obj, S)
    self.write(S, lv, mk("app", "givens", *[self.ev(x, S) for x in args]))
    return mk("sym", "void")

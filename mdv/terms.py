"""Hash-consed terms over mathematical reals (R), integers (I) and booleans (B),
with a polynomial normal form (rational functions over opaque atoms).

Concrete values are plain Python objects: bool (B), int (I), Fraction (R)."""
import time
from fractions import Fraction as Fr
import math

_tab = {}


class T:
    __slots__ = ("op", "args", "sort", "id", "lo", "hi", "_nf", "_fv", "_sz")

    def __repr__(self):
        return show(self, 6)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


def _ck(a):
    return ("t", a.id) if isinstance(a, T) else (type(a).__name__, a)


def mk(op, args, sort, lo=None, hi=None):
    key = (op, sort) + tuple(_ck(a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.id = len(_tab) + 1
        t.lo = lo
        t.hi = hi
        t._nf = None
        t._fv = None
        t._sz = None
        _tab[key] = t
    return t


def is_t(x):
    return isinstance(x, T)


def sort_of(x):
    if isinstance(x, T):
        return x.sort
    if isinstance(x, bool):
        return "B"
    if isinstance(x, int):
        return "I"
    return "R"


def show(x, d=4):
    if not isinstance(x, T):
        if isinstance(x, Fr):
            return str(x) if x.denominator < 100000 else "%.12g" % float(x)
        return str(x)
    if x.op in ("var", "def"):
        return x.args[0] if len(x.args) == 1 else "%s[%s]" % (x.args[0], show(x.args[1], d - 1))
    if d == 0:
        return "..#%d" % x.id
    if x.op == "uf":
        return "%s(%s)" % (x.args[0], ", ".join(show(a, d - 1) for a in x.args[1:]))
    inf = {"add": "+", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "sub": "-", "and": "&&", "or": "||"}
    if x.op in inf:
        return "(" + (" %s " % inf[x.op]).join(show(a, d - 1) for a in x.args) + ")"
    return "%s(%s)" % (x.op, ", ".join(show(a, d - 1) for a in x.args))


# ---------------------------------------------------------------- leaves
def var(name, sort, lo=None, hi=None):
    return mk("var", (name,), sort, lo, hi)


_defs = {}


def define(name, body):
    """An opaque atom standing for `body` (unfolded by the prover on demand)."""
    if not isinstance(body, T) or body.op in ("var", "def", "uf"):
        return body
    t = mk("def", (name,), body.sort, body.lo if body.sort == "I" else None, body.hi if body.sort == "I" else None)
    if t.id not in _defs:
        _defs[t.id] = body
    return t


LAMS = {}  # name -> (bound var, body, frozenset of free vars)


def lam_app(name, idx):
    """application of a loop-summary function (opaque until unfolded)"""
    bv, body, _fv = LAMS[name]
    if isinstance(body, T) and bv not in free_vars(body):
        return body
    if not isinstance(body, T) or body.op == "var":
        return subst(body, {LAMS[name][0]: idx})
    lo = hi = None
    if body.sort == "I":
        lo, hi = body.lo, body.hi
    return mk("def", (name, idx), body.sort, lo, hi)


def body_of(t):
    b = _defs.get(t.id)
    if b is None:
        bv, body, _fv = LAMS[t.args[0]]
        b = _defs[t.id] = subst(body, {bv: t.args[1]})
    return b


def bound_var(depth, sort="I"):
    return var("$b%d" % depth, sort)


def bv_depth(body):
    d = 0
    st = [body]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var" and x.args[0].startswith("$b"):
            d = max(d, int(x.args[0][2:]))
        elif x.op == "def":
            if len(x.args) > 1:
                st.append(x.args[1])
                st.extend(LAMS[x.args[0]][2])
            else:
                st.append(_defs[x.id])
        else:
            st.extend(x.args)
    return d


def free_vars(t, memo={}):
    """set of var terms, through defs"""
    if not isinstance(t, T):
        return frozenset()
    r = t._fv
    if r is not None:
        return r
    # iterative post-order
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x._fv is not None:
            continue
        if x.op == "var":
            x._fv = frozenset((x,))
            continue
        if x.op == "def":
            if len(x.args) > 1:
                kids = [x.args[1]] if isinstance(x.args[1], T) else []
                extra = LAMS[x.args[0]][2]
            else:
                kids = [_defs[x.id]]
                extra = frozenset()
        else:
            kids = [a for a in x.args if isinstance(a, T)]
            extra = frozenset()
        kids = [k for k in kids if isinstance(k, T)]
        if not done:
            stack.append((x, True))
            for k in kids:
                if k._fv is None:
                    stack.append((k, False))
            continue
        s = set(extra)
        for k in kids:
            s |= k._fv
        x._fv = frozenset(s)
    return t._fv


def make_lam(body, n):
    """abstract body over var n; returns lam name"""
    d = bv_depth(body) + 1
    bv = bound_var(d)
    b2 = subst(body, {n: bv})
    name = "lam%s" % (b2.id if isinstance(b2, T) else "c%s" % b2)
    if name not in LAMS:
        LAMS[name] = (bv, b2, free_vars(b2) - {bv})
    return name


def make_sum(body, n, lo, hi):
    """sum_{n=lo}^{hi-1} body, linear in monomials independent of n"""
    d = bv_depth(body) + 1
    bv = bound_var(d)
    b2 = subst(body, {n: bv})
    return sum_bv(b2, bv, lo, hi)


def _sum_cases(b2, bv, lo, hi):
    """sum of a body that is constant but for finitely many named indices"""
    corr = []
    t = b2
    while isinstance(t, T) and t.op == "ite":
        c = t.args[0]
        if not (isinstance(c, T) and c.op == "eq" and (c.args[0] is bv or c.args[1] is bv)):
            return None
        e = c.args[1] if c.args[0] is bv else c.args[0]
        if isinstance(e, T) and bv in free_vars(e):
            return None
        corr.append((e, sub(subst(t.args[1], {bv: e}), subst(t.args[2], {bv: e}))))
        t = t.args[2]
    if not corr or (isinstance(t, T) and bv in free_vars(t)):
        return None
    tot = mul(t, toreal(sub(hi, lo)))
    for e, d in corr:
        tot = add(tot, ite(and_(le(lo, e), lt(e, hi)), d, Fr(0)))
    return tot


def sum_bv(b2, bv, lo, hi):
    if not isinstance(lo, T) and not isinstance(hi, T):
        if hi <= lo:
            return Fr(0)
        if hi - lo <= 12:
            r = Fr(0)
            for k in range(lo, hi):
                r = add(r, subst(b2, {bv: k}))
            return r
    cl = _sum_cases(b2, bv, lo, hi)
    if cl is not None:
        return cl
    p = nf(b2)
    tot = Fr(0)
    for m, c in sorted(p.items()):
        dep = []
        ind = c
        for a, e in m:
            at = _byid[a]
            if bv in free_vars(at):
                dep.append((a, e))
            else:
                for _ in range(e):
                    ind = mul(ind, at)
        if not dep:
            tot = add(tot, mul(ind, toreal(sub(hi, lo))))
        else:
            bt = poly_term({tuple(dep): Fr(1)})
            tot = add(tot, mul(ind, mk("sum", (bt, bv, lo, hi), "R")))
    return tot


def uf(name, args, sort, lo=None, hi=None):
    return mk("uf", (name,) + tuple(args), sort, lo, hi)


def size(t):
    """DAG-ish size (tree size capped)"""
    if not isinstance(t, T):
        return 1
    if t._sz is None:
        s = 1
        for a in t.args:
            if isinstance(a, T):
                s += size(a)
        t._sz = min(s, 10**9)
    return t._sz


def dsize(t, cap=5000):
    """number of distinct nodes, through definitions"""
    seen = set()
    st = [t]
    while st and len(seen) < cap:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "def":
            st.append(body_of(x))
        else:
            st.extend(a for a in x.args if isinstance(a, T))
    return len(seen)


# ---------------------------------------------------------------- intervals (ints)
def bounds(x):
    if isinstance(x, T):
        return x.lo, x.hi
    return x, x


def _b_add(a, b):
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    return (None if al is None or bl is None else al + bl, None if ah is None or bh is None else ah + bh)


def _b_mul(a, b):
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if None in (al, ah, bl, bh):
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            return (al * bl, None)
        return (None, None)
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    return (min(ps), max(ps))


def _b_join(a, b):
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    return (None if al is None or bl is None else min(al, bl), None if ah is None or bh is None else max(ah, bh))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a + b
    if not isinstance(a, T) and a == 0:
        return b
    if not isinstance(b, T) and b == 0:
        return a
    if not isinstance(a, T) or (isinstance(b, T) and a.id > b.id):
        a, b = b, a
    s = a.sort
    if not isinstance(b, T) and a.op == "add" and not isinstance(a.args[1], T):
        return add(a.args[0], a.args[1] + b)
    if s == "I":
        lo, hi = _b_add(a, b)
        return mk("add", (a, b), s, lo, hi)
    return mk("add", (a, b), s)


def neg(a):
    if not isinstance(a, T):
        return -a
    if a.op == "mul" and not isinstance(a.args[1], T):
        return mul(a.args[0], -a.args[1])
    return mul(a, -1 if a.sort == "I" else Fr(-1))


def sub(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a - b
    if a is b:
        return 0 if sort_of(a) == "I" else Fr(0)
    if sort_of(a) == "I":
        # keep integer differences in affine normal form
        return simp_int(add(a, neg(b)))
    return add(a, neg(b))


def mul(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a * b
    if not isinstance(a, T):
        a, b = b, a
    if not isinstance(b, T):
        if b == 0:
            return b
        if b == 1:
            return a
        if a.op == "mul" and not isinstance(a.args[1], T):
            return mul(a.args[0], a.args[1] * b)
    elif a.id > b.id:
        a, b = b, a
    if a.sort == "I":
        lo, hi = _b_mul(a, b)
        return mk("mul", (a, b), "I", lo, hi)
    return mk("mul", (a, b), a.sort)


def div(a, b):
    """real division"""
    if not isinstance(b, T):
        if b == 0:
            return mk("div", (a, b), "R")
        return mul(a, 1 / Fr(b))
    if not isinstance(a, T) and a == 0:
        # 0/b is kept symbolic only when b may be 0; callers emit the obligation
        return Fr(0)
    return mk("div", (a, b), "R")


def fn(name, *args):
    """named real function with light simplification"""
    if name == "sqrt":
        a = args[0]
        if not isinstance(a, T):
            if a >= 0:
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    return Fr(n, d)
        return mk("sqrt", args, "R")
    if name == "abs":
        a = args[0]
        if not isinstance(a, T):
            return abs(a)
        if a.op in ("sqrt", "abs"):
            return a
        return ite(lt(a, zero_like(a)), neg(a), a)
    if name == "sin" and args[0] == 0 and not isinstance(args[0], T):
        return Fr(0)
    if name == "cos" and not isinstance(args[0], T) and args[0] == 0:
        return Fr(1)
    if name in ("sin", "cos") and isinstance(args[0], T):
        a, sg = args[0], 1
        if a.op == "def" and isinstance(body_of(a), T) and body_of(a).op in ("atan2", "neg", "mul"):
            a = body_of(a)
        if a.op == "neg":
            a, sg = a.args[0], -1
        elif a.op == "mul" and len(a.args) == 2 and -1 in (x for x in a.args if not isinstance(x, T)):
            a, sg = a.args[1] if isinstance(a.args[1], T) else a.args[0], -1
        if isinstance(a, T) and a.op == "def" and isinstance(body_of(a), T) and body_of(a).op == "atan2":
            a = body_of(a)
        if isinstance(a, T) and a.op == "atan2":
            y, x = a.args
            h2 = add(mul(x, x), mul(y, y))
            if name == "sin":
                return ite(eq(h2, Fr(0)), Fr(0), mul(Fr(sg), div(y, fn("sqrt", h2))))
            return ite(eq(h2, Fr(0)), Fr(1), div(x, fn("sqrt", h2)))
    if name in ("tan",):
        return div(fn("sin", args[0]), fn("cos", args[0]))
    return mk(name, args, "R")


def zero_like(a):
    return 0 if sort_of(a) == "I" else Fr(0)


def toreal(a):
    if not isinstance(a, T):
        return Fr(a)
    return mk("toreal", (a,), "R")


def floor_(a):
    if not isinstance(a, T):
        return math.floor(a)
    if a.op == "toreal":
        return a.args[0]
    return mk("floor", (a,), "I")


def idiv(a, k):
    """floor division of int term by positive constant"""
    if not isinstance(a, T):
        return a // k
    if k == 1:
        return a
    p = int_poly(a)
    if p is not None:
        if all(c % k == 0 for c in p.values()):
            return from_int_poly({m: c // k for m, c in p.items()})
    lo, hi = bounds(a)
    return mk("idiv", (a, k), "I", None if lo is None else lo // k, None if hi is None else hi // k)


def imod(a, k):
    if not isinstance(a, T):
        return a % k
    lo, hi = bounds(a)
    if lo is not None and hi is not None and lo >= 0 and hi < k:
        return a
    return mk("imod", (a, k), "I", 0, k - 1)


# ---------------------------------------------------------------- booleans
def not_(a):
    if not isinstance(a, T):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if not isinstance(x, T):
            if not x:
                return False
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    seen = {}
    for x in out:
        seen[x.id] = x
    out = sorted(seen.values(), key=lambda t: t.id)
    for x in out:
        n = not_(x)
        if isinstance(n, T) and n.id in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    for x in xs:
        if not isinstance(x, T):
            if x:
                return True
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    seen = {}
    for x in out:
        seen[x.id] = x
    out = sorted(seen.values(), key=lambda t: t.id)
    for x in out:
        n = not_(x)
        if isinstance(n, T) and n.id in seen:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def ite(c, a, b):
    if not isinstance(c, T):
        return a if c else b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and type(a) == type(b) and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    s = sort_of(a)
    if s == "B":
        if not isinstance(a, T) and not isinstance(b, T):
            return c if a else not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, T) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if s == "I":
        # where x == k, the first value may be read with k for x
        x = None
        if c.op in ("eq", "le") and len(c.args) == 2:
            x, k = c.args
            if c.op == "eq" and not isinstance(x, T):
                x, k = k, x
            if not (isinstance(x, T) and x.op == "var" and not isinstance(k, T)) or (c.op == "le" and bounds(x)[0] != k):
                x = None
        if x is not None:
            if isinstance(a, T) and a.op in ("mul", "add", "var"):
                a = subst(a, {x: k})
            q = subst(b, {x: k}) if isinstance(b, T) and b.op in ("mul", "add", "var") else b
            if a is q or (not isinstance(a, T) and not isinstance(q, T) and a == q):
                return b
        lo, hi = _b_join(a, b)
        return mk("ite", (c, a, b), s, lo, hi)
    return mk("ite", (c, a, b), s)


def lt(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a < b
    if a is b:
        return False
    if sort_of(a) == "I":
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        if ah is not None and bl is not None and ah < bl:
            return True
        if al is not None and bh is not None and al >= bh:
            return False
        if isinstance(a, T) and isinstance(b, T):
            d = sub(a, b)
            if not isinstance(d, T):
                return d < 0
    return mk("lt", (a, b), "B")


def le(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return a <= b
    if a is b:
        return True
    if sort_of(a) == "I":
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        if ah is not None and bl is not None and ah <= bl:
            return True
        if al is not None and bh is not None and al > bh:
            return False
        if isinstance(a, T) and isinstance(b, T):
            d = sub(a, b)
            if not isinstance(d, T):
                return d <= 0
    return mk("le", (a, b), "B")


def eq(a, b):
    if a is b:
        return True
    if not isinstance(a, T) and not isinstance(b, T):
        return a == b
    s = sort_of(a)
    if s == "B":
        if not isinstance(a, T):
            a, b = b, a
        if not isinstance(b, T):
            return a if b else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if s == "I":
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        if (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh):
            return False
        # ite(c,k1,k2) == k
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == "ite" and not isinstance(y, T):
                p, q = x.args[1], x.args[2]
                if not isinstance(p, T) and not isinstance(q, T):
                    return ite(x.args[0], p == y, q == y)
                return or_(and_(x.args[0], eq(p, y)), and_(not_(x.args[0]), eq(q, y)))
        d = sub(a, b)
        if not isinstance(d, T):
            return d == 0
    if not isinstance(a, T) or (isinstance(b, T) and a.id > b.id):
        a, b = b, a
    return mk("eq", (a, b), "B")


def distribute_ite_int(x):
    return x


# ---------------------------------------------------------------- integer affine forms
def int_poly(t, depth=0):
    """{monomial-atom-id-tuple: coeff}; returns dict keyed by tuple of atom terms"""
    if not isinstance(t, T):
        return {(): t} if t else {}
    if t.op == "add":
        p = dict(int_poly(t.args[0]))
        for m, c in int_poly(t.args[1]).items():
            v = p.get(m, 0) + c
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return p
    if t.op == "mul":
        a = int_poly(t.args[0])
        b = int_poly(t.args[1])
        p = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2, key=lambda z: z.id))
                v = p.get(m, 0) + c1 * c2
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        return p
    return {(t,): 1}


def from_int_poly(p):
    r = 0
    const = 0
    for m in sorted(p, key=lambda m: tuple(z.id for z in m)):
        c = p[m]
        if m == ():
            const = c
            continue
        x = m[0]
        for z in m[1:]:
            x = mul(x, z)
        r = add(r, mul(x, c))
    return add(r, const)


def simp_int(t):
    if not isinstance(t, T) or t.sort != "I":
        return t
    r = from_int_poly(int_poly(t))
    if isinstance(r, T) and isinstance(t, T):
        if r.lo is None or (t.lo is not None and t.lo > r.lo):
            pass
    return r


# ---------------------------------------------------------------- substitution / free vars
def atoms_in(t, acc=None, seen=None):
    """all var/def/uf leaves"""
    if acc is None:
        acc, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("var", "def"):
            acc.add(x)
        else:
            if x.op == "uf":
                acc.add(x)
            st.extend(x.args)
    return acc


def contains(t, pred, through_defs=True):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            return True
        if x.op == "def":
            if through_defs:
                st.append(body_of(x))
        else:
            st.extend(x.args)
    return False


REBUILD = {}


def rebuild(op, args, sort):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "toreal":
        return toreal(*args)
    if op == "floor":
        return floor_(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op in ("sqrt", "abs"):
        return fn(op, *args)
    if op == "sum":
        return sum_bv(*args)
    if op in ("sin", "cos"):
        return fn(op, *args)
    if op == "uf" and args[0] in UF_HOOK:
        r = UF_HOOK[args[0]](args[1:], sort)
        if r is not None:
            return r
    return mk(op, tuple(args), sort)


UF_HOOK = {}  # name -> fn(args, sort): concrete-index resolution etc.


def subst(t, m, memo=None, defname=None):
    """m: dict term->value (keys are atoms). Goes through defs, creating renamed
    defs when their body changes."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    fv = free_vars(t)
    for kk in m:
        if kk.op != "var" or kk in fv:
            break
    else:
        return t
    k = t.id
    if k in memo:
        return memo[k]
    if t.op == "var":
        r = t
    elif t.op == "def" and len(t.args) > 1:
        idx = t.args[1]
        if any(v in m for v in LAMS[t.args[0]][2]):
            bv, body, lfv = LAMS[t.args[0]]
            hit = {v: m[v] for v in lfv if v in m}
            if bv in m or any(isinstance(x, T) and bv in free_vars(x) for x in hit.values()):
                r = subst(body_of(t), m, memo)
            else:
                nb = subst(body, hit)
                if not isinstance(nb, T):
                    r = nb
                else:
                    nn = "%s~%d" % (t.args[0].split("~")[0], nb.id)
                    if nn not in LAMS:
                        LAMS[nn] = (bv, nb, frozenset(v for v in free_vars(nb) if v is not bv))
                    ni = subst(idx, m, memo)
                    r = lam_app(nn, simp_int(ni) if isinstance(ni, T) else ni)
        else:
            ni = subst(idx, m, memo)
            r = t if ni is idx else lam_app(t.args[0], simp_int(ni))
    elif t.op == "def":
        b = _defs[t.id]
        nb = subst(b, m, memo)
        if nb is b:
            r = t
        else:
            r = define("d%s" % (nb.id if isinstance(nb, T) else "c"), nb)
    else:
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                x = subst(a, m, memo)
                ch = ch or (x is not a)
                na.append(x)
            else:
                na.append(a)
        if ch:
            r = rebuild(t.op, na, t.sort)
            if isinstance(r, T) and r.sort == "I" and r.op in ("add", "mul"):
                r = simp_int(r)
        else:
            r = t
    memo[k] = r
    return r


# ---------------------------------------------------------------- polynomial normal form over R
# polynomial: dict {monomial: Fr}; monomial: tuple of (atom_term_id, power) sorted
# atoms: any non-arithmetic R term; sqrt(p) atoms reduce power>=2; div -> inv atom


class TooBig(Exception):
    pass


LIMIT = [60000, None]
PI = var("PI", "R")


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    p = dict(a)
    for m, c in b.items():
        v = p.get(m)
        if v is None:
            p[m] = c
        else:
            v = v + c
            if v:
                p[m] = v
            else:
                del p[m]
    return p


def p_scale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()} if k else {}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    if _invatom:
        for a, _e in m2:
            b = _invatom.get(a)
            if b is not None and b in d and a in d:
                # x * (1/x) = 1; divisors are non-zero by a separate obligation
                k = min(d[a], d[b])
                for z in (a, b):
                    d[z] -= k
                    if not d[z]:
                        del d[z]
    return tuple(sorted(d.items()))


_invatom = {}  # atom id <-> id of its inverse atom
_byid = {}  # atom id -> term
_sqred = {}  # atom id of sqrt -> polynomial of its argument
_trig = {}  # cos atom id -> sin partner handled: sin^2 -> 1-cos^2
_invpoly = {}  # inv atom id -> polynomial


def p_mul(a, b):
    p = {}
    if len(a) * len(b) > LIMIT[0] * 4:
        raise TooBig()
    if LIMIT[1] is not None and time.time() > LIMIT[1]:
        raise TooBig()
    red = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = p.get(m)
            c = c1 * c2
            if v is None:
                p[m] = c
            else:
                v = v + c
                if v:
                    p[m] = v
                else:
                    del p[m]
    if len(p) > LIMIT[0]:
        raise TooBig()
    return p_reduce(p)


def p_reduce(p):
    """sqrt(x)^2 -> x, sin^2 -> 1 - cos^2"""
    todo = [m for m in p if any(e >= 2 and (a in _sqred or a in _trig) for a, e in m)]
    if not todo:
        return p
    p = dict(p)
    extra = {}
    for m in todo:
        c = p.pop(m)
        rest = []
        mult = [({(): Fr(1)})]
        acc = {(): c}
        for a, e in m:
            if e >= 2 and (a in _sqred or a in _trig):
                q = _sqred[a] if a in _sqred else _trig[a]
                for _ in range(e // 2):
                    acc = p_mul(acc, q)
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        acc = p_mul(acc, {tuple(rest): Fr(1)})
        extra = p_add(extra, acc)
    return p_add(p, extra)


def atom_poly(t):
    _byid[t.id] = t
    return {((t.id, 1),): Fr(1)}


def nf(t, unfold=None):
    """polynomial normal form of a real term. `unfold`: set of def ids to expand
    (None = none)."""
    if not isinstance(t, T):
        return {(): Fr(t)} if t else {}
    cache = t._nf
    uk = unfold.key if unfold is not None else 0
    if cache is not None and cache[0] == uk:
        return cache[1]
    op = t.op
    if op == "add":
        p = p_add(nf(t.args[0], unfold), nf(t.args[1], unfold))
    elif op == "mul":
        p = p_mul(nf(t.args[0], unfold), nf(t.args[1], unfold))
    elif op == "div":
        p = p_mul(nf(t.args[0], unfold), p_inv(nf(t.args[1], unfold)))
    elif op == "toreal":
        p = toreal_nf(t.args[0])
    elif op == "inv":
        p = p_inv(nf(t.args[0], unfold))
    elif op == "sqrt":
        p = p_sqrt(nf(t.args[0], unfold))
    elif op == "def":
        if unfold is not None and (unfold.all or t.id in unfold.ids):
            p = nf(body_of(t), unfold)
        else:
            p = atom_poly(t)
    elif op in ("sin", "cos"):
        p = p_trig(op, nf(t.args[0], unfold))
    elif op in ("var", "uf", "ite", "sum"):
        if op == "ite":
            # canonicalise branches
            a, b = nf(t.args[1], unfold), nf(t.args[2], unfold)
            if a == b:
                p = a
            else:
                na = mk("ite", (t.args[0], poly_term(a), poly_term(b)), "R")
                p = atom_poly(na)
        else:
            p = atom_poly(t)
    else:
        na = tuple(poly_term(nf(a, unfold)) if sort_of(a) == "R" else a for a in t.args)
        p = atom_poly(mk(op, na, t.sort))
    t._nf = (uk, p)
    return p


class Unfold:
    _n = 0
    _cache = {}

    def __init__(self, ids=(), all=False):
        self.ids = frozenset(ids)
        self.all = all
        k = (self.ids, all)
        if k not in Unfold._cache:
            Unfold._n += 1
            Unfold._cache[k] = Unfold._n
        self.key = Unfold._cache[k]


def toreal_nf(t):
    p = {}
    for m, c in int_poly(t).items():
        if m == ():
            p = p_add(p, {(): Fr(c)})
        else:
            q = {(): Fr(c)}
            for z in m:
                q = p_mul(q, atom_poly(mk("toreal", (z,), "R")))
            p = p_add(p, q)
    return p


_pt = {}


def poly_term(p):
    """a canonical term for a polynomial (used to build atom arguments)"""
    key = tuple(sorted(p.items()))
    t = _pt.get(key)
    if t is None:
        t = Fr(0)
        for m, c in sorted(p.items()):
            x = c
            for a, e in m:
                at = _byid[a]
                for _ in range(abs(e)):
                    x = mul(at, x) if e > 0 else div(x, at)
            t = add(t, x)
        _pt[key] = t
    return t


def p_const(p):
    if not p:
        return Fr(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def p_monic(p):
    """p = k * q with q canonical scaling"""
    m = max(p)
    k = p[m]
    if k == 1:
        return Fr(1), p
    return k, {mm: c / k for mm, c in p.items()}


def p_inv(p):
    c = p_const(p)
    if c is not None:
        if c == 0:
            return atom_poly(mk("div", (Fr(1), Fr(0)), "R"))
        return {(): 1 / c}
    k, q = p_monic(p)
    if len(q) == 1:
        # monomial: invert each factor
        (m, _), = q.items()
        r = {(): 1 / k}
        for a, e in m:
            at = _byid[a]
            if at.op == "inv":
                base = _invpoly[a]
                for _ in range(e):
                    r = p_mul(r, base)
            elif a in _sqred:
                # 1/sqrt(x) = sqrt(x) * inv(x)
                for _ in range(e):
                    r = p_mul(p_mul(r, atom_poly(at)), p_inv(_sqred[a]))
            else:
                ia = mk("inv", (at,), "R")
                _byid[ia.id] = ia
                _invpoly[ia.id] = {((a, 1),): Fr(1)}
                _invatom[ia.id] = a
                _invatom[a] = ia.id
                r = p_mul(r, {((ia.id, e),): Fr(1)})
        return r
    qt = poly_term(q)
    if isinstance(qt, T) and qt.op == "inv":
        return p_scale(_invpoly[qt.id], 1 / k)
    ia = mk("inv", (qt,), "R")
    _byid[ia.id] = ia
    _invpoly[ia.id] = q
    return {((ia.id, 1),): 1 / k}


def _sq_fr(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fr(n, d)
    return None


def is_one(p):
    """a rational function identically 1 (norm of a unit vector)?"""
    if len(p) > 400 or not any(a in _invpoly for m in p for a, _ in m):
        return False
    try:
        return not clear_denoms(p_add(p, {(): Fr(-1)}))
    except TooBig:
        return False


def p_sqrt(p):
    c = p_const(p)
    if c is not None:
        if c >= 0:
            s = _sq_fr(c)
            if s is not None:
                return {(): s} if s else {}
        t = mk("sqrt", (c,), "R")
        _sqred[t.id] = p
        return atom_poly(t)
    if is_one(p):
        return {(): Fr(1)}
    # pull out common factors a^4k (a^2k is non-negative whatever the sign of a)
    com = None
    for m in p:
        d = dict(m)
        com = dict(d) if com is None else {a: min(e, d.get(a, 0)) for a, e in com.items() if d.get(a, 0)}
    com = {a: e // 4 for a, e in com.items() if e >= 4}
    if com:
        q = {}
        for m, k in p.items():
            m2 = tuple((a, e - 4 * com.get(a, 0)) for a, e in m if e - 4 * com.get(a, 0))
            q[m2] = k
        return p_mul(p_sqrt(q), {tuple(sorted((a, 2 * e) for a, e in com.items())): Fr(1)})
    t = mk("sqrt", (poly_term(p),), "R")
    if t.id not in _sqred:
        _sqred[t.id] = p
        _byid[t.id] = t
    return atom_poly(t)


def p_trig(op, p):
    # sign canonicalisation
    c = p_const(p)
    if c is not None and c == 0:
        return {} if op == "sin" else {(): Fr(1)}
    sgn = 1
    m = max(p)
    if p[m] < 0:
        p = p_scale(p, -1)
        sgn = -1
    if all(v.denominator == 1 and v.numerator % 2 == 0 for v in p.values()):
        h = p_scale(p, Fr(1, 2))
        hs, hc = p_trig("sin", h), p_trig("cos", h)
        if op == "sin":
            return p_scale(p_mul(hs, hc), 2 * sgn)
        return p_add(p_scale(p_mul(hc, hc), 2), {(): Fr(-1)})
    a = poly_term(p)
    s, co = mk("sin", (a,), "R"), mk("cos", (a,), "R")
    _byid[s.id] = s
    _byid[co.id] = co
    _trig[s.id] = {(): Fr(1), ((co.id, 2),): Fr(-1)}
    if op == "sin":
        return {((s.id, 1),): Fr(sgn)}
    return {((co.id, 1),): Fr(1)}


def p_divexact(p, d, maxsteps=400):
    """exact quotient p/d of plain polynomials, or None"""
    ids = sorted({a for q in (p, d) for m in q for a, _ in m})

    def key(m):
        e = dict(m)
        return tuple(e.get(a, 0) for a in ids)
    ld = max(d, key=key)
    kd = dict(ld)
    p = dict(p)
    q = {}
    for _ in range(maxsteps):
        if not p:
            return q
        lp = max(p, key=key)
        e = dict(lp)
        if any(e.get(a, 0) < x for a, x in kd.items()):
            return None
        m = tuple(sorted((a, e[a] - kd.get(a, 0)) for a in e if e[a] - kd.get(a, 0)))
        c = p[lp] / d[ld]
        q[m] = q.get(m, 0) + c
        for md, cd in d.items():
            mm = m_mul(m, md)
            v = p.get(mm, 0) - c * cd
            if v:
                p[mm] = v
            elif mm in p:
                del p[mm]
    return None


def clear_denoms(p, rounds=12):
    """multiply polynomial equation p==0 through by denominators; assumes those
    are non-zero (separately obligated). Returns polynomial without inv atoms."""
    for _ in range(rounds):
        invs = {}
        for m in p:
            for a, e in m:
                if a in _invpoly:
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p
        # innermost-first is not needed; pick one with the smallest polynomial
        a = max(invs, key=lambda z: z)  # latest created = outermost
        k = invs[a]
        base = _invpoly[a]
        pw = [{(): Fr(1)}]
        for _i in range(k):
            pw.append(p_mul(pw[-1], base))
        groups = {}
        for m, c in p.items():
            e = 0
            rest = []
            for aa, ee in m:
                if aa == a:
                    e = ee
                else:
                    rest.append((aa, ee))
            g = groups.setdefault(e, {})
            rm = tuple(rest)
            g[rm] = g.get(rm, Fr(0)) + c
        out = {}
        for e, g in groups.items():
            out = p_add(out, p_mul({m: c for m, c in g.items() if c}, pw[k - e]))
        p = out
    return p


# ---------------------------------------------------------------- numeric evaluation
def evalf(t, env, memo=None):
    """float evaluation; env: name->value (floats/ints/bools)"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, bool):
            return t
        if isinstance(t, int):
            return t
        return float(t)
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    E = lambda x: evalf(x, env, memo)
    if op == "var":
        r = env(t)
    elif op == "def":
        r = E(body_of(t))
    elif op == "add":
        r = E(t.args[0]) + E(t.args[1])
    elif op == "mul":
        r = E(t.args[0]) * E(t.args[1])
    elif op == "div":
        d = E(t.args[1])
        r = E(t.args[0]) / d if d else float("nan")
    elif op == "sqrt":
        x = E(t.args[0])
        r = math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else float("nan"))
    elif op == "ite":
        r = E(t.args[1]) if E(t.args[0]) else E(t.args[2])
    elif op == "and":
        r = all(E(a) for a in t.args)
    elif op == "or":
        r = any(E(a) for a in t.args)
    elif op == "not":
        r = not E(t.args[0])
    elif op == "lt":
        r = E(t.args[0]) < E(t.args[1])
    elif op == "le":
        r = E(t.args[0]) <= E(t.args[1])
    elif op == "eq":
        r = E(t.args[0]) == E(t.args[1])
    elif op == "toreal":
        r = float(E(t.args[0]))
    elif op == "floor":
        r = math.floor(E(t.args[0]))
    elif op == "idiv":
        r = E(t.args[0]) // t.args[1]
    elif op == "imod":
        r = E(t.args[0]) % t.args[1]
    elif op == "inv":
        d = E(t.args[0])
        r = 1.0 / d if d else float("nan")
    elif op in ("sin", "cos", "atan2", "exp", "tanh", "sinh", "cosh", "atan", "hypot", "log", "asinh"):
        r = getattr(math, op)(*[E(a) for a in t.args])
    elif op in ("acos", "asin"):
        x = E(t.args[0])
        r = getattr(math, op)(max(-1.0, min(1.0, x))) if abs(x) <= 1 + 1e-12 else float("nan")
    elif op == "pow":
        r = E(t.args[0]) ** E(t.args[1])
    elif op == "uf":
        r = env(t, [E(a) if isinstance(a, T) else a for a in t.args[1:]])
    else:
        raise KeyError("eval " + op)
    memo[t.id] = r
    return r

"""Syntactic sign analysis over the reals under a set of assumed facts."""
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T

# sign lattice as frozensets of {-1,0,1}
ALL = frozenset((-1, 0, 1))
POS, NN, ZERO, NP, NEG, NZ = frozenset((1,)), frozenset((0, 1)), frozenset((0,)), frozenset((-1, 0)), frozenset((-1,)), frozenset((-1, 1))


def s_add(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == 0:
                out.add(y)
            elif y == 0 or x == y:
                out.add(x)
            else:
                return ALL
    return frozenset(out)


def s_mul(a, b):
    return frozenset(x * y for x in a for y in b)


def s_neg(a):
    return frozenset(-x for x in a)


class Signs:
    def __init__(self, facts, depth=40):
        self.f = {}
        self.memo = {}
        self.depth = depth
        for c in facts:
            self.fact(c, True)

    def put(self, t, s):
        if isinstance(t, T):
            if t.op == "mul" and not isinstance(t.args[1], T):
                self.put(t.args[0], s if t.args[1] > 0 else s_neg(s))
                return
            self.f[t.id] = self.f.get(t.id, ALL) & s

    def fact(self, c, val):
        if not isinstance(c, T):
            return
        if c.op == "not":
            self.fact(c.args[0], not val)
        elif c.op == "and" and val:
            for x in c.args:
                self.fact(x, True)
        elif c.op == "or" and not val:
            for x in c.args:
                self.fact(x, False)
        elif c.op in ("lt", "le", "eq"):
            a, b = c.args
            if tm.sort_of(a) not in ("R", "I"):
                return
            op = c.op
            if not val:
                if op == "eq":
                    if not isinstance(b, T) and b == 0:
                        self.put(a, NZ)
                    elif not isinstance(a, T) and a == 0:
                        self.put(b, NZ)
                    return
                a, b = b, a
                op = "le" if op == "lt" else "lt"
            # a op b
            if not isinstance(a, T):
                if op == "eq":
                    self.put(b, POS if a > 0 else ZERO if a == 0 else NEG)
                elif a >= 0:
                    self.put(b, POS if (a > 0 or op == "lt") else NN)
            if not isinstance(b, T):
                if op == "eq":
                    self.put(a, POS if b > 0 else ZERO if b == 0 else NEG)
                elif b <= 0:
                    self.put(a, NEG if (b < 0 or op == "lt") else NP)
            if isinstance(a, T) and isinstance(b, T) and op != "eq":
                # difference form
                self.put(tm.sub(b, a), POS if op == "lt" else NN)

    def sgn(self, t, d=0):
        if not isinstance(t, T):
            return POS if t > 0 else ZERO if t == 0 else NEG
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if d > self.depth:
            return ALL
        self.memo[t.id] = ALL
        r = self._sgn(t, d + 1) & self.f.get(t.id, ALL)
        if not r:
            r = ZERO
        self.memo[t.id] = r
        return r

    def _sgn(self, t, d):
        op = t.op
        a = t.args
        if op == "add":
            return s_add(self.sgn(a[0], d), self.sgn(a[1], d))
        if op == "mul":
            if a[0] is a[1]:
                s = self.sgn(a[0], d)
                return frozenset(x * x for x in s)
            return s_mul(self.sgn(a[0], d), self.sgn(a[1], d))
        if op == "div":
            s = self.sgn(a[1], d)
            s = s - {0}
            if not s:
                return ALL
            return s_mul(self.sgn(a[0], d), s)
        if op == "ite":
            return self.sgn(a[1], d) | self.sgn(a[2], d)
        if op == "def":
            return self.sgn(tm.body_of(t), d)
        if op == "fn" or op in ("sqrt", "abs", "exp", "cosh"):
            name = a[0] if op == "fn" else op
            x = a[1] if op == "fn" else a[0]
            if name == "sqrt":
                s = self.sgn(x, d)
                return POS if s == POS else ZERO if s == ZERO else NN
            if name == "abs":
                s = self.sgn(x, d)
                return POS if 0 not in s else NN
            if name in ("exp", "cosh"):
                return POS
        if op == "var" and t.args and t.args[0] == "PI":
            return POS
        if t.sort == "I":
            lo, hi = tm.bounds(t)
            out = ALL
            if lo is not None and lo >= 0:
                out = POS if lo > 0 else NN
            if hi is not None and hi <= 0:
                out = out & (NEG if hi < 0 else NP)
            return out
        if op == "inv":
            return (self.sgn(a[0], d) - {0}) or ALL
        if op == "sum":
            return self.sgn(a[0], d) | ZERO
        if op == "toreal":
            return self.sgn(a[0], d)
        return ALL

    def poly(self, p):
        """sign of a polynomial in normal form"""
        out = ZERO
        for m, c in p.items():
            s = POS if c > 0 else NEG
            for aid, e in m:
                sa = self.sgn(tm._byid[aid])
                if e % 2 == 0:
                    sa = frozenset(x * x for x in sa)
                elif e < 0:
                    sa = sa - {0} or ALL
                s = s_mul(s, sa)
            out = s_add(out, s)
            if out == ALL:
                break
        return out


def decide(goal, facts):
    """True if the goal follows by signs"""
    if not isinstance(goal, T):
        return bool(goal)
    S = Signs(facts)
    return _dec(S, goal, True)


def _dec(S, g, val):
    if not isinstance(g, T):
        return bool(g) == val
    if g.op == "not":
        return _dec(S, g.args[0], not val)
    if g.op == "and":
        return all(_dec(S, x, True) for x in g.args) if val else any(_dec(S, x, False) for x in g.args)
    if g.op == "or":
        return any(_dec(S, x, True) for x in g.args) if val else all(_dec(S, x, False) for x in g.args)
    if g.op in ("lt", "le", "eq") and tm.sort_of(g.args[0]) == "R":
        a, b = g.args
        t = tm.sub(b, a)
        want = {("lt", True): POS, ("le", True): NN, ("eq", True): ZERO, ("lt", False): NP, ("le", False): NEG, ("eq", False): NZ}[(g.op, val)]
        s = S.sgn(t)
        if s <= want:
            return True
        try:
            p = tm.nf(t)
        except tm.TooBig:
            return False
        return S.poly(p) <= want
    return False

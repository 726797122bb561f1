"""Translation of terms to z3 and small decision helpers."""
import z3
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T

_z = {}
_ufs = {}
_ax = {}


def ctx_reset():
    _z.clear()


def _srt(s):
    return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[s]


def lit(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


class Tr:
    """one translation context: which defs are unfolded; collects axioms for
    sqrt / trig / bounds atoms"""

    def __init__(self, unfold_all=False, ids=()):
        self.memo = {}
        self.ax = []
        self.seen_ax = set()
        self.unfold_all = unfold_all
        self.ids = set(ids)

    def uf(self, name, args, sort):
        zs = [self.tr(a) for a in args]
        key = (name, tuple(a.sort().name() for a in zs), sort)
        f = _ufs.get(key)
        if f is None:
            f = _ufs[key] = z3.Function("%s_%d" % (name, len(_ufs)), *([a.sort() for a in zs] + [_srt(sort)]))
        return f(*zs)

    def bnd(self, t, e):
        if t.sort == "I" and t.id not in self.seen_ax:
            self.seen_ax.add(t.id)
            if t.lo is not None:
                self.ax.append(e >= t.lo)
            if t.hi is not None and t.hi < 2 ** 62:
                self.ax.append(e <= t.hi)

    def tr(self, t):
        if not isinstance(t, T):
            return lit(t)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative to avoid deep recursion
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            kids = self.kids(x)
            todo = [k for k in kids if isinstance(k, T) and k.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self.build(x)
            stack.pop()
        return self.memo[t.id]

    def kids(self, x):
        if x.op == "def":
            if self.unfold_all or x.id in self.ids:
                return [tm.body_of(x)]
            return [a for a in x.args[1:]]
        if x.op == "sum":
            return [x.args[2], x.args[3]]
        return x.args

    def build(self, x):
        op = x.op
        a = x.args
        g = self.tr
        if op == "var":
            e = z3.Const(a[0], _srt(x.sort))
            self.bnd(x, e)
            return e
        if op == "def":
            if self.unfold_all or x.id in self.ids:
                return g(tm.body_of(x))
            if len(a) > 1:
                e = self.uf(a[0], a[1:], x.sort)
            else:
                e = z3.Const(a[0], _srt(x.sort))
            self.bnd(x, e)
            return e
        if op == "uf":
            e = self.uf(a[0], a[1:], x.sort)
            self.bnd(x, e)
            return e
        if op == "add":
            return g(a[0]) + g(a[1])
        if op == "mul":
            return g(a[0]) * g(a[1])
        if op == "div":
            q = z3.Const("div!%d" % x.id, z3.RealSort())
            d = g(a[1])
            self.ax.append(z3.Implies(d != 0, q * d == g(a[0])))
            return q
        if op == "inv":
            q = z3.Const("inv!%d" % x.id, z3.RealSort())
            d = g(a[0])
            self.ax.append(z3.Implies(d != 0, q * d == 1))
            return q
        if op == "sqrt":
            s = z3.Const("sqrt!%d" % x.id, z3.RealSort())
            d = g(a[0])
            self.ax.append(s >= 0)
            self.ax.append(z3.Implies(d >= 0, s * s == d))
            return s
        if op in ("sin", "cos"):
            s = self.uf("sin", [a[0]], "R")
            c = self.uf("cos", [a[0]], "R")
            k = ("trig", s.get_id())
            if k not in self.seen_ax:
                self.seen_ax.add(k)
                self.ax.append(s * s + c * c == 1)
            return s if op == "sin" else c
        if op == "ite":
            return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == "and":
            return z3.And([g(y) for y in a])
        if op == "or":
            return z3.Or([g(y) for y in a])
        if op == "not":
            return z3.Not(g(a[0]))
        if op == "lt":
            return g(a[0]) < g(a[1])
        if op == "le":
            return g(a[0]) <= g(a[1])
        if op == "eq":
            return g(a[0]) == g(a[1])
        if op == "toreal":
            return z3.ToReal(g(a[0]))
        if op == "floor":
            return z3.ToInt(g(a[0]))
        if op == "idiv":
            e = g(a[0]) / z3.IntVal(a[1])
            return e
        if op == "imod":
            return g(a[0]) % z3.IntVal(a[1])
        if op == "sum":
            e = z3.Const("sum!%d" % x.id, z3.RealSort())
            return e
        if op in ("acos",):
            return self.uf(op, a, "R")
        if op == "exp":
            e = self.uf("exp", a, "R")
            self.ax.append(e > 0)
            return e
        if op == "pow":
            e = self.uf("pow", a, "R")
            self.ax.append(z3.Implies(g(a[0]) >= 0, e >= 0))
            return e
        return self.uf(op, a, x.sort)


def int_only(t, memo={}):
    """does the boolean term involve only integers/booleans"""
    if not isinstance(t, T):
        return True
    r = memo.get(t.id)
    if r is None:
        if t.sort == "R":
            r = False
        elif t.op in ("var",):
            r = True
        elif t.op == "def":
            r = t.sort != "R"
        elif t.op == "uf":
            r = True
        elif t.op == "floor":
            r = False
        else:
            r = all(int_only(a) for a in t.args)
        memo[t.id] = r
    return r


class IntDecider:
    """decides integer/boolean conditions from the path condition"""

    def __init__(self, timeout_ms=800):
        self.cache = {}
        self.timeout = timeout_ms
        self.calls = 0
        self.time = 0.0

    def implied(self, pc, cond):
        """pc: list of B terms. True if pc |= cond."""
        if not isinstance(cond, T):
            return bool(cond)
        if cond.op == "and":
            return all(self.implied(pc, c) for c in cond.args)
        if cond in pc:
            return True
        if not int_only(cond):
            # purely syntactic for reals, plus disjunctions
            if cond.op == "or":
                return any(self.implied(pc, c) for c in cond.args)
            if cond.op == "le":
                return tm.lt(*cond.args) in pc or tm.eq(*cond.args) in pc
            return False
        fv = tm.free_vars(cond)
        facts = self.relevant(pc, fv)
        key = (cond.id, tuple(sorted(f.id for f in facts)))
        r = self.cache.get(key)
        if r is None:
            r = self.query(facts, cond)
            self.cache[key] = r
        return r

    def real_implied(self, pc, cond, limit=60):
        """the same over the reals, for facts that share variables with cond (loop invariants)"""
        if not isinstance(cond, T):
            return bool(cond)
        if cond in pc:
            return True
        fv = set(tm.free_vars(cond))
        facts = [f for f in pc if isinstance(f, T) and tm.free_vars(f) & fv]
        return self.query(facts[-limit:], cond)

    def relevant(self, pc, fv):
        fv = set(fv)
        cand = [f for f in pc if isinstance(f, T) and int_only(f)]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for f in cand:
                ff = tm.free_vars(f)
                if ff & fv:
                    out.append(f)
                    if not ff <= fv:
                        fv |= ff
                        ch = True
                else:
                    rest.append(f)
            cand = rest
        return out

    def query(self, facts, cond):
        import time
        # fast path: linear difference against single facts
        if cond.op in ("lt", "le") and quick_linear(facts, cond):
            return True
        t0 = time.time()
        self.calls += 1
        tr = Tr()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(z3.Not(tr.tr(cond)))
        for f in facts:
            s.add(tr.tr(f))
        for a in tr.ax:
            s.add(a)
        r = s.check() == z3.unsat
        self.time += time.time() - t0
        return r


def quick_linear(facts, cond):
    a, b = cond.args
    if tm.sort_of(a) != "I":
        return False
    # goal: b - a > 0 (lt) / >= 0 (le)  ->  g := b-a-1 >=0 or b-a>=0
    g = tm.sub(b, a)
    if cond.op == "lt":
        g = tm.sub(g, 1)
    lo, _ = tm.bounds(g)
    if lo is not None and lo >= 0:
        return True
    for f in facts:
        if f.op in ("lt", "le") and tm.sort_of(f.args[0]) == "I":
            h = tm.sub(f.args[1], f.args[0])
            if f.op == "lt":
                h = tm.sub(h, 1)
            d = tm.sub(g, h)
            lo, _ = tm.bounds(d)
            if lo is not None and lo >= 0:
                return True
    return False

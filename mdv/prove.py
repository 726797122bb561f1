"""Discharging obligations: rational-function normal form, case splitting on
conditionals with on-demand unfolding of definitions, then z3 (nonlinear)."""
import time
import os
import re
import z3
from fractions import Fraction as Fr
from . import terms as tm
from . import sign
from .terms import T
from .smt import Tr, IntDecider, int_only


TRACE = bool(os.environ.get("VP_TRACE"))


class Timeout(Exception):
    pass


class Stats:
    def __init__(self):
        self.nf = 0
        self.split = 0
        self.z3 = 0
        self.z3_time = 0.0
        self.cvc5 = 0


def canon_cond(c):
    return c


class Asm:
    """a set of assumed truth values for boolean terms"""

    def __init__(self, d=None):
        self.d = d or {}
        self.memo = {}

    def extend(self, c, val):
        d = dict(self.d)
        st = [(c, val)]
        while st:
            c, val = st.pop()
            if not isinstance(c, T):
                if bool(c) != val:
                    return None
                continue
            if c in d:
                if d[c] != val:
                    return None
                continue
            d[c] = val
            if c.op == "not":
                st.append((c.args[0], not val))
            elif c.op == "and" and val:
                st.extend((x, True) for x in c.args)
            elif c.op == "or" and not val:
                st.extend((x, False) for x in c.args)
            elif c.op in ("lt", "le"):
                a, b = c.args
                if c.op == "lt" and val:
                    st.append((tm.le(a, b), True))
                    st.append((tm.lt(b, a), False))
                    st.append((tm.le(b, a), False))
                    st.append((tm.eq(a, b), False))
                elif c.op == "lt":
                    st.append((tm.le(b, a), True))
                elif c.op == "le" and not val:
                    st.append((tm.lt(b, a), True))
            elif c.op == "eq" and val:
                a, b = c.args
                if tm.sort_of(a) != "B":
                    st.append((tm.le(a, b), True))
                    st.append((tm.le(b, a), True))
                    st.append((tm.lt(a, b), False))
                    st.append((tm.lt(b, a), False))
        return Asm(d)

    def S(self, t):
        """simplify t under the assumptions (not descending into defs)"""
        if not isinstance(t, T):
            return t
        r = self.memo.get(t.id)
        if r is not None:
            return r
        if t.sort == "B":
            v = self.d.get(t)
            if v is not None:
                self.memo[t.id] = v
                return v
        if t.op in ("var", "def"):
            self.memo[t.id] = t
            return t
        if t.op == "ite":
            c = self.S(t.args[0])
            if not isinstance(c, T):
                r = self.S(t.args[1] if c else t.args[2])
            else:
                r = tm.ite(c, self.S(t.args[1]), self.S(t.args[2]))
            self.memo[t.id] = r
            return r
        na = [self.S(a) if isinstance(a, T) else a for a in t.args]
        r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t.op, na, t.sort)
        if isinstance(r, T) and r.sort == "B":
            v = self.d.get(r)
            if v is not None:
                r = v
        self.memo[t.id] = r
        return r


def poly_atoms(p):
    out = {}
    for m in p:
        for a, e in m:
            out[a] = tm._byid[a]
    return out


def inner_defs(t, acc, seen, depth=0):
    """def atoms occurring in t (not through defs)"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "def":
            acc.append(x)
        else:
            st.extend(a for a in x.args if isinstance(a, T))
    return acc


def find_ites(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            acc.append(x)
        if x.op != "def":
            st.extend(a for a in x.args if isinstance(a, T))
    return acc


def collect_apps(t, out, limit=20000):
    """single-index uf / lambda applications, through definitions"""
    seen = set()
    st = [t]
    while st and limit:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        limit -= 1
        seen.add(x.id)
        if x.op == "uf" and len(x.args) == 2:
            l = out.setdefault(x.args[0], [])
            if not any(y is x.args[1] or (not isinstance(y, T) and y == x.args[1]) for y in l):
                l.append(x.args[1])
        if x.op == "def":
            st.append(tm.body_of(x))
        else:
            st.extend(a for a in x.args if isinstance(a, T))


class Prover:
    def __init__(self, timeout=30.0, z3_ms=8000):
        self.stats = Stats()
        self.timeout = timeout
        self.z3_ms = z3_ms
        self.idec = IntDecider(3000)
        self.relmemo = {}
        self._sg = None
        self._deep = None

    # ------------------------------------------------------------ entry
    def prove(self, ob):
        """-> (status, method, info)"""
        self.t_end = time.time() + self.timeout
        tm.LIMIT[1] = self.t_end + 1
        self.fa = ob.fa
        self.model = None
        self.relmemo = {}
        goal = ob.goal
        pc = [c for c in ob.pc if isinstance(c, T)]
        if not isinstance(goal, T) and goal:
            return "proved", "trivial", None
        try:
            if sign.decide(goal, pc):
                return "proved", "sign", None
            pc = pc + self.instances(ob.fa, pc, goal)
            if ob.fa and sign.decide(goal, pc):
                return "proved", "sign", None
            goal, pc = self.int_equalities(goal, pc)
            if not isinstance(goal, T) and goal:
                return "proved", "nf", None
            asm = Asm()
            for c in pc:
                asm = asm.extend(c, True)
                if asm is None:
                    return "proved", "vacuous-path", None
            r = self.go(goal, pc, asm, 0, ob)
        except Timeout:
            return "unknown", "timeout", None
        except tm.TooBig:
            r = None
            try:
                r = self.z3_full(goal, pc)
            except (Timeout, z3.Z3Exception):
                pass
            if r is True:
                return "proved", "z3", None
            return "unknown", "polynomial too large", None
        except RecursionError:
            return "unknown", "recursion", None
        if r is True:
            return "proved", self.method, None
        if r is False:
            return "refuted", "z3-model", self.model
        return "unknown", "undecided", self.model

    def int_equalities(self, goal, pc):
        """substitute integer variables fixed by the path condition"""
        if not isinstance(goal, T):
            return goal, pc
        for _ in range(4):
            gv = tm.free_vars(goal)
            done = True
            for f in pc:
                if not int_only(f):
                    continue
                g = f.args[0] if f.op == "not" else f
                if g.op not in ("eq", "le", "lt") or tm.sort_of(g.args[0]) != "I" or not (tm.free_vars(f) & gv):
                    continue
                a, b = g.args
                if g.op == "eq":
                    if f.op == "not":
                        continue
                    off = 0
                else:
                    off = {("lt", False): -1, ("lt", True): 0, ("le", False): 0, ("le", True): 1}[(g.op, f.op == "not")]
                    if not self.idec.implied(pc, tm.eq(a, tm.add(b, off))):
                        continue
                d = tm.sub(a, tm.add(b, off))
                if not isinstance(d, T):
                    continue
                p = tm.int_poly(d)
                lamfv = set()
                for L in tm.LAMS.values():
                    lamfv |= L[2]
                mp = None
                for m, k in sorted(p.items(), key=lambda q: len(q[0]) == 1 and q[0][0] in lamfv):
                    if len(m) == 1 and m[0].op == "var" and k in (1, -1) and m[0] in gv:
                        rest = tm.sub(m[0], tm.mul(d, k))
                        if isinstance(rest, T):
                            rest = tm.simp_int(rest)
                            if m[0] in tm.free_vars(rest):
                                continue
                        mp = {m[0]: rest}
                        break
                if mp is None:
                    continue
                goal = tm.subst(goal, mp)
                npc = []
                for c in pc:
                    c = tm.subst(c, mp)
                    if c is False:
                        return True, pc
                    if isinstance(c, T):
                        npc.append(c)
                pc = npc
                done = False
                break
            if done or not isinstance(goal, T):
                break
        return goal, pc

    def int_cases(self, t, pc):
        """resolve the integer case distinctions of t that the path condition decides"""
        conds, stack, seen = [], [t], set()
        while stack:
            x = stack.pop()
            if not isinstance(x, T) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ite" and isinstance(x.args[0], T) and int_only(x.args[0]):
                conds.append(x.args[0])
            stack.extend(a for a in x.args if isinstance(a, T))
        m = {}
        for c in conds[:12]:
            if c in m:
                continue
            if self.idec.implied(pc, c):
                m[c] = True
            elif self.idec.implied(pc, tm.not_(c)):
                m[c] = False
        return tm.subst(t, m) if m else t

    def instances(self, fa, pc, goal):
        """instances of the universally quantified facts about earlier iterations"""
        if not fa:
            return []
        apps = {}
        for t in [goal] + pc:
            collect_apps(t, apps)
        out = []
        seen = set()
        for n, lo, hi, C in fa:
            pats = {}
            collect_apps(C, pats)
            cnt = 0
            idxs = []
            for f, args in pats.items():
                if f not in apps:
                    continue
                for pa in args:
                    p = tm.int_poly(pa) if isinstance(pa, T) else {}
                    if p.get((n,), 0) != 1:
                        continue
                    b = tm.sub(pa, n)
                    for ga in apps[f]:
                        i = tm.sub(ga, b)
                        if isinstance(i, T):
                            i = tm.simp_int(i)
                            if n in tm.free_vars(i):
                                continue
                        if not any(i is x or (not isinstance(i, T) and not isinstance(x, T) and i == x) for x in idxs):
                            idxs.append(i)
            for i in idxs[:16]:
                inst = tm.subst(C, {n: i})
                if not isinstance(inst, T):
                    continue
                inst = self.int_cases(inst, pc)
                if not isinstance(inst, T):
                    continue
                g = tm.and_(tm.le(lo, i), tm.lt(i, hi))
                if isinstance(g, T) and self.idec.implied(pc, g):
                    g = True
                f = inst if g is True else tm.or_(tm.not_(g), inst)
                for c in (f.args if isinstance(f, T) and f.op == "and" else [f]):
                    if isinstance(c, T) and c.id not in seen:
                        seen.add(c.id)
                        out.append(c)
        return out

    def tick(self):
        if time.time() > self.t_end:
            raise Timeout()

    def go(self, goal, pc, asm, depth, ob):
        self.method = "nf"
        if not isinstance(goal, T):
            if goal:
                return True
            return self.infeasible(pc, asm)
        if goal.op == "and":
            for g in goal.args:
                r = self.go(g, pc, asm, depth, ob)
                if r is not True:
                    return r
            return True
        if goal.op == "or" and len(goal.args) <= 6:
            # assume the negation of all but one in turn handled by z3
            pass
        if int_only(goal):
            if self.idec.implied(pc, goal):
                self.method = "z3-int"
                self.stats.z3 += 1
                return True
        if goal.op == "eq" and tm.sort_of(goal.args[0]) == "R":
            t = tm.sub(goal.args[0], goal.args[1])
            if self.newest(t, pc, asm):
                self.stats.nf += 1
                return True
            r = self.lin_eq(t, pc, asm, 0)
            return r
        return self.ineq(goal, pc, asm)

    # ------------------------------------------------------------ equalities
    def lin(self, t):
        """linear form over structural atoms: {atom id: (atom, coeff)}, const"""
        out = {}
        st = [(t, Fr(1))]
        c0 = Fr(0)
        while st:
            x, k = st.pop()
            if not isinstance(x, T):
                c0 += k * x
                continue
            if x.op == "add":
                for a in x.args:
                    st.append((a, k))
                continue
            if x.op == "mul":
                a, b = x.args
                if not isinstance(b, T):
                    st.append((a, k * b))
                    continue
                if not isinstance(a, T):
                    st.append((b, k * a))
                    continue
            o = out.get(x.id)
            v = (o[1] if o else 0) + k
            if v:
                out[x.id] = (x, v)
            elif o:
                del out[x.id]
        return out, c0

    def lin_term(self, l, c0):
        t = c0
        for x, k in l.values():
            t = tm.add(t, tm.mul(x, k))
        return t

    def newest(self, t, pc, asm, steps=14, secs=3.0):
        """identity that already holds with most definitions left opaque: unfold the
        newest definition everywhere, one group at a time, and normalise in between"""
        t_end = time.time() + secs
        old = list(tm.LIMIT)
        tm.LIMIT[0], tm.LIMIT[1] = min(old[0], 4000), min(t_end, self.t_end)
        try:
            for _ in range(steps):
                t = asm.S(t)
                if isinstance(t, T):
                    t = self.int_ites(t, pc)[0]
                if not isinstance(t, T):
                    return t == 0
                if tm.size(t) > 2500:
                    return False
                p = tm.nf(t, None)
                if not p or (any(a in tm._invpoly for m in p for a, e in m) and not tm.clear_denoms(p)):
                    return True
                ds = inner_defs(t, [], set())
                if not ds:
                    return False
                d = max(ds, key=age)
                if TRACE:
                    print("newest", _, tm.size(t), tm.show(d, 2)[:100], [tm.show(x, 2)[:20] for x in ds][:30], flush=True)
                # components of the same value are created together
                grp = [x for x in ds if age(d) - age(x) < 64]
                t = self.unfold_defs(t, grp, asm)
                if time.time() > t_end:
                    return False
        except tm.TooBig:
            return False
        finally:
            tm.LIMIT[:] = old
        return False

    def lin_eq(self, t, pc, asm, depth):
        """structural phase: unfold definitions and split on conditionals only at
        the top of the sum, cancelling identical addends, before any expansion"""
        for _ in range(40):
            self.tick()
            t = asm.S(t)
            l, c0 = self.lin(t)
            if not l:
                if c0 == 0:
                    self.stats.nf += 1
                    return True
                break
            t = self.lin_term(l, c0)
            ites = [x for x, _k in l.values() if x.op == "ite"]
            ints = [x for x in ites if int_only(x.args[0])]
            # newest first: later definitions are expressed through earlier ones
            lams = sorted((x for x, _k in l.values() if x.op == "def"), key=lambda x: -x.id)
            if ints and depth < 14:
                c = ints[0].args[0]
                while c.op in ("and", "or", "not"):
                    c = c.args[0]
                dec = None
                if int_only(c):
                    if self.idec.implied(pc, c):
                        dec = True
                    elif self.idec.implied(pc, tm.not_(c)):
                        dec = False
                if dec is not None:
                    a2 = asm.extend(c, dec)
                    if a2 is None:
                        return True
                    asm = a2
                    continue
                self.stats.split += 1
                for val in (True, False):
                    r = self.branch(t, pc, asm, c, val, depth)
                    if r is not True:
                        return r
                return True
            if lams:
                t = self.unfold_defs(t, lams[:1], asm)
                continue
            if ites and depth < 14:
                c = min((x.args[0] for x in ites), key=lambda c: c.id)
                while c.op in ("and", "or", "not"):
                    c = c.args[0]
                if not self.norm_quiet(t):
                    self.stats.nf += 1
                    return True
                dec = self.cond_nf(c, pc)
                if TRACE:
                    print("  " * depth, "lin split", dec, c, flush=True)
                if dec is not None:
                    a2 = asm.extend(c, dec)
                    if a2 is None:
                        return True
                    asm = a2
                    continue
                self.stats.split += 1
                for val in (True, False):
                    r = self.branch(t, pc, asm, c, val, depth)
                    if r is not True:
                        return r
                return True
            # definitions inside products: substitute those that reduce to a
            # constant or another name, split on the integer conditions of others
            subst = {}
            cond = None
            for x in inner_defs(t, [], set()):
                v, c = self.resolve(x, pc, asm)
                if not isinstance(v, T) or v.op in ("def", "var"):
                    subst[x.id] = v
                elif c is not None and cond is None:
                    cond = c
            if subst:
                t = self.subst_ids(t, subst, asm)
                continue
            t2, c = self.int_ites(t, pc)
            if t2 is not t:
                t = t2
                continue
            if cond is None:
                cond = c
            if cond is None or depth >= 14:
                break
            if not self.norm_quiet(t):
                self.stats.nf += 1
                return True
            if TRACE:
                print("  " * depth, "lin int split", cond, flush=True)
            self.stats.split += 1
            for val in (True, False):
                r = self.branch(t, pc, asm, cond, val, depth)
                if r is not True:
                    return r
            return True
        if TRACE:
            print("  " * depth, "lin leaf", flush=True)
            for x, k in self.lin(t)[0].values():
                print("  " * depth, "   ", k, tm.show(x, 12)[:600], flush=True)
            for f in pc[-8:]:
                print("  " * depth, "   pc", tm.show(f, 6)[:300], flush=True)
        if not self.norm(t, None):
            self.stats.nf += 1
            return True
        # the same for the path condition, so that its comparisons are recognised
        npc = []
        for f in pc:
            if isinstance(f, T) and not int_only(f):
                try:
                    f = self.deep(f, pc, self._deepmemo(pc))
                except tm.TooBig:
                    pass
                if f is False:
                    return True
                if not isinstance(f, T):
                    continue
                a2 = asm.extend(f, True)
                if a2 is None:
                    return True
                asm = a2
            npc.append(f)
        pc = npc
        t = self.predecide(t, pc, asm)
        return self.eq(t, pc, asm, 0)

    def eq(self, t, pc, asm, depth, unfolded=frozenset()):
        self.tick()
        t = asm.S(t)
        U = tm.Unfold(unfolded) if unfolded else None
        p = self.norm(t, U)
        if not p:
            self.stats.nf += 1
            return True
        # unfold + re-simplify until no defs or zero
        rounds = 0
        while True:
            self.tick()
            atoms = poly_atoms(p)
            acc = []
            seen = set()
            for a in atoms.values():
                inner_defs(a, acc, seen)
            ites = []
            seen = set()
            for a in atoms.values():
                find_ites(a, ites, seen)
            if ites:
                break
            if not acc:
                break
            t = self.unfold_defs(tm.poly_term(p), acc, asm)
            p = self.norm(t, None)
            if not p:
                self.stats.nf += 1
                return True
            rounds += 1
            if rounds > 60:
                break
        if ites:
            # choose the condition: prefer conditions without nested ites
            best = None
            for x in ites:
                c = x.args[0]
                s = tm.size(c)
                nested = bool(find_ites(c, [], set()))
                k = (nested, s)
                if best is None or k < best[0]:
                    best = (k, c)
            c = best[1]
            # atomic condition inside and/or
            while c.op in ("and", "or", "not"):
                c = c.args[0]
            t = tm.poly_term(p)
            dec = self.cond_nf(c, pc)
            if TRACE:
                print("  " * depth, "split", dec, tm.show(c)[:300] if hasattr(tm, "show") else c, "rel", self.rel(c) and tm.poly_term(self.rel(c)[0]), flush=True)
            if dec is not None:
                a2 = asm.extend(c, dec)
                if a2 is None:
                    return True
                return self.eq(t, pc, a2, depth + 1)
            self.stats.split += 1
            for val in (True, False):
                a2 = asm.extend(c, val)
                if a2 is None:
                    continue
                pc2 = pc + [c if val else tm.not_(c)]
                if self.quick_infeasible(pc2, a2):
                    continue
                r = self.eq(t, pc2, a2, depth + 1)
                if r is not True:
                    return r
            return True
        # leaf
        q = tm.clear_denoms(p)
        if TRACE:
            print("  " * depth, "leaf", tm.poly_term(q), flush=True)
        if not q:
            self.stats.nf += 1
            return True
        r = self.z3_leaf(pc, q)
        return r

    def signs(self, pc):
        key = tuple(c.id for c in pc)
        if self._sg is None or self._sg[0] != key:
            self._sg = (key, sign.Signs(pc))
        return self._sg[1]

    def pos_denoms(self, p, pc):
        """multiply through by denominators of known sign"""
        for _ in range(10):
            invs = {}
            for m in p:
                for a, e in m:
                    if a in tm._invpoly:
                        invs[a] = max(invs.get(a, 0), e)
            if not invs:
                return p
            a = max(invs)
            k = invs[a]
            base = tm._invpoly[a]
            sg = 1
            if k % 2:
                b = self.signs(pc).poly(base) - {0}
                if len(b) != 1:
                    return p
                sg = next(iter(b))
            bk = {(): Fr(sg)}
            for _i in range(k):
                bk = tm.p_mul(bk, base)
            out = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] != a)
                pw = {(): c * sg}
                for _i in range(k - e):
                    pw = tm.p_mul(pw, base)
                out = tm.p_add(out, tm.p_mul(pw, {rest: Fr(1)}))
            p = out
        return p

    def rel(self, f, pc=()):
        """-> (monic poly, sign k, op) meaning k*poly op 0 with op in lt le eq ne, or None"""
        neg = False
        while isinstance(f, T) and f.op == "not":
            f = f.args[0]
            neg = not neg
        if not isinstance(f, T) or f.op not in ("lt", "le", "eq") or tm.sort_of(f.args[0]) != "R":
            return None
        key = (f.id, neg)
        if key in self.relmemo:
            return self.relmemo[key]
        r = None
        try:
            if tm.dsize(f, 700) < 600:
                p = tm.nf(tm.sub(f.args[0], f.args[1]), tm.Unfold(all=True))
                op = f.op
                if neg:
                    op = {"lt": "le", "le": "lt", "eq": "ne"}[op]
                    if f.op != "eq":
                        p = tm.p_scale(p, -1)
                if op in ("eq", "ne"):
                    p = {(): Fr(1)} if tm.is_one(p) else tm.clear_denoms(p)
                else:
                    p = self.pos_denoms(p, pc)
                c = tm.p_const(p)
                if c is not None:
                    r = ({}, c, op)
                else:
                    k, q = tm.p_monic(p)
                    r = (q, 1 if k > 0 else -1, op)
        except (tm.TooBig, RecursionError):
            r = None
        self.relmemo[key] = r
        return r

    def cond_nf(self, c, pc):
        """decide a real comparison by normal forms: constant, or a multiple of an assumed one"""
        r = self.rel(c, pc)
        if r is None:
            return None
        q, k, op = r
        if not q:
            return {"lt": k < 0, "le": k <= 0, "eq": k == 0, "ne": k != 0}[op]
        c0 = q.get((), Fr(0))
        u0 = {m: v for m, v in q.items() if m != ()}
        for f in pc:
            g = self.rel(f, pc)
            if g is None or not g[0]:
                continue
            if g[0] != q and len(g[0]) - (() in g[0]) == len(u0) and g[2] in ("lt", "le", "eq"):
                u1 = {m: v for m, v in g[0].items() if m != ()}
                if u1 == u0:
                    # fact: g1*(u + c1) gop 0; question: k*(u + c0) op 0, c0 != c1
                    c1 = g[0].get((), Fr(0))
                    upper = g[1] > 0 or g[2] == "eq"    # u <= -c1
                    lower = g[1] < 0 or g[2] == "eq"    # u >= -c1
                    sg = None
                    if upper and c0 < c1:
                        sg = -1                         # u + c0 < 0
                    elif lower and c0 > c1:
                        sg = 1
                    if sg is not None:
                        sg *= k
                        return {"lt": sg < 0, "le": sg < 0, "eq": False, "ne": True}[op]
            if g[0] != q:
                continue
            # fact in terms of x = k*q: s*x gop 0
            s, gop = (1 if g[1] == k else -1), g[2]
            # possible signs of x
            neg_, zero, pos = {"lt": (1, 0, 0), "le": (1, 1, 0), "eq": (0, 1, 0), "ne": (1, 0, 1)}[gop]
            if s < 0:
                neg_, pos = pos, neg_
            truth = {"lt": (1, 0, 0), "le": (1, 1, 0), "eq": (0, 1, 0), "ne": (1, 0, 1)}[op]
            vals = set(t for t, ok in zip(truth, (neg_, zero, pos)) if ok)
            if len(vals) == 1:
                return bool(vals.pop())
        if op in ("eq", "ne"):
            # divide out factors known to be non-zero
            rest = q
            for f in pc:
                g = self.rel(f, pc)
                if g is None or not g[0] or g[2] not in ("lt", "ne") or len(g[0]) > 60:
                    continue
                for _ in range(6):
                    z = tm.p_divexact(rest, g[0])
                    if z is None:
                        break
                    rest = z
                if tm.p_const(rest) is not None:
                    return op == "ne"
        x = tm.poly_term(q)
        if k < 0:
            x = tm.neg(x)
        z = Fr(0)
        pos, neg_ = {"lt": (tm.lt(x, z), tm.le(z, x)), "le": (tm.le(x, z), tm.lt(z, x)), "eq": (tm.eq(x, z), tm.not_(tm.eq(x, z))),
                     "ne": (tm.not_(tm.eq(x, z)), tm.eq(x, z))}[op]
        if pos is True or (isinstance(pos, T) and sign.decide(pos, pc)):
            return True
        if neg_ is True or (isinstance(neg_, T) and sign.decide(neg_, pc)):
            return False
        return None

    def predecide(self, t, pc, asm, cap=2500, secs=4.0):
        """drop conditionals (also inside definitions) whose condition is decided"""
        if tm.dsize(t, cap + 1) > cap:
            return t
        t_end = time.time() + secs
        memo = {}

        def go(x):
            if not isinstance(x, T) or x.op == "var":
                return x
            r = memo.get(x.id)
            if r is not None:
                return r[0]
            if time.time() > t_end:
                return x
            if x.op == "def":
                b = tm.body_of(x)
                nb = go(b)
                r = x if nb is b else (tm.define("pd%d" % x.id + "_%d" % nb.id, nb) if isinstance(nb, T) else nb)
            elif x.op == "ite":
                c = asm.S(go(x.args[0]))
                if isinstance(c, T):
                    v = self.cond_nf(c, pc)
                    if v is not None:
                        c = v
                if not isinstance(c, T):
                    r = go(x.args[1] if c else x.args[2])
                else:
                    r = tm.ite(c, go(x.args[1]), go(x.args[2]))
            else:
                na = [go(a) for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x.op, na, x.sort)
            memo[x.id] = (r,)
            return r
        return go(t)

    def branch(self, t, pc, asm, c, val, depth):
        """lin_eq under an additional assumption; integer equalities are substituted"""
        a2 = asm.extend(c, val)
        if a2 is None:
            return True
        pc2 = pc + [c if val else tm.not_(c)]
        if self.quick_infeasible(pc2, a2):
            return True
        if int_only(c) and c.op in ("lt", "le", "eq") and tm.sort_of(c.args[0]) == "I":
            a, b = c.args
            off = {("eq", True): 0, ("lt", True): -1, ("lt", False): 0, ("le", True): 0, ("le", False): 1}.get((c.op, val))
            if off is not None and (c.op == "eq" or self.idec.implied(pc2, tm.eq(a, tm.add(b, off)))):
                d = tm.sub(a, tm.add(b, off))
                if isinstance(d, T):
                    p = tm.int_poly(d)
                    lamfv = set()
                    for L in tm.LAMS.values():
                        lamfv |= L[2]
                    for m, k in sorted(p.items(), key=lambda q: len(q[0]) == 1 and q[0][0] in lamfv):
                        if len(m) == 1 and m[0].op == "var" and k in (1, -1):
                            v = m[0]
                            rest = tm.sub(v, tm.mul(d, k))
                            if isinstance(rest, T):
                                rest = tm.simp_int(rest)
                                if v in tm.free_vars(rest):
                                    continue
                            mp = {v: rest}
                            t2 = tm.subst(t, mp)
                            pc3, a3 = [], Asm()
                            for f in pc2:
                                f = tm.subst(f, mp)
                                a3 = a3.extend(f, True)
                                if a3 is None:
                                    return True
                                if isinstance(f, T):
                                    pc3.append(f)
                            return self.lin_eq(t2, pc3, a3, depth + 1)
        return self.lin_eq(t, pc2, a2, depth + 1)

    def deep(self, t, pc, memo):
        """t with all definitions unfolded and decided integer conditionals dropped"""
        if not isinstance(t, T) or t.op == "var":
            return t
        r = memo.get(t.id)
        if r is not None:
            return r[0]
        if len(memo) > 4000:
            raise tm.TooBig()
        if t.op == "def":
            r = self.deep(tm.body_of(t), pc, memo)
        elif t.op == "ite" and int_only(t.args[0]):
            c = t.args[0]
            if self.idec.implied(pc, c):
                r = self.deep(t.args[1], pc, memo)
            elif self.idec.implied(pc, tm.not_(c)):
                r = self.deep(t.args[2], pc, memo)
            else:
                r = tm.ite(c, self.deep(t.args[1], pc, memo), self.deep(t.args[2], pc, memo))
        else:
            na = [self.deep(a, pc, memo) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t.op, na, t.sort)
        memo[t.id] = (r,)
        return r

    def _deepmemo(self, pc):
        k = tuple(f.id for f in pc if int_only(f))
        if getattr(self, "_dm", None) is None or self._dm[0] != k or len(self._dm[1]) > 3000:
            self._dm = (k, {})
        return self._dm[1]

    def deep_known(self, c, pc, asm):
        """truth of a real condition that equals an assumed one up to unfolding"""
        if self._deep is None or self._deep[0] is not pc:
            self._deep = (pc, {}, {})
            memo = self._deep[1]
            for f in pc[-12:]:
                if int_only(f):
                    continue
                val = True
                while f.op == "not":
                    f, val = f.args[0], not val
                try:
                    g = self.deep(f, pc, memo)
                except tm.TooBig:
                    continue
                if isinstance(g, T):
                    self._deep[2][g] = val
                    if g.op in ("lt", "le"):
                        n = tm.not_(g)
                        if isinstance(n, T):
                            self._deep[2][n] = not val
        try:
            g = self.deep(c, pc, self._deep[1])
        except tm.TooBig:
            return None
        if not isinstance(g, T):
            return bool(g)
        return self._deep[2].get(g)

    def resolve(self, d, pc, asm):
        """body of a definition with its outer conditionals resolved where decided;
        also the first undecided integer condition"""
        v = asm.S(tm.body_of(d))
        while isinstance(v, T) and v.op == "ite":
            c = v.args[0]
            if not int_only(c):
                k = self.deep_known(c, pc, asm)
                if k is None:
                    return v, None
                v = asm.S(v.args[1] if k else v.args[2])
                continue
            if self.idec.implied(pc, c):
                v = v.args[1]
            elif self.idec.implied(pc, tm.not_(c)):
                v = v.args[2]
            else:
                while c.op in ("and", "or", "not"):
                    c = c.args[0]
                return v, c
            v = asm.S(v)
        return v, None

    def int_ites(self, t, pc):
        """drop conditionals on decided integer conditions (outside definitions); also the first undecided one"""
        memo = {}
        und = []

        def go(x):
            if not isinstance(x, T) or x.op in ("var", "def"):
                return x
            r = memo.get(x.id)
            if r is not None:
                return r[0]
            if x.op == "ite" and int_only(x.args[0]):
                c = x.args[0]
                if self.idec.implied(pc, c):
                    r = go(x.args[1])
                elif self.idec.implied(pc, tm.not_(c)):
                    r = go(x.args[2])
                else:
                    while c.op in ("and", "or", "not"):
                        c = next((a for a in c.args if not (self.idec.implied(pc, a) or self.idec.implied(pc, tm.not_(a)))), c.args[0])
                    und.append(c)
                    r = x
            else:
                na = [go(a) for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x.op, na, x.sort)
            memo[x.id] = (r,)
            return r
        r = go(t)
        return r, (und[0] if und else None)

    def subst_ids(self, t, m, asm):
        memo = {}

        def go(x):
            if not isinstance(x, T):
                return x
            if x.id in m:
                return m[x.id]
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op in ("var", "def"):
                r = x
            else:
                na = [go(a) if isinstance(a, T) else a for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x.op, na, x.sort)
            memo[x.id] = r
            return r
        return asm.S(go(t))

    def norm_quiet(self, t):
        try:
            return tm.nf(t, None)
        except tm.TooBig:
            return True

    def norm(self, t, U):
        try:
            return tm.nf(t, U)
        except tm.TooBig:
            raise

    def unfold_defs(self, t, defs, asm):
        m = {}
        for d in defs:
            m[d.id] = asm.S(tm.body_of(d))
        memo = {}

        def go(x):
            if not isinstance(x, T):
                return x
            if x.id in m:
                return m[x.id]
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op in ("var", "def"):
                r = x
            else:
                na = [go(a) if isinstance(a, T) else a for a in x.args]
                r = x if all(p is q for p, q in zip(na, x.args)) else tm.rebuild(x.op, na, x.sort)
            memo[x.id] = r
            return r
        return asm.S(go(t))

    def quick_infeasible(self, pc, asm):
        # simplify earlier facts under the assumption
        for f in pc:
            v = asm.S(f) if f not in asm.d else True
            if v is False:
                return True
        ic = [f for f in pc if int_only(f)]
        if ic and int_only(pc[-1]):
            if self.idec.implied(ic[:-1], tm.not_(pc[-1])):
                return True
        return False

    def infeasible(self, pc, asm):
        """prove that the path condition is contradictory"""
        self.method = "infeasible-path"
        for f in pc:
            if asm.S(f) is False:
                return True
        r = self.z3_query(pc, None, levels=(0, 1, 2, 3, 99))
        return r

    # ------------------------------------------------------------ z3
    def z3_leaf(self, pc, q):
        self.method = "z3"
        g = tm.mk("eq", (tm.poly_term(q), Fr(0)), "B")
        return self.z3_query(pc, g, levels=(0, 1, 99))

    def z3_full(self, goal, pc):
        return self.z3_query(pc, goal, levels=(99,))

    def ineq(self, goal, pc, asm):
        self.method = "z3"
        if goal.op in ("lt", "le") and tm.sort_of(goal.args[0]) == "R" or goal.op == "not" and isinstance(goal.args[0], T) and goal.args[0].op == "eq" and tm.sort_of(goal.args[0].args[0]) == "R":
            self._pcdone = set()
            r = self.ineq_split(goal, pc, asm, 0)
            if r:
                return r
            self.method = "z3"
        r = self.z3_query(pc, goal, levels=(0, 1, 2, 3, 99))
        return r

    def ineq_split(self, goal, pc, asm, depth):
        """inequalities: split on the conditionals (through definitions), decide the leaves by normal form and sign"""
        self.tick()
        if not isinstance(goal, T):
            if goal:
                return True
            return self.infeasible(pc, asm)
        v = self.cond_nf(goal, pc)
        if v:
            self.method = "sign"
            return True
        if depth > 12:
            return None
        try:
            g = self.deep(goal, pc, {})
        except tm.TooBig:
            return None
        g = asm.S(g)
        if not isinstance(g, T):
            return self.ineq_split(g, pc, asm, depth)
        g = self.predecide(g, pc, asm)
        if not isinstance(g, T):
            return self.ineq_split(g, pc, asm, depth)
        ites = find_ites(g, [], set())
        if ites:
            best = None
            for x in ites:
                c = x.args[0]
                k = (bool(find_ites(c, [], set())), tm.size(c))
                if best is None or k < best[0]:
                    best = (k, c)
            c = best[1]
            while c.op in ("and", "or", "not"):
                c = c.args[0]
            dec = self.cond_nf(c, pc)
            if TRACE:
                print("  " * depth, "ineq split", dec, tm.show(c, 8)[:300], flush=True)
            self.stats.split += 1
            for val in (True, False):
                if dec is not None and val != dec:
                    continue
                a2 = asm.extend(c, val)
                if a2 is None:
                    continue
                pc2 = pc + [c if val else tm.not_(c)]
                if self.quick_infeasible(pc2, a2):
                    continue
                r = self.ineq_split(asm_simplify(g, a2), pc2, a2, depth + 1)
                if r is not True:
                    return r
            return True
        v = self.cond_nf(g, pc)
        if v:
            self.method = "sign"
            return True
        # conditionals inside related facts: decide them, then split on what is left
        gv = tm.free_vars(g)
        npc, pick = [], None
        ch = False
        for f in pc:
            if isinstance(f, T) and not int_only(f) and (tm.free_vars(f) & gv) and f.id not in self._pcdone:
                self._pcdone.add(f.id)
                try:
                    h = self.predecide(self.deep(f, pc, self._deepmemo(pc)), [x for x in pc if x is not f], asm_without(asm, f))
                except tm.TooBig:
                    h = f
                if h is False:
                    return True
                if h is not f:
                    ch = True
                if not isinstance(h, T):
                    continue
                self._pcdone.add(h.id)
                f = h
            npc.append(f)
        if ch:
            a2 = asm
            for f in npc:
                a2 = a2.extend(f, True)
                if a2 is None:
                    return True
            return self.ineq_split(g, npc, a2, depth)
        for f in pc:
            if isinstance(f, T) and f.op in ("lt", "le", "eq", "not", "and") and not int_only(f) and tm.free_vars(f) <= gv and tm.size(f) < 3000:
                for x in find_ites(f, [], set()):
                    c = x.args[0]
                    while c.op in ("and", "or", "not"):
                        c = c.args[0]
                    if c in asm.d or find_ites(c, [], set()):
                        continue
                    if pick is None or tm.size(c) < tm.size(pick):
                        pick = c
        if pick is not None and depth < 8:
            dec = self.cond_nf(pick, pc)
            if TRACE:
                print("  " * depth, "ineq pc split", dec, tm.show(pick, 8)[:300], flush=True)
            self.stats.split += 1
            for val in (True, False):
                if dec is not None and val != dec:
                    continue
                a2 = asm.extend(pick, val)
                if a2 is None:
                    continue
                a3 = Asm({c: v for c, v in a2.d.items() if c is pick})
                pc2 = []
                bad = False
                for f in pc:
                    f = a3.S(f)
                    if f is False:
                        bad = True
                        break
                    if isinstance(f, T):
                        pc2.append(f)
                if bad:
                    continue
                pc2.append(pick if val else tm.not_(pick))
                a2 = Asm(dict(a2.d))
                for f in pc2:
                    a2 = a2.extend(f, True)
                    if a2 is None:
                        break
                if a2 is None:
                    continue
                r = self.ineq_split(g, pc2, a2, depth + 1)
                if r is not True:
                    return r
            return True
        self.relmemo = {}
        q = self.rel(g, pc)
        if TRACE:
            print("  " * depth, "ineq leaf", q and (tm.show(tm.poly_term(q[0]), 20)[:1500], q[1:]), flush=True)
            for f in pc:
                if not int_only(f):
                    print("  " * depth, "   pc", tm.show(f, 6)[:200], flush=True)
        if q is not None and q[0]:
            x = tm.poly_term(q[0])
            if q[1] < 0:
                x = tm.neg(x)
            z = Fr(0)
            h = {"lt": lambda: tm.lt(x, z), "le": lambda: tm.le(x, z), "eq": lambda: tm.eq(x, z), "ne": lambda: tm.not_(tm.eq(x, z))}[q[2]]()
            self.method = "z3"
            r = self.z3_query(pc, h, levels=(99,)) if isinstance(h, T) else bool(h)
            if r:
                return r
        return self.z3_query(pc, g, levels=(99,)) or None

    def z3_query(self, pc, goal, levels):
        """goal None: show pc contradictory"""
        last = None
        for lv in levels:
            self.tick()
            ids = set()
            facts = self.relevant(pc, goal) if goal is not None else list(pc)
            base = list(facts) + ([goal] if goal is not None else [])
            allu = lv == 99
            if not allu:
                frontier = base
                for _ in range(lv):
                    acc = []
                    seen = set()
                    for f in frontier:
                        inner_defs(f, acc, seen)
                    new = [d for d in acc if d.id not in ids]
                    if not new:
                        break
                    ids.update(d.id for d in new)
                    frontier = [tm.body_of(d) for d in new]
            try:
                tr = Tr(allu, ids)
                s = z3.Solver()
                ms = int(max(200, min(self.z3_ms, (self.t_end - time.time()) * 1000)))
                s.set("timeout", ms)
                if goal is not None:
                    s.add(z3.Not(tr.tr(goal)))
                for f in facts:
                    s.add(tr.tr(f))
                for a in tr.ax:
                    s.add(a)
                t0 = time.time()
                self.stats.z3 += 1
                r = s.check()
                self.stats.z3_time += time.time() - t0
            except z3.Z3Exception as e:
                return None
            if r == z3.unsat:
                return True
            if r == z3.sat:
                self.model = self.get_model(s.model(), tr)
                last = False if allu or not self.any_defs(base, ids) else None
                if last is False:
                    return False
            else:
                last = None
        return last

    def any_defs(self, base, ids):
        acc = []
        seen = set()
        for f in base:
            inner_defs(f, acc, seen)
        return any(d.id not in ids for d in acc) or bool(ids)

    def get_model(self, m, tr):
        out = {}
        for tid, e in tr.memo.items():
            pass
        for d in m.decls():
            try:
                if d.arity() == 0:
                    out[d.name()] = zval(m[d])
                else:
                    fi = m[d]
                    ents = []
                    for k in range(fi.num_entries()):
                        en = fi.entry(k)
                        ents.append(([zval(en.arg_value(j)) for j in range(en.num_args())], zval(en.value())))
                    out[d.name()] = {"entries": ents, "else": zval(fi.else_value())}
            except Exception:
                pass
        return out

    def relevant(self, pc, goal):
        fv = set(tm.free_vars(goal))
        cand = list(pc)
        out = []
        for _ in range(3):
            rest = []
            add = set()
            for f in cand:
                ff = tm.free_vars(f)
                if ff & fv or not ff:
                    out.append(f)
                    add |= ff
                else:
                    rest.append(f)
            cand = rest
            if add <= fv:
                break
            fv |= add
        return out


_AGE = re.compile(r"[a-z]+(\d+)")


def age(d):
    m = _AGE.match(tm.show(d, 1))
    return int(m.group(1)) if m else d.id


def asm_without(a, f):
    """assumptions other than those contributed by f"""
    drop = Asm().extend(f, True)
    if drop is None:
        return a
    return Asm({c: v for c, v in a.d.items() if c not in drop.d})


def asm_simplify(g, a):
    return a.S(g)


def zval(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)

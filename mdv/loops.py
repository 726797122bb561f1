"""Loops: concrete unrolling, or inductive summaries for symbolic trip counts.

A loop with a symbolic trip count is summarised by closed forms that are
inductive by construction: every location modified by the body is replaced by a
placeholder standing for its value at the start of iteration n, the body is
executed once, and the value at the back edge is classified
  affine induction   v(n) = v0 + n*step           (checked inductively)
  last value         v(n+1) = f(n)
  sum                v(n+1) = v(n) + f(n)
  element map        A[n+b] = f(n)
  scatter add        A[n+b] += f(n)
  linked             v(n) -+ w(n) conserved       (w unconstrained or never negative, checked inductively)
  otherwise          unconstrained (sound over-approximation)
"""
from fractions import Fraction as Fr
from . import terms as tm
from . import ir
from .terms import T
from .mem import *

MAXUNROLL = 3000


def run_iter(E, fr, st, H, exits):
    """one iteration from the header; returns (back, exits, outs, flags)"""
    fn = fr.fn
    nouts = len(fr.outs)
    saved = fr.exit_sym
    fr.exit_sym = [False, False, {}]
    fr.active.append(H)
    try:
        arr = E.run(fr, st, H, exits | {H})
    finally:
        fr.active.pop()
        flags = fr.exit_sym
        fr.exit_sym = saved
    outs = fr.outs[nouts:]
    del fr.outs[nouts:]
    back = [s for s, t in arr if t == H]
    ex = [(s, t) for s, t in arr if t != H]
    return back, ex, outs, flags


def run_loop(E, fr, st, H):
    fn = fr.fn
    L = fn.loops[H]
    exits = frozenset(s for b in L for s in fn.succ[b] if s not in L)
    result = []
    cur = [st]
    k = 0
    prevc = None
    while cur:
        nxt = []
        queue = [(x, 0) for x in cur]
        while queue:
            s, dep = queue.pop()
            nob = len(E.obs)
            keys = set(E.obkeys)
            nout = len(fr.outs)
            trial = s.fork()
            back, ex, outs, flags = run_iter(E, fr, trial, H, exits)
            # a test on constants that are the same in every iteration does not count the loop
            still = flags[0] and flags[1] and prevc == flags[2]
            prevc = flags[2]
            if flags[0] and (not flags[1] or still) and back:
                # symbolic trip count
                del E.obs[nob:]
                E.obkeys = set(keys)
                if E.opts.get("unroll"):
                    raise Unsupported("symbolic loop in bounded mode (%s)" % fn.name)
                try:
                    result += summarise(E, fr, s.fork(), H, exits)
                except SplitOn as e:
                    if dep > 6:
                        raise Unsupported("too many pointer case splits at a loop")
                    del E.obs[nob:]
                    E.obkeys = set(keys)
                    del fr.outs[nout:]
                    for c in (e.c, tm.not_(e.c)):
                        f = s.fork()
                        if f.assume(c) and E.decide(f, c) is not False:
                            queue.append((f, dep + 1))
                except Unsupported as e:
                    # the first iteration may differ from the others (storage allocated, say): peel it
                    if k > 0 or E.growth:
                        raise
                    del E.obs[nob:]
                    E.obkeys = set(keys)
                    del fr.outs[nout:]
                    E.growth = True
                    try:
                        back, ex, outs, flags = run_iter(E, fr, s.fork(), H, exits)
                    finally:
                        E.growth = False
                    result += ex
                    fr.outs += outs
                    nxt += back
                    E.note("loop peeled in %s (%s)" % (fn.name, e))
                continue
            result += ex
            fr.outs += outs
            nxt += back
        cur = E.merge_all(nxt) if len(nxt) > 1 else nxt
        k += 1
        if k > MAXUNROLL:
            raise Unsupported("loop unrolled %d times in %s" % (k, fn.name))
    by = {}
    for s, t in result:
        by.setdefault(t, []).append(s)
    res = []
    for t, ss in by.items():
        res += [(s, t) for s in E.merge_all(ss)]
    return res


class Ind:
    """scalar location summary"""
    __slots__ = ("kind", "v0", "step", "ph", "nv", "f", "rec", "name")


def sortv(v):
    if isinstance(v, (T, int, Fr, bool)):
        return tm.sort_of(v)
    return None


def guess(v0, v1):
    """step if affine"""
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj is v1.obj:
        d = tm.sub(v1.off, v0.off)
        return tm.simp_int(d)
    if isinstance(v0, PInt) and isinstance(v1, PInt) and v0.obj is v1.obj:
        return tm.simp_int(tm.sub(v1.off, v0.off))
    if sortv(v0) == "I" and sortv(v1) == "I":
        d = tm.simp_int(tm.sub(v1, v0))
        if isinstance(d, T) and (d.op == "ite" or tm.size(d) > 12):
            return None
        return d
    return None


def at_affine(v0, step, n):
    k = tm.mul(n, step) if isinstance(n, T) or isinstance(step, T) else n * step
    if isinstance(v0, Ptr):
        return Ptr(v0.obj, tm.simp_int(tm.add(v0.off, k)))
    if isinstance(v0, PInt):
        return PInt(v0.obj, tm.simp_int(tm.add(v0.off, k)))
    r = tm.add(v0, k)
    if isinstance(r, T):
        r = tm.simp_int(r)
    return r


def same(E, st, a, b):
    if veq(a, b):
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return E.implied(st, tm.eq(a.off, b.off))
    if isinstance(a, PInt) and isinstance(b, PInt) and a.obj is b.obj:
        return E.implied(st, tm.eq(a.off, b.off))
    if sortv(a) == "I" and sortv(b) == "I":
        return E.implied(st, tm.eq(a, b))
    if sortv(a) == "R" and sortv(b) == "R":
        return tm.nf(a) == tm.nf(b)
    return False


def summarise(E, fr, st0, H, exits):
    fn = fr.fn
    tag = next(E.ctr)
    n = tm.var("n!%d" % tag, "I", 0, 1 << 40)
    phis = [p.res for p in fn.blocks[H].phis]
    nob0, keys0 = len(E.obs), set(E.obkeys)

    def reset():
        del E.obs[nob0:]
        E.obkeys = set(keys0)

    # iteration 0, to guess inductions
    s0 = st0.fork()
    back, ex, outs, fl = run_iter(E, fr, s0, H, exits)
    reset()
    if not back:
        raise Unsupported("no back edge")
    back = E.merge_all(back)
    if len(back) != 1:
        raise Unsupported("unmergeable back edges in %s" % fn.name)
    s1 = back[0]

    ind = {}  # loc -> Ind   loc: ("p",name) or ("m",objid,off)
    arrs = {}  # (objid,c) -> dict
    for p in phis:
        add_ind(E, ind, ("p", p), st0.env[p], s1.env[p], tag, st0)
    # memory modified in iteration 0
    grow(E, st0, st0, s1, ind, arrs, tag, n)
    for attempt in range(12):
        stn = st0.fork()
        install_ph(E, stn, ind, arrs, n, tag)
        stn.assume(tm.le(0, n))
        mem_before = dict(stn.mem)
        k0 = len(stn.pc)
        pre = stn.fork()
        back, ex, outs, fl = run_iter(E, fr, stn, H, exits)
        reset()
        if not back:
            raise Unsupported("loop body does not return to header (%s)" % E.lastun)
        back = E.merge_all(back)
        if len(back) != 1:
            raise Unsupported("unmergeable back edges in %s" % fn.name)
        sH = back[0]
        changed = False
        for loc, I in ind.items():
            nv = getloc(E, sH, loc)
            if I.kind == "affine":
                want = at_affine(I.v0, I.step, tm.add(n, 1))
                if not same(E, sH, nv, want):
                    demote(E, I, tag, loc)
                    changed = True
        if grow(E, st0, pre, sH, ind, arrs, tag, n, s1):
            changed = True
        if not changed and fixed_cells(E, st0, sH, ind, arrs, n, tag):
            changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop summary did not stabilise in %s" % fn.name)
    solve(E, st0, sH, ind, arrs, n, tag, fn)

    # ---- generic pass: obligations inside the body for an arbitrary iteration
    bound = None
    nobP, keysP = len(E.obs), set(E.obkeys)
    for rnd in (0, 1):
        stG = st0.fork()
        install(E, stG, st0, ind, arrs, n, n)
        stG.assume(tm.le(0, n))
        if bound is not None:
            stG.assume(tm.le(n, bound))
        kG = len(stG.pc)
        back, ex, outsG, fl = run_iter(E, fr, stG, H, exits)
        back = E.merge_all(back)
        C = tm.or_(*[tm.and_(*b.pc[kG:]) for b in back]) if back else False
        exconds = [(tm.and_(*s.pc[kG:]), t) for s, t in ex]
        if bound is not None:
            break
        # ---- counted exit
        nstar = None
        main = None
        for x in exconds:
            r = solve_exit(E, stG, x[0], n)
            if r is not None:
                nstar, main = r, x
                break
        if main is not None and isinstance(main[0], T):
            # the loop leaves when n reaches nstar, so n <= max(nstar, 0) in every iteration
            bound = nstar
            if main[0].op != "eq" and not (E.implied(st0, tm.le(0, nstar)) if isinstance(nstar, T) else nstar >= 0):
                bound = tm.ite(tm.le(0, nstar), nstar, 0) if isinstance(nstar, T) else 0
            del E.obs[nobP:]
            E.obkeys = set(keysP)
            continue
        break
    if bound is not None:
        main = None
        for x in exconds:
            r = solve_exit(E, stG, x[0], n)
            if r is not None:
                main = x
                break
        if main is None:
            raise Unsupported("counted exit lost in %s" % fn.name)
    nobG, keysG = len(E.obs), set(E.obkeys)
    results = []
    new_outs = []
    if nstar is not None:
        nn = nstar
        neg = E.decide(st0, tm.le(0, nn)) if isinstance(nn, T) else nn >= 0
        if neg is not True:
            nn = tm.ite(tm.le(0, nn), nn, 0) if isinstance(nn, T) else max(nn, 0)
        if isinstance(nn, T):
            nn = tm.simp_int(nn)
        sx = st0.fork()
        install(E, sx, st0, ind, arrs, nn, n)
        inst_fact(E, sx, C, n, nn, st0)
        back2, ex2, outs2, fl = run_iter(E, fr, sx, H, exits)
        del E.obs[nobG:]
        E.obkeys = set(keysG)
        results += [(s, t) for s, t in ex2]
        if not ex2:
            raise Unsupported("counted exit not taken in %s" % fn.name)
    others = [x for x in exconds if main is None or x is not main]
    if others or outsG:
        m = tm.var("m!%d" % tag, "I", 0, 1 << 40)
        sx = st0.fork()
        install(E, sx, st0, ind, arrs, m, n)
        sx.assume(tm.le(0, m))
        if nstar is not None:
            sx.assume(tm.lt(m, nstar))
        inst_fact(E, sx, C, n, m, st0)
        back3, ex3, outs3, fl = run_iter(E, fr, sx, H, exits)
        del E.obs[nobG:]
        E.obkeys = set(keysG)
        results += ex3
        new_outs += outs3
    fr.outs += new_outs
    E.note("loop-summary %s" % fn.name)
    E.summaries = getattr(E, "summaries", 0) + 1
    return results


def fixed_cells(E, st0, sH, ind, arrs, n, tag):
    """array elements written at an index that does not change from one iteration to the next become scalar locations"""
    ch = False
    names = {A["P"] for A in arrs.values()}
    phs = {I.ph for I in ind.values() if isinstance(I.ph, T)}
    for key in list(arrs):
        A = arrs[key]
        c = sH.mem[key[0]].f[key[1]]
        idx = []
        while isinstance(c, Store):
            idx.append(simp(c.idx))
            c = c.prev
        if c is not A["base"] or not idx:
            continue
        i0 = idx[0]
        if any(not veq(i, i0) for i in idx[1:]):
            continue
        if isinstance(i0, T) and (n in tm.free_vars(i0) or any(v in phs for v in tm.free_vars(i0)) or has_uf(i0, names)):
            continue
        del arrs[key]
        loc = ("a", key[0], key[1], i0)
        v0 = E.select(st0, A["orig"], i0)
        I = Ind()
        I.v0, I.name, I.ph, I.nv, I.f, I.kind, I.step = v0, "a%d_%d_%s" % (key[0], key[1], i0 if not isinstance(i0, T) else "t%d" % i0.id), None, None, None, "open", 0
        mkph(E, I, tag)
        ind[loc] = I
        ch = True
    return ch


def inst_fact(E, sx, C, n, at, st0):
    """facts for earlier iterations: C(m) for all m < at"""
    if not isinstance(C, T):
        return
    sx.fa = sx.fa + ((n, 0, at, C),)
    if isinstance(at, T):
        # instance at the previous iteration, guarded
        prev = tm.simp_int(tm.sub(at, 1))
        inst = tm.subst(C, {n: prev})
        g = tm.le(1, at)
        if E.decide(sx, g) is True:
            sx.assume(inst)
        elif E.decide(sx, g) is None:
            sx.assume(tm.or_(tm.not_(g), inst))


def solve_exit(E, st, c, n):
    """least n>=0 with exit condition c(n), when c is a single affine test"""
    if not isinstance(c, T):
        return None
    if c.op in ("le", "lt") and tm.sort_of(c.args[0]) == "I":
        d = tm.sub(c.args[1], c.args[0])  # >=0 (le) or >0 (lt)
        if c.op == "lt":
            d = tm.sub(d, 1)
        p = tm.int_poly(d)
        s = p.get((n,), 0)
        rest = {m: k for m, k in p.items() if m != (n,)}
        if s > 0 and not any(n in tm.free_vars(z) for m in rest for z in m):
            k = tm.from_int_poly(rest)
            need = tm.neg(k) if isinstance(k, T) else -k
            if s == 1:
                return tm.simp_int(need) if isinstance(need, T) else need
            q = tm.add(need, s - 1)
            return tm.idiv(tm.simp_int(q) if isinstance(q, T) else q, s)
        return None
    if c.op == "eq" and tm.sort_of(c.args[0]) == "I":
        d = tm.sub(c.args[0], c.args[1])
        p = tm.int_poly(d)
        s = p.get((n,), 0)
        rest = {m: k for m, k in p.items() if m != (n,)}
        if s != 0 and not any(n in tm.free_vars(z) for m in rest for z in m):
            if s > 0:
                rest = {m: -k for m, k in rest.items()}
            s = abs(s)
            if all(k % s == 0 for k in rest.values()):
                r = tm.from_int_poly({m: k // s for m, k in rest.items()})
                ok = E.implied(st, tm.le(0, r)) if isinstance(r, T) else r >= 0
                if ok:
                    return r
                raise Unsupported("loop may not terminate: cannot show start <= end")
    return None


class SplitOn(Exception):
    def __init__(self, c):
        self.c = c


def simp_pite(E, st, v):
    while isinstance(v, PIte):
        d = E.decide(st, v.c)
        if d is None:
            return v
        v = v.a if d else v.b
    return v


def add_ind(E, ind, loc, v0, v1, tag, st0):
    v0 = simp_pite(E, st0, v0)
    if isinstance(v0, PIte) and not veq(v0, v1):
        raise SplitOn(v0.c)
    v1 = simp_pite(E, st0, v1)
    I = Ind()
    I.v0 = v0
    I.name = "_".join(str(x) for x in loc[1:])
    I.ph = None
    I.nv = None
    I.f = None
    st = guess(v0, v1) if v0 is not UNDEF else None
    if st is not None and (not isinstance(st, T)):
        I.kind = "affine"
        I.step = st
    elif veq(v0, v1) and v0 is not UNDEF:
        I.kind = "affine" if isinstance(v0, (Ptr, PInt)) or sortv(v0) == "I" else "open"
        I.step = 0
        if I.kind == "open":
            mkph(E, I, tag)
    else:
        I.kind = "open"
        mkph(E, I, tag)
    ind[loc] = I


def mkph(E, I, tag):
    v0 = I.v0
    if v0 is UNDEF:
        I.ph = UNDEF
        return
    s = sortv(v0)
    if s is None:
        I.ph = None  # pointer etc: only last-value / unsupported
        if isinstance(v0, Bits) or isinstance(v0, (Ptr, PInt, PIte, tuple)):
            I.ph = UNDEF
            return
        raise Unsupported("loop-carried value of kind %s" % type(v0).__name__)
    I.ph = tm.var("ph!%d!%s" % (tag, I.name), s)


def demote(E, I, tag, loc):
    I.kind = "open"
    mkph(E, I, tag)


def getloc(E, st, loc):
    if loc[0] == "p":
        return st.env[loc[1]]
    if loc[0] == "a":
        return E.select(st, st.mem[loc[1]].f[loc[2]], loc[3])
    os = st.mem[loc[1]]
    ok, v = os.load(loc[2], loc[3])
    return UNDEF if not ok or v is None else v


def setloc(E, st, loc, v):
    if loc[0] == "p":
        st.env[loc[1]] = v
        return
    os = st.mem[loc[1]]
    if os.owner is not st.mem:
        os = os.clone(st.mem)
        st.mem[loc[1]] = os
    if loc[0] == "a":
        os.f[loc[2]] = Store(E.chain(os, loc[2], 8, None), loc[3], v)
        return
    os.store(loc[2], loc[3], v)


def grow(E, st0, before, after, ind, arrs, tag, n, s1=None):
    """find memory locations modified between `before` and `after`"""
    ch = False
    for i, o in after.mem.items():
        b = before.mem.get(i)
        if b is None:
            continue  # allocated inside the iteration
        if i not in st0.mem:
            continue
        if o is b:
            continue
        if o.freed != b.freed:
            raise Unsupported("object freed inside a summarised loop")
        if isinstance(o, Cells):
            if isinstance(b, Arr):
                raise Unsupported("object changed mode in loop")
            for off, (sz, v) in list(o.d.items()):
                c = b.d.get(off)
                if c is not None and c[0] == sz and veq(c[1], v):
                    continue
                loc = ("m", i, off, sz)
                if loc in ind:
                    continue
                ok, v0 = b.load(off, sz)
                if c is None and ok and v0 is not None and veq(v0, v):
                    continue
                # initial value from st0
                ok, v0 = st0.mem[i].load(off, sz)
                if not ok or v0 is None:
                    v0 = UNDEF
                if isinstance(v0, int) and not isinstance(v0, bool) and sortv(v) == "R":
                    v0 = E.as_type(None, v0, ir.ty("double"))
                if isinstance(v0, int) and isinstance(v, (Ptr, PIte)):
                    v0 = E.as_type(None, v0, ir.ty("ptr"))
                if sortv(v0) == "B" and sortv(v) == "I":
                    v0 = E.as_int(v0)
                v1 = v
                if s1 is not None and i in s1.mem:
                    ok, x = s1.mem[i].load(off, sz)
                    if ok and x is not None:
                        v1 = x
                add_ind(E, ind, loc, v0, v1, tag, st0)
                ch = True
        else:
            if isinstance(b, Cells):
                raise Unsupported("object became array inside loop")
            for c, chn in o.f.items():
                if b.f.get(c) is chn:
                    continue
                if (i, c) in arrs:
                    continue
                cell = [l for l in ind if l[0] == "a" and l[1] == i and l[2] == c]
                if cell:
                    x, old = chn, b.f.get(c)
                    while x is not old:
                        if not isinstance(x, Store) or not veq(simp(x.idx), cell[0][3]):
                            raise Unsupported("array written at fixed and moving indices in one loop")
                        x = x.prev
                    continue
                if c not in b.f:
                    # created lazily by a read
                    if isinstance(chn, Base):
                        continue
                orig = E.chain(st0.mem[i], c, 8, None)
                sv = probe_sort(chn)
                arrs[(i, c)] = {"orig": orig, "P": "P!%d!%d!%d" % (tag, i, c), "sort": sv, "base": None}
                ch = True
    return ch


def probe_sort(ch):
    while not isinstance(ch, Base):
        if isinstance(ch, Store):
            s = sortv(ch.val)
            if s:
                return s
            raise Unsupported("array of non-scalars written in summarised loop")
        ch = ch.prev
    return "R"


def install_ph(E, st, ind, arrs, n, tag):
    for loc, I in ind.items():
        if I.kind == "affine":
            setloc(E, st, loc, at_affine(I.v0, I.step, n))
        else:
            setloc(E, st, loc, I.ph)
    for (i, c), A in arrs.items():
        os = st.mem[i]
        if os.owner is not st.mem:
            os = os.clone(st.mem)
            st.mem[i] = os
        if A["base"] is None:
            A["base"] = Base((lambda P, s: lambda idx: tm.uf(P, (idx,), s))(A["P"], A["sort"]), A["P"])
        os.f[c] = A["base"]


def has_uf(t, names):
    return tm.contains(t, lambda x: x.op == "uf" and x.args[0] in names)


def find_ufs(t, names):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "uf" and x.args[0] in names:
            out.append(x)
        if x.op == "def":
            st.append(tm.body_of(x))
        else:
            st.extend(x.args)
    return out


def subst_deep(t, m):
    """substitution that also replaces uf atoms below defs"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x.id in memo:
            return memo[x.id]
        if x.op == "var":
            r = x
        elif x.op == "def":
            b = tm.body_of(x)
            nb = go(b)
            r = x if nb is b else (tm.define("d%s" % nb.id, nb) if isinstance(nb, T) else nb)
        else:
            na = [go(a) if isinstance(a, T) else a for a in x.args]
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = tm.rebuild(x.op, na, x.sort)
        memo[x.id] = r
        return r
    return go(t)


def solve(E, st0, sH, ind, arrs, n, tag, fn):
    names = {A["P"]: key for key, A in arrs.items()}
    phs = {}
    for loc, I in ind.items():
        if I.kind == "open" and isinstance(I.ph, T):
            phs[I.ph] = loc
    # collect array writes
    for key, A in arrs.items():
        ch = sH.mem[key[0]].f[key[1]]
        ws = []
        while ch is not A["base"]:
            if isinstance(ch, Base):
                raise Unsupported("array base replaced in loop")
            if isinstance(ch, Map):
                raise Unsupported("nested symbolic loop writes array")
            ws.append((ch.idx, ch.val, ch.g))
            ch = ch.prev
        ws.reverse()
        A["ws"] = []
        for idx, val, g in ws:
            idx = tm.simp_int(idx) if isinstance(idx, T) else idx
            p = tm.int_poly(idx)
            a = p.get((n,), 0)
            rest = {m: k for m, k in p.items() if m != (n,)}
            if a not in (1, -1) or any(n in tm.free_vars(z) or any(v in phs for v in tm.free_vars(z)) for m in rest for z in m):
                raise Unsupported("array write index %s not affine in the iteration (%s)" % (idx, fn.name))
            b = tm.from_int_poly(rest)
            # an earlier store of this iteration to the same element is superseded
            old = tm.uf(A["P"], (idx,), A["sort"])
            keep = []
            for w in A["ws"]:
                if w[1] != a:
                    raise Unsupported("mixed direction array writes")
                d = tm.sub(w[2], b)
                d = tm.simp_int(d) if isinstance(d, T) else d
                if isinstance(d, T):
                    raise Unsupported("incomparable write offsets")
                if d == 0:
                    old = w[3]
                else:
                    keep.append(w)
            A["ws"] = keep
            if g is not True:
                val = vite(g, val, old)
            A["ws"].append((idx, a, b, val))
        A["solved"] = None

    def written_before(A, j):
        """is element j untouched in iterations < n?  True if provably untouched"""
        for idx, a, b, val in A["ws"]:
            if a == 1:
                c = tm.or_(tm.le(tm.add(n, b), j), tm.lt(j, b))
            else:
                c = tm.or_(tm.le(j, tm.sub(b, n)), tm.lt(b, j))
            if E.decide(sH, c) is not True:
                return False
        return True

    def resolve_reads(t):
        """replace P(j) reads by original or solved values; None if impossible"""
        for _ in range(6):
            ufs = find_ufs(t, names) if isinstance(t, T) else []
            if not ufs:
                return t
            m = {}
            for u in ufs:
                A = arrs[names[u.args[0]]]
                j = u.args[1]
                if written_before(A, j):
                    m[u] = E.select(sH, A["orig"], j)
                elif A["solved"] is not None and A["solved"] != "pending":
                    m[u] = E.select(sH, closed_chain(E, A, n), j)
                else:
                    return None
            t = subst_deep(t, m)
        return None

    open_locs = [loc for loc, I in ind.items() if I.kind == "open"]
    nvs = {loc: getloc(E, sH, loc) for loc in open_locs}
    pend_arr = list(arrs)
    progress = True
    while progress and (open_locs or pend_arr):
        progress = False
        for loc in list(open_locs):
            I = ind[loc]
            nv = nvs[loc]
            if nv is UNDEF or (I.ph is UNDEF and not isinstance(nv, T)):
                # temp storage or pointer: last value
                fv = vvars(nv) if nv is not UNDEF else frozenset()
                if any(v in phs for v in fv):
                    continue
                I.kind, I.f = "last", nv
                open_locs.remove(loc)
                progress = True
                continue
            if isinstance(nv, T):
                r = resolve_reads(nv)
                if r is None:
                    continue
                nv = nvs[loc] = r
            fv = vvars(nv)
            mine = I.ph if isinstance(I.ph, T) else None
            others = [v for v in fv if v in phs and v is not mine]
            if mine is not None and nv is mine:
                I.kind, I.f = "const", None
            elif mine is None or mine not in fv:
                if others:
                    continue
                I.kind, I.f = "last", nv
            else:
                if others:
                    continue
                f = None
                if sortv(nv) == "R":
                    f = strip(nv, mine)
                if f is None:
                    x = extreme(nv, mine) if sortv(nv) == "R" else None
                    if x is None:
                        continue
                    I.kind, I.f, I.rec = x[0], x[1], "ext!%d!%s" % (tag, I.name)
                else:
                    I.kind, I.f = "sum", f
            open_locs.remove(loc)
            progress = True
            # substitute solved placeholder
            if mine is not None:
                cf = closed(E, I, n, n)
                del phs[mine]
                for l2 in open_locs:
                    if isinstance(nvs[l2], T):
                        nvs[l2] = tm.subst(nvs[l2], {mine: cf})
                for A in arrs.values():
                    A["ws"] = [(i, a, b, tm.subst(v, {mine: cf}) if isinstance(v, T) else v) for i, a, b, v in A["ws"]]
        for key in list(pend_arr):
            A = arrs[key]
            if any(any(v in phs for v in vvars(val)) for _, _, _, val in A["ws"]):
                continue
            # try scatter-add
            layers = []
            ok = True
            for idx, a, b, val in A["ws"]:
                self_reads = find_ufs(val, {A["P"]}) if isinstance(val, T) else []
                if not self_reads:
                    r = resolve_reads(val) if isinstance(val, T) else val
                    if r is None:
                        ok = False
                        break
                    layers.append(("set", a, b, r))
                else:
                    me = tm.uf(A["P"], (idx,), A["sort"])
                    if all(u is me for u in self_reads):
                        ph = tm.var("self!%d" % tag, "R")
                        f = strip(subst_deep(val, {me: ph}), ph)
                        if f is not None:
                            r = resolve_reads(f)
                            if r is not None:
                                layers.append(("add", a, b, r))
                                continue
                    r = resolve_reads(val)
                    if r is None:
                        ok = False
                        break
                    layers.append(("set", a, b, r))
            if not ok:
                continue
            kinds = set(l[0] for l in layers)
            if len(kinds) > 1:
                # set then add at the same index within one iteration has been folded by value; mixed across indices
                merged = fold_layers(layers)
                if merged is None:
                    continue
                layers = merged
            A["solved"] = make_layers(E, layers, n)
            pend_arr.remove(key)
            progress = True
    linked = {}
    for loc in open_locs:
        # conserved sums: this location and an earlier one change by the same or by opposite amounts
        I = ind[loc]
        if not isinstance(I.ph, T) or sortv(I.ph) != "R" or not isinstance(nvs[loc], T):
            continue
        for l2 in open_locs:
            J = ind[l2]
            if l2 == loc:
                break
            if l2 in linked or not isinstance(J.ph, T) or sortv(J.ph) != "R" or not isinstance(nvs[l2], T):
                continue
            d = [tm.sub(nvs[x], ind[x].ph) for x in (loc, l2)]
            try:
                if not tm.nf(tm.sub(d[0], d[1])):
                    linked[loc] = (J, 1)
                elif not tm.nf(tm.add(d[0], d[1])):
                    linked[loc] = (J, -1)
            except tm.TooBig:
                pass
            if loc in linked:
                break
    for loc in open_locs:
        I = ind[loc]
        if loc not in linked and isinstance(I.ph, T) and isinstance(nvs[loc], T) and I.ph not in vvars(nvs[loc]):
            # copy of another location
            twin = [l for l in open_locs if ind[l].ph in vvars(nvs[loc]) and veq(nvs[l], nvs[loc])]
            if twin:
                I.kind, I.f = "copy", ind[twin[0]]
                continue
            # depends on unsolved locations only: last value
            I.kind, I.f = "last", nvs[loc]
            continue
        if loc in linked:
            I.kind, I.f = "linked", linked[loc]
        elif isinstance(I.ph, T):
            I.kind, I.f, I.rec = "free", "rec!%d!%s" % (tag, I.name), None
            if sortv(I.ph) == "R" and isinstance(nvs[loc], T) and E.dec.real_implied(st0.pc, tm.le(Fr(0), I.v0)):
                # inductive bound: never negative
                k = sH.fork()
                k.assume(tm.le(Fr(0), I.ph))
                if E.dec.real_implied(k.pc, tm.le(Fr(0), nvs[loc])):
                    I.rec = "nonneg"
            E.note("loop value left unconstrained: %s" % I.name)
        else:
            raise Unsupported("loop-carried value not summarised in %s" % fn.name)
    for key in pend_arr:
        A = arrs[key]
        A["solved"] = "free"
        A["name"] = "rec!%d!%d_%d" % (tag, key[0], key[1])
        E.note("loop array left unconstrained in %s" % fn.name)
    # if something was left free, other summaries may still mention its placeholder
    sub = {}
    for v, loc in phs.items():
        I = ind[loc]
        if I.kind in ("free", "linked", "copy"):
            sub[v] = closed(E, I, n, n)
    if sub:
        for I in ind.values():
            if isinstance(I.f, T):
                I.f = tm.subst(I.f, sub)


def fold_layers(layers):
    return None


def extreme(v, ph):
    """running maximum or minimum: v = max(ph, f) or min(ph, f) -> (kind, f)"""
    if not isinstance(v, T) or v.op != "ite":
        return None
    c, a, b = v.args
    if not isinstance(c, T):
        return None
    if ph not in tm.free_vars(c):
        x, y = extreme(a, ph), extreme(b, ph)
        if x is None or y is None or x[0] != y[0]:
            return None
        return x[0], tm.ite(c, x[1], y[1])
    while c.op == "not":
        c, a, b = c.args[0], b, a
        if not isinstance(c, T):
            return None
    if c.op not in ("lt", "le"):
        return None
    lo, hi = c.args
    if a is hi and b is lo:
        kind = "max"
    elif a is lo and b is hi:
        kind = "min"
    else:
        return None
    f = hi if lo is ph else lo if hi is ph else None
    if f is None or (isinstance(f, T) and ph in tm.free_vars(f)):
        return None
    return kind, f


def strip(v, ph):
    """v = ph + f with f free of ph; returns f or None"""
    if isinstance(v, T) and v.op == "ite" and ph not in tm.free_vars(v.args[0]):
        a, b = strip(v.args[1], ph), strip(v.args[2], ph)
        if a is None or b is None:
            return None
        return tm.ite(v.args[0], a, b)
    if v is ph:
        return Fr(0)
    if isinstance(v, T) and v.op == "def":
        return strip(tm.body_of(v), ph)
    try:
        p = tm.nf(tm.sub(v, ph))
        t = tm.poly_term(p)
        if ph in tm.free_vars(t):
            p = tm.nf(tm.sub(v, ph), tm.Unfold(all=True))
            t = tm.poly_term(p)
    except tm.TooBig:
        return None
    if ph in tm.free_vars(t):
        return None
    return t


def make_layers(E, layers, n):
    """-> list of (kind, a, b, lamfn) ordered so that later entries win"""
    sets = [l for l in layers if l[0] == "set"]
    adds = [l for l in layers if l[0] == "add"]
    out = []
    if sets:
        # keep the last store for identical b
        last = {}
        for l in sets:
            k = (l[1], l[2] if not isinstance(l[2], T) else ("t", l[2].id))
            last[k] = l
        ls = list(last.values())
        if len(ls) > 1:
            if any(l[1] != ls[0][1] for l in ls):
                raise Unsupported("mixed direction array writes")
            # order by b: for ascending loops the smallest b is written last
            def keyf(l):
                d = tm.sub(l[2], ls[0][2])
                if isinstance(d, T):
                    raise Unsupported("incomparable write offsets")
                return d
            ls.sort(key=keyf, reverse=(ls[0][1] == 1))
        sets = ls
    for kind, a, b, val in sets + adds:
        # value as function of idx
        if isinstance(val, T):
            inv = (lambda idx, b=b: tm.sub(idx, b)) if a == 1 else (lambda idx, b=b: tm.sub(b, idx))
            lam = tm.make_lam(val, n)
            fn = (lambda lam, inv: lambda idx: tm.lam_app(lam, simp(inv(idx))))(lam, inv)
        else:
            fn = (lambda val: lambda idx: val)(val)
        out.append((kind, a, b, fn))
    return out


def simp(t):
    return tm.simp_int(t) if isinstance(t, T) else t


def closed_chain(E, A, N):
    ch = A["orig"]
    if A["solved"] == "free":
        return Base((lambda nm, N, s: lambda idx: tm.uf(nm, (N, idx), s))(A["name"], N, A["sort"]), A["name"])
    for kind, a, b, fn in A["solved"]:
        if a == 1:
            lo, hi = b, simp(tm.add(b, N))
        else:
            lo, hi = simp(tm.add(tm.sub(b, N), 1)), simp(tm.add(b, 1))
        ch = Map(ch, lo, hi, fn, True, kind == "add")
    return ch


def closed(E, I, N, n):
    """value of a scalar location after N iterations"""
    if I.kind == "affine":
        return at_affine(I.v0, I.step, N)
    if I.kind == "const":
        return I.v0
    if I.kind == "sum":
        return tm.add(I.v0, tm.make_sum(I.f, n, 0, N))
    if I.kind == "copy":
        v = closed(E, I.f, N, n)
        return v if veq(I.v0, I.f.v0) else vite(tm.eq(N, 0), I.v0, v)
    if I.kind == "linked":
        J, g = I.f
        d = tm.sub(closed(E, J, N, n), J.v0)
        return tm.add(I.v0, d) if g > 0 else tm.sub(I.v0, d)
    if I.kind == "free":
        return tm.uf(I.f, (N,), sortv(I.v0))
    if I.kind in ("max", "min"):
        return tm.uf(I.rec, (N,), "R")
    if I.kind == "last":
        if I.f is UNDEF:
            return UNDEF
        prev = vsubst(I.f, {n: simp(tm.sub(N, 1))}, {})
        if I.v0 is UNDEF:
            return prev
        c = tm.eq(N, 0)
        try:
            return vite(c, I.v0, prev)
        except Unsupported:
            return UNDEF
    raise Unsupported("unsolved location")


def install(E, st, st0, ind, arrs, N, n):
    for loc, I in ind.items():
        setloc(E, st, loc, closed(E, I, N, n))
        if I.kind == "free" and I.rec == "nonneg":
            st.assume(tm.le(Fr(0), closed(E, I, N, n)))
        if I.kind in ("max", "min"):
            # bounds the start value and every candidate, and is one of them
            x = closed(E, I, N, n)
            le = tm.le if I.kind == "max" else (lambda a, b: tm.le(b, a))
            st.assume(le(I.v0, x))
            k = tm.var("%s!at%d" % (I.rec, next(E.ctr)), "I", 0, 1 << 40)
            j = tm.var("%s!all%d" % (I.rec, next(E.ctr)), "I", 0, 1 << 40)
            st.fa = st.fa + ((j, 0, N, le(tm.subst(I.f, {n: j}) if isinstance(I.f, T) else I.f, x)),)
            st.assume(tm.or_(tm.eq(x, I.v0), tm.and_(tm.lt(k, N), tm.eq(x, tm.subst(I.f, {n: k}) if isinstance(I.f, T) else I.f))))
    for (i, c), A in arrs.items():
        os = st.mem[i]
        if os.owner is not st.mem:
            os = os.clone(st.mem)
            st.mem[i] = os
        os.f[c] = closed_chain(E, A, N)

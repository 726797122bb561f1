"""Symbolic execution / verification-condition generation over LLVM IR."""
import math, struct, re, itertools, sys
from fractions import Fraction as Fr
from . import terms as tm
from . import ir
from . import sign
from .terms import T
from .mem import *
from .smt import IntDecider, int_only

sys.setrecursionlimit(200000)
EXIT = "$exit"
DEFSIZE = 60


class State:
    __slots__ = ("mem", "pc", "pcset", "env", "exc", "fa", "ghost")
    _tok = itertools.count(1)

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.env = {}
        self.exc = None
        self.fa = ()
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.env = dict(self.env)
        s.exc = self.exc
        s.fa = self.fa
        s.ghost = dict(self.ghost)
        # both lose ownership of shared object states
        self.disown()
        return s

    def disown(self):
        # ownership token is the identity of the mem dict: replace ours
        self.mem = dict(self.mem)

    def assume(self, c):
        """returns False when the state becomes infeasible"""
        if not isinstance(c, T):
            return bool(c)
        if c.op == "and":
            return all([self.assume(x) for x in c.args])
        if c in self.pcset:
            return True
        n = tm.not_(c)
        if n in self.pcset:
            return False
        self.pc.append(c)
        self.pcset.add(c)
        return True

    # object states -----------------------------------------------------
    def get(self, obj):
        return self.mem.get(obj.id)

    def own(self, obj):
        o = self.mem.get(obj.id)
        if o.owner is not self.mem:
            o = o.clone(self.mem)
            self.mem[obj.id] = o
        return o


class Frame:
    def __init__(self, fn, depth):
        self.fn = fn
        self.outs = []
        self.active = []
        self.depth = depth
        self.exit_sym = None
        self.allocas = []


class Ob:
    __slots__ = ("name", "kind", "pc", "goal", "where", "meta", "fa")

    def __init__(self, name, kind, pc, goal, where, meta=None, fa=()):
        self.name, self.kind, self.pc, self.goal, self.where = name, kind, pc, goal, where
        self.meta = meta
        self.fa = fa


_nice = {}


def nice_real(d):
    """the mathematical number a double literal denotes"""
    if isinstance(d, ir.FpConst):
        raise Unsupported("fp80 const")
    r = _nice.get(d)
    if r is not None:
        return r
    if d != d or d in (float("inf"), float("-inf")):
        r = tm.var("NAN" if d != d else ("INF" if d > 0 else "-INF"), "R")
        _nice[d] = r
        return r
    r = None
    x = Fr(d)
    if x.denominator <= 1 << 12:
        r = x
    if r is None:
        # multiples of pi
        for k in (1, 2, 4, 3, 6, 8, 180, 360):
            for f in (Fr(1, 1), ):
                for q in (1, 2, 3, 4, 6, 8, 180, 90, 360):
                    if math.pi * k / q == d:
                        r = tm.mul(tm.PI, Fr(k, q))
                    elif -math.pi * k / q == d:
                        r = tm.mul(tm.PI, Fr(-k, q))
                    if r is not None:
                        break
                if r is not None:
                    break
            if r is not None:
                break
    if r is None:
        for k in (180, 360, 1, 2, 90):
            if k / math.pi == d:
                r = tm.div(Fr(k), tm.PI)
    if r is None:
        s = repr(d)
        m = s.lower().split("e")[0].replace("-", "").replace(".", "").strip("0")
        if len(m) <= 12:
            r = Fr(s)
    if r is None:
        for den in range(3, 1001):
            num = round(d * den)
            if num and num / den == d:
                r = Fr(num, den)
                break
    if r is None:
        s = math.sqrt(2.0)
        r = x
    _nice[d] = r
    return r


def pbranch(v, c, val):
    while isinstance(v, PIte):
        if v.c is c:
            v = v.a if val else v.b
        elif tm.not_(v.c) is c:
            v = v.b if val else v.a
        else:
            break
    return v


class PcView:
    """a path condition extended by one fact (for evaluating merged values)"""

    def __init__(self, st, c):
        self.pc = st.pc + [c]
        self.pcset = st.pcset | {c}
        self.fa = st.fa
        self.mem = getattr(st, "mem", None)


def vite_p(c, a, b):
    try:
        return vite(c, a, b)
    except Unsupported:
        if all(isinstance(x, (int, T, PInt, PIte, Ptr)) for x in (a, b)):
            return PIte(c, a, b)
        raise


class Engine:
    def __init__(self, modules, stubs=None, opts=None):
        self.mods = modules
        self.funcs = {}
        for m in modules:
            for n, f in m.funcs.items():
                if n not in self.funcs:
                    self.funcs[n] = f
        for m in modules:
            for n, t in m.aliases.items():
                if n not in self.funcs:
                    self.funcs[n] = m.funcs[t]
        self.stubs = stubs or {}
        self.opts = opts or {}
        self.obs = []
        self.obkeys = set()
        self.gobj = {}
        self.fobj = {}
        self.dec = IntDecider()
        self.growth = False
        self.inputs = []  # (name, sort, lo, hi)
        self.inputset = {}
        self.covers = {}
        self.entered = {}
        self.notes = {}
        self.ctr = itertools.count(1)
        self.tinames = {}
        self.concrete = self.opts.get("concrete", {})
        self.trace = self.opts.get("trace", False)
        self.callstack = []
        self.steps = 0
        self.curins = []
        self.lastun = ""
        self.curmods = []
        self.maxsteps = self.opts.get("maxsteps", 4000000)
        self.dead = []
        from . import models
        self.models = models
        self.t_end = self.opts.get("t_end")

    # ------------------------------------------------------------ utilities
    def fresh(self, base, sort="R", lo=None, hi=None):
        return tm.var("%s!%d" % (base, next(self.ctr)), sort, lo, hi)

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1

    def implied(self, st, c):
        if not isinstance(c, T):
            return bool(c)
        if c in st.pcset:
            return True
        return self.dec.implied(st.pc, c)

    def decide(self, st, c):
        """True / False / None"""
        if not isinstance(c, T):
            return bool(c)
        if c in st.pcset:
            return True
        n = tm.not_(c)
        if n in st.pcset:
            return False
        if self.dec.implied(st.pc, c):
            return True
        if self.dec.implied(st.pc, n):
            return False
        return None

    def where(self):
        loc = ""
        for ins, m in zip(reversed(self.curins), reversed(self.curmods)):
            if ins is None:
                continue
            loc = m.source_loc(ins.line)
            if loc:
                break
        via = ""
        if self.curins and self.curins[-1] is not None and self.curmods[-1].inlined_inverse(self.curins[-1].line):
            via = "compute_inverse (inlined, Inverse) < "
        return (loc or "?") + " in " + via + " < ".join(reversed(self.callstack[-4:]))

    def oblige(self, st, name, kind, goal, meta=None):
        if not isinstance(goal, T):
            if goal:
                if kind == "check":
                    self.obs.append(Ob(name, kind, list(st.pc), True, self.where(), meta, st.fa))
                else:
                    self.note("trivial-" + kind)
                return
        if kind != "check":
            if isinstance(goal, T) and (self.implied(st, goal) or sign.decide(goal, st.pc)):
                self.note("discharged-" + kind)
                return
            key = (name, kind, goal.id if isinstance(goal, T) else goal, len(st.pc), st.pc[-1].id if st.pc and isinstance(st.pc[-1], T) else 0)
            if key in self.obkeys:
                return
            self.obkeys.add(key)
        self.obs.append(Ob(name, kind, list(st.pc), goal, self.where(), meta, st.fa))

    # ------------------------------------------------------------ globals
    def alloc(self, st, name, size, zero=False):
        o = Obj(name, size)
        c = Cells(st.mem)
        if zero and isinstance(size, int):
            c.zero.append((0, size))
        st.mem[o.id] = c
        return o

    def global_obj(self, name, mod):
        """resolve @name from module mod"""
        g = self.gobj.get(name)
        if g is not None:
            return g
        if name in self.funcs or self.is_decl(name) or name in self.stubs:
            o = self.fobj.get(name)
            if o is None:
                o = Obj(name, 0, "func")
                self.fobj[name] = o
            return o
        best = None
        for m in ([mod] if mod else []) + self.mods:
            if name in m.globals:
                kind, t, init = m.global_info(name)
                if kind == "alias":
                    v = self.const_value(init, m)
                    return v.obj
                if init is not None:
                    best = (m, kind, t, init)
                    break
                if best is None:
                    best = (m, kind, t, init)
        if best is None:
            raise Unsupported("global " + name)
        m, kind, t, init = best
        local = name.startswith(".str") or name.startswith("__const") or name.startswith("switch.table")
        o = Obj("@" + name, ir.sizeof(t, m), "global")
        o.external = init is None
        if not (local or self.is_private(m, name)):
            self.gobj[name] = o
        else:
            key = (m.path, name)
            if key in self.gobj:
                return self.gobj[key]
            self.gobj[key] = o
        self.gdef = getattr(self, "gdef", {})
        self.gdef[o.id] = (m, t, init)
        return o

    def is_private(self, m, name):
        s = m.globals[name]
        return s.startswith("private") or s.startswith("internal")

    def is_decl(self, name):
        return any(name in m.decls for m in self.mods)

    def objstate(self, st, obj):
        o = st.mem.get(obj.id)
        if o is None:
            if obj.kind == "global":
                m, t, init = self.gdef[obj.id]
                c = Cells(st.mem)
                if init is None:
                    if obj.name.startswith("@_ZTV") or obj.name.startswith("@_ZTI") or obj.name.startswith("@_ZTT"):
                        st.mem[obj.id] = c
                        return c
                    st.mem[obj.id] = c
                    return c
                st.mem[obj.id] = c
                self.init_cells(c, 0, t, init, m)
                return c
            if obj.kind == "func":
                raise Unsupported("memory access to function")
            raise Unsupported("access to unknown/expired object %s" % obj)
        return o

    def init_cells(self, c, off, t, v, m):
        k = v[0]
        rt = ir.resolve(t, m)
        if k == "z":
            c.zero.append((off, off + ir.sizeof(t, m)))
            return
        if k == "u":
            return
        if k == "bytes":
            for i, b in enumerate(v[1]):
                c.d[off + i] = (1, b)
            return
        if rt.k in ("struct", "pstruct"):
            offs = ir.offsets(rt, m)
            for (et, ev), o in zip(v[1], offs):
                self.init_cells(c, off + o, et, ev, m)
            return
        if rt.k in ("arr", "vec"):
            es = ir.sizeof(rt.a[1], m)
            for i, (et, ev) in enumerate(v[1]):
                self.init_cells(c, off + i * es, et, ev, m)
            return
        c.d[off] = (ir.sizeof(t, m), self.conv_const(self.const_value(v, m, t), rt))

    def conv_const(self, v, t):
        return v

    def const_value(self, v, mod, t=None):
        k = v[0]
        if k == "c":
            x = v[1]
            if isinstance(x, float) or isinstance(x, ir.FpConst):
                return nice_real(x)
            if isinstance(x, int) and not isinstance(x, bool) and t is not None and t.k in ("double", "float"):
                return Fr(x)
            return x
        if k == "n":
            return NULL
        if k == "g":
            return Ptr(self.global_obj(v[1], mod), 0)
        if k == "u":
            return UNDEF
        if k == "z":
            if t is not None:
                t = ir.resolve(t, mod)
                if t.k == "ptr":
                    return NULL
                if t.k == "double":
                    return Fr(0)
                if t.k in ("struct", "pstruct"):
                    return tuple(self.const_value(v, mod, e) for e in t.a)
                if t.k == "arr":
                    return tuple(self.const_value(v, mod, t.a[1]) for _ in range(t.a[0]))
            return 0
        if k == "gep":
            b = self.const_value(v[2], mod)
            return self.gep(None, v[1], b, [self.const_value(i, mod) for i in v[3]], mod)
        if k == "cast":
            x = self.const_value(v[3], mod, v[2])
            if v[1] == "ptrtoint":
                return PInt(x.obj, x.off) if isinstance(x, Ptr) and x.obj is not None else (x.off if isinstance(x, Ptr) else x)
            return x
        if k == "agg":
            return tuple(self.const_value(e, mod, et) for et, e in v[1])
        if k == "cbin":
            a, b = self.const_value(v[3], mod), self.const_value(v[4], mod)
            if isinstance(a, int) and isinstance(b, int):
                return {"add": a + b, "sub": a - b, "mul": a * b}[v[1]]
            if v[1] == "sub" and isinstance(a, PInt) and isinstance(b, PInt) and a.obj is b.obj:
                return tm.sub(a.off, b.off)
            raise Unsupported("const expr")
        raise Unsupported("const " + str(v))

    def val(self, st, v, mod, t=None):
        if v[0] == "l":
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported("undefined ssa %s in %s" % (v[1], self.callstack[-1:]))
        return self.const_value(v, mod, t)

    # ------------------------------------------------------------ gep
    def gep(self, st, et, base, idx, mod):
        off = 0
        t = et
        first = True
        for i in idx:
            if isinstance(i, PInt) or i is UNDEF:
                raise Unsupported("gep index")
            if first:
                off = tm.add(off, tm.mul(i, ir.sizeof(t, mod))) if isinstance(i, T) or isinstance(off, T) else off + i * ir.sizeof(t, mod)
                first = False
                continue
            rt = ir.resolve(t, mod)
            if rt.k in ("struct", "pstruct"):
                off = tm.add(off, ir.offsets(rt, mod)[i])
                t = rt.a[i]
            elif rt.k in ("arr", "vec"):
                t = rt.a[1]
                off = tm.add(off, tm.mul(i, ir.sizeof(t, mod)))
            else:
                raise Unsupported("gep into " + rt.k)
        return self.padd(base, off)

    def padd(self, base, off):
        if isinstance(base, Ptr):
            if not isinstance(off, T) and off == 0:
                return base
            no = tm.add(base.off, off)
            if isinstance(no, T):
                no = tm.simp_int(no)
            return Ptr(base.obj, no)
        if isinstance(base, PIte):
            return vite(base.c, self.padd(base.a, off), self.padd(base.b, off))
        if base is UNDEF:
            return UNDEF
        raise Unsupported("gep base %s" % type(base).__name__)

    # ------------------------------------------------------------ memory access
    def check_ptr(self, st, p, size, what):
        if p.obj is None:
            raise NullDeref("%s through null pointer (offset %s)" % (what, p.off))

    def under(self, st, cc, fn):
        """run fn with cc assumed; facts it learns are kept under cc"""
        pc, ps = st.pc, st.pcset
        st.pc, st.pcset = list(pc), set(ps)
        st.assume(cc)
        k = len(st.pc)
        try:
            return fn()
        finally:
            new = st.pc[k:]
            st.pc, st.pcset = pc, ps
            for f in new:
                st.assume(tm.or_(tm.not_(cc), f))

    def load(self, st, p, t, mod):
        rt = ir.resolve(t, mod)
        if isinstance(p, PIte):
            c = self.decide(st, p.c)
            if c is True:
                return self.load(st, p.a, t, mod)
            if c is False:
                return self.load(st, p.b, t, mod)
            # one side null under infeasible/unsafe condition
            vals = []
            for q, cc in ((p.a, p.c), (p.b, tm.not_(p.c))):
                if isinstance(q, Ptr) and q.obj is None:
                    self.oblige(st, "null-deref", "safety", tm.not_(cc))
                    vals.append(None)
                else:
                    vals.append(self.under(st, cc, lambda: self.load(st, q, t, mod)))
            if vals[0] is None:
                return vals[1]
            if vals[1] is None:
                return vals[0]
            return vite(p.c, vals[0], vals[1])
        if not isinstance(p, Ptr):
            raise Unsupported("load via %s" % (p,))
        if rt.k in ("struct", "pstruct"):
            offs = ir.offsets(rt, mod)
            return tuple(self.load(st, self.padd(p, o), e, mod) for o, e in zip(offs, rt.a))
        if rt.k in ("arr", "vec"):
            es = ir.sizeof(rt.a[1], mod)
            return tuple(self.load(st, self.padd(p, k * es), rt.a[1], mod) for k in range(rt.a[0]))
        size = ir.sizeof(rt, mod)
        self.check_ptr(st, p, size, "load")
        os = self.objstate(st, p.obj)
        if os.freed:
            raise MemError("use after free of %s" % p.obj)
        if isinstance(os, Arr):
            v = self.arr_load(st, p, os, size, rt)
        else:
            v = self.cell_load(st, p, os, size, rt)
        return self.as_type(st, v, rt)

    def as_type(self, st, v, rt):
        """adapt a raw cell value to the loaded type"""
        if rt.k == "double":
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if v == 0:
                    return Fr(0)
                return nice_real(struct.unpack("<d", (v & (2 ** 64 - 1)).to_bytes(8, "little"))[0])
            if isinstance(v, Bits):
                return v.v
            if isinstance(v, T) and v.sort == "I":
                raise Unsupported("double load of symbolic integer bits")
            return v
        if rt.k == "float":
            if isinstance(v, int):
                return Fr(struct.unpack("<f", (v & (2 ** 32 - 1)).to_bytes(4, "little"))[0])
            return v
        if rt.k == "int":
            if isinstance(v, Fr) or (isinstance(v, T) and v.sort == "R"):
                return Bits(v)
            if rt.a == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if isinstance(v, T) and v.sort == "I":
                    return self.to_bool(v)
            elif isinstance(v, bool):
                return int(v)
            elif isinstance(v, T) and v.sort == "B":
                return tm.ite(v, 1, 0)
            elif isinstance(v, Ptr):
                return PInt(v.obj, v.off) if v.obj is not None else v.off
            elif isinstance(v, PIte):
                return v
            return v
        if rt.k == "ptr":
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            if isinstance(v, PInt):
                return Ptr(v.obj, v.off)
            if isinstance(v, Bits):
                raise Unsupported("pointer from real bits")
            return v
        return v

    def cell_load(self, st, p, os, size, rt):
        off = p.off
        if isinstance(off, T):
            d = self.concretise(st, off)
            if d is not None:
                off = d
            else:
                return self.cell_load_sym(st, p, os, size, rt)
        if p.obj.size is not None and isinstance(p.obj.size, int) and not p.obj.external and (off < 0 or off + size > p.obj.size):
            raise MemError("out-of-bounds read at offset %d of %s (size %d)" % (off, p.obj, p.obj.size))
        ok, v = os.load(off, size)
        if ok:
            if v is None:
                raise Unsupported("mixed-width load at %s" % p)
            return v
        if p.obj.external:
            nm = "ext:%s@%d" % (p.obj.name, off)
            if rt.k == "ptr":
                if p.obj.name.startswith("@_ZTV"):
                    raise Unsupported("virtual call through external vtable " + p.obj.name)
                o = Obj(nm, None, "mem")
                o.external = True
                st.mem[o.id] = Cells(st.mem)
                v = Ptr(o, 0)
            elif rt.k == "double":
                v = tm.var(nm, "R")
            else:
                v = tm.var(nm, "I", 0, (1 << (rt.a - 1)) - 1)
            self.note("external-read " + p.obj.name)
            os = st.own(p.obj)
            os.store(off, size, v)
            return v
        return UNDEF

    def concretise(self, st, off):
        """try to find that a symbolic integer has a unique concrete value"""
        if not isinstance(off, T):
            return off
        lo, hi = tm.bounds(off)
        if lo is not None and lo == hi:
            return lo
        return None

    def cand_offsets(self, st, p, os, size):
        lo, hi = tm.bounds(p.off)
        if p.obj.size is None or not isinstance(p.obj.size, int):
            raise Unsupported("symbolic offset into unsized object %s" % p)
        lo = 0 if lo is None or lo < 0 else lo
        hi = p.obj.size - size if hi is None or hi > p.obj.size - size else hi
        # congruence
        ip = tm.int_poly(p.off)
        g = 0
        for m, c in ip.items():
            if m != ():
                g = math.gcd(g, c)
        c0 = ip.get((), 0)
        g = g or 1
        if any(z.op == "ite" for m in ip for z in m):
            g = min(g, size) if g % size else g
        first = lo + ((c0 - lo) % g)
        offs = list(range(first, hi + 1, g))
        if len(offs) > 80:
            raise Unsupported("symbolic offset with %d candidates in %s" % (len(offs), p.obj))
        self.oblige(st, "in-bounds", "safety", tm.and_(tm.le(0, p.off), tm.le(p.off, p.obj.size - size)))
        return offs

    def cell_load_sym(self, st, p, os, size, rt):
        offs = self.cand_offsets(st, p, os, size)
        res = None
        for o in reversed(offs):
            c = tm.eq(p.off, o)
            if self.decide(st, c) is False:
                continue
            ok, v = os.load(o, size)
            if not ok or v is None:
                v = UNDEF
            v = self.as_type(st, v, rt) if v is not UNDEF else v
            res = v if res is None else vite(c, v, res)
        if res is None:
            raise Unsupported("no candidate for symbolic load")
        return res

    def store(self, st, p, v, t, mod):
        rt = ir.resolve(t, mod)
        if rt.k in ("struct", "pstruct"):
            offs = ir.offsets(rt, mod)
            for o, e, x in zip(offs, rt.a, v):
                self.store(st, self.padd(p, o), x, e, mod)
            return
        if rt.k in ("arr", "vec"):
            es = ir.sizeof(rt.a[1], mod)
            for k in range(rt.a[0]):
                self.store(st, self.padd(p, k * es), v[k], rt.a[1], mod)
            return
        self.store_raw(st, p, v, ir.sizeof(rt, mod))

    def store_raw(self, st, p, v, size, g=True):
        if isinstance(p, PIte):
            c = self.decide(st, p.c)
            if c is None:
                for q, cc in ((p.a, p.c), (p.b, tm.not_(p.c))):
                    if isinstance(q, Ptr) and q.obj is None:
                        self.oblige(st, "null-deref", "safety", tm.not_(cc))
                        continue
                    self.under(st, cc, lambda: self.store_raw(st, q, v, size, tm.and_(g, cc)))
                return
            return self.store_raw(st, p.a if c else p.b, v, size, g)
        if not isinstance(p, Ptr):
            raise Unsupported("store via %s" % (p,))
        self.check_ptr(st, p, size, "store")
        if isinstance(v, T) and v.op not in ("var", "def", "uf") and tm.size(v) > DEFSIZE and v.sort == "R":
            v = tm.define("d%d" % v.id, v)
        os = self.objstate(st, p.obj)
        if os.freed:
            raise MemError("write after free of %s" % p.obj)
        os = st.own(p.obj)
        if isinstance(os, Arr):
            sp = split_offset(p.off, os.stride)
            if sp is None:
                raise Unsupported("array store offset %s stride %d" % (p.off, os.stride))
            idx, c = sp
            self.bounds(st, p, os, idx, c, size)
            ch = self.chain(os, c, size, None)
            if g is not True:
                v = vite(g, v, self.select(st, ch, idx))
            os.f[c] = Store(ch, idx, v)
            return
        off = p.off
        if isinstance(off, T):
            d = self.concretise(st, off)
            if d is None:
                offs = self.cand_offsets(st, p, os, size)
                for o in offs:
                    cc = tm.eq(p.off, o)
                    if self.decide(st, cc) is False:
                        continue
                    ok, old = os.load(o, size)
                    if not ok or old is None:
                        old = UNDEF
                    if isinstance(old, int) and not isinstance(old, bool) and tm.sort_of(v) == "R":
                        old = self.as_type(st, old, ir.ty("double"))
                    os.store(o, size, vite(tm.and_(g, cc), v, old))
                return
            off = d
        if p.obj.size is not None and isinstance(p.obj.size, int) and not p.obj.external and (off < 0 or off + size > p.obj.size):
            raise MemError("out-of-bounds write at offset %d of %s (size %d)" % (off, p.obj, p.obj.size))
        if g is not True:
            ok, old = os.load(off, size)
            if not ok or old is None:
                old = UNDEF
            if isinstance(old, int) and isinstance(v, (T, Fr)) and tm.sort_of(v) == "R":
                old = self.as_type(st, old, ir.ty("double"))
            if isinstance(old, int) and isinstance(v, (Ptr, PIte)):
                old = NULL if old == 0 else old
            v = vite(g, v, old)
        os.store(off, size, v)

    # ------------------------------------------------------------ arrays
    def bounds(self, st, p, os, idx, c, size):
        L = p.obj.size
        if L is None:
            return
        n = tm.idiv(L, os.stride)
        self.oblige(st, "in-bounds", "safety", tm.and_(tm.le(0, idx), tm.lt(idx, n)))

    def chain(self, os, c, size, rt):
        ch = os.f.get(c)
        if ch is None:
            ch = os.bases.get(c)
            if ch is None:
                if os.default is None:
                    ch = Base(lambda idx: UNDEF, "uninit")
                else:
                    ch = os.default(c, size)
                os.bases[c] = ch
            os.f[c] = ch
        return ch

    def arr_load(self, st, p, os, size, rt):
        sp = split_offset(p.off, os.stride)
        if sp is None:
            # offset is an ite: split
            v = self.split_ite_ptr(p)
            if v is not None:
                return self.load(st, v, rt, None)
            raise Unsupported("array load offset %s stride %d" % (p.off, os.stride))
        idx, c = sp
        self.bounds(st, p, os, idx, c, size)
        ch = self.chain(os, c, size, rt)
        return self.select(st, ch, idx)

    def split_ite_ptr(self, p):
        ip = tm.int_poly(p.off)
        for m in ip:
            for z in m:
                if z.op == "ite":
                    a = tm.simp_int(tm.subst(p.off, {z: z.args[1]}))
                    b = tm.simp_int(tm.subst(p.off, {z: z.args[2]}))
                    return PIte(z.args[0], Ptr(p.obj, a), Ptr(p.obj, b))
        return None

    def select(self, st, ch, idx):
        pend = []  # (cond, value)
        while True:
            if isinstance(ch, Base):
                v = ch.fn(idx)
                break
            if isinstance(ch, Store):
                c = tm.and_(ch.g, tm.eq(ch.idx, idx))
                d = self.decide(st, c)
                if d is True:
                    v = ch.val
                    break
                if d is False:
                    ch = ch.prev
                    continue
                pend.append((c, ch.val))
                ch = ch.prev
                continue
            if isinstance(ch, Map):
                c = tm.and_(ch.g, tm.le(ch.lo, idx), tm.lt(idx, ch.hi))
                d = self.decide(st, c)
                if d is False:
                    ch = ch.prev
                    continue
                x = ch.fn(idx)
                if ch.add:
                    prev = self.select(st, ch.prev, idx)
                    v = tm.add(prev, x) if d else tm.add(prev, tm.ite(c, x, Fr(0)))
                    break
                if d is True:
                    v = x
                    break
                pend.append((c, x))
                ch = ch.prev
                continue
            raise Unsupported("chain node")
        for c, x in reversed(pend):
            v = vite(c, x, v)
        return v

    # ------------------------------------------------------------ memcpy / memset
    def memcpy(self, st, d, s, n):
        if not isinstance(n, T) and n == 0:
            return
        if isinstance(d, PIte) or isinstance(s, PIte):
            if isinstance(s, PIte):
                c = self.decide(st, s.c)
                if c is not None:
                    return self.memcpy(st, d, s.a if c else s.b, n)
            if isinstance(d, PIte):
                c = self.decide(st, d.c)
                if c is not None:
                    return self.memcpy(st, d.a if c else d.b, s, n)
            if not isinstance(n, T) and n % 8 == 0 and n <= 1024:
                for k in range(0, n, 8):
                    v = self.load(st, self.padd(s, k), ir.ty("double"), None)
                    self.store_raw(st, self.padd(d, k), v, 8)
                return
            raise Unsupported("memcpy via merged pointer")
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy pointers")
        if d.obj is None or s.obj is None:
            if isinstance(n, T) and self.implied(st, tm.eq(n, 0)):
                return
            raise NullDeref("memcpy null")
        so = self.objstate(st, s.obj)
        do = self.objstate(st, d.obj)
        if so.freed or do.freed:
            raise MemError("memcpy of freed memory")
        if isinstance(n, T):
            return self.memcpy_sym(st, d, s, n, do, so)
        if isinstance(so, Cells) and isinstance(do, Cells) and not isinstance(s.off, T) and not isinstance(d.off, T):
            if not s.obj.external and isinstance(s.obj.size, int) and (s.off < 0 or s.off + n > s.obj.size):
                raise MemError("out-of-bounds memcpy read of %s" % s.obj)
            if not d.obj.external and isinstance(d.obj.size, int) and (d.off < 0 or d.off + n > d.obj.size):
                raise MemError("out-of-bounds memcpy write to %s" % d.obj)
            do = st.own(d.obj)
            so = st.get(s.obj)
            if n > 4096:
                items = [(o, c) for o, c in so.d.items() if s.off <= o and o + c[0] <= s.off + n]
            else:
                items = []
                o = s.off
                while o < s.off + n:
                    c = so.d.get(o)
                    if c is not None:
                        if o + c[0] > s.off + n:
                            bs = [so.byte(z) for z in range(o, s.off + n)]
                            items += [(o + i, (1, b)) for i, b in enumerate(bs)]
                            break
                        items.append((o, c))
                        o += c[0]
                    else:
                        if o == s.off:
                            # maybe inside a wider cell
                            ov = so.overlapping(o, 1)
                            if ov:
                                s0, v0 = so.d[ov[0]]
                                e = ov[0] + s0
                                for z in range(o, min(e, s.off + n)):
                                    items.append((z, (1, so.byte(z))))
                                o = min(e, s.off + n)
                                continue
                        o += 1
            zr = [(max(lo, s.off), min(hi, s.off + n)) for lo, hi in so.zero if lo < s.off + n and hi > s.off]
            dl = d.off - s.off
            # clear destination
            for o in range(d.off, d.off + n) if n <= 4096 else list(do.d):
                c = do.d.get(o)
                if c is not None and d.off <= o < d.off + n:
                    if o + c[0] > d.off + n:
                        do.store(o, d.off + n - o, UNDEF)
                        do.d.pop(o, None)
                    else:
                        del do.d[o]
            for o in do.overlapping(d.off, 1):
                do.store(d.off, 1, UNDEF)
                do.d.pop(d.off, None)
            nz = []
            for lo, hi in do.zero:
                if hi <= d.off or lo >= d.off + n:
                    nz.append((lo, hi))
                else:
                    if lo < d.off:
                        nz.append((lo, d.off))
                    if hi > d.off + n:
                        nz.append((d.off + n, hi))
            do.zero = nz + [(lo + dl, hi + dl) for lo, hi in zr]
            for o, c in items:
                do.d[o + dl] = c
            return
        # slot-wise (8 bytes)
        if n % 8 == 0 and n <= 4096:
            vals = [self.load(st, self.padd(s, k), ir.ty("raw8"), None) if False else self.load8(st, self.padd(s, k)) for k in range(0, n, 8)]
            for k, v in zip(range(0, n, 8), vals):
                self.store_raw(st, self.padd(d, k), v, 8)
            return
        if n in (1, 2, 4):
            v = self.load(st, s, ir.ty("int", n * 8), None)
            self.store_raw(st, d, v, n)
            return
        raise Unsupported("memcpy of %s bytes" % n)

    def load8(self, st, p):
        """raw 8-byte slot"""
        os = self.objstate(st, p.obj)
        if isinstance(os, Arr):
            return self.arr_load(st, p, os, 8, None)
        return self.cell_load(st, p, os, 8, ir.ty("double"))

    def memcpy_sym(self, st, d, s, n, do, so):
        if not isinstance(so, Arr):
            raise Unsupported("symbolic-length memcpy from concrete object")
        if isinstance(do, Cells):
            do = self.to_arr(st, d.obj, so.stride)
        a = split_offset(s.off, so.stride)
        if do.stride != so.stride:
            do = self.to_arr(st, d.obj, so.stride)
        b = split_offset(d.off, do.stride)
        if a is None or b is None or a[1] or b[1]:
            raise Unsupported("misaligned symbolic memcpy")
        cnt = tm.idiv(n, so.stride)
        sh = tm.sub(a[0], b[0])
        do = st.own(d.obj)
        so = st.get(s.obj)
        for c in range(0, so.stride, 8 if so.stride % 8 == 0 else so.stride):
            ch = self.chain(so, c, min(8, so.stride), None)
            prev = self.chain(do, c, min(8, so.stride), None)
            do.f[c] = Map(prev, b[0], tm.add(b[0], cnt), (lambda ch, sh: lambda i: self.select(st, ch, tm.simp_int(tm.add(i, sh))))(ch, sh))

    def to_arr(self, st, obj, stride):
        o = st.get(obj)
        if isinstance(o, Arr):
            if any(not (isinstance(x, Base) and x.name == "uninit") for x in o.f.values()):
                raise Unsupported("restride of initialised array")
            a = Arr(stride, st.mem)
            st.mem[obj.id] = a
            return a
        if o.d:
            raise Unsupported("cells object used as symbolic array")
        a = Arr(stride, st.mem)
        if o.zero:
            a.default = lambda c, size: Base(lambda idx: 0, "zero")
        st.mem[obj.id] = a
        return a

    def memset(self, st, d, v, n):
        if not isinstance(d, Ptr):
            raise Unsupported("memset via merged ptr")
        if not isinstance(n, T) and n == 0:
            return
        if d.obj is None:
            if isinstance(n, T) and self.implied(st, tm.eq(n, 0)):
                return
            raise NullDeref("memset null")
        os = self.objstate(st, d.obj)
        if isinstance(os, Cells) and not isinstance(d.off, T) and not isinstance(n, T):
            if isinstance(d.obj.size, int) and d.off + n > d.obj.size:
                raise MemError("out-of-bounds memset of %s" % d.obj)
            os = st.own(d.obj)
            for o in [o for o in os.d if o < d.off + n and o + os.d[o][0] > d.off]:
                s, x = os.d[o]
                if o >= d.off and o + s <= d.off + n:
                    del os.d[o]
                else:
                    os.store(max(o, d.off), min(o + s, d.off + n) - max(o, d.off), UNDEF)
            if v == 0:
                os.zero.append((d.off, d.off + n))
            elif isinstance(v, int) and n <= 4096:
                for k in range(n):
                    os.d[d.off + k] = (1, v & 255)
            else:
                raise Unsupported("memset value")
            return
        if v != 0:
            raise Unsupported("symbolic memset nonzero")
        if isinstance(os, Cells):
            p = tm.int_poly(n)
            g = 0
            for m, c in p.items():
                g = math.gcd(g, c)
            self.to_arr(st, d.obj, self.arr_stride_hint(d.obj, g))
        os = st.own(d.obj)
        sp = split_offset(d.off, os.stride)
        if sp is None or sp[1]:
            raise Unsupported("memset offset")
        cnt = tm.idiv(n, os.stride)
        step = 8 if os.stride % 8 == 0 else os.stride
        for c in range(0, os.stride, step):
            ch = self.chain(os, c, step, None)
            z = Fr(0)
            b = ch
            os.f[c] = Map(ch, sp[0], tm.add(sp[0], cnt), lambda i: 0)
        return

    def arr_stride_hint(self, obj, g):
        return g if g else 8

    # ------------------------------------------------------------ arithmetic helpers
    def to_bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if v is UNDEF:
            raise Unsupported("branch on undef")
        if v.sort == "B":
            return v
        lo, hi = tm.bounds(v)
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            return tm.eq(v, 1)
        if v.op == "ite":
            return tm.ite(v.args[0], self.to_bool(v.args[1]), self.to_bool(v.args[2]))
        return tm.eq(tm.imod(v, 2), 1)

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, T) and v.sort == "B":
            return tm.ite(v, 1, 0)
        return v

    def signed(self, st, v, w):
        """value as signed w-bit"""
        if isinstance(v, int) and not isinstance(v, bool):
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        v = self.as_int(v)
        if not isinstance(v, T):
            return v if w > 1 else -v
        lo, hi = tm.bounds(v)
        h = 1 << (w - 1)
        if lo is not None and hi is not None and lo >= -h and hi < h:
            return v
        self.oblige(st, "int-range", "safety", tm.and_(tm.le(-h, v), tm.lt(v, h)))
        return v

    def unsigned(self, st, v, w):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        v = self.as_int(v)
        if not isinstance(v, T):
            return v
        lo, hi = tm.bounds(v)
        if lo is not None and lo >= 0:
            return v
        self.oblige(st, "int-range", "safety", tm.le(0, v))
        return v

    # ------------------------------------------------------------ running
    def run(self, fr, st, blk, stops, at=0):
        """execute from blk (phis done) until a block in stops; returns arrivals"""
        work = [(st, blk, at)]
        arrivals = []
        fn = fr.fn
        while work:
            st, blk, at = work.pop()
            while True:
                # loop headers
                if at == 0 and blk in fn.loops and blk not in fr.active:
                    arrs = self.loop(fr, st, blk)
                    work.extend(self.split_arrivals(arrs, stops, arrivals))
                    break
                b = fn.blocks[blk]
                nxt = None
                insts = b.insts
                n = len(insts)
                i = at
                at = 0
                cont = True
                while i < n:
                    ins = insts[i]
                    i += 1
                    self.steps += 1
                    self.curins[-1] = ins
                    op = ins.op
                    if op in ("call", "invoke"):
                        outs = self.do_call(fr, st, ins)
                        if op == "invoke" or len(outs) != 1 or outs[0][0] != "ret":
                            # general
                            conts = []
                            for kind, s2, v in outs:
                                if kind == "ret":
                                    if ins.res is not None:
                                        s2.env[ins.res] = v
                                    if op == "invoke":
                                        self.goto(fn, s2, blk, ins.a[2])
                                        conts.append((s2, ins.a[2], 0))
                                    else:
                                        conts.append((s2, blk, i))
                                elif kind == "throw":
                                    if op == "invoke":
                                        s2.exc = v
                                        self.goto(fn, s2, blk, ins.a[3])
                                        conts.append((s2, ins.a[3], 0))
                                    else:
                                        fr.outs.append(("throw", s2, v))
                                else:
                                    fr.outs.append((kind, s2, v))
                            for c in conts:
                                if c[2] == 0 and c[1] in stops and op == "invoke":
                                    arrivals.append((c[0], c[1]))
                                else:
                                    work.append(c)
                            cont = False
                            break
                        st = outs[0][1]
                        if ins.res is not None:
                            st.env[ins.res] = outs[0][2]
                        continue
                    if op == "br":
                        if ins.a[0] is None:
                            nxt = ins.a[1]
                            break
                        c = self.to_bool(self.val(st, ins.a[0], fn.mod))
                        if not isinstance(c, T) and fr.active:
                            self.note_exit(fr, st, blk, ins, c, False)
                        if isinstance(c, T):
                            d = self.decide(st, c)
                            if fr.active:
                                self.note_exit(fr, st, blk, ins, c, True)
                            if d is None:
                                arrs = self.branch(fr, st, blk, [(c, ins.a[1]), (tm.not_(c), ins.a[2])], stops)
                                work.extend(self.split_arrivals(arrs, stops, arrivals))
                                cont = False
                                break
                            c = d
                        nxt = ins.a[1] if c else ins.a[2]
                        break
                    if op == "switch":
                        v = self.val(st, ins.a[0], fn.mod)
                        w = ins.ty.a
                        if not isinstance(v, T):
                            v = int(v)
                            nxt = ins.a[1]
                            for cv, tgt in ins.a[2]:
                                if (int(cv) - v) % (1 << w) == 0:
                                    nxt = tgt
                                    break
                            break
                        alts = []
                        neg = True
                        by = {}
                        for cv, tgt in ins.a[2]:
                            cc = tm.eq(v, int(cv))
                            by.setdefault(tgt, []).append(cc)
                            neg = tm.and_(neg, tm.not_(cc))
                        for tgt, cs in by.items():
                            alts.append((tm.or_(*cs), tgt))
                        alts.append((neg, ins.a[1]))
                        merged = {}
                        for c, tgt in alts:
                            merged[tgt] = tm.or_(merged[tgt], c) if tgt in merged else c
                        alts = [(c, tgt) for tgt, c in merged.items() if self.decide(st, c) is not False]
                        if len(alts) == 1:
                            nxt = alts[0][1]
                            break
                        arrs = self.branch(fr, st, blk, alts, stops)
                        work.extend(self.split_arrivals(arrs, stops, arrivals))
                        cont = False
                        break
                    if op == "ret":
                        v = None if ins.a[0] is None else self.val(st, ins.a[0], fn.mod, ins.ty)
                        fr.outs.append(("ret", st, v))
                        cont = False
                        break
                    if op == "unreachable":
                        fr.outs.append(("stop", st, "unreachable"))
                        cont = False
                        break
                    if op == "resume":
                        fr.outs.append(("throw", st, st.exc))
                        cont = False
                        break
                    self.inst(fr, st, ins)
                if not cont:
                    break
                if self.steps > self.maxsteps:
                    raise Unsupported("step budget exhausted")
                self.goto(fn, st, blk, nxt)
                if nxt in stops:
                    arrivals.append((st, nxt))
                    break
                blk = nxt
        return arrivals

    def note_exit(self, fr, st, blk, ins, c, sym):
        """record whether the innermost active loop's exit test is symbolic"""
        H = fr.active[-1]
        L = fr.fn.loops[H]
        if blk not in L:
            return
        outs = [t for t in ins.a[1:] if t not in L]
        if not outs:
            return
        if all(t not in fr.fn.canret for t in outs):
            return
        if sym:
            fr.exit_sym[0] = True
            return
        # concrete outcome: were the compared operands concrete?
        cv = ins.a[0]
        if cv[0] == "l":
            for bi in fr.fn.blocks[blk].insts:
                if bi.res == cv[1] and bi.op in ("icmp", "fcmp"):
                    vs = [self.val(st, o, fr.fn.mod) for o in bi.a[1:]]
                    if self.const_diff(*vs):
                        fr.exit_sym[1] = True
                        fr.exit_sym[2][blk] = tuple(vs) if all(isinstance(v, (int, bool)) for v in vs) else object()
                        return
                    for v in vs:
                        if isinstance(v, T) or (isinstance(v, Ptr) and isinstance(v.off, T)) or (isinstance(v, PInt) and isinstance(v.off, T)):
                            fr.exit_sym[0] = True
                            return
                    fr.exit_sym[1] = True
                    fr.exit_sym[2][blk] = tuple(vs) if all(isinstance(v, (int, bool)) for v in vs) else object()
                    return
        fr.exit_sym[1] = True
        fr.exit_sym[2][blk] = object()

    def const_diff(self, a, b):
        if isinstance(a, (Ptr, PInt)) and isinstance(b, (Ptr, PInt)):
            if a.obj is not b.obj:
                return False
            a, b = a.off, b.off
        for v in (a, b):
            if not (isinstance(v, int) or (isinstance(v, T) and v.sort == "I")):
                return False
        d = tm.sub(a, b)
        return not isinstance(tm.simp_int(d) if isinstance(d, T) else d, T)

    def split_arrivals(self, arrs, stops, arrivals):
        out = []
        for s, tgt in arrs:
            if tgt in stops:
                arrivals.append((s, tgt))
            else:
                out.append((s, tgt, 0))
        return out

    def goto(self, fn, st, frm, to):
        ph = fn.blocks[to].phis
        if ph:
            vals = [(p.res, self.val(st, p.a[frm], fn.mod, p.ty)) for p in ph]
            for r, v in vals:
                st.env[r] = v

    def branch(self, fr, st, blk, alts, stops):
        fn = fr.fn
        J = fn.ipdom.get(blk, EXIT)
        st2 = set(stops)
        if J != EXIT:
            st2.add(J)
        arr = []
        nouts = len(fr.outs)
        k = len(alts)
        for j, (c, tgt) in enumerate(alts):
            s = st.fork() if j < k - 1 else st
            if not s.assume(c):
                continue
            self.goto(fn, s, blk, tgt)
            if tgt in st2:
                arr.append((s, tgt))
            else:
                try:
                    arr += self.run(fr, s, tgt, st2)
                except (NullDeref, MemError) as e:
                    self.oblige(s, "memory: %s" % e, "safety", False)
                except Unsupported as e:
                    self.lastun = "%s @ %s" % (e, self.where()[:100])
                    self.oblige(s, "unsupported: %s" % e, "unsupported", False)
        by = {}
        for s, tgt in arr:
            by.setdefault(tgt, []).append(s)
        out = []
        for tgt, ss in by.items():
            out += [(s, tgt) for s in self.merge_all(ss)]
        # merge returns eagerly
        if len(fr.outs) - nouts > 1:
            fr.outs[nouts:] = self.merge_outs(fr.outs[nouts:])
        return out

    # ------------------------------------------------------------ merging
    def merge_all(self, ss):
        if len(ss) <= 1:
            return ss
        try:
            return [self.merge(ss)]
        except Unsupported as e:
            self.note("unmerged: %s" % e)
            # try pairwise
            out = []
            for s in ss:
                for i, o in enumerate(out):
                    try:
                        out[i] = self.merge([o, s])
                        break
                    except Unsupported:
                        continue
                else:
                    out.append(s)
            if len(out) > 64:
                raise Unsupported("too many unmergeable paths")
            return out

    def merge_outs(self, outs):
        rets = [(s, v) for k, s, v in outs if k == "ret"]
        rest = [o for o in outs if o[0] != "ret"]
        if len(rets) > 1:
            for s, v in rets:
                s.env = {"$ret": v}
            try:
                m = self.merge([s for s, v in rets])
                rets = [(m, m.env["$ret"])]
            except Unsupported as e:
                self.note("unmerged-ret: %s" % e)
        # throws: merge those of the same type
        thr = [o for o in rest if o[0] == "throw"]
        oth = [o for o in rest if o[0] != "throw"]
        if len(thr) > 1:
            by = {}
            for o in thr:
                by.setdefault(o[2][1], []).append(o)
            thr = []
            for ti, os in by.items():
                if len(os) > 1:
                    for _, s, v in os:
                        s.env = {"$exc": v[0]}
                        s.exc = None
                    try:
                        m = self.merge([o[1] for o in os])
                        thr.append(("throw", m, (m.env["$exc"], ti)))
                        continue
                    except Unsupported:
                        pass
                thr += os
        return [("ret", s, v) for s, v in rets] + thr + oth

    def merge(self, ss):
        base = ss[0]
        # common prefix of pcs
        k = 0
        pcs = [s.pc for s in ss]
        m = min(len(p) for p in pcs)
        while k < m and all(p[k] is pcs[0][k] for p in pcs):
            k += 1
        conds = [tm.and_(*p[k:]) for p in pcs]
        out = State()
        out.pc = list(pcs[0][:k])
        out.pcset = set(out.pc)
        # last alternative is the default
        # simplify guards: drop conjuncts shared by all
        shared = None
        for p in pcs:
            s_ = set(p[k:])
            shared = s_ if shared is None else shared & s_
        guards = [tm.and_(*[c for c in p[k:] if c not in shared]) for p in pcs]
        # a guard only has to tell its path from the later ones: keep the branch
        # conditions whose complement appears there, drop facts assumed on the way
        for i in range(len(ss) - 1):
            own = [c for c in pcs[i][k:] if c not in shared]
            keep = []
            for j in range(i + 1, len(ss)):
                pj = set(pcs[j][k:])
                d = next((c for c in own if isinstance(c, tm.T) and tm.not_(c) in pj), None)
                if d is None:
                    keep = None
                    break
                if d not in keep:
                    keep.append(d)
            if keep:
                guards[i] = tm.and_(*keep)
        # memory
        ids = {}
        for s in ss:
            for i in s.mem:
                ids[i] = ids.get(i, 0) + 1
        mem = {}
        out.mem = mem
        for i in ids:
            sts = [s.mem.get(i) for s in ss]
            f = sts[0]
            if all(x is f for x in sts):
                mem[i] = f
                continue
            present = [(x, g) for x, g in zip(sts, guards) if x is not None]
            if all(x is present[0][0] for x, g in present):
                mem[i] = present[0][0]
                continue
            mem[i] = self.merge_objs(present, mem, ss[0])
        # env
        env = {}
        names = set()
        for s in ss:
            names |= s.env.keys()
        for nme in names:
            vs = [(s.env[nme], g) for s, g in zip(ss, guards) if nme in s.env]
            v = vs[-1][0]
            try:
                for x, g in reversed(vs[:-1]):
                    v = vite(g, x, v)
            except Unsupported:
                if nme in ("$ret", "$exc"):
                    raise
                v = UNDEF if not self.live_hint(nme, ss) else self._raise()
            env[nme] = v
        out.env = env
        out.assume(tm.or_(*conds))
        for c in shared or ():
            out.assume(c)
        out.exc = ss[0].exc
        if any(s.exc is not ss[0].exc for s in ss):
            out.exc = None
        fa = ss[0].fa
        if any(s.fa is not fa for s in ss):
            # keep common ones
            fa = tuple(x for x in fa if all(any(x is y for y in s.fa) for s in ss))
        out.fa = fa
        gk = set()
        for s in ss:
            gk |= s.ghost.keys()
        for kx in gk:
            vs = [(s.ghost.get(kx, UNDEF), g) for s, g in zip(ss, guards)]
            v = vs[-1][0]
            for x, g in reversed(vs[:-1]):
                v = vite(g, x, v)
            out.ghost[kx] = v
        return out

    def _raise(self):
        raise Unsupported("merge env")

    def live_hint(self, nme, ss):
        return False

    def merge_objs(self, present, mem, st):
        if all(isinstance(x, Cells) for x, g in present):
            offs = {}
            for x, g in present:
                for o, c in x.d.items():
                    offs.setdefault(o, set()).add(c[0])
            r = Cells(mem)
            if any(x.freed != present[0][0].freed for x, g in present):
                raise Unsupported("merge freed/non-freed")
            r.freed = present[0][0].freed
            z0 = present[0][0].zero
            if all(x.zero == z0 for x, g in present):
                r.zero = list(z0)
                zeros_equal = True
            else:
                zeros_equal = False
                # keep the zero ranges common to all, materialise others as cells
                common = [z for z in z0 if all(z in x.zero for x, g in present)]
                r.zero = list(common)
                for x, g in present:
                    for lo, hi in x.zero:
                        if (lo, hi) not in common:
                            if hi - lo > 4096:
                                raise Unsupported("merge of large zero ranges")
                            o = lo
                            while o < hi:
                                # use cell shapes of the others
                                if o in offs or x.overlapping(o, 1):
                                    o += 1
                                    continue
                                w = 8 if o % 8 == 0 and o + 8 <= hi and not any(q in offs for q in range(o + 1, o + 8)) else 1
                                offs.setdefault(o, set()).add(w)
                                o += w
            for o, sizes in offs.items():
                if len(sizes) > 1:
                    s = max(sizes)
                else:
                    (s,) = sizes
                vals = []
                for x, g in present:
                    ok, v = x.load(o, s)
                    if not ok or v is None:
                        v = UNDEF
                    vals.append((v, g))
                v = vals[-1][0]
                for x, g in reversed(vals[:-1]):
                    v = self.vite_cell(g, x, v)
                r.d[o] = (s, v)
            return r
        if all(isinstance(x, Arr) for x, g in present):
            f = present[0][0]
            r = Arr(f.stride, mem, f.default, f.bases)
            r.freed = f.freed
            if any(x.stride != f.stride for x, g in present):
                raise Unsupported("merge strides")
            for c in set(c for x, g in present for c in x.f):
                chs = [(x.f.get(c) or self.chain(x, c, 8, None), g) for x, g in present]
                ch, _ = chs[-1]
                for c1, g in reversed(chs[:-1]):
                    ch = self.merge_chain(st, g, c1, ch)
                r.f[c] = ch
            return r
        raise Unsupported("merge array/cells")

    def vite_cell(self, g, a, b):
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, (T, Fr)) and tm.sort_of(b) == "R":
            a = self.as_type(None, a, ir.ty("double"))
        if isinstance(b, int) and not isinstance(b, bool) and isinstance(a, (T, Fr)) and tm.sort_of(a) == "R":
            b = self.as_type(None, b, ir.ty("double"))
        if isinstance(a, int) and isinstance(b, (Ptr, PIte)):
            a = self.as_type(None, a, ir.ty("ptr"))
        if isinstance(b, int) and isinstance(a, (Ptr, PIte)):
            b = self.as_type(None, b, ir.ty("ptr"))
        return vite(g, a, b)

    def merge_chain(self, st, g, A, B):
        if A is B:
            return A
        la, lb = [], []
        x = A
        seen = {}
        while not isinstance(x, Base):
            la.append(x)
            x = x.prev
        basea = x
        x = B
        sb = {id(n): i for i, n in enumerate(la)}
        common = None
        while True:
            if id(x) in sb:
                common = x
                la = la[:sb[id(x)]]
                break
            if isinstance(x, Base):
                if x is basea:
                    common = x
                break
            lb.append(x)
            x = x.prev
        if common is None:
            raise Unsupported("merge chains with different bases")
        cur = common
        for lst, gg in ((lb, tm.not_(g)), (la, g)):
            for n in reversed(lst):
                if isinstance(n, Store):
                    old = self.select(st, cur, n.idx)
                    cur = Store(cur, n.idx, self.vite_cell(tm.and_(gg, n.g), n.val, old))
                else:
                    cur = Map(cur, n.lo, n.hi, n.fn, tm.and_(gg, n.g), n.add, n.lam)
        # coalesce stores at identical index
        return cur

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, ins):
        fn = fr.fn
        cal, args, _, _ = ins.a
        if cal[0] == "asm":
            return [("ret", st, UNDEF)]
        if cal[0] == "g":
            name = cal[1]
            if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.experimental.noalias"):
                return [("ret", st, None)]
            target = name
        else:
            p = self.val(st, cal, fn.mod)
            if isinstance(p, PIte):
                outs = []
                for c, q in ((p.c, p.a), (tm.not_(p.c), p.b)):
                    s = st.fork()
                    if s.assume(c):
                        if not isinstance(q, Ptr) or q.obj is None or q.obj.kind != "func":
                            raise Unsupported("merged function pointer")
                        outs += self.invoke(q.obj.name, [self.val(s, a, fn.mod, t) for t, a, _ in args], s, fn.mod, ins, fr)
                return outs
            if p is UNDEF or not isinstance(p, Ptr):
                raise Unsupported("call via %s" % (p,))
            if p.obj is None:
                raise NullDeref("call through null function pointer")
            if p.obj.kind != "func":
                raise Unsupported("call via data pointer %s" % p)
            target = p.obj.name
        vals = [self.val(st, a, fn.mod, t) for t, a, _ in args]
        return self.invoke(target, vals, st, fn.mod, ins, fr)

    def invoke(self, name, vals, st, mod, ins, fr):
        stub = self.stubs.get(name)
        if stub is not None and not (self.callstack and self.callstack[-1] == stub):
            self.note("contract-call " + name)
            name = stub
        r = self.models.call(self, name, vals, st, ins, mod)
        if r is not None:
            return r
        f = self.funcs.get(name)
        if f is None:
            raise Unsupported("external function " + name)
        return self.call(f, vals, st)

    def call(self, f, vals, st):
        f.parse()
        ir.analyse(f)
        if len(self.callstack) > 120:
            raise Unsupported("call depth")
        self.entered[f.name] = self.entered.get(f.name, 0) + 1
        saved = st.env
        fr = Frame(f, len(self.callstack))
        st.env = {}
        for (t, nm, at), v in zip(f.params, vals):
            if "byval" in at and isinstance(v, Ptr):
                o = self.alloc(st, "byval", ir.sizeof(at["byval"], f.mod))
                self.memcpy(st, Ptr(o, 0), v, o.size)
                v = Ptr(o, 0)
            st.env[nm] = v
        self.callstack.append(f.name)
        self.curins.append(None)
        self.curmods.append(f.mod)
        try:
            self.goto_entry(f, st)
            self.run(fr, st, f.entry, frozenset())
        finally:
            self.callstack.pop()
            self.curins.pop()
            self.curmods.pop()
        outs = self.merge_outs(fr.outs) if len(fr.outs) > 1 else fr.outs
        res = []
        for kind, s, v in outs:
            s.env = dict(saved) if len(outs) > 1 else saved
            res.append((kind, s, v))
        # drop allocas
        for o in fr.allocas:
            for _, s, v in res:
                s.mem.pop(o, None)
        return res

    def goto_entry(self, f, st):
        pass

    # ------------------------------------------------------------ instructions
    def inst(self, fr, st, ins):
        fn = fr.fn
        mod = fn.mod
        op = ins.op
        env = st.env
        a = ins.a
        if op == "load":
            env[ins.res] = self.load(st, self.val(st, a[0], mod), ins.ty, mod)
        elif op == "store":
            v = self.val(st, a[0], mod, ins.ty)
            p = self.val(st, a[1], mod)
            if v is UNDEF:
                pass
            self.store(st, p, v, ins.ty, mod)
        elif op == "getelementptr":
            env[ins.res] = self.gep(st, ins.ty, self.val(st, a[0], mod), [self.gidx(st, self.val(st, v, mod), t) for t, v in a[1]], mod)
        elif op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            x = self.val(st, a[0], mod, ins.ty)
            y = self.val(st, a[1], mod, ins.ty)
            env[ins.res] = self.fop(st, op, x, y)
        elif op == "fneg":
            x = self.val(st, a[0], mod, ins.ty)
            env[ins.res] = UNDEF if x is UNDEF else tm.neg(x)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            env[ins.res] = self.iop(st, op, self.val(st, a[0], mod, ins.ty), self.val(st, a[1], mod, ins.ty), ins.ty.a, a[2])
        elif op == "icmp":
            env[ins.res] = self.icmp(st, a[0], self.val(st, a[1], mod, ins.ty), self.val(st, a[2], mod, ins.ty), ins.ty)
        elif op == "fcmp":
            env[ins.res] = self.fcmp(st, a[0], self.val(st, a[1], mod, ins.ty), self.val(st, a[2], mod, ins.ty))
        elif op == "select":
            c = self.to_bool(self.val(st, a[0], mod))
            if isinstance(c, T):
                d = self.decide(st, c)
                if d is not None:
                    c = d
            env[ins.res] = vite(c, self.val(st, a[1], mod, ins.ty), self.val(st, a[2], mod, ins.ty))
        elif op == "alloca":
            cnt = self.val(st, a[0], mod)
            if isinstance(cnt, T):
                raise Unsupported("symbolic alloca")
            o = self.alloc(st, "%s.%s" % (fn.name[-24:], ins.res), ir.sizeof(ins.ty, mod) * cnt)
            fr.allocas.append(o.id)
            env[ins.res] = Ptr(o, 0)
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            env[ins.res] = self.cast(st, op, a[0], self.val(st, a[1], mod, a[0]), ins.ty)
        elif op == "freeze":
            env[ins.res] = self.val(st, a[0], mod, ins.ty)
        elif op == "extractvalue":
            v = self.val(st, a[0], mod, ins.ty)
            for i in a[1]:
                v = UNDEF if v is UNDEF else v[i]
            env[ins.res] = v
        elif op == "insertvalue":
            env[ins.res] = self.insertv(self.val(st, a[0], mod, ins.ty), self.val(st, a[1], mod), a[2], ir.resolve(ins.ty, mod), mod)
        elif op == "landingpad":
            env[ins.res] = self.landingpad(st, a, mod)
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p = self.val(st, a[1], mod)
            old = self.load(st, p, ins.ty, mod)
            v = self.val(st, a[2], mod)
            if a[0] == "add":
                nv = tm.add(old, v)
            elif a[0] == "sub":
                nv = tm.sub(old, v)
            elif a[0] == "xchg":
                nv = v
            else:
                raise Unsupported("atomicrmw " + a[0])
            self.store(st, p, nv, ins.ty, mod)
            env[ins.res] = old
        else:
            raise Unsupported("inst " + ins.line)

    def gidx(self, st, v, t):
        if isinstance(v, (int, bool)) and not isinstance(v, T):
            return self.signed(st, int(v), t.a)
        return v

    def insertv(self, v, e, idx, t, mod):
        n = len(t.a) if t.k in ("struct", "pstruct") else t.a[0]
        l = list(v) if v is not UNDEF else [UNDEF] * n
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            sub = ir.resolve(t.a[idx[0]] if t.k in ("struct", "pstruct") else t.a[1], mod)
            l[idx[0]] = self.insertv(l[idx[0]], e, idx[1:], sub, mod)
        return tuple(l)

    def fop(self, st, op, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Bits):
            x = x.v
        if isinstance(y, Bits):
            y = y.v
        if op == "fadd":
            return tm.add(x, y)
        if op == "fsub":
            return tm.sub(x, y)
        if op == "fmul":
            return tm.mul(x, y)
        if op == "fdiv":
            if not isinstance(y, T):
                if y == 0:
                    self.oblige(st, "nonzero-divisor", "defined", False)
                    return self.fresh("div0")
            else:
                self.oblige(st, "nonzero-divisor", "defined", tm.not_(tm.eq(y, Fr(0))))
            return tm.div(x, y)
        raise Unsupported(op)

    def iop(self, st, op, x, y, w, flags):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Bits) or isinstance(y, Bits):
            raise Unsupported("integer op on fp bits")
        if isinstance(x, PIte) or isinstance(y, PIte):
            p = x if isinstance(x, PIte) else y
            c = p.c
            d = self.decide(st, c)
            if d is not None:
                return self.iop(st, op, pbranch(x, c, d), pbranch(y, c, d), w, flags)
            return vite_p(c, self.iop(PcView(st, c), op, pbranch(x, c, True), pbranch(y, c, True), w, flags),
                          self.iop(PcView(st, tm.not_(c)), op, pbranch(x, c, False), pbranch(y, c, False), w, flags))
        if isinstance(x, PInt) or isinstance(y, PInt):
            return self.pint_op(st, op, x, y, w)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr):
                x = PInt(x.obj, x.off) if x.obj is not None else x.off
            if isinstance(y, Ptr):
                y = PInt(y.obj, y.off) if y.obj is not None else y.off
            return self.iop(st, op, x, y, w, flags)
        if w == 1:
            x, y = self.to_bool(x), self.to_bool(y)
            if op == "and" or op == "mul":
                return tm.and_(x, y)
            if op == "or":
                return tm.or_(x, y)
            if op in ("xor", "add", "sub"):
                return tm.not_(tm.eq(x, y))
            raise Unsupported("i1 " + op)
        x, y = self.as_int(x), self.as_int(y)
        cx, cy = not isinstance(x, T), not isinstance(y, T)
        M = (1 << w) - 1
        if cx and cy:
            ux, uy = x & M, y & M
            sx, sy = self.signed(st, x, w), self.signed(st, y, w)
            if op == "add":
                return self.signed(st, x + y, w)
            if op == "sub":
                return self.signed(st, x - y, w)
            if op == "mul":
                return self.signed(st, x * y, w)
            if op in ("sdiv", "srem"):
                if sy == 0:
                    raise MemError("division by zero")
                q = abs(sx) // abs(sy)
                if (sx < 0) != (sy < 0):
                    q = -q
                return q if op == "sdiv" else sx - q * sy
            if op in ("udiv", "urem"):
                if uy == 0:
                    raise MemError("division by zero")
                return ux // uy if op == "udiv" else ux % uy
            if op == "shl":
                return self.signed(st, ux << uy, w)
            if op == "lshr":
                return ux >> uy
            if op == "ashr":
                return sx >> uy
            if op == "and":
                return self.signed(st, ux & uy, w)
            if op == "or":
                return self.signed(st, ux | uy, w)
            if op == "xor":
                return self.signed(st, ux ^ uy, w)
        if op in ("add", "sub", "mul"):
            if not cy and isinstance(y, T) and False:
                pass
            if cy:
                y = self.signed(st, y, w)
            if cx:
                x = self.signed(st, x, w)
            r = tm.simp_int({"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](x, y))
            return self.wrapfix(st, r, w, flags)
        if op == "shl" and cy:
            return tm.simp_int(tm.mul(x, 1 << y))
        if op in ("lshr", "udiv") and cy:
            k = (1 << y) if op == "lshr" else (y & M)
            return tm.idiv(self.unsigned(st, x, w), k)
        if op == "ashr" and cy:
            return tm.idiv(self.signed(st, x, w), 1 << y)
        if op == "sdiv" and cy:
            y = self.signed(st, y, w)
            x = self.signed(st, x, w)
            if y > 0:
                q = tm.idiv(x, y)
                if "exact" in flags or not isinstance(q, T) or q.op != "idiv" or self.implied(st, tm.le(0, x)):
                    return q
                return tm.ite(tm.le(0, x), q, tm.neg(tm.idiv(tm.neg(x), y)))
            if y < 0 :
                return tm.neg(self.iop(st, op, x, -y, w, flags))
        if op == "srem" and cy:
            y = abs(self.signed(st, y, w))
            x = self.signed(st, x, w)
            if self.implied(st, tm.le(0, x)):
                return tm.imod(x, y)
            return tm.ite(tm.le(0, x), tm.imod(x, y), tm.neg(tm.imod(tm.neg(x), y)))
        if op == "urem" and cy:
            return tm.imod(self.unsigned(st, x, w), y & M)
        if op == "and":
            if cx:
                x, y, cx, cy = y, x, cy, cx
            if cy:
                m = y & M
                if m & (m + 1) == 0:
                    return tm.imod(x, m + 1)
                if m == M - 7 or (~m & M) & ((~m & M) + 1) == 0:
                    k = (~m & M) + 1
                    return tm.sub(x, tm.imod(x, k))
        if op == "xor" and cy and (y & M) == M:
            return tm.sub(-1, x)
        if op == "or" and "disjoint" in flags:
            return tm.add(x, y)
        if op in ("and", "or", "xor"):
            # values known to be 0/1
            bx, by = tm.bounds(x), tm.bounds(y)
            if bx[0] is not None and bx[0] >= 0 and bx[1] is not None and bx[1] <= 1 and by[0] is not None and by[0] >= 0 and by[1] is not None and by[1] <= 1:
                p, q = tm.eq(x, 1), tm.eq(y, 1)
                b = tm.and_(p, q) if op == "and" else tm.or_(p, q) if op == "or" else tm.not_(tm.eq(p, q))
                return tm.ite(b, 1, 0)
        if op in ("udiv", "urem", "sdiv", "srem"):
            ux, uy = (self.unsigned(st, x, w), self.unsigned(st, y, w)) if op[0] == "u" else (self.signed(st, x, w), self.signed(st, y, w))
            self.oblige(st, "int-div-by-zero", "safety", tm.not_(tm.eq(uy, 0)))
            q = tm.uf("idivv", (ux, uy), "I", 0, None)
            # Euclid for nonneg operands
            r = tm.sub(ux, tm.mul(q, uy))
            self.oblige(st, "int-range", "safety", tm.and_(tm.le(0, ux), tm.lt(0, uy)))
            st.assume(tm.and_(tm.le(0, r), tm.lt(r, uy), tm.le(0, q)))
            return q if op in ("udiv", "sdiv") else r
        raise Unsupported("int op %s %s %s" % (op, x, y))

    def wrapfix(self, st, r, w, flags):
        """the mathematical result; wrap-around is handled when a range is needed"""
        return r

    def pite_int(self, p, f):
        return vite(p.c, f(p.a), f(p.b))

    def pint_op(self, st, op, x, y, w):
        if op == "sub" and isinstance(x, PInt) and isinstance(y, PInt):
            if x.obj is y.obj:
                return tm.sub(x.off, y.off)
            return tm.sub(self.addr(x), self.addr(y))
        if op == "sub" and isinstance(x, PInt) and not isinstance(y, PInt):
            if isinstance(y, Ptr):
                y = y.off
            return PInt(x.obj, tm.sub(x.off, y))
        if op == "add":
            if isinstance(x, PInt) and not isinstance(y, PInt):
                return PInt(x.obj, tm.add(x.off, y))
            if isinstance(y, PInt) and not isinstance(x, PInt):
                return PInt(y.obj, tm.add(y.off, x))
        if op == "and" and isinstance(x, PInt) and isinstance(y, int):
            # alignment / tag tests: objects are 16-aligned
            if y in (1, 3, 7, 15) and not isinstance(x.off, T):
                return x.off & y
            if not isinstance(x.off, T) and (~y) & ((1 << w) - 1) in (1, 3, 7, 15):
                return PInt(x.obj, x.off & y)
        if isinstance(x, PInt):
            x = self.addr(x)
        if isinstance(y, PInt):
            y = self.addr(y)
        return self.iop(st, op, x, y, w, [])

    def addr(self, p):
        b = tm.var("addr!%d" % p.obj.id, "I", 4096, (1 << 47))
        return tm.add(b, p.off)

    def icmp(self, st, pr, x, y, t):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, PIte) or isinstance(y, PIte):
            p = x if isinstance(x, PIte) else y
            c = p.c
            d = self.decide(st, c)
            if d is not None:
                return self.icmp(st, pr, pbranch(x, c, d), pbranch(y, c, d), t)
            return vite(c, self.icmp(PcView(st, c), pr, pbranch(x, c, True), pbranch(y, c, True), t),
                        self.icmp(PcView(st, tm.not_(c)), pr, pbranch(x, c, False), pbranch(y, c, False), t))
        if isinstance(x, (Ptr, PInt)) or isinstance(y, (Ptr, PInt)):
            return self.pcmp(st, pr, x, y)
        if isinstance(x, Bits) or isinstance(y, Bits):
            raise Unsupported("icmp on fp bits")
        w = t.a
        if w == 1:
            bx, by = self.to_bool(x), self.to_bool(y)
            if pr == "eq":
                return tm.eq(bx, by)
            if pr == "ne":
                return tm.not_(tm.eq(bx, by))
            x, y = self.as_int(bx), self.as_int(by)
        x, y = self.as_int(x), self.as_int(y)
        if pr in ("eq", "ne"):
            if not isinstance(x, T) and not isinstance(y, T):
                r = (x - y) % (1 << w) == 0
            else:
                # congruence: bring constants near the symbolic range
                if not isinstance(x, T):
                    x, y = y, x
                if not isinstance(y, T):
                    lo, hi = tm.bounds(x)
                    ys = self.signed(st, y, w)
                    if lo is not None and lo >= 0 and ys < 0:
                        ys += 1 << w
                    y = ys
                r = tm.eq(x, y)
            return r if pr == "eq" else tm.not_(r)
        if pr[0] == "s":
            x, y = self.signed(st, x, w), self.signed(st, y, w)
        else:
            x, y = self.unsigned(st, x, w), self.unsigned(st, y, w)
        k = pr[1:]
        if k == "lt":
            return tm.lt(x, y)
        if k == "le":
            return tm.le(x, y)
        if k == "gt":
            return tm.lt(y, x)
        return tm.le(y, x)

    def pcmp(self, st, pr, x, y):
        def norm(v):
            if isinstance(v, PInt):
                return Ptr(v.obj, v.off)
            if isinstance(v, (int, T)):
                return Ptr(None, v)
            return v
        x, y = norm(x), norm(y)
        if not isinstance(x, Ptr) or not isinstance(y, Ptr):
            raise Unsupported("ptr compare")
        if x.obj is y.obj:
            a, b = x.off, y.off
            if pr == "eq":
                return tm.eq(a, b)
            if pr == "ne":
                return tm.not_(tm.eq(a, b))
            k = pr[1:]
            return {"lt": tm.lt(a, b), "le": tm.le(a, b), "gt": tm.lt(b, a), "ge": tm.le(b, a)}[k]
        if pr == "eq":
            return False
        if pr == "ne":
            return True
        # relational on different objects: unspecified but consistent
        if x.obj is None or y.obj is None:
            lt = x.obj is None
        else:
            lt = x.obj.id < y.obj.id
            self.note("cross-object pointer comparison")
        return lt if pr[1:] in ("lt", "le") else not lt

    def fcmp(self, st, pr, x, y):
        if pr == "uno":
            return False
        if pr == "ord":
            return True
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Bits):
            x = x.v
        if isinstance(y, Bits):
            y = y.v
        k = pr[1:]
        if k == "eq":
            return tm.eq(x, y)
        if k == "ne":
            return tm.not_(tm.eq(x, y))
        if k == "lt":
            return tm.lt(x, y)
        if k == "le":
            return tm.le(x, y)
        if k == "gt":
            return tm.lt(y, x)
        if k == "ge":
            return tm.le(y, x)
        if pr == "true":
            return True
        if pr == "false":
            return False
        raise Unsupported("fcmp " + pr)

    def cast(self, st, op, ft, v, t):
        if v is UNDEF:
            return UNDEF
        if op == "zext":
            if ft.a == 1:
                return self.as_int(self.to_bool(v))
            if isinstance(v, (PInt, PIte, Bits)):
                return v
            return self.unsigned(st, v, ft.a)
        if op == "sext":
            if ft.a == 1:
                b = self.to_bool(v)
                return tm.ite(b, -1, 0)
            if isinstance(v, (PInt, PIte)):
                return v
            return self.signed(st, v, ft.a)
        if op == "trunc":
            if t.a == 1:
                return self.to_bool(v)
            if isinstance(v, (PInt, PIte, Bits)):
                raise Unsupported("trunc of pointer")
            if not isinstance(v, T):
                return self.signed(st, int(v), t.a)
            lo, hi = tm.bounds(v)
            if lo is not None and hi is not None and lo >= -(1 << (t.a - 1)) and hi < (1 << t.a):
                return v
            # value must fit (checked as a safety obligation)
            self.oblige(st, "int-range", "safety", tm.and_(tm.le(-(1 << (t.a - 1)), v), tm.lt(v, 1 << t.a)))
            return v
        if op == "ptrtoint":
            if isinstance(v, Ptr):
                return PInt(v.obj, v.off) if v.obj is not None else v.off
            return v
        if op == "inttoptr":
            if isinstance(v, PInt):
                return Ptr(v.obj, v.off)
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            if isinstance(v, PIte):
                return vite(v.c, self.cast(st, op, ft, v.a, t), self.cast(st, op, ft, v.b, t))
            if isinstance(v, (Ptr,)):
                return v
            raise Unsupported("inttoptr")
        if op == "sitofp":
            if ft.a == 1:
                return tm.ite(self.to_bool(v), Fr(-1), Fr(0))
            return tm.toreal(self.signed(st, v, ft.a))
        if op == "uitofp":
            if ft.a == 1:
                return tm.ite(self.to_bool(v), Fr(1), Fr(0))
            return tm.toreal(self.unsigned(st, v, ft.a))
        if op in ("fptosi", "fptoui"):
            if not isinstance(v, T):
                return math.trunc(v)
            self.note("fp-to-int range assumed")
            f = self.floor(st, v)
            if op == "fptoui" or self.implied(st, tm.le(Fr(0), v)):
                return f
            return tm.ite(tm.le(Fr(0), v), f, tm.neg(tm.floor_(tm.neg(v))))
        if op in ("fpext", "fptrunc"):
            if op == "fptrunc":
                self.note("fptrunc treated as exact")
            return v
        if op == "bitcast":
            if ft.k == "double" and t.k == "int":
                return Bits(v)
            if ft.k == "int" and t.k == "double":
                return self.as_type(st, v, t)
            return v
        return v

    # ------------------------------------------------------------ exceptions
    def floor(self, st, v):
        """integer part of a real term; an integer plus a remainder known to lie in [0,1) is resolved"""
        f = tm.floor_(v)
        if not isinstance(f, T) or f.op != "floor":
            return f
        try:
            p = tm.nf(v, tm.Unfold(all=True))
        except tm.TooBig:
            return f
        ints, rest = 0, {}
        for m, c in p.items():
            at = tm._byid[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if c.denominator == 1 and (m == () or (at is not None and at.op == "toreal")):
                ints = tm.add(ints, tm.mul(int(c), at.args[0]) if m else int(c))
            else:
                rest[m] = c
        if not rest:
            return tm.simp_int(ints) if isinstance(ints, T) else ints
        r = tm.poly_term(rest)
        if self.implied(st, tm.le(Fr(0), r)) and self.implied(st, tm.lt(r, Fr(1))):
            return tm.simp_int(ints) if isinstance(ints, T) else ints
        return f

    def landingpad(self, st, clauses, mod):
        ptr, ti = st.exc if st.exc is not None else (NULL, None)
        sel = 0
        for c in clauses:
            if c[0] == "catch":
                p = self.const_value(c[1], mod)
                if p.obj is None:
                    sel = 9999
                    break
                if ti is not None and self.models.ti_matches(self, ti, p.obj.name.lstrip("@")):
                    sel = self.models.ti_id(self, p.obj.name.lstrip("@"))
                    break
        return (ptr, sel)

    # ------------------------------------------------------------ loops
    def loop(self, fr, st, H):
        from . import loops
        return loops.run_loop(self, fr, st, H)


class NullDeref(Exception):
    pass


class MemError(Exception):
    pass

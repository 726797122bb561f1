"""Models of library / intrinsic functions and of the vp_* contract primitives.
Everything in here is part of the trusted base (see DESIGN.md)."""
import re, math
from fractions import Fraction as Fr
from . import terms as tm
from . import ir
from .terms import T
from .mem import *

TEXT = re.compile(
    r"^_ZNK?St7__cxx11(12basic_string|1[58]basic_\w*stringstream|9to_string|15basic_stringbuf)|^_ZNK?7moordyn11MultiStream|^_ZN7moordynlsI"
    r"|^_ZNSo|^_ZSt16__ostream_insert|^_ZStlsI|^_ZSt4endl|^_ZSt5flush|^_ZNK?St13basic_(fstream|filebuf)|^_ZNK?St14basic_[io]fstream|^_ZNK?St8ios_base"
    r"|^_ZNK?St9basic_ios|^_ZNK?St6locale|^_ZStplI|^_ZN7moordyn14log_level_name|^_ZNK7moordyn3Log|^_ZN9__gnu_cxx12__to_xstring"
    r"|^_ZNK?St15basic_streambuf|^_ZNK?St13runtime_error|^_ZNK?St11logic_error|^_ZNK?St16invalid_argument|^_ZNK?St12out_of_range|^_ZNK?St9exception|^_ZNK?St9bad_alloc|^_ZNSt12__basic_file|^_ZNKSt5ctype"
    r"|^_ZSt(eq|ne|lt)Ic|^_ZNSi|^_ZNK?St10filesystem|^_ZNSt20bad_array|^_ZNSt7__cxx11lsIc|^_ZSt8setwi|^_ZSt12setprecision")


def is_text(name):
    return bool(TEXT.match(name)) or "11MultiStream" in name


REAL1 = {"sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh", "exp": "exp",
         "log": "log", "acos": "acos", "asin": "asin", "atan": "atan", "asinh": "asinh", "acosh": "acosh", "log10": "log10", "log2": "log2", "cbrt": "cbrt"}
BUILTIN_BASES = {
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
    "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt9exception": [],
}


def ti_bases(E, ti):
    if ti in BUILTIN_BASES:
        return BUILTIN_BASES[ti]
    for m in E.mods:
        if ti in m.globals:
            kind, t, init = m.global_info(ti)
            if init is not None and init[0] == "agg":
                out = []
                for et, ev in init[1][2:]:
                    if ev[0] == "g" and ev[1].startswith("_ZTI"):
                        out.append(ev[1])
                return out
    return []


def ti_matches(E, ti, want):
    if ti == want:
        return True
    return any(ti_matches(E, b, want) for b in ti_bases(E, ti))


def ti_id(E, name):
    if name not in E.tinames:
        E.tinames[name] = len(E.tinames) + 1
    return E.tinames[name]


def cstr(E, st, p):
    if isinstance(p, PIte):
        d = E.decide(st, p.c)
        if d is None:
            raise Unsupported("symbolic string")
        return cstr(E, st, p.a if d else p.b)
    if not isinstance(p, Ptr) or p.obj is None or isinstance(p.off, T):
        raise Unsupported("c string")
    os = E.objstate(st, p.obj)
    out = bytearray()
    o = p.off
    while True:
        b = os.byte(o)
        if not isinstance(b, int):
            raise Unsupported("symbolic c string")
        if b == 0:
            break
        out.append(b)
        o += 1
    return out.decode("latin1")


def R(st, v=None):
    return [("ret", st, v)]


def throw_std(E, st, ti):
    o = E.alloc(st, "exc", 64)
    return [("throw", st, (Ptr(o, 0), ti))]


def real(v):
    if isinstance(v, Bits):
        return v.v
    return v


def term_gcd(t):
    """a positive integer dividing t (0 when t is 0)"""
    if not isinstance(t, T):
        return abs(int(t))
    if t.op == "ite":
        return math.gcd(term_gcd(t.args[1]), term_gcd(t.args[2]))
    g = 0
    for m, c in tm.int_poly(t).items():
        k = abs(c)
        for z in m:
            if z is not t:
                k *= max(1, term_gcd(z)) if z.op == "ite" else 1
        g = math.gcd(g, k)
    return g


def new_object(E, st, size, what="heap"):
    if isinstance(size, T):
        g = term_gcd(size)
        o = Obj("%s#sym" % what, size)
        st.mem[o.id] = Arr(g or 8, st.mem)
    else:
        o = E.alloc(st, what, size)
    st.ghost["live"] = st.ghost.get("live", 0)
    return o


GROW = re.compile(r"^_ZNKSt6vectorI.*12_M_check_lenEmPKc$")


def call(E, name, v, st, ins, mod):
    f = TABLE.get(name)
    if f is not None:
        return f(E, v, st, ins, mod)
    if name.startswith("llvm."):
        return intrinsic(E, name, v, st, ins, mod)
    if name.startswith("vp_"):
        return vp(E, name, v, st, ins, mod)
    if E.growth and GROW.match(name):
        # capacity after a reallocation is the library's choice: enough for every element of a summarised loop
        c = tm.var("cap!%d" % next(E.ctr), "I", 1 << 22, 1 << 23)
        return R(st, c)
    if name in E.funcs and not is_text(name):
        return None
    if name == "_ZNKSt8ios_base9precisionEv":
        return R(st, 6)
    if is_text(name):
        return text(E, name, v, st, ins)
    if name in REAL1:
        x = real(v[0])
        if name == "acos" or name == "asin":
            E.oblige(st, name + "-domain", "defined", tm.and_(tm.le(Fr(-1), x), tm.le(x, Fr(1))))
        return R(st, tm.fn(REAL1[name], x))
    if name.startswith("_ZSt") and "__throw_" in name:
        k = name
        ti = "_ZTISt9exception"
        if "bad_alloc" in k:
            ti = "_ZTISt9bad_alloc"
        elif "bad_array" in k:
            ti = "_ZTISt20bad_array_new_length"
        elif "length_error" in k:
            ti = "_ZTISt12length_error"
        elif "out_of_range" in k:
            ti = "_ZTISt12out_of_range"
        elif "invalid_argument" in k:
            ti = "_ZTISt16invalid_argument"
        elif "logic_error" in k:
            ti = "_ZTISt11logic_error"
        elif "bad_cast" in k:
            ti = "_ZTISt8bad_cast"
        return throw_std(E, st, ti)
    return None


def text(E, name, v, st, ins):
    """string / stream / logging operations: no observable effect is modelled"""
    E.note("text-op (logging/strings not modelled)")
    t = ins.ty
    if t is None or t.k == "void":
        return R(st, None)
    if t.k == "ptr":
        for x in v:
            if isinstance(x, (Ptr, PIte)):
                return R(st, x)
        return R(st, NULL)
    if t.k == "int":
        if t.a == 1:
            return R(st, E.fresh("text", "B"))
        return R(st, E.fresh("text", "I", 0, (1 << (t.a - 1)) - 1))
    return R(st, UNDEF)


def intrinsic(E, name, v, st, ins, mod):
    n = name[5:]
    if n.startswith(("lifetime", "dbg", "experimental.noalias", "assume", "invariant", "prefetch", "donothing", "stackrestore", "var.annotation")):
        return R(st, None)
    if n.startswith("memcpy") or n.startswith("memmove"):
        E.memcpy(st, v[0], v[1], v[2])
        return R(st)
    if n.startswith("memset"):
        E.memset(st, v[0], v[1], v[2])
        return R(st)
    if n.startswith("expect"):
        return R(st, v[0])
    if n.startswith("is.constant"):
        return R(st, False)
    if n.startswith("objectsize"):
        return R(st, -1)
    if n.startswith("eh.typeid.for"):
        return R(st, ti_id(E, v[0].obj.name.lstrip("@")))
    if n.startswith("trap"):
        return [("stop", st, "trap")]
    if n.startswith("stacksave"):
        return R(st, NULL)
    if n.startswith("sqrt"):
        x = real(v[0])
        if x is UNDEF:
            return R(st, UNDEF)
        if isinstance(x, T) or x < 0:
            E.oblige(st, "sqrt-domain", "defined", tm.le(Fr(0), x))
        return R(st, tm.fn("sqrt", x))
    if n.startswith("fabs"):
        return R(st, UNDEF if v[0] is UNDEF else tm.fn("abs", real(v[0])))
    if n.startswith("fmuladd") or n.startswith("fma."):
        return R(st, tm.add(tm.mul(real(v[0]), real(v[1])), real(v[2])))
    if n.startswith("floor"):
        return R(st, tm.toreal(E.floor(st, real(v[0]))))
    if n.startswith("ceil"):
        return R(st, tm.toreal(tm.neg(tm.floor_(tm.neg(real(v[0]))))))
    if n.startswith(("round.", "rint", "nearbyint", "trunc.f")):
        x = real(v[0])
        if n.startswith("trunc"):
            return R(st, tm.toreal(tm.ite(tm.le(Fr(0), x), tm.floor_(x), tm.neg(tm.floor_(tm.neg(x))))))
        return R(st, tm.toreal(tm.floor_(tm.add(x, Fr(1, 2)))))
    m = re.match(r"(sin|cos|exp|log|tan|acos|asin|atan|sinh|cosh|tanh|log10|log2)\.f", n)
    if m:
        return R(st, tm.fn(m.group(1), real(v[0])))
    if n.startswith("pow."):
        return R(st, powr(E, real(v[0]), real(v[1])))
    if n.startswith("powi."):
        k = v[1]
        if isinstance(k, int) and 0 <= k <= 8:
            r = Fr(1)
            for _ in range(k):
                r = tm.mul(r, real(v[0]))
            return R(st, r)
        raise Unsupported("powi")
    m = re.match(r"([us])(max|min)\.i(\d+)", n)
    if m:
        w = int(m.group(3))
        g = E.signed if m.group(1) == "s" else E.unsigned
        a, b = g(st, v[0], w), g(st, v[1], w)
        c = tm.lt(a, b)
        if isinstance(c, T):
            d = E.decide(st, c)
            if d is not None:
                c = d
        return R(st, tm.ite(c, b, a) if m.group(2) == "max" else tm.ite(c, a, b))
    if n.startswith(("maxnum", "minnum")):
        a, b = real(v[0]), real(v[1])
        c = tm.lt(a, b)
        return R(st, tm.ite(c, b, a) if n.startswith("max") else tm.ite(c, a, b))
    m = re.match(r"abs\.i(\d+)", n)
    if m:
        x = E.signed(st, v[0], int(m.group(1)))
        return R(st, tm.fn("abs", x))
    m = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)", n)
    if m:
        a, b = v[0], v[1]
        w = int(m.group(3))
        g = E.signed if m.group(1) == "s" else E.unsigned
        a, b = g(st, a, w), g(st, b, w)
        r = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[m.group(2)](a, b)
        r = tm.simp_int(r)
        lo, hi = (0, (1 << w) - 1) if m.group(1) == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        ov = tm.or_(tm.lt(r, lo), tm.lt(hi, r))
        if isinstance(ov, T):
            d = E.decide(st, ov)
            if d is not None:
                ov = d
        return R(st, (r, ov))
    if n.startswith("is.fpclass"):
        # reals are finite: nan/inf classes are false
        mask = v[1]
        if mask & 0x1f8 == 0 or True:
            FIN = 0x008 | 0x010 | 0x020 | 0x040 | 0x080 | 0x100
            if mask & FIN == 0:
                return R(st, False)
            if mask & FIN == FIN:
                return R(st, True)
        raise Unsupported("is.fpclass")
    if n.startswith("copysign"):
        a, b = real(v[0]), real(v[1])
        ab = tm.fn("abs", a)
        return R(st, tm.ite(tm.lt(b, Fr(0)), tm.neg(ab), ab))
    if n.startswith("ctpop") or n.startswith("ctlz") or n.startswith("cttz"):
        if isinstance(v[0], int):
            w = int(n.rsplit("i", 1)[1])
            x = v[0] & ((1 << w) - 1)
            if n.startswith("ctpop"):
                return R(st, bin(x).count("1"))
            if n.startswith("ctlz"):
                return R(st, w - x.bit_length())
            return R(st, (x & -x).bit_length() - 1 if x else w)
    raise Unsupported("intrinsic " + name)


def powr(E, a, b):
    if not isinstance(b, T):
        if b.denominator == 1 and 0 <= b <= 8:
            r = Fr(1)
            for _ in range(int(b)):
                r = tm.mul(r, a)
            return r
        if b == Fr(1, 2):
            return tm.fn("sqrt", a)
    return tm.mk("pow", (a, b), "R")


# ------------------------------------------------------------------ vp_* primitives
def vp(E, name, v, st, ins, mod):
    if name == "vp_real_":
        return R(st, inp(E, cstr(E, st, v[0]), "R", v[1], v[2]))
    if name == "vp_reals_":
        nm = cstr(E, st, v[0])
        for k in range(v[2]):
            E.store_raw(st, E.padd(v[1], 8 * k), inp(E, "%s.%d" % (nm, k), "R", v[3], v[4]), 8)
        return R(st)
    if name == "vp_check_eqs_":
        nm = cstr(E, st, v[4])
        for k in range(v[2]):
            a = E.load(st, E.padd(v[0], 8 * k), ir.ty("double"), mod)
            b = E.load(st, E.padd(v[1], 8 * k), ir.ty("double"), mod)
            n2 = "%s.%d" % (nm, k)
            E.covers[n2] = E.covers.get(n2, 0) + 1
            if a is UNDEF or b is UNDEF:
                E.oblige(st, n2, "check", False, meta="undefined value")
            else:
                E.oblige(st, n2, "check", tm.eq(a, b), meta=("eq", a, b))
        return R(st)
    if name == "vp_uint_" or name == "vp_int_":
        nm = cstr(E, st, v[0])
        lo, hi = E.signed(st, v[1], 64), E.signed(st, v[2], 64)
        if nm in E.concrete:
            c = E.concrete[nm]
            if not (lo <= c <= hi):
                return [("stop", st, "assume")]
            E.inputset[nm] = ("I", lo, hi)
            return R(st, c)
        if lo == hi:
            return R(st, lo)
        E.inputset[nm] = ("I", lo, hi)
        return R(st, tm.var(nm, "I", lo, hi))
    if name == "vp_bool_":
        nm = cstr(E, st, v[0])
        if nm in E.concrete:
            return R(st, 1 if E.concrete[nm] else 0)
        E.inputset[nm] = ("B", 0, 1)
        return R(st, tm.ite(tm.var(nm, "B"), 1, 0))
    if name == "vp_assume_":
        c = E.to_bool(v[0])
        if isinstance(c, T):
            d = E.decide(st, c)
            if d is False:
                return [("stop", st, "assume")]
            if d is None:
                st.assume(c)
        elif not c:
            return [("stop", st, "assume")]
        return R(st)
    if name == "vp_check_":
        c = E.to_bool(v[0])
        nm = cstr(E, st, v[1])
        E.covers[nm] = E.covers.get(nm, 0) + 1
        E.oblige(st, nm, "check", c)
        return R(st)
    if name == "vp_check_eq_":
        nm = cstr(E, st, v[3])
        E.covers[nm] = E.covers.get(nm, 0) + 1
        a, b = real(v[0]), real(v[1])
        if a is UNDEF or b is UNDEF:
            E.oblige(st, nm, "check", False, meta="undefined value")
        else:
            E.oblige(st, nm, "check", tm.eq(a, b), meta=("eq", a, b))
        return R(st)
    if name == "vp_check_finite_":
        nm = cstr(E, st, v[1])
        E.covers[nm] = E.covers.get(nm, 0) + 1
        E.oblige(st, nm, "check", True)
        return R(st)
    if name == "vp_reach_":
        nm = cstr(E, st, v[0])
        E.covers[nm] = E.covers.get(nm, 0) + 1
        E.oblige(st, nm, "reach", False)
        return R(st)
    if name == "vp_alloc_":
        o = E.alloc(st, "obj", v[0])
        return R(st, Ptr(o, 0))
    if name == "vp_grid_":
        # nested vectors with symbolic extents: row i of a level starts ROWS elements after row i-1
        nm, kinds = cstr(E, st, v[0]), cstr(E, st, v[1])
        size, nd = v[2], v[3]
        dims = v[4:4 + nd]
        slot = size // len(kinds)

        def leaf(c, sz):
            base = nm if len(kinds) == 1 else "%s.%d" % (nm, c // slot)
            E.inputset[base] = ("A", len(kinds), None)
            return Base(lambda idx: tm.uf(base, (idx,), "R"), base)
        count = tm.mul(dims[0], ROWS ** (nd - 1))
        o = Obj(nm, tm.simp_int(tm.mul(count, size)) if isinstance(count, T) else count * size)
        st.mem[o.id] = Arr(size, st.mem, leaf)
        stride = size
        for lev in range(nd - 2, -1, -1):
            def head(c, sz, o=o, stride=stride, m=dims[lev + 1]):
                def fn(idx):
                    b = tm.mul(idx, ROWS * stride)
                    if c:
                        b = tm.add(b, tm.mul(m, stride))
                    return Ptr(o, tm.simp_int(b) if isinstance(b, T) else b)
                return Base(fn, "%s.rows%d" % (nm, c))
            count = tm.mul(dims[0], ROWS ** lev)
            o = Obj("%s.level%d" % (nm, lev), tm.simp_int(tm.mul(count, 24)) if isinstance(count, T) else count * 24)
            st.mem[o.id] = Arr(24, st.mem, head)
            stride = 24
        return R(st, Ptr(o, 0))
    if name == "vp_array_":
        # vp_array_(name, n, stride, kinds) -> ptr ; kinds: per-slot char (d = real, i = int, z = zero)
        nm = cstr(E, st, v[0])
        n, stride = v[1], v[2]
        kinds = cstr(E, st, v[3])
        if isinstance(n, T):
            o = Obj(nm, tm.simp_int(tm.mul(n, stride)))
            slot = stride // len(kinds)
            o_name = nm

            def default(c, size, nm=nm, kinds=kinds, slot=slot):
                k = kinds[c // slot]
                if k == "z":
                    return Base(lambda idx: 0, "zero")
                if k == "u":
                    return Base(lambda idx: UNDEF, "uninit")
                if k == "p":
                    return Base(lambda idx: Ptr(opaque(E, st, nm), tm.simp_int(tm.mul(idx, OPAQUE))), nm + ".ptr")
                base = nm if len(kinds) == 1 else "%s.%d" % (nm, c // slot)
                E.inputset[base] = ("A", len(kinds), None)
                if k == "i":
                    return Base(lambda idx: tm.uf(base, (idx,), "I", 0, (1 << 31) - 1), base)
                if k == "b":
                    return Base(lambda idx: tm.uf(base, (idx,), "I", 0, 1), base)
                return Base(lambda idx: tm.uf(base, (idx,), "R"), base)
            st.mem[o.id] = Arr(stride, st.mem, default)
            return R(st, Ptr(o, 0))
        o = E.alloc(st, nm, n * stride)
        os = st.own(o)
        slot = stride // len(kinds)
        for i in range(n):
            for j, k in enumerate(kinds):
                base = nm if len(kinds) == 1 else "%s.%d" % (nm, j)
                if k == "z":
                    val = 0
                elif k == "u":
                    continue
                elif k == "i":
                    val = tm.uf(base, (i,), "I", 0, (1 << 31) - 1)
                elif k == "b":
                    val = tm.uf(base, (i,), "I", 0, 1)
                elif k == "p":
                    val = Ptr(opaque(E, st, nm), i * OPAQUE)
                else:
                    val = tm.uf(base, (i,), "R")
                os.store(i * stride + j * slot, slot, val)
        return R(st, Ptr(o, 0))
    if name == "vp_havoc_real_":
        return R(st, E.fresh("havoc_" + cstr(E, st, v[0])))
    if name == "vp_fn_real_":
        # uninterpreted function of reals: vp_fn_real_(name, n, args*)
        nm = cstr(E, st, v[0])
        n = v[1]
        args = [E.load(st, E.padd(v[2], 8 * k), ir.ty("double"), mod) for k in range(n)]
        return R(st, tm.uf("fn_" + nm, tuple(args), "R"))
    if name == "vp_native_":
        return R(st, 0)
    if name == "vp_ghost_inc_":
        k = cstr(E, st, v[0])
        st.ghost[k] = tm.add(st.ghost.get(k, 0), 1)
        return R(st)
    if name == "vp_ghost_get_":
        return R(st, st.ghost.get(cstr(E, st, v[0]), 0))
    if name == "vp_index_":
        p = v[0]
        if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != "opaque":
            raise Unsupported("vp_index_ of %s" % (p,))
        sp = split_offset(p.off, OPAQUE)
        if sp is None or sp[1] != 0:
            raise Unsupported("vp_index_ offset %s" % (p.off,))
        return R(st, sp[0])
    if name == "vp_group_":
        p = v[0]
        if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != "opaque":
            raise Unsupported("vp_group_ of %s" % (p,))
        return R(st, int(p.obj.name.split("_objects")[0][-1]))
    if name == "vp_name_":
        nm = "%s#%d" % (cstr(E, st, v[0]), v[1])
        o = E.alloc(st, "name", len(nm) + 1)
        os = st.own(o)
        for i, ch in enumerate(nm.encode() + b"\0"):
            os.store(i, 1, ch)
        return R(st, Ptr(o, 0))
    if name == "vp_bounded_":
        return R(st, 1 if E.opts.get("unroll") else 0)
    if name == "vp_note_":
        return R(st)
    if name == "vp_same_":
        # pointer identity
        return R(st, E.as_int(E.icmp(st, "eq", v[0], v[1], ir.ty("ptr"))))
    if name in E.funcs:
        return None
    raise Unsupported("unknown primitive " + name)


OPAQUE = 1 << 20
ROWS = 1 << 14


def opaque(E, st, nm):
    """one opaque memory region standing for an array of objects that are only passed on to callees under contract"""
    d = E.__dict__.setdefault("opaques", {})
    if nm not in d:
        d[nm] = Obj(nm + "_objects", None, "opaque")
    return d[nm]


def inp(E, nm, sort, lo, hi):
    E.inputset[nm] = (sort, lo, hi)
    if nm in E.concrete:
        return Fr(E.concrete[nm])
    return tm.var(nm, sort)


# ------------------------------------------------------------------ libc / libstdc++ runtime
TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


@model("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t")
def _new(E, v, st, ins, mod):
    return R(st, Ptr(new_object(E, st, v[0]), 0))


@model("calloc")
def _calloc(E, v, st, ins, mod):
    n = tm.mul(v[0], v[1])
    if isinstance(n, T):
        raise Unsupported("symbolic calloc")
    return R(st, Ptr(E.alloc(st, "heap", n, zero=True), 0))


@model("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free")
def _del(E, v, st, ins, mod):
    p = v[0]
    if isinstance(p, PIte):
        for q, cc in ((p.a, p.c), (p.b, tm.not_(p.c))):
            pass
        E.note("conditional free ignored")
        return R(st)
    if isinstance(p, Ptr) and p.obj is not None:
        os = st.get(p.obj)
        if os is None or os.freed:
            from .exec import MemError
            raise MemError("double free of %s" % p.obj)
        st.own(p.obj).freed = True
    return R(st)


@model("__cxa_allocate_exception")
def _cae(E, v, st, ins, mod):
    return R(st, Ptr(E.alloc(st, "exc", v[0]), 0))


@model("__cxa_free_exception", "__cxa_end_catch", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "__gthread_active_p", "pthread_mutex_lock", "pthread_mutex_unlock")
def _nop(E, v, st, ins, mod):
    return R(st, 0 if ins.ty is not None and ins.ty.k == "int" else None)


@model("__cxa_throw")
def _throw(E, v, st, ins, mod):
    return [("throw", st, (v[0], v[1].obj.name.lstrip("@")))]


@model("__cxa_rethrow")
def _rethrow(E, v, st, ins, mod):
    c = st.ghost.get("caught")
    if c is None:
        raise Unsupported("rethrow")
    return [("throw", st, c)]


@model("__cxa_begin_catch", "__cxa_get_exception_ptr")
def _bc(E, v, st, ins, mod):
    st.ghost = dict(st.ghost)
    if st.exc is not None:
        st.ghost["caught"] = st.exc
    return R(st, v[0])


@model("_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__clang_call_terminate", "exit")
def _term(E, v, st, ins, mod):
    E.oblige(st, "terminate-reached", "safety", False)
    return [("stop", st, "terminate")]


@model("__cxa_guard_acquire")
def _ga(E, v, st, ins, mod):
    p = v[0]
    b = E.load(st, p, ir.ty("int", 8), mod)
    if isinstance(b, int) and b:
        return R(st, 0)
    E.store_raw(st, p, 1, 1)
    return R(st, 1)


@model("strlen")
def _strlen(E, v, st, ins, mod):
    try:
        return R(st, len(cstr(E, st, v[0])))
    except Unsupported:
        return R(st, E.fresh("strlen", "I", 0, 1 << 31))


@model("memcmp", "strcmp")
def _memcmp(E, v, st, ins, mod):
    raise Unsupported("memcmp/strcmp")


@model("memcpy", "memmove")
def _memcpy(E, v, st, ins, mod):
    E.memcpy(st, v[0], v[1], v[2])
    return R(st, v[0])


@model("memset")
def _memset(E, v, st, ins, mod):
    E.memset(st, v[0], v[1], v[2])
    return R(st, v[0])


@model("sqrt")
def _sqrt(E, v, st, ins, mod):
    return intrinsic(E, "llvm.sqrt.f64", v, st, ins, mod)


@model("pow")
def _pow(E, v, st, ins, mod):
    return R(st, powr(E, real(v[0]), real(v[1])))


@model("atan2")
def _atan2(E, v, st, ins, mod):
    return R(st, tm.mk("atan2", (real(v[0]), real(v[1])), "R"))


@model("fmod")
def _fmod(E, v, st, ins, mod):
    a, b = real(v[0]), real(v[1])
    E.oblige(st, "nonzero-divisor", "defined", tm.not_(tm.eq(b, Fr(0))))
    q = tm.div(a, b)
    k = tm.ite(tm.le(Fr(0), q), tm.floor_(q), tm.neg(tm.floor_(tm.neg(q))))
    return R(st, tm.sub(a, tm.mul(b, tm.toreal(k))))


@model("hypot")
def _hypot(E, v, st, ins, mod):
    a, b = real(v[0]), real(v[1])
    return R(st, tm.fn("sqrt", tm.add(tm.mul(a, a), tm.mul(b, b))))


@model("_ZN5Eigen8internal10hypot_implIdE3runERKdS4_")
def _ehypot(E, v, st, ins, mod):
    E.note("Eigen numext::hypot modelled as sqrt(x^2+y^2)")
    a, b = (E.load(st, p, ir.ty("double"), mod) for p in v[:2])
    return R(st, tm.fn("sqrt", tm.add(tm.mul(a, a), tm.mul(b, b))))


@model("__errno_location")
def _errno(E, v, st, ins, mod):
    return R(st, Ptr(E.alloc(st, "errno", 4, zero=True), 0))


@model("_ZN9__gnu_cxx21__is_single_threadedEv")
def _ist(E, v, st, ins, mod):
    return R(st, True)

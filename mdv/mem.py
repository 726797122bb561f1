"""Values, memory objects and array update chains."""
from fractions import Fraction as Fr
import itertools
from . import terms as tm
from .terms import T


class Unsupported(Exception):
    pass


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()
_oid = itertools.count(1)


class Obj:
    __slots__ = ("id", "name", "size", "kind", "align", "external")

    def __init__(self, name, size=None, kind="mem"):
        self.id = next(_oid)
        self.name = name
        self.size = size
        self.kind = kind
        self.external = False

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and (self.off is o.off or (not isinstance(self.off, T) and not isinstance(o.off, T) and self.off == o.off))

    def __hash__(self):
        return hash((id(self.obj), self.off if not isinstance(self.off, T) else self.off.id))


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "pite(%s,%s,%s)" % (self.c, self.a, self.b)


class PInt:
    """pointer converted to integer: address(obj)+off"""
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "int%s+%s" % (self.obj, self.off)


class Bits:
    """a real stored/loaded through an integer type, or an integer through a fp type"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


NULL = Ptr(None, 0)


def veq(a, b):
    """cheap identity of values"""
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (Ptr,)):
        return a == b
    if isinstance(a, PInt):
        return a.obj is b.obj and veq(a.off, b.off)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, PIte):
        return a.c is b.c and veq(a.a, b.a) and veq(a.b, b.b)
    if isinstance(a, Bits):
        return veq(a.v, b.v)
    return a == b


def vite(c, a, b):
    """merge two values under condition c"""
    if not isinstance(c, T):
        return a if c else b
    if veq(a, b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.obj is not None:
            return Ptr(a.obj, tm.ite(c, a.off, b.off))
        return PIte(c, a, b)
    if isinstance(a, PInt) and isinstance(b, PInt) and a.obj is b.obj:
        return PInt(a.obj, tm.ite(c, a.off, b.off))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Bits) and isinstance(b, Bits):
        return Bits(vite(c, a.v, b.v))
    if isinstance(a, (T, int, Fr, bool)) and isinstance(b, (T, int, Fr, bool)):
        sa, sb = tm.sort_of(a), tm.sort_of(b)
        if sa != sb:
            if {sa, sb} == {"B", "I"}:
                f = lambda x: tm.ite(x, 1, 0) if tm.sort_of(x) == "B" else x
                return tm.ite(c, f(a), f(b))
            raise Unsupported("merge sorts %s/%s" % (sa, sb))
        return tm.ite(c, a, b)
    raise Unsupported("merge %s / %s" % (type(a).__name__, type(b).__name__))


def vsubst(v, m, memo):
    if isinstance(v, T):
        return tm.subst(v, m, memo)
    if isinstance(v, Ptr):
        if isinstance(v.off, T):
            return Ptr(v.obj, tm.simp_int(tm.subst(v.off, m, memo)))
        return v
    if isinstance(v, PIte):
        c = tm.subst(v.c, m, memo)
        return vite(c, vsubst(v.a, m, memo), vsubst(v.b, m, memo))
    if isinstance(v, PInt):
        return PInt(v.obj, tm.simp_int(tm.subst(v.off, m, memo)) if isinstance(v.off, T) else v.off)
    if isinstance(v, (tuple, list)):
        return tuple(vsubst(x, m, memo) for x in v)
    if isinstance(v, Bits):
        return Bits(vsubst(v.v, m, memo))
    return v


def vvars(v):
    if isinstance(v, T):
        return tm.free_vars(v)
    if isinstance(v, (Ptr, PInt)):
        return tm.free_vars(v.off) if isinstance(v.off, T) else frozenset()
    if isinstance(v, PIte):
        return tm.free_vars(v.c) | vvars(v.a) | vvars(v.b)
    if isinstance(v, (tuple, list)):
        s = frozenset()
        for x in v:
            s |= vvars(x)
        return s
    if isinstance(v, Bits):
        return vvars(v.v)
    return frozenset()


def vrefs(v, acc):
    """object ids referenced by a value"""
    if isinstance(v, (Ptr, PInt)):
        if v.obj is not None:
            acc.add(v.obj.id)
    elif isinstance(v, PIte):
        vrefs(v.a, acc)
        vrefs(v.b, acc)
    elif isinstance(v, (tuple, list)):
        for x in v:
            vrefs(x, acc)


# ---------------------------------------------------------------- concrete-offset objects
class Cells:
    __slots__ = ("d", "zero", "owner", "freed")

    def __init__(self, owner):
        self.d = {}
        self.zero = []
        self.owner = owner
        self.freed = False

    def clone(self, owner):
        c = Cells(owner)
        c.d = dict(self.d)
        c.zero = list(self.zero)
        c.freed = self.freed
        return c

    def in_zero(self, off, size):
        for lo, hi in self.zero:
            if lo <= off and off + size <= hi:
                return True
        return False

    def overlapping(self, off, size):
        d = self.d
        out = []
        for o in range(off - 15, off + size):
            c = d.get(o)
            if c is not None and o + c[0] > off:
                out.append(o)
        return out

    def store(self, off, size, val):
        d = self.d
        c = d.get(off)
        if c is not None and c[0] == size:
            d[off] = (size, val)
            return
        for o in self.overlapping(off, size):
            s, v = d.pop(o)
            if o < off or o + s > off + size:
                # partial overwrite: split into bytes when concrete
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, int):
                    v &= (1 << (8 * s)) - 1
                    for k in range(s):
                        if not (off <= o + k < off + size):
                            d[o + k] = (1, (v >> (8 * k)) & 255)
                else:
                    for k in range(s):
                        if not (off <= o + k < off + size):
                            d[o + k] = (1, UNDEF)
        if self.zero:
            # zero bytes of a partially covered default stay zero: nothing to do, cells take precedence
            pass
        d[off] = (size, val)

    def load(self, off, size):
        """returns (found, value)"""
        c = self.d.get(off)
        if c is not None and c[0] == size:
            return True, c[1]
        ov = self.overlapping(off, size)
        if not ov:
            if self.in_zero(off, size):
                return True, 0
            return False, None
        # assemble from bytes
        tot = 0
        for k in range(size):
            b = self.byte(off + k)
            if not isinstance(b, int):
                if len(ov) == 1:
                    o = ov[0]
                    s, v = self.d[o]
                    if o <= off and o + s >= off + size and isinstance(v, T) and v.sort == "I":
                        lo, hi = tm.bounds(v)
                        if o == off and lo is not None and hi is not None and lo >= 0 and hi < (1 << (8 * size)):
                            return True, v
                return True, b if b is UNDEF else None
            tot |= b << (8 * k)
        return True, tot

    def byte(self, off):
        for o in range(off, off - 16, -1):
            c = self.d.get(o)
            if c is not None and o + c[0] > off:
                v = c[1]
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, int):
                    return (v >> (8 * (off - o))) & 255
                if isinstance(v, Fr):
                    import struct
                    return struct.pack("<d", float(v))[off - o]
                return UNDEF if v is UNDEF else None
        if self.in_zero(off, 1):
            return 0
        return UNDEF


# ---------------------------------------------------------------- symbolic-length arrays
class Node:
    __slots__ = ()


class Base(Node):
    """initial contents: fn(idx)->value"""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name):
        self.fn = fn
        self.name = name


class Store(Node):
    __slots__ = ("prev", "idx", "val", "g")

    def __init__(self, prev, idx, val, g=True):
        self.prev, self.idx, self.val, self.g = prev, idx, val, g


class Map(Node):
    """elements lo <= idx < hi become lam(idx) (or old + lam(idx) when add)"""
    __slots__ = ("prev", "lo", "hi", "fn", "g", "add", "lam")

    def __init__(self, prev, lo, hi, fn, g=True, add=False, lam=None):
        self.prev, self.lo, self.hi, self.fn, self.g, self.add, self.lam = prev, lo, hi, fn, g, add, lam


class Arr:
    """array-mode object state: stride and one chain per slot offset"""
    __slots__ = ("stride", "f", "owner", "freed", "default", "bases")

    def __init__(self, stride, owner, default=None, bases=None):
        self.bases = {} if bases is None else bases
        self.stride = stride
        self.f = {}
        self.owner = owner
        self.freed = False
        self.default = default  # fn(slot,size)->Base

    def clone(self, owner):
        a = Arr(self.stride, owner, self.default, self.bases)
        a.f = dict(self.f)
        a.freed = self.freed
        return a


def split_offset(off, stride):
    """off = stride*idx + c"""
    if not isinstance(off, T):
        return off // stride, off % stride
    p = tm.int_poly(off)
    c0 = p.get((), 0)
    c = c0 % stride
    q = {}
    for m, k in p.items():
        if m == ():
            k = k - c
            if k == 0:
                continue
        if k % stride:
            # maybe an ite of offsets
            return None
        q[m] = k // stride
    return tm.from_int_poly(q), c

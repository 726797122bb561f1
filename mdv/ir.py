"""Parser for the textual LLVM IR produced from /repo's sources (opaque pointers)."""
import re, struct
from fractions import Fraction as Fr

TOK = re.compile(r'''\s+|;[^\n]*
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<meta>![-\w.]*)
 |(?P<attr>\#\d+)
 |(?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<num>-?\d+\.\d*(?:[eE][+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<id>[A-Za-z_][\w.]*)
 |(?P<p>\.\.\.|[(){}\[\]<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError("tok: %r" % s[pos:pos + 60])
        pos = m.end()
        if m.lastgroup:
            v = m.group(m.lastgroup)
            if m.lastgroup in ("loc", "glob") and v[1] == '"':
                v = v[0] + v[2:-1]
            out.append((m.lastgroup, v))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "_sz", "_al", "_offs")

    def __init__(self, k, a=None):
        self.k = k
        self.a = a
        self._sz = None
        self._al = None
        self._offs = None

    def __repr__(self):
        return "%s%s" % (self.k, self.a if self.a is not None else "")


_tyc = {}


def ty(k, a=None):
    if k in ("int",):
        t = _tyc.get((k, a))
        if t is None:
            t = _tyc[(k, a)] = Ty(k, a)
        return t
    if a is None:
        t = _tyc.get(k)
        if t is None:
            t = _tyc[k] = Ty(k)
        return t
    return Ty(k, a)


def _align(o, a):
    return (o + a - 1) // a * a


def sizeof(t, mod):
    if t._sz is None:
        _layout(t, mod)
    return t._sz


def alignof(t, mod):
    if t._sz is None:
        _layout(t, mod)
    return t._al


def offsets(t, mod):
    if t._sz is None:
        _layout(t, mod)
    if t.k == "named":
        return offsets(mod.types[t.a], mod)
    return t._offs


def _layout(t, mod):
    k = t.k
    if k == "int":
        b = max(1, (t.a + 7) // 8)
        s = 1
        while s < b:
            s *= 2
        t._al = min(s, 16)
        t._sz = s if b <= 8 else _align(b, 16)
    elif k == "double":
        t._sz = t._al = 8
    elif k == "float":
        t._sz = t._al = 4
    elif k == "x86_fp80":
        t._sz = t._al = 16
    elif k == "ptr":
        t._sz = t._al = 8
    elif k == "arr":
        n, e = t.a
        t._sz = n * sizeof(e, mod)
        t._al = alignof(e, mod)
    elif k == "vec":
        n, e = t.a
        t._sz = n * sizeof(e, mod)
        t._al = t._sz
    elif k in ("struct", "pstruct"):
        o = 0
        al = 1
        offs = []
        for e in t.a:
            ea = 1 if k == "pstruct" else alignof(e, mod)
            o = _align(o, ea)
            offs.append(o)
            o += sizeof(e, mod)
            al = max(al, ea)
        t._offs = offs
        t._al = al
        t._sz = _align(o, al)
    elif k == "named":
        b = mod.types[t.a]
        t._sz = sizeof(b, mod)
        t._al = alignof(b, mod)
    elif k in ("void", "opaque", "label", "metadata", "token"):
        t._sz = 0
        t._al = 1
    else:
        raise NotImplementedError("layout " + k)


def resolve(t, mod):
    while t.k == "named":
        t = mod.types[t.a]
    return t


PARAM_ATTRS = {
    "zeroext", "signext", "inreg", "noalias", "nocapture", "nest", "returned", "nonnull", "noundef", "immarg",
    "readonly", "readnone", "writeonly", "swiftself", "swifterror", "nofree", "allocptr", "allocalign", "inalloca",
    "dead_on_unwind", "writable",
}
PAREN_ATTRS = {"dereferenceable", "dereferenceable_or_null", "align", "sret", "byval", "byref", "elementtype",
               "preallocated", "captures", "range", "nofpclass", "memory"}
FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
         "disjoint", "nneg", "volatile", "atomic", "tail", "musttail", "notail", "fastcc", "ccc", "coldcc", "nusw",
         "unordered", "monotonic", "acquire", "release", "acq_rel", "seq_cst", "weak", "dso_local", "local_unnamed_addr",
         "unnamed_addr"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError("expected %s got %s in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)))

    def end(self):
        return self.i >= len(self.t)

    def flags(self):
        fl = []
        while self.peek()[0] == "id" and self.peek()[1] in FLAGS:
            fl.append(self.next()[1])
        return fl

    def type(self):
        g, v = self.next()
        if g == "id":
            if v[0] == "i" and v[1:].isdigit():
                t = ty("int", int(v[1:]))
            elif v in ("double", "float", "void", "ptr", "label", "metadata", "token", "opaque", "x86_fp80"):
                t = ty(v)
                if v == "ptr" and self.peek()[1] == "addrspace":
                    self.next(); self.skip_parens()
            else:
                raise SyntaxError("type " + v)
        elif g == "loc":
            t = ty("named", v[1:])
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ty("arr", (n, e))
        elif v == "{":
            t = ty("struct", self.types_until("}"))
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                t = ty("pstruct", self.types_until("}"))
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ty("vec", (n, e))
        else:
            raise SyntaxError("type tok %r in %s" % (v, " ".join(x[1] for x in self.t)[:300]))
        # function type
        if self.peek()[1] == "(" and t.k != "label":
            # only when in call position "type (args...)": caller decides
            pass
        return t

    def types_until(self, close):
        ts = []
        if self.accept(close):
            return ts
        while True:
            ts.append(self.type())
            if self.accept(close):
                return ts
            self.expect(",")

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()[1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1

    def attrs(self):
        out = {}
        while True:
            g, v = self.peek()
            if g == "id" and v in PARAM_ATTRS:
                self.next()
                out[v] = True
            elif g == "id" and v in PAREN_ATTRS:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                elif v in ("sret", "byval", "byref", "elementtype"):
                    self.expect("(")
                    out[v] = self.type()
                    self.expect(")")
                elif self.peek()[1] == "(":
                    self.skip_parens()
            elif g == "attr":
                self.next()
            elif g == "str":
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return out

    # constants / operands. Representation:
    # ("l",name) local ; ("c",value) ; ("g",name) ; ("gep",ty,base,idx..) ; ("z",) zero; ("u",) undef ; ("agg",[..])
    def value(self, t):
        g, v = self.next()
        if g == "loc":
            return ("l", v[1:])
        if g == "glob":
            return ("g", v[1:])
        if g == "num":
            if t.k in ("double", "float"):
                return ("c", parse_fp(v, t))
            if v.startswith("0x"):
                return ("c", int(v, 16))
            return ("c", int(v))
        if g == "id":
            if v == "true":
                return ("c", True)
            if v == "false":
                return ("c", False)
            if v == "null":
                return ("n",)
            if v in ("undef", "poison"):
                return ("u",)
            if v == "zeroinitializer":
                return ("z",)
            if v == "none":
                return ("u",)
            if v == "getelementptr":
                self.flags()
                if self.peek()[1] == "inrange":
                    self.next()
                    self.skip_parens()
                self.expect("(")
                et = self.type()
                self.expect(",")
                bt = self.type()
                b = self.value(bt)
                idx = []
                while self.accept(","):
                    self.accept("inrange")
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(")")
                return ("gep", et, b, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                self.expect("(")
                ft = self.type()
                x = self.value(ft)
                self.expect("to")
                tt = self.type()
                self.expect(")")
                return ("cast", v, ft, x, tt)
            if v in ("add", "sub", "mul", "xor", "and", "or", "shl"):
                self.flags()
                self.expect("(")
                at = self.type()
                a = self.value(at)
                self.expect(",")
                bt = self.type()
                b = self.value(bt)
                self.expect(")")
                return ("cbin", v, at, a, b)
            if v in ("dso_local_equivalent", "no_cfi"):
                return self.value(t)
            raise SyntaxError("value id %s in %s" % (v, " ".join(x[1] for x in self.t)[:300]))
        if g == "str" and v[0] == "c":
            return ("bytes", unescape(v[2:-1]))
        if v in ("[", "{", "<"):
            if v == "<" and self.peek()[1] == "{":
                self.next()
                el = self.aggs("}")
                self.expect(">")
                return ("agg", el)
            return ("agg", self.aggs({"[": "]", "{": "}", "<": ">"}[v]))
        if g == "meta":
            # metadata operand: skip
            if self.peek()[1] == "(":
                self.skip_parens()
            return ("u",)
        raise SyntaxError("value %r" % v)

    def aggs(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.accept(close):
                return out
            self.expect(",")

    def tv(self):
        t = self.type()
        if t.k == "metadata":
            # consume until , or )
            d = 0
            while not self.end():
                v = self.peek()[1]
                if d == 0 and v in (",", ")"):
                    break
                if v == "(":
                    d += 1
                if v == ")":
                    d -= 1
                self.next()
            return t, ("u",)
        self.attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class FpConst:
    """special fp constants"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def parse_fp(v, t):
    if v.startswith("0x"):
        if v[2] in "KLMHR":
            return FpConst("fp80")
        d = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
    else:
        d = float(v)
    return d


# ---------------------------------------------------------------- modules
class Func:
    def __init__(self, name, mod, lines, header):
        self.name = name
        self.mod = mod
        self.lines = lines
        self.header = header
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        parse_function(self)
        self.parsed = True
        return self


class Inst:
    __slots__ = ("op", "res", "ty", "a", "line", "loc")

    def __init__(self, op, res, ty_, a, line):
        self.op = op
        self.res = res
        self.ty = ty_
        self.a = a
        self.line = line

    def __repr__(self):
        return self.line


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.insts = []


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}  # name -> line
        self.md = {}
        self.aliases = {}
        self._gcache = {}
        self.load()

    def load(self):
        with open(self.path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            if not L:
                i += 1
                continue
            c = L[0]
            if c == "%":
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)$', L)
                nm = m.group(1).strip('"')
                p = P(tokenize(m.group(2)), self)
                self.types[nm] = p.type()
            elif c == "@":
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = ', L)
                nm = m.group(1).strip('"')
                self.globals[nm] = L[m.end():]
            elif c == "!" and (" !DILoc" in L or " !DIFile" in L or " distinct !DISub" in L or " !DILex" in L or " distinct !DILex" in L):
                k = L.index(" = ")
                self.md[L[1:k]] = L[k + 3:]
            elif L.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                nm = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', L).group(1).strip('"')
                self.funcs[nm] = Func(nm, self, lines[i + 1:j], L)
                i = j
            elif L.startswith("declare"):
                nm = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', L).group(1).strip('"')
                self.decls[nm] = L
            i += 1
        for nm, s in self.globals.items():
            m = re.search(r'\balias [^@]*, ptr @("(?:[^"\\]|\\.)*"|[-\w$.]+)', s[:2000]) if " alias " in s[:200] else None
            if m and m.group(1).strip('"') in self.funcs:
                self.aliases[nm] = m.group(1).strip('"')

    def source_loc(self, text):
        """innermost source position outside Eigen / the standard library"""
        m = re.search(r"!dbg !(\d+)", text)
        while m:
            d = self.md.get(m.group(1))
            if d is None:
                return ""
            line = re.search(r"line: (\d+)", d)
            sc = re.search(r"scope: !(\d+)", d)
            ia = re.search(r"inlinedAt: !(\d+)", d)
            s = self.md.get(sc.group(1), "") if sc else ""
            for _ in range(8):
                if "DISubprogram" in s or "DIFile" in s:
                    break
                f = re.search(r"scope: !(\d+)", s)
                s = self.md.get(f.group(1), "") if f else ""
            f = re.search(r"file: !(\d+)", s)
            fl = self.md.get(f.group(1), "") if f else ""
            fn = re.search(r'filename: "([^"]*)"', fl)
            fn = fn.group(1) if fn else ""
            if fn and "/Eigen/" not in fn and "/c++/" not in fn and "/usr/" not in fn:
                return "%s:%s" % (fn.split("/")[-1], line.group(1) if line else "?")
            m = ia
        return ""

    def inlined_inverse(self, text):
        """is this instruction part of an inlined Eigen matrix inverse?"""
        m = re.search(r"!dbg !(\d+)", text)
        while m:
            d = self.md.get(m.group(1))
            if d is None:
                return False
            sc = re.search(r"scope: !(\d+)", d)
            s = self.md.get(sc.group(1), "") if sc else ""
            for _ in range(8):
                if "DISubprogram" in s or "DIFile" in s:
                    break
                f = re.search(r"scope: !(\d+)", s)
                s = self.md.get(f.group(1), "") if f else ""
            if "DISubprogram" in s and re.search(r'name: "(compute_inverse|[^"]*Eigen::Inverse<)', s):
                return True
            m = re.search(r"inlinedAt: !(\d+)", d)
        return False

    def global_info(self, name):
        """-> (kind, type, init or None)"""
        r = self._gcache.get(name)
        if r is not None:
            return r
        s = self.globals[name]
        # linkage words until 'global'/'constant'/'alias'
        toks = tokenize(re.sub(r'!dbg .*$', '', s))
        p = P(toks, self)
        ext = False
        while True:
            g, v = p.next()
            if v in ("global", "constant", "alias", "ifunc"):
                kind = v
                break
            if v == "external" or v == "extern_weak":
                ext = True
            if v == "(":
                d = 1
                while d:
                    vv = p.next()[1]
                    d += vv == "("
                    d -= vv == ")"
        t = p.type()
        init = None
        if kind == "alias":
            p.expect(",")
            t2, init = p.tv()
        elif not ext:
            init = p.value(t)
        r = (kind, t, init)
        self._gcache[name] = r
        return r


def parse_function(f):
    mod = f.mod
    # header: params
    h = f.header
    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', h)
    pre = h[len("define"):m.start()]
    p = P(tokenize(pre), mod)
    rt = None
    # last type before name
    while not p.end():
        g, v = p.peek()
        if g == "id" and not ((v[0] == "i" and v[1:].isdigit()) or v in ("double", "float", "void", "ptr")):
            p.next()
            if p.peek()[1] == "(":
                p.skip_parens()
            continue
        if g == "num":
            p.next()
            continue
        rt = p.type()
    f.ret = rt
    p = P(tokenize(h[m.end() - 1:]), mod)
    p.expect("(")
    f.params = []
    f.vararg = False
    k = 0
    if not p.accept(")"):
        while True:
            if p.accept("..."):
                f.vararg = True
                p.expect(")")
                break
            t = p.type()
            at = p.attrs()
            if p.peek()[0] == "loc":
                nm = p.next()[1][1:]
            else:
                nm = str(k)
            k += 1
            f.params.append((t, nm, at))
            if p.accept(")"):
                break
            p.expect(",")
    # blocks
    f.blocks = {}
    f.order = []
    cur = None
    lines = f.lines
    i = 0
    n = len(lines)
    first = True
    while i < n:
        L = lines[i]
        i += 1
        s = L.strip()
        if not s or s[0] == ";":
            continue
        if not L.startswith("  "):
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', L)
            if m:
                nm = m.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                first = False
                continue
        if first:
            nm = str(len(f.params))
            cur = Block(nm)
            f.blocks[nm] = cur
            f.order.append(nm)
            first = False
        # join continuation lines (switch, landingpad, invoke)
        if re.match(r'switch ', s):
            while "]" not in s:
                s += " " + lines[i].strip()
                i += 1
        elif " invoke " in " " + s and " unwind label" not in s:
            s += " " + lines[i].strip()
            i += 1
        elif " = landingpad" in s:
            while i < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                s += " " + lines[i].strip()
                i += 1
        ins = parse_inst(s, mod)
        if ins.op == "phi":
            cur.phis.append(ins)
        else:
            cur.insts.append(ins)
    f.entry = f.order[0]


MDSTRIP = re.compile(r', !(?:dbg|tbaa|llvm\.loop|range|prof|srcloc|nonnull|noundef|invariant\.group|nosanitize|heapallocsite|noalias|alias\.scope|unpredictable|tbaa\.struct|dereferenceable|align|invariant\.load|callees|fpmath) ?![\w.]*(?:\([^)]*\))?')


def parse_inst(s, mod):
    line = s
    s = MDSTRIP.sub("", s)
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = p.next()[1][1:]
        p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    A = None
    t = None
    if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd",
              "fsub", "fmul", "fdiv", "frem"):
        fl = p.flags()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        A = (a, b, fl)
    elif op == "fneg":
        p.flags()
        t = p.type()
        A = (p.value(t),)
    elif op in ("icmp", "fcmp"):
        p.flags()
        pr = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        A = (pr, a, b)
    elif op == "load":
        p.flags()
        t = p.type()
        p.expect(",")
        _, a = p.tv()
        A = (a,)
    elif op == "store":
        p.flags()
        t, v = p.tv()
        p.expect(",")
        _, a = p.tv()
        A = (v, a)
    elif op == "getelementptr":
        p.flags()
        et = p.type()
        p.expect(",")
        _, b = p.tv()
        idx = []
        while p.accept(","):
            it, iv = p.tv()
            idx.append((it, iv))
        t = et
        A = (b, idx)
    elif op == "alloca":
        p.flags()
        t = p.type()
        cnt = ("c", 1)
        while p.accept(","):
            if p.peek()[1] == "align":
                p.next(); p.next()
            else:
                _, cnt = p.tv()
        A = (cnt,)
    elif op in ("bitcast", "ptrtoint", "inttoptr", "zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui",
                "fpext", "fptrunc", "addrspacecast"):
        p.flags()
        ft, v = p.tv()
        p.expect("to")
        t = p.type()
        A = (ft, v)
    elif op == "select":
        p.flags()
        ct, c = p.tv()
        p.expect(",")
        t, a = p.tv()
        p.expect(",")
        _, b = p.tv()
        A = (c, a, b)
    elif op == "phi":
        p.flags()
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            b = p.next()[1][1:]
            p.expect("]")
            inc[b] = v
            if not p.accept(","):
                break
        A = inc
    elif op == "br":
        if p.accept("label"):
            A = (None, p.next()[1][1:])
        else:
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            p.expect("label")
            a = p.next()[1][1:]
            p.expect(",")
            p.expect("label")
            b = p.next()[1][1:]
            A = (c, a, b)
    elif op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = p.next()[1][1:]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], p.next()[1][1:]))
        A = (v, d, cases)
    elif op == "ret":
        t = p.type()
        A = (None if t.k == "void" else p.value(t),)
    elif op in ("call", "invoke"):
        p.flags()
        at = p.attrs()
        t = p.type()
        ft = None
        if p.peek()[1] == "(" :
            # explicit function type (varargs)
            # distinguish from callee (callee is @ or %)
            p.skip_parens()
        g, v = p.peek()
        if g == "id" and v == "asm":
            A = (("asm",), [], None, None)
            return Inst("call", res, t, A, line)
        cal = p.value(ty("ptr"))
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                a_t = p.type()
                if a_t.k == "metadata":
                    d = 0
                    while True:
                        vv = p.peek()[1]
                        if d == 0 and vv in (",", ")"):
                            break
                        d += vv == "("
                        d -= vv == ")"
                        p.next()
                    args.append((a_t, ("u",), {}))
                else:
                    aa = p.attrs()
                    args.append((a_t, p.value(a_t), aa))
                if p.accept(")"):
                    break
                p.expect(",")
        n1 = n2 = None
        if op == "invoke":
            while p.peek()[1] != "to":
                p.next()
            p.next()
            p.expect("label")
            n1 = p.next()[1][1:]
            p.expect("unwind")
            p.expect("label")
            n2 = p.next()[1][1:]
        A = (cal, args, n1, n2)
    elif op == "landingpad":
        t = p.type()
        cl = []
        while not p.end():
            g, v = p.next()
            if v == "cleanup":
                cl.append(("cleanup",))
            elif v == "catch":
                ct, cv = p.tv()
                cl.append(("catch", cv))
            elif v == "filter":
                ct, cv = p.tv()
                cl.append(("filter", cv))
        A = cl
    elif op == "resume":
        t, v = p.tv()
        A = (v,)
    elif op == "extractvalue":
        t, v = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()[1]))
        A = (v, idx)
    elif op == "insertvalue":
        t, v = p.tv()
        p.expect(",")
        _, e = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()[1]))
        A = (v, e, idx)
    elif op == "freeze":
        t, v = p.tv()
        A = (v,)
    elif op == "unreachable":
        A = ()
    elif op == "fence":
        A = ()
    elif op == "atomicrmw":
        p.flags()
        k = p.next()[1]
        _, ptr = p.tv()
        p.expect(",")
        t, v = p.tv()
        A = (k, ptr, v)
    elif op == "cmpxchg":
        p.flags()
        _, ptr = p.tv()
        p.expect(",")
        t, c = p.tv()
        p.expect(",")
        _, v = p.tv()
        A = (ptr, c, v)
    elif op in ("extractelement", "insertelement", "shufflevector", "va_arg"):
        A = ()
    else:
        raise SyntaxError("inst " + s)
    return Inst(op, res, t, A, line)


# ---------------------------------------------------------------- CFG
def succs(b):
    t = b.insts[-1]
    if t.op == "br":
        return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
    if t.op == "switch":
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == "invoke":
        return [t.a[2], t.a[3]]
    return []


def analyse(f):
    """compute ipdom (ignoring unwind edges and unreachable/resume ends), loops."""
    if hasattr(f, "ipdom"):
        return
    f.parse()
    blocks = f.blocks
    S = {}
    for n, b in blocks.items():
        t = b.insts[-1]
        if t.op == "invoke":
            S[n] = [t.a[2]]
        else:
            S[n] = list(dict.fromkeys(succs(b)))
    # reachable from entry including unwind
    full = {n: list(dict.fromkeys(succs(b))) for n, b in blocks.items()}
    EXIT = "$exit"
    pred = {n: [] for n in blocks}
    pred[EXIT] = []
    # nodes that can reach a ret
    for n in blocks:
        for s in S[n]:
            pred[s].append(n)
        if blocks[n].insts[-1].op == "ret":
            pred[EXIT].append(n)
    canret = set()
    st = [EXIT]
    while st:
        x = st.pop()
        for q in pred[x]:
            if q not in canret:
                canret.add(q)
                st.append(q)
    # postdominators over canret nodes
    succ2 = {}
    for n in canret:
        succ2[n] = [s for s in S[n] if s in canret]
        if blocks[n].insts[-1].op == "ret":
            succ2[n] = [EXIT]
    # reverse postorder on reverse graph from EXIT
    order = []
    seen = set()

    def dfs(root):
        stack = [(root, iter([q for q in pred[root] if q in canret]))]
        seen.add(root)
        while stack:
            x, it = stack[-1]
            for q in it:
                if q not in seen:
                    seen.add(q)
                    stack.append((q, iter([z for z in pred[q] if z in canret])))
                    break
            else:
                order.append(x)
                stack.pop()

    dfs(EXIT)
    rpo = {n: i for i, n in enumerate(reversed(order))}
    idom = {EXIT: EXIT}
    changed = True
    nodes = [n for n in reversed(order) if n != EXIT]

    def inter(a, b):
        while a != b:
            while rpo[a] > rpo[b]:
                a = idom[a]
            while rpo[b] > rpo[a]:
                b = idom[b]
        return a

    while changed:
        changed = False
        for n in nodes:
            new = None
            for s in succ2[n]:
                if s in idom:
                    new = s if new is None else inter(new, s)
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True
    f.ipdom = {n: idom.get(n, EXIT) for n in blocks}
    f.canret = canret
    f.succ = full
    # dominators for natural loops (full graph)
    fpred = {n: [] for n in blocks}
    for n in blocks:
        for s in full[n]:
            fpred[s].append(n)
    order2 = []
    seen2 = set([f.entry])
    stack = [(f.entry, iter(full[f.entry]))]
    while stack:
        x, it = stack[-1]
        for q in it:
            if q not in seen2:
                seen2.add(q)
                stack.append((q, iter(full[q])))
                break
        else:
            order2.append(x)
            stack.pop()
    r2 = {n: i for i, n in enumerate(reversed(order2))}
    dom = {f.entry: f.entry}

    def inter2(a, b):
        while a != b:
            while r2[a] > r2[b]:
                a = dom[a]
            while r2[b] > r2[a]:
                b = dom[b]
        return a

    ch = True
    while ch:
        ch = False
        for n in reversed(order2):
            if n == f.entry:
                continue
            new = None
            for q in fpred[n]:
                if q in dom and q in r2:
                    new = q if new is None else inter2(new, q)
            if new is not None and dom.get(n) != new:
                dom[n] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = dom[b]

    loops = {}
    for n in r2:
        for s in full[n]:
            if dominates(s, n):
                body = loops.setdefault(s, set([s]))
                st = [n]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(q for q in fpred[x] if q in r2)
    f.loops = loops
    f.fpred = fpred
    f.dom = dom

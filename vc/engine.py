"""Verification-condition generator: symbolic execution of the extracted AST of /repo's functions.

Every path of a function under contract is executed once (re-execution with decision prefixes); loops whose trip
count is concrete are unrolled completely; loops over symbolic collections need an invariant (see loops.py).
Postconditions are handed to the SMT solver per path; an obligation is discharged only when every path is."""
import itertools, re, time
from fractions import Fraction
from functools import lru_cache
import z3
from xast import Program

z3.set_param("smt.random_seed", 1)

INTS = {"bool": (1, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True),
        "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True),
        "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False), "wchar_t": (32, True), "char32_t": (32, False)}


class TY:
    __slots__ = ("k", "name", "args", "bits", "signed", "elem", "n", "const", "s")

    def __repr__(self):
        return self.s


def split_args(s):
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


@lru_cache(None)
def outside_targs(s):
    if "<" not in s:
        return s
    o, d = "", 0
    for c in s:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            o += c
    return o


@lru_cache(None)
def parse_type(s):
    t = TY()
    t.s = s
    t.name = None
    t.args, t.bits, t.signed, t.elem, t.n, t.const = (), 0, False, None, None, False
    s = s.strip()
    if s.endswith("&&"):
        t.k = "ref"
        t.elem = parse_type(s[:-2].strip())
        return t
    if s.endswith("&"):
        t.k = "ref"
        t.elem = parse_type(s[:-1].strip())
        return t
    if s.endswith("*const") or s.endswith("* const"):
        s = s[:-5].strip()
    if s.endswith("*"):
        t.k = "ptr"
        t.elem = parse_type(s[:-1].strip())
        return t
    if s.endswith(")") or "(*" in outside_targs(s) or "::*)" in outside_targs(s):
        t.k = "func"
        return t
    if s.endswith("]"):
        i = s.rindex("[")
        # multi-dim: T[a][b] -> array a of T[b]
        j = s.index("[", _targs_end(s))
        k = s.index("]", j)
        t.k = "array"
        t.n = int(s[j + 1:k]) if s[j + 1:k] else None
        t.elem = parse_type((s[:j] + s[k + 1:]).strip())
        return t
    while s.startswith("const ") or s.startswith("volatile "):
        s = s.split(" ", 1)[1]
        t.const = True
    if s.endswith(" const"):
        s = s[:-6]
        t.const = True
    if s in INTS:
        t.k = "bool" if s == "bool" else "int"
        t.bits, t.signed = INTS[s]
        t.name = s
        return t
    if s in ("double", "float", "long double"):
        t.k = "double"
        t.name = s
        return t
    if s == "void":
        t.k = "void"
        return t
    if s == "std::nullptr_t" or s == "nullptr_t":
        t.k = "ptr"
        t.elem = None
        return t
    t.k = "class"
    if s.endswith(">") and "<" in s:
        i = s.index("<")
        depth = 0
        # find first '<' whose matching '>' is the end
        e = None
        for j in range(len(s)):
            if s[j] == "<":
                if depth == 0:
                    i = j
                depth += 1
            elif s[j] == ">":
                depth -= 1
                if depth == 0:
                    e = j
        t.name = strip_tmpl(s)
        t.args = tuple(split_args(s[i + 1:-1]))
    else:
        t.name = strip_tmpl(s)
    return t


def _targs_end(s):
    depth = 0
    last = 0
    for j, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
            last = j
    return last


@lru_cache(None)
def strip_tmpl(s):
    """remove all template argument lists"""
    out, depth = "", 0
    i = 0
    if "operator" in s:
        k = s.rindex("operator")
        # operator names containing < or >
        head, tail = s[:k], s[k:]
        m = re.match(r"operator\s*(<<=|>>=|<<|>>|<=|>=|<|>|->\*|->|\(\)|\[\]|[^\w\s<(]+)?", tail)
        if m and m.group(1):
            rest = tail[m.end():]
            return strip_tmpl(head) + m.group(0) if not head.endswith("::") else strip_tmpl(head[:-2]) + "::" + m.group(0)
    for c in s:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out += c
    return out


@lru_cache(None)
def noref(t):
    while t.k == "ref":
        t = t.elem
    return t


def bare(s):
    t = noref(parse_type(s))
    s = t.s
    while s.startswith("const "):
        s = s[6:]
    if s.endswith(" const"):
        s = s[:-6]
    return s


# ------------------------------------------------------------------ values
_stamp = itertools.count(1)


class Cell:
    __slots__ = ("v", "b")

    def __init__(self, v=None):
        self.v = v
        self.b = next(_stamp)


class Obj:
    __slots__ = ("cls", "f", "b", "lazy")

    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.lazy = None
        self.b = next(_stamp)

    def __repr__(self):
        return "<%s %s>" % (self.cls, {k.split("::")[-1]: (c.v if isinstance(c, Cell) else c) for k, c in self.f.items() if not isinstance(getattr(c, "v", None), (Obj, Ptr))})


class Ptr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c  # Cell or (Arr, idx) or None

    def __eq__(self, o):
        if not isinstance(o, Ptr):
            return False
        return target_id(self.c) == target_id(o.c)

    def __hash__(self):
        return hash(target_id(self.c))


def target_id(c):
    if c is None:
        return 0
    if isinstance(c, tuple):
        return (id(c[0]), c[1] if isinstance(c[1], int) else id(c[1]))
    v = c.v if isinstance(c, Cell) else c
    return id(v) if isinstance(v, Obj) else id(c)


NULL = Ptr(None)


class Arr:
    """C array / contiguous buffer"""
    __slots__ = ("cells", "b")

    def __init__(self, cells):
        self.cells = cells
        self.b = next(_stamp)


class Seq:
    """std::vector / list / deque / array / initializer_list / ublas vector with concrete length"""
    __slots__ = ("cells", "kind", "et", "b")

    def __init__(self, cells=(), kind="vector", et=None):
        self.cells = list(cells)
        self.kind, self.et = kind, et
        self.b = next(_stamp)


class LSeq(Seq):
    """vector/deque of symbolic length with unknown content: elements come from a factory when first read"""
    __slots__ = ("n", "known", "factory")

    def __init__(self, n, factory, et=None, kind="vector"):
        self.n, self.known, self.factory = n, [], factory
        self.kind, self.et = kind, et
        self.b = next(_stamp)

    @property
    def cells(self):
        raise Unsupported("whole content of a sequence of symbolic length")

    @cells.setter
    def cells(self, v):
        raise Unsupported("assignment to a sequence of symbolic length")


class MapV:
    """std::map/unordered_map/set/multimap… : list of (keycell, valcell or None)"""
    __slots__ = ("ents", "kind", "kt", "vt", "cmp", "b", "lazy", "absent")

    def __init__(self, kind, kt, vt=None, cmp=None):
        self.ents = []
        self.lazy = None     # factory(I, key) -> value cell, for maps with unknown further content
        self.absent = []     # keys already known not to be in the unknown part
        self.kind, self.kt, self.vt, self.cmp = kind, kt, vt, cmp
        self.b = next(_stamp)


class PairV:
    __slots__ = ("first", "second", "b")

    def __init__(self, a, c):
        self.first, self.second = a, c
        self.b = next(_stamp)


class It:
    __slots__ = ("c", "i", "rev", "extra")

    def __init__(self, c, i, rev=False, extra=None):
        self.c, self.i, self.rev, self.extra = c, i, rev, extra


class Lam:
    __slots__ = ("e", "tu", "caps", "this")


class FnRef:
    __slots__ = ("ref",)

    def __init__(self, r):
        self.ref = r


class SymStr:
    """string assembled from literal text and symbolic pieces"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, SymStr) and len(self.p) == len(o.p) and all((a is b) or (isinstance(a, str) and a == b) or (not isinstance(a, str) and not isinstance(b, str) and same(a[1], b[1])) for a, b in zip(self.p, o.p))

    def __hash__(self):
        return hash(len(self.p))

    def __repr__(self):
        return "SymStr(%s)" % (self.p,)


class Stream:
    __slots__ = ("pieces", "name", "flags", "b")

    def __init__(self, name=""):
        self.pieces = []
        self.name = name
        self.flags = {}
        self.b = next(_stamp)


class Opaque:
    """value of a library type that is only ever passed around"""
    __slots__ = ("name", "b")

    def __init__(self, n):
        self.name = n
        self.b = next(_stamp)


# ------------------------------------------------------------------ control
class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class NeedFork(Exception):
    pass


class PathLimit(Exception):
    pass


class UB(Exception):
    """undefined behaviour / failed safety obligation reached on a feasible path"""


class CppThrow(Exception):
    def __init__(self, val, tname):
        self.val, self.tname = val, tname

    def __str__(self):
        m = None
        if isinstance(self.val, Obj) and "std::what" in self.val.f:
            m = self.val.f["std::what"].v
        return "%s(%s)" % (self.tname, m)


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Cont(Exception):
    pass


def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def same(a, b):
    if is_z(a) and is_z(b):
        return a.eq(b)
    if is_z(a) or is_z(b):
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, FnRef) and isinstance(b, FnRef):
        return a.ref["u"] == b.ref["u"]
    return type(a) == type(b) and a == b


def toz(v, like=None):
    if is_z(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, int):
        if like is not None and z3.is_real(like):
            return z3.RealVal(v)
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported("toz %r" % (v,))


def as_bool(v):
    if isinstance(v, bool):
        return v
    if is_z(v):
        if z3.is_bool(v):
            return v
        if z3.is_int(v) or z3.is_real(v):
            return v != 0
    if is_num(v):
        return v != 0
    if isinstance(v, Ptr):
        return v.c is not None
    if isinstance(v, FnRef):
        return True
    if v is None:
        return False
    raise Unsupported("as_bool %r" % (v,))


def NOT(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def AND(*cs):
    cs = [c for c in cs if not (isinstance(c, bool) and c)]
    if any(isinstance(c, bool) for c in cs):
        return False
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def OR(*cs):
    cs = [c for c in cs if not (isinstance(c, bool) and not c)]
    if any(isinstance(c, bool) for c in cs):
        return True
    if not cs:
        return False
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


def IMPL(a, b):
    return OR(NOT(a), b)


def ITE(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else z3.Not(c)
    if isinstance(a, str) or isinstance(b, str):
        raise Unsupported("ite of strings")
    za, zb = toz(a, b if is_z(b) else None), toz(b, a if is_z(a) else None)
    if za.sort() != zb.sort():
        if z3.is_real(za) and z3.is_int(zb):
            zb = z3.ToReal(zb)
        elif z3.is_int(za) and z3.is_real(zb):
            za = z3.ToReal(za)
        else:
            raise Unsupported("ite sort mismatch")
    r = z3.If(c, za, zb)
    if z3.is_int(r):
        x, y = known_bits(a), known_bits(b)
        if x is not None and y is not None and not (is_num(a) and is_num(b) and max(abs(a), abs(b)) > 64):
            n = max(len(x[0]), len(y[0]))
            xs, ys = (x[0] + [x[1]] * n)[:n], (y[0] + [y[1]] * n)[:n]
            BITREG[r.get_id()] = (r, [bite(c, p, q) for p, q in zip(xs, ys)], bite(c, x[1], y[1]))
    return r


def symstr_cmp(a, b):
    """strings made of literal text and integers in decimal: (conjuncts so far, left piece or None, right piece or None) at the first place where they can differ"""
    pa = [x for x in (a.p if isinstance(a, SymStr) else (a,)) if x != ""]
    pb = [x for x in (b.p if isinstance(b, SymStr) else (b,)) if x != ""]
    conj = []
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return conj, x, y
            pa[0:1], pb[0:1] = ([x[n:]] if x[n:] else []), ([y[n:]] if y[n:] else [])
            continue
        for p in (pa, pb):
            if not isinstance(p[0], str) and (p[0][0] != "i" or len(p) > 1 and (not isinstance(p[1], str) or p[1][0].isdigit())):
                raise Unsupported("comparison of partially symbolic strings")
        if isinstance(x, str) or isinstance(y, str):
            lit, i = (pa, pb[0]) if isinstance(x, str) else (pb, pa[0])
            m = re.match(r"-?\d+", lit[0])
            if not m or str(int(m.group())) != m.group() or (m.end() == len(lit[0]) and len(lit) > 1):
                return conj, x, y
            conj.append((i[1], int(m.group())))
            rest = lit[0][m.end():]
            lit[0:1] = [rest] if rest else []
            (pb if lit is pa else pa).pop(0)
            continue
        conj.append((x[1], y[1]))
        pa.pop(0)
        pb.pop(0)
    return conj, (pa[0] if pa else None), (pb[0] if pb else None)


def symstr_eq(a, b):
    if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
        raise Unsupported("comparison of partially symbolic strings")
    conj, x, y = symstr_cmp(a, b)
    if x is not None or y is not None:
        return False
    return AND(*[EQ(u, v) for u, v in conj]) if conj else True


LEX = z3.Function("decimal_rank", z3.IntSort(), z3.RealSort())


def symstr_less(c, a, b):
    """lexicographic order; two different integers at the end are ordered by an arbitrary rank (their decimal texts are ordered somehow)"""
    conj, x, y = symstr_cmp(a, b)
    if not conj:
        if isinstance(x, str) and isinstance(y, str):
            return x < y
        if x is None or y is None:
            return x is None and y is not None
        if isinstance(x, str) != isinstance(y, str):
            lit = x if isinstance(x, str) else y
            if not lit[0].isdigit() and lit[0] != "-":
                return (lit[0] < "0") == isinstance(x, str)
    if len(conj) == 1 and x is None and y is None:
        u, v = toz(conj[0][0]), toz(conj[0][1])
        c.assume(z3.Or(u == v, LEX(u) != LEX(v)))
        return LEX(u) < LEX(v)
    raise Unsupported("ordering of symbolic strings")


BITREG = {}


def bite(c, p, q):
    if isinstance(p, bool) and isinstance(q, bool):
        return p if p == q else (c if p else z3.Not(c))
    if same(p, q):
        return p
    return OR(AND(c, p), AND(NOT(c), q))


def known_bits(v):
    """(bit list, sign bit) of an integer value whose bits are known, else None"""
    if isinstance(v, int) and not isinstance(v, bool):
        return ([bool(v >> k & 1) for k in range(8)], v < 0) if -128 <= v < 256 else None
    if is_z(v):
        e = BITREG.get(v.get_id())
        return (list(e[1]), e[2]) if e is not None else None
    return None


class Loose(int):
    """an integer known only to lie between lo and hi: what does not follow from that is refused; `int` is what identifies it (for a digit of a
    number written in a text, the code of the character that stands for it)"""
    def __new__(cls, v, lo, hi):
        o = int.__new__(cls, v)
        o.lo, o.hi = lo, hi
        return o

    def cast(self, m):
        if 0 <= self.lo and self.hi < m:
            return self
        raise Unsupported("conversion of a character of a number")

    def __lt__(self, x):
        l, h = (x.lo, x.hi) if isinstance(x, Loose) else (x, x)
        if self.hi < l:
            return True
        if self.lo >= h:
            return False
        raise Unsupported("order of the characters of a number")

    def __ge__(self, x):
        return not self < x

    def __gt__(self, x):
        l, h = (x.lo, x.hi) if isinstance(x, Loose) else (x, x)
        if self.lo > h:
            return True
        if self.hi <= l:
            return False
        raise Unsupported("order of the characters of a number")

    def __le__(self, x):
        return not self > x

    def __eq__(self, x):
        if not isinstance(x, (int, float, Fraction)):
            return NotImplemented
        l, h = (x.lo, x.hi) if isinstance(x, Loose) else (x, x)
        if self is x:
            return True
        if self.hi < l or h < self.lo:
            return False
        raise Unsupported("comparison of a character of a number")

    def __ne__(self, x):
        r = self.__eq__(x)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return self != 0

    def __hash__(self):
        raise Unsupported("a character of a number as a key")

    def refuse(self, *a):
        raise Unsupported("arithmetic on a character of a number")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = __and__ = __rand__ = refuse
    __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __neg__ = __invert__ = __abs__ = __index__ = refuse
    __truediv__ = __rtruediv__ = __pow__ = refuse


def EQ(a, b):
    if not is_z(a) and not is_z(b):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(a, SymStr) and isinstance(b, SymStr) and a == b:
                return True
            return symstr_eq(a, b)
        if a == b:
            return True
        if isinstance(a, str) and isinstance(b, str) and not (a.isascii() and b.isascii()):
            import text
            return text.str_eq(a, b)
        return False
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    za, zb = toz(a, b if is_z(b) else None), toz(b, a if is_z(a) else None)
    if za.sort() != zb.sort():
        if z3.is_bool(za) and not z3.is_bool(zb):
            za = z3.If(za, z3.IntVal(1), z3.IntVal(0))
        elif z3.is_bool(zb) and not z3.is_bool(za):
            zb = z3.If(zb, z3.IntVal(1), z3.IntVal(0))
        if z3.is_real(za) and z3.is_int(zb):
            zb = z3.ToReal(zb)
        elif z3.is_int(za) and z3.is_real(zb):
            za = z3.ToReal(za)
    return za == zb


class Nan:
    """result of 0.0/0.0: may be stored and propagated, any decision on it is refused"""
    def __repr__(s):
        return "NaN"


NANV = Nan()


def arith(op, a, b):
    if a is NANV or b is NANV:
        return NANV
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if is_z(a) and z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if is_z(b) and z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if is_num(a) and is_num(b):
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
    # light simplification keeps terms small
    if op == "*":
        if is_num(a) and a == 0 or is_num(b) and b == 0:
            return Fraction(0) if (isinstance(a, Fraction) or isinstance(b, Fraction) or (is_z(a) and z3.is_real(a)) or (is_z(b) and z3.is_real(b))) else 0
        if is_num(a) and a == 1:
            return b
        if is_num(b) and b == 1:
            return a
    if op == "+":
        if is_num(a) and a == 0:
            return b
        if is_num(b) and b == 0:
            return a
    if op == "-" and is_num(b) and b == 0:
        return a
    za, zb = toz(a, b if is_z(b) else None), toz(b, a if is_z(a) else None)
    if z3.is_real(za) and z3.is_int(zb):
        zb = z3.ToReal(zb)
    if z3.is_int(za) and z3.is_real(zb):
        za = z3.ToReal(za)
    return {"+": lambda: za + zb, "-": lambda: za - zb, "*": lambda: za * zb}[op]()


def cmpop(op, a, b):
    if a is NANV or b is NANV:
        raise Unsupported("comparison of NaN")
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if op == "==":
        return EQ(a, b)
    if op == "!=":
        return NOT(EQ(a, b))
    if not is_z(a) and not is_z(b):
        return a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b
    za, zb = toz(a, b if is_z(b) else None), toz(b, a if is_z(a) else None)
    if z3.is_bool(za):
        za = z3.If(za, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(zb):
        zb = z3.If(zb, z3.IntVal(1), z3.IntVal(0))
    if z3.is_real(za) and z3.is_int(zb):
        zb = z3.ToReal(zb)
    if z3.is_int(za) and z3.is_real(zb):
        za = z3.ToReal(za)
    return {"<": lambda: za < zb, ">": lambda: za > zb, "<=": lambda: za <= zb, ">=": lambda: za >= zb}[op]()


def from_bits(terms, high=False):
    """the integer sum of 2^k over the set bits, minus 2^n when the sign bit is set"""
    if all(isinstance(b, bool) for b in terms) and isinstance(high, bool):
        return sum((1 << k) for k, b in enumerate(terms) if b) - ((1 << len(terms)) if high else 0)
    ts = [z3.If(toz(b), z3.IntVal(1 << k), z3.IntVal(0)) for k, b in enumerate(terms) if not (isinstance(b, bool) and not b)]
    if not (isinstance(high, bool) and not high):
        ts.append(z3.If(toz(high), z3.IntVal(-(1 << len(terms))), z3.IntVal(0)))
    acc = z3.Sum(ts)
    BITREG[acc.get_id()] = (acc, list(terms), high)
    return acc


def wrap(v, ty):
    """conversion of an integer value to type ty (C++ modular for unsigned, implementation-defined modular for signed)"""
    if is_z(v) and z3.is_int(v):
        e = BITREG.get(v.get_id())
        if e is not None:
            b, h, w = e[1], e[2], ty.bits
            if len(b) <= w - 1 if ty.signed else (len(b) <= w and h is False):
                return v
            low = (list(b) + [h] * w)[:w]
            return from_bits(low[:-1], low[-1]) if ty.signed else from_bits(low)
    m = 1 << ty.bits
    if isinstance(v, bool):
        return int(v)
    if is_z(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Loose):
        return v.cast(m // 2 if ty.signed else m)
    if isinstance(v, int):
        v %= m
        if ty.signed and v >= m // 2:
            v -= m
        return v
    if is_z(v):
        if ty.signed:
            return z3.If(z3.And(v >= -(m // 2), v < m // 2), v, ((v + m // 2) % m) - m // 2)
        return z3.If(z3.And(v >= 0, v < m), v, v % m)
    raise Unsupported("wrap %r" % (v,))


class Frame:
    __slots__ = ("fn", "this", "loc", "tu", "types")

    def __init__(self, fn, this, tu):
        self.fn, self.this, self.tu = fn, this, tu
        self.types = tu.types
        self.loc = {}


class ObligationResult:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.failed = []   # list of model dicts / info
        self.unknown = []
        self.time = 0.0
        self.solver = set()

    @property
    def status(self):
        if self.failed:
            return "failed"
        if self.unknown:
            return "unknown"
        return "discharged"


class Session:
    """all obligations of one check run"""

    def __init__(self, prog):
        self.prog = prog
        self.obls = {}
        self.assumptions = set()
        self.functions = {}   # qualified name -> role (contract / inlined)
        self.libs = set()
        self.solver_time = 0.0
        self.covers = {}
        self.units = {}
        self.contracted = {}
        self.contracts_used = set()

    def obl(self, name):
        if name not in self.obls:
            self.obls[name] = ObligationResult(name)
        return self.obls[name]


class Ctx:
    """one path execution"""

    def __init__(self, sess, prefix, opts):
        BITREG.clear()
        self.S = sess
        self.prog = sess.prog
        self.prefix = list(prefix)
        self.decisions = []
        self.alts = []        # prefixes still to explore
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_ms", 800))
        self.pc = []
        self.nfresh = {}
        self.depth = 0
        self.merge = 0
        self.journal = None
        self.contracts = opts.get("contracts", {})
        self.globals = {}
        self.events = []
        self.steps = 0
        self.max_steps = opts.get("max_steps", 400000)
        self.inputs = {}
        self.path_notes = []
        self.local_dec = None
        self.hooks = opts.get("hooks", {})
        self.deadline = opts.get("deadline")
        self.stack = []
        self.dm = {}
        self.statics = {}
        self.addr = {}

    # ---- symbols
    def fresh(self, name, sort):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        nm = name if n == 0 else "%s!%d" % (name, n)
        if sort == "int":
            return z3.Int(nm)
        if sort == "real":
            return z3.Real(nm)
        if sort == "bool":
            return z3.Bool(nm)
        if sort == "str":
            return z3.String(nm)
        return z3.Const(nm, sort)

    def input(self, name, sort, lo=None, hi=None):
        v = self.fresh(name, sort)
        self.inputs[str(v)] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    # ---- path condition
    def assume(self, c):
        c = as_bool(c)
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)
        self.solver.add(c)

    def divmod(self, a, b, signed=True):
        """quotient and remainder of a non-negative integer by a positive constant, as fresh variables with their defining axioms"""
        if self.local_dec is not None or not is_z(a) or not is_num(b) or b <= 0:
            return None
        key = (a.get_id(), b)
        if key in self.dm:
            return self.dm[key][1]
        if signed and self.feasible(a < 0):
            return None
        q, r = self.fresh("div%d" % b, "int"), self.fresh("mod%d" % b, "int")
        for f in (a == b * q + r, r >= 0, r < b, q >= 0):
            self.pc.append(f)
            self.solver.add(f)
        self.dm[key] = (a, (q, r))
        return q, r

    def feasible(self, c):
        t = time.time()
        r = self.solver.check(c)
        self.S.solver_time += time.time() - t
        return r != z3.unsat

    def branch(self, c):
        """decide a symbolic condition: forks the path"""
        c = as_bool(c)
        if isinstance(c, bool):
            return c
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.local_dec is not None:      # inside a local (merging) exploration
            L = self.local_dec
            i = len(L["dec"])
            if i < len(L["prefix"]):
                d = L["prefix"][i]
            else:
                t, f = self.feasible(c), self.feasible(z3.Not(c))
                if not t and not f:
                    raise Infeasible()
                if t and f:
                    if L["count"][0] > L["limit"]:
                        raise NeedFork()
                    L["alts"].append(L["dec"] + [False])
                    d = True
                else:
                    d = t
            L["dec"].append(d)
            cc = c if d else z3.Not(c)
            L["cond"].append(cc)
            self.pc.append(cc)
            self.solver.add(cc)
            return d
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.alts.append(self.decisions + [False])
                d = True
            else:
                d = t
        self.decisions.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, label=""):
        """nondeterministic choice 0..n-1 (all explored)"""
        if self.local_dec is not None:
            raise NeedFork()
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            for k in range(1, n):
                self.alts.append(self.decisions + [k])
            d = 0
        self.decisions.append(d)
        return d

    # ---- state
    def set(self, cell, v):
        if self.journal is not None:
            self.journal.append((cell, cell.v if isinstance(cell, Cell) else None))
        if isinstance(cell, Cell):
            cell.v = v
        else:
            cell.store(self, v)

    def touch(self, cont):
        """container about to be mutated"""
        if self.journal is not None:
            if isinstance(cont, Seq) or isinstance(cont, Arr):
                self.journal.append((cont, list(cont.cells)))
            elif isinstance(cont, MapV):
                self.journal.append((cont, list(cont.ents)))
            elif isinstance(cont, Stream):
                self.journal.append((cont, (list(cont.pieces), dict(cont.flags))))
            elif isinstance(cont, list):
                self.journal.append((cont, list(cont)))
            elif isinstance(cont, Obj):
                self.journal.append((cont, dict(cont.f)))
            elif hasattr(cont, "snapshot"):
                self.journal.append((cont, cont.snapshot()))
            else:
                raise NeedFork()

    def rollback(self, j, start=None):
        for o, old in reversed(j):
            if start is not None and getattr(o, "b", 0) > start:
                continue    # created during this local path: reachable from its result only
            if isinstance(o, Cell):
                o.v = old
            elif isinstance(o, (Seq, Arr)):
                o.cells = old
            elif isinstance(o, MapV):
                o.ents = old
            elif isinstance(o, Stream):
                o.pieces, o.flags = old
            elif isinstance(o, list):
                o[:] = old
            elif isinstance(o, Obj):
                o.f = old
            elif hasattr(o, "restore"):
                o.restore(old)

    def merged(self, thunk, limit=24):
        """explore all local paths of thunk and merge their effects; raises NeedFork if they cannot be merged"""
        outer_journal, outer_local = self.journal, self.local_dec
        outer_pc = len(self.pc)
        start = next(_stamp)
        work, results = [[]], []
        count = [0]
        fresh0 = dict(self.nfresh)
        nev = len(self.events)
        try:
            while work:
                pre = work.pop()
                count[0] += 1
                if count[0] > limit:
                    raise NeedFork()
                self.journal = []
                self.local_dec = {"prefix": pre, "dec": [], "alts": [], "cond": [], "count": count, "limit": limit}
                self.solver.push()
                ok = True
                try:
                    kind, val = "normal", None
                    try:
                        val = thunk()
                    except _Ret as r:
                        kind, val = "ret", r.v
                    except _Break:
                        kind = "break"
                    except _Cont:
                        kind = "cont"
                    except Infeasible:
                        ok = False
                    except CppThrow:
                        raise NeedFork()
                    except UB:
                        raise NeedFork()
                    if len(self.events) != nev:
                        raise NeedFork()
                    if ok:
                        writes = {}
                        for o, old in self.journal:
                            b = getattr(o, "b", 0) if not isinstance(o, list) else 0
                            if b > start:
                                continue
                            if not isinstance(o, Cell):
                                raise NeedFork()
                            writes[id(o)] = (o, o.v)
                        results.append((list(self.local_dec["cond"]), kind, val, writes))
                    work.extend(self.local_dec["alts"])
                finally:
                    self.rollback(self.journal, start)
                    self.solver.pop()
                    del self.pc[outer_pc:]
        finally:
            self.journal, self.local_dec = outer_journal, outer_local
            del self.events[nev:]
        if not results:
            raise Infeasible()
        kinds = {r[1] for r in results}
        if len(kinds) != 1:
            raise NeedFork()
        kind = kinds.pop()
        if len(results) == 1:
            conds, _, val, writes = results[0]
            for c in conds:
                self.assume_local(c)
            for o, v in writes.values():
                self.set(o, v)
        else:
            cells = {}
            for r in results:
                for k, (o, v) in r[3].items():
                    cells[k] = o
            newv = {}
            for k, o in cells.items():
                acc = None
                for n, r in enumerate(reversed(results)):
                    v = r[3][k][1] if k in r[3] else o.v
                    acc = v if n == 0 else merge_val(AND(*r[0]), v, acc)
                newv[k] = acc
            val = None
            for n, r in enumerate(reversed(results)):
                val = r[2] if n == 0 else merge_val(AND(*r[0]), r[2], val)
            # disjunction of path conditions (rules out infeasible leftovers)
            d = OR(*[AND(*r[0]) for r in results])
            if not isinstance(d, bool):
                self.assume_local(d)
            for k, o in cells.items():
                self.set(o, newv[k])
        if kind == "ret":
            raise _Ret(val)
        if kind == "break":
            raise _Break()
        if kind == "cont":
            raise _Cont()
        return val

    def assume_local(self, c):
        self.pc.append(c)
        self.solver.add(c)
        if self.local_dec is not None:
            self.local_dec["cond"].append(c)

    # ---- obligations
    def prove(self, name, cond, timeout=None, info=None):
        o = self.S.obl(name)
        o.paths += 1
        cond = as_bool(cond)
        if isinstance(cond, bool) and cond:
            o.solver.add("simplifier")
            return True
        t0 = time.time()
        neg = z3.BoolVal(True) if isinstance(cond, bool) else z3.Not(cond)
        r, m, be = solve(self.pc + [neg], timeout or self.opts.get("prove_ms", 20000))
        dt = time.time() - t0
        o.time += dt
        self.S.solver_time += dt
        o.solver.add(be)
        if r == "unsat":
            return True
        rec = {"path": list(self.decisions), "info": info, "goal": str(cond)[:2000]}
        if r == "sat":
            rec["model"] = {k: model_val(m, v) for k, v in self.inputs.items()}
            rec["model"].update(getattr(self, "picks", None) or {})
            o.failed.append(rec)
        else:
            o.unknown.append(rec)
        return False

    def cover(self, name):
        """reachability of this point (vacuity guard)"""
        self.S.covers[name] = self.S.covers.get(name, 0) + 1


def model_val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return {"n": x.numerator_as_long(), "d": x.denominator_as_long()}
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return {"n": a.numerator_as_long(), "d": a.denominator_as_long()}
    if z3.is_true(x) or z3.is_false(x):
        return z3.is_true(x)
    if z3.is_string_value(x):
        return x.as_string()
    return str(x)


def has_nonlinear(fs):
    return True


def solve(fs, ms):
    """unsat / sat / unknown, model, back end"""
    s = z3.Solver()
    s.set("timeout", max(500, ms // 3))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return "unsat", None, "z3"
    if r == z3.sat:
        m = s.model()
        return "sat", m, "z3"
    # second strategy: nonlinear real arithmetic tactic
    for tac in ("qfnra-nlsat", "qfnra", "smt"):
        try:
            g = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", tac) if tac != "smt" else z3.Then("simplify", "solve-eqs", "smt")
            s2 = g.solver()
            s2.set("timeout", ms // 3)
            s2.add(*fs)
            r = s2.check()
            if r == z3.unsat:
                return "unsat", None, "z3:" + tac
            if r == z3.sat:
                return "sat", s2.model(), "z3:" + tac
        except z3.Z3Exception:
            continue
    return "unknown", None, "z3"


def merge_val(c, a, b):
    """value equal to a under c, else b"""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, Cell) or isinstance(b, Cell):
        if isinstance(a, Cell) and isinstance(b, Cell):
            raise NeedFork()
        raise NeedFork()
    if same(a, b):
        return a
    sc = lambda v: is_z(v) or is_num(v) or isinstance(v, bool)
    if sc(a) and sc(b):
        try:
            return ITE(c, a, b)
        except Unsupported:
            raise NeedFork()
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and set(a.f) == set(b.f):
        r = Obj(a.cls)
        for k in a.f:
            x, y = a.f[k], b.f[k]
            if x is y:
                r.f[k] = x
                continue
            if not isinstance(x, Cell) or not isinstance(y, Cell):
                raise NeedFork()
            r.f[k] = Cell(merge_val(c, x.v, y.v))
        return r
    if isinstance(a, Seq) and isinstance(b, Seq) and len(a.cells) == len(b.cells):
        return Seq([Cell(merge_val(c, x.v, y.v)) for x, y in zip(a.cells, b.cells)], a.kind, a.et)
    if isinstance(a, PairV) and isinstance(b, PairV):
        return PairV(Cell(merge_val(c, a.first.v, b.first.v)), Cell(merge_val(c, a.second.v, b.second.v)))
    if a is None and b is None:
        return None
    raise NeedFork()


def explore(sess, fn, opts=None, name="?"):
    """run fn(ctx) over all paths. Returns statistics; raises nothing: problems are recorded in the session."""
    opts = dict(opts or {})
    work = [[]]
    n = 0
    limit = opts.get("max_paths", 3000)
    stat = {"paths": 0, "infeasible": 0, "unsupported": [], "ub": [], "throws": 0, "time": 0.0}
    t0 = time.time()
    while work:
        pre = work.pop()
        n += 1
        if n > limit or (time.time() - t0) > opts.get("max_time", 240):
            stat["unsupported"].append("path/time limit reached (%d paths)" % n)
            break
        ctx = Ctx(sess, pre, opts)
        try:
            fn(ctx)
            stat["paths"] += 1
        except Infeasible:
            stat["infeasible"] += 1
        except Unsupported as e:
            stat["unsupported"].append("%s [in %s]" % (e, " > ".join(ctx.stack[-3:])))
        except UB as e:
            # only a violation if the path is really feasible
            r, m, be = solve(ctx.pc, 8000)
            if r == "sat":
                stat["ub"].append({"what": "%s [in %s]" % (e, " > ".join(ctx.stack[-3:])), "model": {k: model_val(m, v) for k, v in ctx.inputs.items()}})
            elif r == "unknown":
                stat["unsupported"].append("possible UB: %s" % e)
            else:
                stat["infeasible"] += 1
        except CppThrow as e:
            r, m, be = solve(ctx.pc, 8000)
            if r != "unsat":
                stat["unsupported"].append("uncaught C++ exception %s" % e)
        except NeedFork:
            stat["unsupported"].append("merge failure escaped")
        except RecursionError:
            stat["unsupported"].append("recursion limit")
        work.extend(ctx.alts)
    stat["time"] = time.time() - t0
    sess.units[name] = stat
    o = sess.obl(name + "/safety")
    o.paths = stat["paths"]
    if stat["ub"]:
        o.failed = stat["ub"]
    if stat["unsupported"]:
        o.unknown = [{"info": u} for u in sorted(set(stat["unsupported"]))[:10]]
    if stat["paths"] == 0:
        o.unknown.append({"info": "no path completed (vacuous)"})
    return stat

"""Text with symbolic numbers inside: an *atom* is one private-use character of a Python string that stands for the decimal digits of a symbolic
nonnegative integer (followed by filler characters when its width is known), so the library's string operations run on it unchanged;
operations that would have to look inside an atom are refused (Unsupported).  Input streams, boost::split, tokenizer, lexical_cast, strspn."""
import re
from engine import *
import engine as E
import lib as L
from lib import rv, free, FREE, CTORS, throw_std, it_deref, it_adv, rng, strip_tmpl, parse_type

A0, F0 = 0xE000, 0xF0000
WS = " \t\n\r\f\v"


class Atom:
    __slots__ = ("v", "w", "exact")

    def __init__(self, v, w, exact):
        self.v, self.w, self.exact = v, w, exact


def atom(c, v, w=1, exact=False):
    """text of the integer v >= 0; exact: it takes exactly w characters (the caller assumes 10**(w-1) <= v < 10**w, or 0 <= v < 10 when w = 1)"""
    c.atoms.append(Atom(v, w, exact))
    k = len(c.atoms) - 1
    return chr(A0 + k) + chr(F0 + k) * (w - 1)


def has(s):
    return not s.isascii() and any(ord(x) >= A0 for x in s)


def isa(ch):
    return ord(ch) >= A0


def code(ch):
    """the code of a character; of a character of a number, only that it is a digit"""
    return Loose(ord(ch), 48, 57) if isa(ch) else ord(ch)


def char(v):
    return chr(int.__int__(v)) if isinstance(v, Loose) else chr(v)


def items(c, s):
    """literal characters and whole atoms of s"""
    out, k = [], 0
    while k < len(s):
        o = ord(s[k])
        if o >= F0:
            raise Unsupported("part of a number")
        if o >= A0:
            a = c.atoms[o - A0]
            if s[k + 1:k + a.w] != chr(F0 + o - A0) * (a.w - 1):
                raise Unsupported("part of a number")
            out.append(a)
            k += a.w
        else:
            out.append(s[k])
            k += 1
    return out


def digits(c, its):
    """value and length (None when not known) of a run of digits"""
    v, n = 0, 0
    for x in its:
        if isinstance(x, str):
            v, w = arith("+", arith("*", v, 10), int(x)), 1
        elif x.exact or not its or x is its[0]:
            w = x.w if x.exact else None
            v = x.v if v == 0 and n == 0 else arith("+", arith("*", v, 10 ** w), x.v)
        else:
            raise Unsupported("number of unknown width after digits")
        n = None if n is None or w is None else n + w
    return v, n


def isdig(x):
    return not isinstance(x, str) or x.isdigit()


def take(its, k):
    j = k
    while j < len(its) and isdig(its[j]):
        j += 1
    return its[k:j], j


def number(c, its, real, whole=True):
    """(value, items used) of the text, None when it is no number"""
    k, neg = 0, False
    if k < len(its) and its[k] in ("+", "-"):
        neg = its[k] == "-"
        k += 1
    ip, k = take(its, k)
    fp, dot = [], False
    if real and k < len(its) and its[k] == ".":
        fp, k = take(its, k + 1)
        dot = True
    if not ip and not fp:
        return None
    v, _ = digits(c, ip)
    if real:
        f, n = digits(c, fp)
        if n is None:
            raise Unsupported("decimals of unknown width")
        sym = is_z(v) or is_z(f)
        v = toreal(v)
        if n:
            v = arith("+", v, arith("*", toreal(f), Fraction(1, 10 ** n)))
        if k < len(its) and its[k] in ("e", "E"):
            j = k + 1
            en = j < len(its) and its[j] == "-"
            if j < len(its) and its[j] in ("+", "-"):
                j += 1
            ep, j2 = take(its, j)
            if ep:
                e, n2 = digits(c, ep)
                if is_z(e):
                    if n2 is None or n2 > 2:
                        raise Unsupported("symbolic exponent")
                    e = next(x for x in range(10 ** n2) if x == 10 ** n2 - 1 or c.branch(e == x))
                v = arith("*", v, Fraction(10) ** (-e if en else e))
                k = j2
        if not sym and not is_z(v):
            v = Fraction(float(v))
    if neg:
        v = arith("-", Fraction(0) if real else 0, v)
    if whole and k != len(its):
        return None
    return v, k


def toreal(v):
    return z3.ToReal(v) if is_z(v) else Fraction(v)


def lexical(I, s, real):
    r = number(I.c, items(I.c, s), real)
    if r is None:
        if real and re.match(r"[+-]?(inf|nan|infinity)", s, re.I):
            raise Unsupported("lexical_cast of " + s)
        throw_std("boost::bad_lexical_cast", "")
    v = r[0]
    if not real:
        big = OR(v > 2 ** 31 - 1, v < -2 ** 31)
        if big is True or (big is not False and I.c.branch(big)):
            throw_std("boost::bad_lexical_cast", "")
    return v


def prefix(I, s, real, name):
    """stoi, stod: the longest number the text starts with"""
    its = items(I.c, s.lstrip(WS))
    r = number(I.c, its, real, whole=False)
    if r is None:
        throw_std("std::invalid_argument", name)
    v, k = r
    if not real:
        big = OR(v > 2 ** 31 - 1, v < -2 ** 31)
        if big is True or (big is not False and I.c.branch(big)):
            throw_std("std::out_of_range", name)
    return v


def str_eq(a, b):
    """equality of two different texts, at least one with an atom"""
    if len(a) == 0 or len(b) == 0:
        return False
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    if k < len(a) and k < len(b):
        x, y = a[k], b[k]
        if not isa(x) and not isa(y):
            # same prefix (identical atoms), then different literal characters
            return False
        z = y if isa(x) else x
        if not (isa(x) and isa(y)) and not z.isdigit() and ord(x) < F0 and ord(y) < F0:
            return False
    elif not any(isa(x) for x in a[:k]) or a[:k] == b[:k]:
        return False        # one is a proper prefix of the other
    raise Unsupported("comparison of texts with numbers: %r %r" % (a, b))


def str_less(a, b):
    for x, y in zip(a, b):
        if x != y:
            if not isa(x) and not isa(y):
                return x < y
            if isa(x) and not isa(y) and not y.isdigit():
                return "0" < y
            if isa(y) and not isa(x) and not x.isdigit():
                return x < "0"
            raise Unsupported("order of texts with numbers")
    return len(a) < len(b)


def inset(ch, x):
    """does the character belong to the set of characters x"""
    if not isa(ch):
        return ch in x
    n = sum(d in x for d in "0123456789")
    if 0 < n < 10:
        raise Unsupported("some digits of a number")
    return n == 10


def guard_find(s, x):
    if has(s) and any(y.isdigit() for y in x):
        raise Unsupported("search of digits in a number")


# ------------------------------------------------------------------ input streams
class InS:
    def __init__(self, text):
        self.text, self.pos, self.ok = text, Cell(0), Cell(True)
        self.b = next(L.E_stamp)

    def libcall(self, I, ref, nm, this, args):
        if nm == "peek":
            p = self.pos.v
            return ord(self.text[p]) if p < len(self.text) else -1
        if nm == "operator bool" or nm == "good":
            return self.ok.v
        if nm in ("fail", "operator!"):
            return NOT(self.ok.v)
        if nm == "eof":
            return self.pos.v >= len(self.text)
        raise Unsupported("istream::" + nm)


@free("std::getline")
def _getline(I, args, ref):
    st = rv(args[0])
    if not isinstance(st, InS) or len(args) > 2:
        raise Unsupported("getline")
    p = st.pos.v
    if p >= len(st.text):
        I.c.set(st.ok, False)
        I.c.set(args[1], "")
        return args[0]
    e = st.text.find("\n", p)
    e = len(st.text) if e < 0 else e
    I.c.set(args[1], st.text[p:e])
    I.c.set(st.pos, e + 1)
    return args[0]


# ------------------------------------------------------------------ boost string algorithms
class AnyOf:
    def __init__(self, x):
        self.x = x
        self.b = next(L.E_stamp)


@free("boost::algorithm::is_any_of")
def _isany(I, args, ref):
    return AnyOf(rv(args[0]))


@free("boost::algorithm::split", "boost::split")
def _split(I, args, ref):
    s, p = rv(args[1]), rv(args[2])
    if not isinstance(s, str) or not isinstance(p, AnyOf):
        raise Unsupported("split")
    guard_find(s, p.x)
    comp = len(args) > 3 and (rv(args[3]) == 0 or "on" in str(getattr(rv(args[3]), "name", "")))
    parts = re.split("[%s]%s" % (re.escape(p.x), "+" if comp else ""), s)
    q = rv(args[0])
    I.c.touch(q)
    q.cells = [Cell(x) for x in parts]
    return args[0]


class Range:
    def __init__(self, cell, i, j):
        self.cell, self.i, self.j = cell, i, j
        self.b = next(L.E_stamp)

    def copy_value(self, *a):
        return self

    def libcall(self, I, ref, nm, this, args):
        if nm == "begin":
            return It(self.cell, self.i)
        if nm == "end":
            return It(self.cell, self.j)
        if nm == "empty":
            return self.i >= self.j
        if nm == "operator!":
            return self.i >= self.j
        if nm.startswith("operator"):
            return self.i < self.j
        raise Unsupported("iterator_range::" + nm)


CTORS["boost::iterator_range"] = lambda I, t, ref, args: rv(args[0])


@free("boost::algorithm::find_first")
def _ff(I, args, ref):
    s, x = rv(args[0]), rv(args[1])
    if not isinstance(s, str):
        raise Unsupported("find_first")
    guard_find(s, x)
    k = s.find(x)
    return Range(args[0], len(s), len(s)) if k < 0 else Range(args[0], k, k + len(x))


@free("boost::algorithm::erase_tail", "boost::algorithm::erase_head")
def _et(I, args, ref):
    s, n = rv(args[0]), rv(args[1])
    if "tail" in ref["q"]:
        n = len(s) + n if n < 0 else n
        I.c.set(args[0], s[:max(0, len(s) - n)] if n else s)
    else:
        I.c.set(args[0], s[n:])


@free("boost::algorithm::all")
def _all(I, args, ref):
    s = rv(args[0])
    return AND(*[E.as_bool(rv(I.call_callable(args[1], [Cell(code(x))]))) for x in s])


@free("isblank", "std::isblank")
def _isblank(I, args, ref):
    v = rv(args[0])
    return int(v in (32, 9))


@free("strspn", "std::strspn")
def _strspn(I, args, ref):
    s, x = rv(args[0]), rv(args[1])
    for k, ch in enumerate(s):
        if ord(ch) >= F0:
            continue
        if not inset(ch, x):
            return k
    return len(s)


class Offsets:
    def __init__(self, xs):
        self.xs = xs
        self.b = next(L.E_stamp)

    def copy_value(self, *a):
        return Offsets(self.xs)

    def libcall(self, I, ref, nm, this, args):
        if nm == "operator=":
            I.c.set(this, Offsets(rv(args[0]).xs))
            return this
        raise Unsupported("offset_separator::" + nm)


def _offs(I, t, ref, args):
    if not args:
        return Offsets([1])
    a = rv(args[0])
    if isinstance(a, Offsets):
        return Offsets(a.xs)
    b = rv(args[1])

    def at(p):
        if isinstance(p, Ptr) and isinstance(p.c, tuple):
            return p.c
        if isinstance(p, Ptr) and isinstance(p.c, Cell) and isinstance(p.c.v, Arr):
            return p.c.v, 0
        if isinstance(p, Arr):
            return p, 0
        raise Unsupported("offsets %r" % (p,))
    (x, i), (_, j) = at(a), at(b)
    return Offsets([rv(I.arr_at(x, k)) for k in range(i, j)])


CTORS["boost::offset_separator"] = _offs


class Tokens:
    """boost::tokenizer<offset_separator>: fixed columns, the last one possibly partial, columns repeated when the text is longer"""
    def __init__(self, s, xs):
        out, p, k = [], 0, 0
        while p < len(s):
            n = xs[k % len(xs)]
            out.append(s[p:p + n])
            p += n
            k += 1
        self.seq = Seq([Cell(x) for x in out], "vector")
        self.b = next(L.E_stamp)

    def libcall(self, I, ref, nm, this, args):
        if nm == "begin":
            return It(self.seq, 0)
        if nm == "end":
            return It(self.seq, len(self.seq.cells))
        raise Unsupported("tokenizer::" + nm)


CTORS["boost::tokenizer"] = lambda I, t, ref, args: Tokens(rv(args[0]), rv(args[1]).xs)

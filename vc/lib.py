"""Assumed contracts of the C++ standard library / boost (the trusted base), as executable models."""
import re
import z3
from fractions import Fraction
from engine import *
from engine import _Ret, _Break, _Cont

DBL_MAX = Fraction(float.fromhex("0x1.fffffffffffffp+1023"))
DBL_MIN = Fraction(float.fromhex("0x1p-1022"))
DBL_EPS = Fraction(1, 2 ** 52)


def rv(x):
    while isinstance(x, Cell):
        x = x.v
    return x


SEQS = {"std::vector": "vector", "std::list": "list", "std::deque": "deque", "std::array": "array", "std::initializer_list": "initializer_list",
        "std::stack": "stack", "std::queue": "queue",
        "boost::numeric::ublas::vector": "ublas", "boost::numeric::ublas::bounded_vector": "ublas", "std::forward_list": "list"}
MAPS = {"std::map": "map", "std::set": "set", "std::unordered_map": "umap", "std::unordered_set": "uset", "std::multimap": "mmap", "std::multiset": "mset"}
SMART = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr_access", "std::__shared_ptr"}
STR = {"std::basic_string", "std::__cxx11::basic_string"}
STREAMS = {"std::basic_ostringstream", "std::basic_stringstream", "std::basic_ofstream", "std::basic_ostream", "std::basic_istringstream", "std::basic_ifstream", "std::basic_istream"}
EXC = {"std::exception": None, "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::invalid_argument": "std::logic_error",
       "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error",
       "std::overflow_error": "std::runtime_error", "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception", "std::system_error": "std::runtime_error",
       "std::ios_base::failure": "std::system_error", "boost::bad_lexical_cast": "std::bad_cast"}


def tn(t):
    return t.name or ""


def mk_map(I, t):
    kind = MAPS[t.name]
    kt = t.args[0]
    vt = t.args[1] if kind in ("map", "umap", "mmap") else None
    ci = 2 if vt is not None else 1
    cmp = None
    if kind in ("map", "set", "mmap", "mset") and len(t.args) > ci and not t.args[ci].startswith("std::less"):
        cmp = t.args[ci]
    if kind in ("umap", "uset"):
        cmp = None
    return MapV(kind, kt, vt, cmp)


def default(I, t):
    n = t.name
    if n in SEQS:
        k = SEQS[n]
        if k == "array":
            et = parse_type(t.args[0])
            return Seq([Cell(I.default_value(et)) for _ in range(int(re.match(r"\d+", t.args[1]).group(0)))], k, et)
        return Seq([], k, parse_type(t.args[0]) if t.args else None)
    if n in MAPS:
        return mk_map(I, t)
    if n in SMART:
        return NULL
    if n in STR:
        return ""
    if n == "std::pair":
        return PairV(Cell(I.default_value(parse_type(t.args[0]))), Cell(I.default_value(parse_type(t.args[1]))))
    if n in STREAMS:
        return Stream()
    if n == "std::function":
        return NULL
    if n in ("std::allocator", "std::locale", "std::less", "std::hash", "boost::none_t", "std::random_device"):
        return Opaque(n)
    if n in EXC:
        o = Obj(n)
        o.f["std::what"] = Cell("")
        return o
    if n and (n.startswith("__gnu_cxx::") or n.startswith("std::_") or n.startswith("std::__detail")) and "iterator" in n.lower():
        return It(None, None)
    if n and (n.startswith("boost::") or n.startswith("std::")):
        if n in ("boost::optional",):
            return NULL
        return Opaque(n)
    if n and n.startswith("(lambda"):
        return Opaque(n)
    return None


def init_base(I, cell, cls, ref, args):
    if strip_tmpl(cls) in EXC:
        cell.v.f["std::what"] = Cell(rv(args[0]) if args else "")
        return
    n = strip_tmpl(cls)
    if n in ("std::enable_shared_from_this", "boost::static_visitor", "std::iterator", "std::unary_function", "std::binary_function"):
        return
    if n.startswith("boost::") or n.startswith("std::"):
        v = None
        I.S.libs.add("opaque base " + n)
        return
    raise Unsupported("base class " + cls)


def exc_base(I, q):
    """direct bases, library or repo"""
    if q in EXC:
        return [EXC[q]] if EXC[q] else []
    return I.P.bases(q)


def exc_match(I, thrown, want):
    thrown, want = strip_tmpl(thrown), strip_tmpl(want)
    if thrown == want:
        return True
    return any(exc_match(I, b, want) for b in exc_base(I, thrown))


def throw_std(name, msg=""):
    o = Obj(name)
    o.f["std::what"] = Cell(msg)
    raise CppThrow(o, name)


def global_value(I, q):
    k = re.fullmatch(r"std::integral_constant<bool, (true|false)>::value", q)
    if k:
        return k.group(1) == "true"
    k = re.match(r"std::numeric_limits<(double|float|int|long|unsigned int)>::(digits10|max_digits10)", q)
    if k:
        return {"digits10": {"double": 15, "float": 6, "int": 9, "long": 18, "unsigned int": 9}, "max_digits10": {"double": 17, "float": 9, "int": 0, "long": 0, "unsigned int": 0}}[k.group(2)][k.group(1)]
    if q.endswith("::npos"):
        return 2 ** 64 - 1
    if q in ("std::cout", "std::cerr", "std::clog"):
        return Stream(q)
    if q == "std::cin":
        return Stream(q)
    if q.startswith("boost::") or q.startswith("std::ios_base") or q.startswith("std::_"):
        return Opaque(q)
    if q.startswith("std::regex_constants"):
        return 0
    return None


# ------------------------------------------------------------------ strings
def is_str(v):
    return isinstance(v, (str, SymStr)) or (is_z(v) and z3.is_string(v))


def scat(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, str) and a == "":
        return b
    if isinstance(b, str) and b == "":
        return a
    pa = list(a.p) if isinstance(a, SymStr) else [a] if isinstance(a, str) else [("s", a)]
    pb = list(b.p) if isinstance(b, SymStr) else [b] if isinstance(b, str) else [("s", b)]
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        return symstr(pa + pb)
    if is_z(a) and is_z(b):
        return z3.Concat(a, b)
    return z3.Concat(toz(a), toz(b))


def symstr(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return SymStr(out)


def schar(I, c):
    """char code -> string value"""
    if isinstance(c, Loose):
        return T.char(c)
    if isinstance(c, int):
        return chr(c & 0xff)
    return z3.StrFromCode(c)


def fmt_double(v, flags):
    prec = flags.get("prec", 6)
    f = flags.get("float")
    x = float(v)
    if f == "fixed":
        s = "%.*f" % (prec, x)
    elif f == "scientific":
        s = "%.*e" % (prec, x)
    else:
        s = "%.*g" % (prec or 1, x)
    if flags.get("upper"):
        s = s.upper()
    return s


def seq_eq(I, a, b):
    if len(a) != len(b):
        return False
    return AND(*[val_eq(I, x.v, y.v) for x, y in zip(a, b)])


def user_op(I, op, a, b):
    """find a repo operator for the values (member or free)"""
    if isinstance(a, Obj):
        for q in (I.P.all_bases(a.cls) if a.cls in I.P.records else []):
            for f in I.P.byq.get(q + "::operator" + op, []):
                return I.call(f.ref, Cell(a), [Cell(b)])
        ns = a.cls.rsplit("::", 1)[0]
        targs = a.cls[a.cls.index("<"):] if "<" in a.cls else ""
        ns = a.cls.split("<")[0].rsplit("::", 1)[0]
        for cand in (ns + "::operator" + op, "vega::operator" + op, ns + "::operator" + op + targs):
            for f in I.P.byq.get(cand, []):
                pts = [strip_tmpl(bare(f.tu.types[p])) for p in f.ref["p"]]
                if len(pts) == 2 and pts[0] in [strip_tmpl(x) for x in I.P.all_bases(a.cls)]:
                    return I.call(f.ref, None, [Cell(a), Cell(b)])
    return None


def val_eq(I, a, b):
    a, b = rv(a), rv(b)
    if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnRef):
        return I.ptr_eq(a, b)
    if isinstance(a, PairV):
        return AND(val_eq(I, a.first.v, b.first.v), val_eq(I, a.second.v, b.second.v))
    if isinstance(a, Seq):
        return seq_eq(I, a.cells, b.cells)
    if isinstance(a, MapV):
        if len(a.ents) != len(b.ents):
            return False
        if a.kind in ("umap", "uset"):
            cs = []
            for k, v in a.ents:
                hit = [e for e in b.ents if val_eq(I, e[0].v, k.v) is True]
                if not hit:
                    raise Unsupported("symbolic unordered comparison")
                cs.append(True if v is None else val_eq(I, v.v, hit[0][1].v))
            return AND(*cs)
        return AND(*[AND(val_eq(I, x[0].v, y[0].v), True if x[1] is None else val_eq(I, x[1].v, y[1].v)) for x, y in zip(a.ents, b.ents)])
    if isinstance(a, Obj):
        r = user_op(I, "==", a, b)
        if r is None:
            raise Unsupported("operator== for %s" % a.cls)
        return as_bool(rv(r))
    if isinstance(a, It):
        return it_eq(I, a, b)
    if hasattr(a, "val_eq"):
        return a.val_eq(I, b)
    if hasattr(b, "val_eq"):
        return b.val_eq(I, a)
    return EQ(a, b)


def val_less(I, a, b, cmp=None):
    a, b = rv(a), rv(b)
    if cmp is not None:
        if callable(cmp):
            return as_bool(rv(cmp(a, b)))
        if cmp.startswith("std::greater"):
            return val_less(I, b, a)
        if cmp in I.P.records:
            memo = isinstance(a, str) and isinstance(b, str)        # a comparison of concrete texts: the code is run once
            if memo and (cmp, a, b) in I.P.cmpmemo:
                return I.P.cmpmemo[cmp, a, b]
            for m in I.P.records[cmp]["mrefs"]:
                if m["n"] == "operator()":
                    r = as_bool(rv(I.call(m, Cell(Obj(cmp)), [Cell(a), Cell(b)])))
                    if memo and isinstance(r, bool):
                        I.P.cmpmemo[cmp, a, b] = r
                    return r
        if cmp.startswith("std::owner_less") or cmp.startswith("std::less"):
            pass
        else:
            raise Unsupported("comparator " + cmp)
    if isinstance(a, bool) and isinstance(b, bool):
        return a < b
    if isinstance(a, str) and isinstance(b, str):
        return a < b if a.isascii() and b.isascii() else T.str_less(a, b)
    if is_str(a) or is_str(b):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if a == b:
                return False
            return symstr_less(I.c, a, b)
        return toz(a) < toz(b)
    if isinstance(a, PairV):
        l1 = val_less(I, a.first.v, b.first.v)
        if l1 is True:
            return True
        l2 = val_less(I, b.first.v, a.first.v)
        return OR(l1, AND(NOT(l2), val_less(I, a.second.v, b.second.v)))
    if isinstance(a, Ptr):
        if a.c is b.c:
            return False
        return ptr_rank(I, a) < ptr_rank(I, b)
    if isinstance(a, Seq):
        acc = len(a.cells) < len(b.cells)
        for x, y in reversed(list(zip(a.cells, b.cells))):
            l = val_less(I, x.v, y.v)
            g = val_less(I, y.v, x.v)
            acc = OR(l, AND(NOT(g), acc))
        return acc
    if isinstance(a, MapV):
        return val_less(I, Seq([k for k, _ in a.ents]), Seq([k for k, _ in b.ents]))
    if isinstance(a, Obj):
        r = user_op(I, "<", a, b)
        if r is None:
            raise Unsupported("operator< for %s" % a.cls)
        return as_bool(rv(r))
    if hasattr(a, "val_less"):
        return a.val_less(I, b)
    return cmpop("<", a, b)


def ptr_rank(I, p):
    """pointer order: creation order of the pointees, or with the option "pointer_orders" also the reverse one (assumption: any consistent total order)"""
    c = p.c
    if c is None:
        return -1 << 60
    return sense(I) * rank_of(c)


def sense(I):
    c = I.c
    if not c.opts.get("pointer_orders"):
        return 1
    if getattr(c, "ptr_sense", None) is None:
        c.ptr_sense = (1, -1)[c.choose(2)]
    return c.ptr_sense


def rank_of(c):
    o = c.v if isinstance(c, Cell) and isinstance(c.v, Obj) else c
    return o.b if not isinstance(o, tuple) else o[0].b


def decide(I, c):
    return c if isinstance(c, bool) else I.c.branch(c)


# ------------------------------------------------------------------ maps
ORD = ("map", "set", "mmap", "mset")


def map_find(I, m, key):
    """entry or None (forks when the key comparison is symbolic)"""
    key = rv(key)
    for e in m.ents:
        if m.cmp is not None or (m.kind in ORD and isinstance(key, Obj)):
            if decide(I, AND(NOT(val_less(I, e[0].v, key, m.cmp)), NOT(val_less(I, key, e[0].v, m.cmp)))):
                return e
        elif decide(I, val_eq(I, e[0].v, key)):
            return e
    if m.lazy is not None:
        for k in m.absent:
            if decide(I, val_eq(I, k, key)):
                return None
        I.c.touch(m)
        r = m.lazy(I, m, key)
        if r is not None:
            m.ents.append(r)
            return r
        if I.c.journal is not None:
            raise NeedFork()
        m.absent.append(key)
    return None


def map_insert(I, m, kc, vc):
    I.c.touch(m)
    e = (kc, vc)
    if m.kind in ORD and m.lazy is None:
        i = 0
        while i < len(m.ents):
            if decide(I, val_less(I, kc.v, m.ents[i][0].v, m.cmp)):
                break
            i += 1
        m.ents.insert(i, e)
    else:
        m.ents.append(e)
    return e


def map_erase(I, m, e):
    I.c.touch(m)
    for i, x in enumerate(m.ents):
        if x is e:
            del m.ents[i]
            if m.lazy is not None:
                m.absent.append(e[0].v)
            return i
    raise UB("erase of invalid iterator")


def entry_val(m, e):
    if e[1] is None:
        return e[0]
    return Cell(PairV(e[0], e[1]))


# ------------------------------------------------------------------ iterators
def it_deref(I, it):
    c, i = it.c, it.i
    if c is None:
        raise UB("dereference of a singular iterator")
    if it.extra is not None and hasattr(it.extra, "deref"):
        return it.extra.deref(I, it)
    if isinstance(c, (Seq, Arr)):
        if it.rev:
            i = i - 1
        return I.arr_at(c, i)
    if isinstance(c, MapV):
        if it.rev:
            k = m_index(c, i)
            k = (len(c.ents) if k is None else k) - 1
            if k < 0:
                raise UB("dereference of past-the-end iterator")
            return entry_val(c, c.ents[k])
        if i is None:
            raise UB("dereference of past-the-end iterator")
        if m_index(c, i) is None:
            raise UB("dereference of an invalidated iterator")
        return entry_val(c, i)
    if isinstance(c, Cell) and is_str(c.v):
        s = c.v
        if isinstance(s, str):
            if not isinstance(i, int) or not 0 <= i < len(s):
                raise UB("string iterator out of range")
            return Cell(T.code(s[i]))
    raise Unsupported("iterator dereference over %r" % type(c))


def m_index(m, e):
    if e is None:
        return None
    for k, x in enumerate(m.ents):
        if x is e:
            return k
    return None


def it_adv(I, it, n):
    c = it.c
    if c is None:
        raise UB("advance of singular iterator")
    if it.rev:
        n = -n
    if isinstance(c, MapV):
        if c.lazy is not None:
            raise Unsupported("iteration over a symbolic map")
        k = len(c.ents) if it.i is None else m_index(c, it.i)
        if k is None:
            raise UB("increment of an invalidated iterator")
        k += n
        if not 0 <= k <= len(c.ents):
            raise UB("iterator advanced past the end")
        return It(c, c.ents[k] if k < len(c.ents) else None, it.rev)
    i = arith("+", it.i, n)
    if isinstance(c, (Seq, Arr)) and not isinstance(c, LSeq) and isinstance(i, int) and not 0 <= i <= len(c.cells):
        raise UB("iterator advanced out of range")
    return It(c, i, it.rev, it.extra)


def it_eq(I, a, b):
    if a.c is None or b.c is None:
        return a.c is b.c
    if a.c is not b.c and (getattr(a.c, "table", None) is b.c or getattr(b.c, "table", None) is a.c):
        return a.i is b.i
    if a.c is not b.c:
        if isinstance(a.c, Cell) and isinstance(b.c, Cell):
            pass
        raise UB("comparison of iterators of different containers")
    if isinstance(a.c, MapV):
        return a.i is b.i
    return EQ(a.i, b.i)


def begin_end(I, cell):
    v = rv(cell)
    if isinstance(v, LSeq):
        return It(v, 0), It(v, v.n)
    if isinstance(v, (Seq, Arr)):
        return It(v, 0), It(v, len(v.cells))
    if isinstance(v, MapV):
        if v.lazy is not None:
            raise Unsupported("iteration over a symbolic map")
        return It(v, v.ents[0] if v.ents else None), It(v, None)
    if is_str(v):
        if isinstance(v, str):
            return It(cell, 0), It(cell, len(v))
        raise Unsupported("iteration over a symbolic string")
    if isinstance(v, Obj):
        b, e = method_named(I, v, "begin"), method_named(I, v, "end")
        if b and e:
            return rv(I.call(b, Cell(v), [])), rv(I.call(e, Cell(v), []))
    if hasattr(v, "begin_end"):
        return v.begin_end(I)
    raise Unsupported("range over %r" % (v,))


def method_named(I, o, name):
    for q in I.P.all_bases(o.cls):
        r = I.P.records.get(q)
        for m in (r["mrefs"] if r else []):
            if m["n"] == name:
                return m
    return None


def iterate(I, cell):
    v = rv(cell)
    if isinstance(v, str):
        return [Cell(T.code(ch)) for ch in v]
    if isinstance(v, Seq):
        return seq_iter(v)
    if isinstance(v, Arr):
        return iter(list(v.cells))
    if isinstance(v, MapV):
        if v.lazy is not None:
            if hasattr(v.lazy, "foreach"):
                return v.lazy
            raise Unsupported("iteration over a symbolic map")
        return [entry_val(v, e) for e in list(v.ents)]
    if hasattr(v, "foreach"):
        return v
    if isinstance(v, Obj):
        b, e = begin_end(I, cell)
        return user_iter(I, b, e)
    raise Unsupported("range-for over %r" % (type(v),))


def seq_iter(v):
    n = len(v.cells)
    for c in list(v.cells):
        yield c
        if len(v.cells) != n and v.kind != "list":
            raise UB("container modified during range-for")


def user_iter(I, b, e):
    bc = Cell(b)
    k = 0
    while True:
        if isinstance(b, It):
            eq = it_eq(I, bc.v, e)
            if decide(I, eq):
                return
            yield it_deref(I, bc.v)
            bc.v = it_adv(I, bc.v, 1)
        else:
            ne = method_named(I, b, "operator!=")
            r = as_bool(rv(I.call(ne, bc, [Cell(e)])))
            if not decide(I, r):
                return
            yield I.call(method_named(I, b, "operator*"), bc, [])
            I.call([m for m in I.P.records[b.cls]["mrefs"] if m["n"] == "operator++" and not m["p"]][0], bc, [])
        k += 1
        if k > 5000:
            raise Unsupported("range-for bound")


# ------------------------------------------------------------------ construction
def make_obj(I, ts, args, argtypes):
    """new T(args...) with overload resolution (used for make_shared)"""
    t = parse_type(ts)
    cls = bare(ts)
    rec = I.P.records.get(cls)
    if rec is None:
        if t.k != "class":
            return rv(args[0]) if args else I.default_value(t)
        if t.name in SEQS or t.name in MAPS or t.name in STR:
            if not args:
                return default(I, t)
            v = rv(args[0])
            if isinstance(v, (Seq, MapV)) and len(args) == 1:
                return I.copyval(v)
            if is_str(v):
                return v
        raise Unsupported("make_shared of " + ts)
    best, bs = None, None
    for m in rec["mrefs"]:
        if m.get("k") != "ctor":
            continue
        fn = I.P.fns.get(m["u"])
        np = len(m["p"])
        if len(args) > np:
            continue
        if len(args) < np:
            defs = (fn.d.get("defs") if fn else None) or [None] * np
            if any(d is None for d in defs[len(args):np]):
                continue
        sc = 0
        ok = True
        for a, pi in zip(args, m["p"]):
            s = conv_score(I, rv(a), m["tu"].types[pi])
            if s <= 0:
                ok = False
                break
            sc += s
        if ok and (bs is None or sc > bs):
            best, bs = m, sc
    if best is None:
        raise Unsupported("no constructor of %s for %d arguments" % (cls, len(args)))
    fn = I.P.fns.get(best["u"])
    args = list(args)
    conv = []
    for a, pi in zip(args, best["p"]):
        conv.append(convert(I, a, best["tu"].types[pi]))
    args = conv
    if fn is not None and len(args) < len(best["p"]):
        fr = Frame(fn, None, fn.tu)
        for d in fn.d["defs"][len(args):]:
            args.append(I.ev(d, fr))
    if best.get("cc") and fn is None:
        return I.copyval(rv(args[0]))
    return I.new_object(cls, best, args)


def convert(I, a, ts):
    t = noref(parse_type(ts))
    v = rv(a)
    if t.k == "double" and isinstance(v, int):
        return Fraction(v)
    if t.k == "double" and is_z(v) and z3.is_int(v):
        return z3.ToReal(v)
    if t.k == "int" and isinstance(v, bool):
        return int(v)
    if t.k == "class":
        cls = bare(t.s)
        if cls in I.P.records and not (isinstance(v, Obj) and I.P.is_sub(v.cls, cls)) and not isinstance(v, Obj) or (isinstance(v, Obj) and cls in I.P.records and not I.P.is_sub(v.cls, cls)):
            # implicit converting constructor
            for m in I.P.records[cls]["mrefs"]:
                if m.get("k") == "ctor" and not m.get("cc") and len(m["p"]) >= 1:
                    if conv_score(I, v, m["tu"].types[m["p"][0]], deep=False) > 0:
                        return make_obj(I, cls, [v], None)
        if t.name in SMART or t.name in STR:
            return a
        if not parse_type(ts).k == "ref" and isinstance(v, (Obj, Seq, MapV, PairV)):
            return I.copyval(v)
    return a


def conv_score(I, v, ts, deep=True):
    t = noref(parse_type(ts))
    if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)):
        return 3 if t.k == "bool" else 1 if t.k in ("int", "double") else 0
    if isinstance(v, Fraction) or (is_z(v) and z3.is_real(v)):
        return 3 if t.k == "double" else 1 if t.k in ("int", "bool") else conv_user(I, v, t, deep)
    if isinstance(v, int) or (is_z(v) and z3.is_int(v)):
        if t.k == "int":
            return 3
        if t.k in ("bool", "double"):
            return 1
        if t.k == "class" and bare(t.s) in I.P.enums:
            return 3
        return conv_user(I, v, t, deep)
    if is_str(v):
        return 3 if t.name in STR else 2 if t.k == "ptr" else conv_user(I, v, t, deep)
    if isinstance(v, Ptr):
        if t.k == "ptr":
            if v.c is None or t.elem is None:
                return 2
            o = rv(v.c) if isinstance(v.c, Cell) else None
            if isinstance(o, Obj):
                return 3 if bare(t.elem.s) == o.cls else 2 if I.P.is_sub(o.cls, bare(t.elem.s)) else 0
            return 1
        if t.name in SMART:
            if v.c is None:
                return 2
            o = rv(v.c) if isinstance(v.c, Cell) else None
            w = bare(t.args[0])
            if isinstance(o, Obj):
                return 3 if w == o.cls else 2 if I.P.is_sub(o.cls, w) else 0
            return 1
        return 0
    if isinstance(v, Obj):
        w = bare(t.s)
        if w == v.cls:
            return 3
        if v.cls in I.P.records and I.P.is_sub(v.cls, w):
            return 2
        return conv_user(I, v, t, deep)
    if isinstance(v, Seq):
        return 3 if t.name in SEQS and (SEQS[t.name] == v.kind) else 1 if t.name in SEQS else conv_user(I, v, t, deep)
    if isinstance(v, MapV):
        return 3 if t.name in MAPS and MAPS[t.name] == v.kind else conv_user(I, v, t, deep)
    if isinstance(v, PairV):
        return 3 if t.name == "std::pair" else 0
    if isinstance(v, (Lam, FnRef)):
        return 2 if t.name == "std::function" or t.k in ("ptr", "func") else 0
    return 1


def conv_user(I, v, t, deep):
    if not deep or t.k != "class":
        return 0
    cls = bare(t.s)
    rec = I.P.records.get(cls)
    if rec is None:
        return 0
    for m in rec["mrefs"]:
        if m.get("k") == "ctor" and not m.get("cc") and len(m["p"]) == 1 and conv_score(I, v, m["tu"].types[m["p"][0]], False) > 0:
            return 0.5
    return 0


def seq_from(I, it1, it2, kind, et):
    cells = []
    i, e = rv(it1), rv(it2)
    if isinstance(i, Ptr):
        i = It(i.c[0], i.c[1]) if isinstance(i.c, tuple) else It(None, None)
        e = It(e.c[0], e.c[1]) if isinstance(e.c, tuple) else It(None, None)
    if hasattr(i, "range_to"):
        return Seq([Cell(I.copyval(rv(x))) for x in i.range_to(I, e)], kind, et)
    if i.c is None and e.c is None:
        return Seq([], kind, et)
    if isinstance(i.c, LSeq) and i.c is e.c:
        d = arith("-", e.i, i.i)
        d = z3.simplify(d) if isinstance(d, z3.ExprRef) else d
        d = d.as_long() if isinstance(d, z3.IntNumRef) else d
        if not isinstance(d, int):
            raise Unsupported("range of symbolic length")
        return Seq([Cell(I.copyval(rv(I.lseq_at(i.c, arith("+", i.i, k))))) for k in range(d)], kind, et)
    while not decide(I, it_eq(I, i, e)):
        cells.append(Cell(I.copyval(it_deref(I, i).v)))
        i = it_adv(I, i, 1)
    return Seq(cells, kind, et)


def is_it(v):
    return isinstance(v, It) or (isinstance(v, Ptr) and isinstance(v.c, tuple)) or hasattr(v, "range_to")


def construct(I, t, ref, args, fr, n):
    name = t.name or ""
    if name in STR:
        return str_ctor(I, ref, args)
    # drop trailing allocator / comparator / hash arguments
    while args and isinstance(rv(args[-1]), Opaque) and (rv(args[-1]).name in ("std::allocator", "std::less", "std::hash", "std::equal_to")):
        args = args[:-1]
    if name in SEQS:
        kind = SEQS[name]
        et = parse_type(t.args[0]) if t.args else None
        if ref.get("cc"):
            v = rv(args[0])
            return I.copyval(v) if ref["cc"] == 1 else move(I, args[0])
        if kind == "array":
            return default(I, t)
        if not args:
            return Seq([], kind, et)
        a0 = rv(args[0])
        if len(args) >= 2 and is_it(a0):
            return seq_from(I, args[0], args[1], kind, et)
        if isinstance(a0, (Seq, Arr)):
            return Seq([Cell(I.copyval(c.v)) for c in a0.cells], kind, et)
        if is_num(a0):
            fill = rv(args[1]) if len(args) > 1 else None
            if kind == "ublas" and len(args) == 1:
                return Seq([Cell(Fraction(0)) for _ in range(a0)], kind, et)
            return Seq([Cell(I.copyval(fill) if len(args) > 1 else I.default_value(et)) for _ in range(a0)], kind, et)
        raise Unsupported("constructor of %s" % name)
    if name in MAPS:
        m = mk_map(I, t)
        if ref.get("cc"):
            v = rv(args[0])
            return I.copyval(v) if ref["cc"] == 1 else move(I, args[0])
        if not args:
            return m
        a0 = rv(args[0])
        if isinstance(a0, Lam) or isinstance(a0, FnRef):
            m.cmp = lambda a, b: I.call_callable(a0, [Cell(a), Cell(b)])
            return m
        src = a0
        if is_it(a0):
            src = seq_from(I, args[0], args[1], "vector", None)
        if isinstance(src, (Seq, Arr)):
            for c in src.cells:
                map_add(I, m, c.v)
            return m
        if isinstance(src, MapV):
            return I.copyval(src)
        raise Unsupported("constructor of %s" % name)
    if name in SMART:
        if not args:
            return NULL
        v = rv(args[0])
        return v
    if name == "std::pair":
        if len(args) == 1:
            v = rv(args[0])
            return I.copyval(v)
        if len(args) == 2:
            ts = [parse_type(a) for a in t.args]
            return PairV(Cell(I.conv_scalar(I.copyval(rv(convert(I, args[0], t.args[0]))), ts[0])), Cell(I.conv_scalar(I.copyval(rv(convert(I, args[1], t.args[1]))), ts[1])))
        if not args:
            return default(I, t)
    if name in EXC:
        o = Obj(name)
        if ref.get("cc"):
            o.f["std::what"] = Cell(rv(args[0]).f["std::what"].v)
        else:
            o.f["std::what"] = Cell(rv(args[0]) if args else "")
        return o
    if name in STREAMS:
        s = Stream()
        if name in ("std::basic_istringstream", "std::basic_stringstream") and args and is_str(rv(args[0])):
            s.flags["in"] = rv(args[0])
            s.flags["pos"] = 0
        elif args and is_str(rv(args[0])):
            s.name = rv(args[0])
        elif args and is_num(rv(args[0])):
            pass
        return s
    if name == "std::function":
        return rv(args[0]) if args else NULL
    if "iterator" in name.lower():
        if not args:
            return It(None, None)
        v = rv(args[0])
        if isinstance(v, It):
            if name == "std::reverse_iterator" and not v.rev:
                return It(v.c, v.i, True, v.extra)
            return v
        if isinstance(v, (Ptr, Stream)):
            return v
    if name == "boost::numeric::ublas::matrix" and len(args) == 2 and is_num(rv(args[0])):
        return Mat(rv(args[0]), rv(args[1]))
    if name.startswith("boost::numeric::ublas::") and name.endswith("matrix"):
        v = rv(args[0]) if args else None
        if isinstance(v, Mat):
            return v.copy_value()
    if t.k == "class" and len(args) == 1 and isinstance(rv(args[0]), Lam) and "lambda" in t.s:
        return rv(args[0])
    if t.k == "class" and args and ref.get("cc"):
        v = rv(args[0])
        if isinstance(v, (Lam, Opaque)):
            return v
        if hasattr(v, "copy_value"):
            return v.copy_value()
        return I.copyval(v)
    if name == "std::complex":
        return CplxV(rv(args[0]) if args else Fraction(0), rv(args[1]) if len(args) > 1 else Fraction(0))
    if name == "boost::variant":
        alts = [parse_type(x) for x in t.args]
        if not args:
            return VarV(0, Cell(I.default_value(alts[0])))
        v = rv(args[0])
        if isinstance(v, VarV):
            return v.copy_value(I)
        hit = [k for k, a in enumerate(alts) if (isinstance(v, Obj) and a.k == "class" and (a.s == v.cls or strip_tmpl(a.s) == strip_tmpl(v.cls))) or ((is_z(v) and z3.is_arith(v) or is_num(v)) and not isinstance(v, bool) and a.k in ("double", "int"))]
        if len(hit) != 1:
            raise Unsupported("boost::variant from %r" % (v,))
        return VarV(hit[0], Cell(I.copyval(v)))
    h = CTORS.get(name)
    if h:
        return h(I, t, ref, args)
    if name.startswith("std::") or name.startswith("boost::"):
        o = Opaque(name)
        return o
    if not args:
        return I.default_value(t)
    raise Unsupported("construction of %s" % t.s)


CTORS = {}


def move(I, cell):
    v = rv(cell)
    if isinstance(cell, Cell) and isinstance(v, (Seq, MapV)):
        # contents stay valid but unspecified after a move: the moved-from object keeps a copy
        return I.copyval(v)
    return v


class VarV:
    """boost::variant"""
    def __init__(self, w, v):
        self.w, self.v, self.b = w, v, next(E_stamp)

    def copy_value(self, I=None):
        v = self.v.v
        return VarV(self.w, Cell(I.copyval(v) if I else v))

    def libcall(self, I, ref, nm, this, args):
        if nm == "which":
            return self.w
        if nm == "operator=" and args:
            v = rv(args[0])
            if not isinstance(v, VarV):
                t = parse_type(ref["c"]) if ref.get("c") else None
                if t is None or not t.args:
                    raise Unsupported("assignment to boost::variant")
                v = construct(I, t, ref, args, None, None)
            I.c.set(this, v.copy_value(I))
            return this
        raise Unsupported("boost::variant::" + nm)


class CplxV:
    def __init__(self, r, i):
        self.r, self.i, self.b = r, i, 0

    def copy_value(self):
        return self


class Mat:
    """ublas matrix with concrete dimensions"""

    def __init__(self, r, c):
        self.r, self.cn = r, c
        self.cells = [[Cell(Fraction(0)) for _ in range(c)] for _ in range(r)]
        self.b = next(E_stamp)

    def copy_value(self):
        m = Mat(self.r, self.cn)
        for i in range(self.r):
            for j in range(self.cn):
                m.cells[i][j].v = self.cells[i][j].v
        return m


def matrix_set(I, m, rows):
    if m.r != len(rows):
        m.r, m.cn = len(rows), len(rows[0])
        m.cells = [[Cell(Fraction(0)) for _ in range(m.cn)] for _ in range(m.r)]
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            I.c.set(m.cells[i][j], x)


def matrix_get(I, m):
    return [[x.v for x in r] for r in m.cells]


import engine as _E
E_stamp = _E._stamp


def init_aggregate(I, t, vals):
    if t.name == "std::array":
        et = parse_type(t.args[0])
        n = int(re.match(r"\d+", t.args[1]).group(0))
        if len(vals) == 1 and isinstance(rv(vals[0]), Arr):
            cells = [Cell(c.v) for c in rv(vals[0]).cells]
        else:
            cells = [Cell(rv(v)) for v in vals]
        while len(cells) < n:
            cells.append(Cell(I.default_value(et)))
        return Seq(cells, "array", et)
    if len(vals) == 1:
        return rv(vals[0])
    if not vals:
        return I.default_value(t)
    raise Unsupported("aggregate initialisation of %s" % t.s)


def map_add(I, m, v):
    """insert value_type; returns (entry, inserted)"""
    if m.kind in ("map", "umap", "mmap"):
        k, x = v.first.v, v.second.v
    else:
        k, x = v, None
    if m.kind not in ("mmap", "mset"):
        e = map_find(I, m, k)
        if e is not None:
            return e, False
    return map_insert(I, m, Cell(I.copyval(k)), Cell(I.copyval(x)) if m.kind in ("map", "umap", "mmap") else None), True


def str_ctor(I, ref, args):
    args = [a for a in args if not isinstance(rv(a), Opaque)]
    if not args:
        return ""
    a0 = rv(args[0])
    if is_str(a0):
        if len(args) >= 2 and isinstance(a0, str) and isinstance(rv(args[1]), int):
            p = rv(args[1])
            pt = parse_type(ref["tu"].types[ref["p"][0]])
            if pt.k == "ptr":
                return a0[:p]
            return a0[p:p + rv(args[2])] if len(args) > 2 else a0[p:]
        if len(args) == 1 or ref.get("cc"):
            return a0
    if isinstance(a0, int) and len(args) == 2:
        return schar(I, rv(args[1])) * a0
    if isinstance(a0, It) and len(args) == 2:
        e = rv(args[1])
        if isinstance(a0.c, Cell) and isinstance(a0.c.v, str):
            return a0.c.v[a0.i:e.i]
    if isinstance(a0, It) or isinstance(a0, Stream):
        raise Unsupported("string from iterators")
    if isinstance(a0, Seq):
        return "".join(chr(c.v) for c in a0.cells)
    if isinstance(a0, Ptr) and a0.c is None:
        raise UB("std::string constructed from a null pointer")
    raise Unsupported("string constructor from %r" % (a0,))


# ------------------------------------------------------------------ calls
def call(I, ref, this, args, fr, n):
    q = ref["q"]
    sq = strip_tmpl(q)
    I.S.libs.add(sq)
    nm = ref["n"] if ref.get("n") else sq.rsplit("::", 1)[1]
    if this is not None:
        o = rv(this)
        if hasattr(o, "libcall"):
            return o.libcall(I, ref, nm, this, args)
        if isinstance(o, Seq):
            return seq_call(I, nm, this, o, args, ref)
        if isinstance(o, MapV):
            return map_call(I, nm, this, o, args, ref)
        if is_str(o) and (ref.get("c") or "").startswith(("std::basic_string", "std::__cxx11")):
            return str_call(I, nm, this, o, args, ref)
        if isinstance(o, PairV) and nm == "operator=":
            s = rv(args[0])
            I.c.set(o.first, I.copyval(s.first.v))
            I.c.set(o.second, I.copyval(s.second.v))
            return this
        if isinstance(o, Stream):
            return stream_call(I, nm, this, o, args, ref)
        if isinstance(o, Mat):
            return mat_call(I, nm, this, o, args)
        if isinstance(o, CplxV) and nm in ("real", "imag"):
            return o.r if nm == "real" else o.i
        if isinstance(o, It) or "iterator" in sq:
            return it_call(I, nm, this, o, args, ref)
        c = strip_tmpl(ref.get("c") or "")
        if c in SMART or c.startswith("std::__shared_ptr") or c == "std::__uniq_ptr_impl":
            return smart_call(I, nm, this, o, args, ref)
        if isinstance(o, Obj) and nm == "what":
            return o.f["std::what"].v if "std::what" in o.f else ""
        if c == "std::function":
            if nm == "operator()":
                return I.call_callable(o, args)
            if nm == "operator bool":
                return not (isinstance(o, Ptr) and o.c is None)
            if nm == "operator=":
                I.c.set(this, rv(args[0]))
                return this
        if isinstance(o, Lam):
            return I.call_lambda(o, args)
        if c == "std::hash" and nm == "operator()":
            return hash_of(I, rv(args[0]))
        if nm == "operator=" and args and not isinstance(o, Obj):
            I.c.set(this, rv(args[0]))
            return this
        if isinstance(o, Opaque):
            h = OPAQUE.get((strip_tmpl(o.name), nm)) or OPAQUE.get(nm)
            if h:
                return h(I, this, o, args)
        if isinstance(o, Obj) and nm.startswith("operator==") :
            pass
        if ref.get("k") == "dtor":
            return None
        raise Unsupported("library call %s on %r" % (sq, type(o).__name__))
    h = FREE.get(sq)
    if h is None and sq.startswith("std::__cxx11::"):
        h = FREE.get("std::" + sq[14:])
    if h is not None:
        return h(I, args, ref)
    if nm.startswith("operator"):
        return free_operator(I, nm, args, ref)
    raise Unsupported("library function " + sq)


HASHFN = {}


def hash_of(I, v):
    v = rv(v)
    if isinstance(v, (int, str)) and not isinstance(v, bool):
        v = toz(v)
    if is_z(v):
        f = HASHFN.setdefault(v.sort().name(), z3.Function("std_hash_" + v.sort().name(), v.sort(), z3.IntSort()))
        h = f(v)
        I.c.assume_local(z3.And(h >= 0, h < 2 ** 64))
        return h
    raise Unsupported("hash of %r" % (v,))


def smart_call(I, nm, this, o, args, ref):
    if nm in ("operator->", "get"):
        return o
    if nm == "operator*":
        return I.deref(o)
    if nm == "operator bool":
        if isinstance(o, Ptr):
            return o.c is not None
        if hasattr(o, "as_bool"):
            return o.as_bool(I)
        return True
    if nm == "operator=":
        I.c.set(this, rv(args[0]))
        return this
    if nm == "reset":
        I.c.set(this, rv(args[0]) if args else NULL)
        return None
    if nm == "release":
        I.c.set(this, NULL)
        return o
    if nm in ("lock",):
        return o
    if nm == "swap":
        a = rv(args[0])
        I.c.set(args[0], o)
        I.c.set(this, a)
        return None
    if nm == "use_count":
        raise Unsupported("use_count")
    if nm == "operator[]":
        raise Unsupported("smart pointer array")
    raise Unsupported("smart pointer " + nm)


def idx(I, v):
    v = rv(v)
    return v


def lseq_push(c, o, v):
    cell = Cell(v)
    o.known.append((o.n, cell))
    o.n = arith("+", o.n, 1)
    return cell


def lseq_call(I, nm, o, args):
    c = I.c
    if nm == "size":
        return o.n
    if nm == "empty":
        return EQ(o.n, 0)
    if nm == "operator[]":
        return I.lseq_at(o, rv(args[0]))
    if nm == "at":
        i = rv(args[0])
        if not c.branch(AND(cmpop(">=", i, 0), cmpop("<", i, o.n))):
            throw_std("std::out_of_range", "vector::at")
        return I.lseq_at(o, i)
    if nm in ("push_back", "emplace_back") and len(args) == 1:
        if c.journal is not None:
            raise NeedFork()
        v = I.copyval(rv(args[0]))
        if o.et is not None:
            v = I.conv_scalar(v, o.et)
        return lseq_push(c, o, v)
    if nm == "emplace_back" and o.et is not None and o.et.k == "class":
        if c.journal is not None:
            raise NeedFork()
        return lseq_push(c, o, make_obj(I, o.et.s, args, None))
    if nm == "back":
        return I.lseq_at(o, arith("-", o.n, 1))
    if nm == "front":
        return I.lseq_at(o, 0)
    if nm in ("begin", "cbegin"):
        return It(o, 0)
    if nm in ("end", "cend"):
        return It(o, o.n)
    if nm == "reserve":
        return None
    raise Unsupported("%s on a sequence of symbolic length" % nm)


def seq_call(I, nm, this, o, args, ref):
    c = I.c
    if isinstance(o, LSeq):
        return lseq_call(I, nm, o, args)
    if nm in ("size",):
        return len(o.cells)
    if nm == "empty":
        return not o.cells
    if nm in ("operator[]", "operator()"):
        return I.arr_at(o, rv(args[0]))
    if nm == "at":
        i = rv(args[0])
        if isinstance(i, int):
            if not 0 <= i < len(o.cells):
                throw_std("std::out_of_range", "vector::at")
        elif not c.branch(AND(i >= 0, i < len(o.cells))):
            throw_std("std::out_of_range", "vector::at")
        return I.arr_at(o, i)
    if nm in ("push_back", "push", "emplace_back", "push_front", "emplace_front"):
        c.touch(o)
        if nm.startswith("emplace"):
            v = rv(args[0]) if len(args) == 1 and not (o.et and o.et.k == "class" and bare(o.et.s) in I.P.records and not isinstance(rv(args[0]), Obj)) else None
            if v is None:
                if o.et.name == "std::pair":
                    v = PairV(Cell(I.copyval(rv(args[0]))), Cell(I.copyval(rv(args[1]))))
                else:
                    v = make_obj(I, o.et.s, args, None)
        else:
            v = rv(args[0])
        v = I.copyval(v)
        if o.et is not None:
            v = I.conv_scalar(v, o.et)
        if "front" in nm:
            o.cells.insert(0, Cell(v))
        else:
            o.cells.append(Cell(v))
        return o.cells[-1]
    if nm in ("pop_back",):
        if not o.cells:
            raise UB("pop_back on empty container")
        c.touch(o)
        o.cells.pop()
        return None
    if nm in ("pop_front", "pop"):
        if not o.cells:
            raise UB(nm + " on empty container")
        c.touch(o)
        o.cells.pop(0) if not (nm == "pop" and o.kind == "stack") else o.cells.pop()
        return None
    if nm in ("front", "back", "top"):
        if not o.cells:
            raise UB(nm + "() on empty container")
        return o.cells[0] if nm == "front" else o.cells[-1]
    if nm in ("begin", "cbegin"):
        return It(o, 0)
    if nm in ("end", "cend"):
        return It(o, len(o.cells))
    if nm in ("rbegin", "crbegin"):
        return It(o, len(o.cells), True)
    if nm in ("rend", "crend"):
        return It(o, 0, True)
    if nm == "clear":
        c.touch(o)
        o.cells = []
        return None
    if nm in ("reserve", "shrink_to_fit"):
        return None
    if nm == "capacity" or nm == "max_size":
        return len(o.cells)
    if nm == "resize":
        k = rv(args[0])
        if not isinstance(k, int):
            raise Unsupported("symbolic resize")
        c.touch(o)
        while len(o.cells) > k:
            o.cells.pop()
        while len(o.cells) < k:
            o.cells.append(Cell(I.copyval(rv(args[1])) if len(args) > 1 and not isinstance(rv(args[1]), bool) else I.default_value(o.et)))
        return None
    if nm == "fill":
        for x in o.cells:
            c.set(x, I.copyval(rv(args[0])))
        return None
    if nm == "assign":
        c.touch(o)
        a0 = rv(args[0])
        if is_it(a0):
            o.cells = seq_from(I, args[0], args[1], o.kind, o.et).cells
        elif isinstance(a0, Seq):
            o.cells = [Cell(I.copyval(x.v)) for x in a0.cells]
        else:
            o.cells = [Cell(I.copyval(rv(args[1]))) for _ in range(a0)]
        return None
    if nm == "operator=":
        s = rv(args[0])
        c.touch(o)
        if isinstance(s, (Seq, Arr)):
            if o.kind == "array":
                for x, y in zip(o.cells, s.cells):
                    c.set(x, I.copyval(y.v))
            else:
                o.cells = [Cell(I.copyval(x.v)) for x in s.cells]
            return this
        raise Unsupported("assignment to sequence")
    if nm == "insert":
        p = rv(args[0])
        c.touch(o)
        a1 = rv(args[1])
        k = p.i
        if len(args) == 3 and is_it(a1):
            new = seq_from(I, args[1], args[2], o.kind, o.et).cells
        elif len(args) == 3:
            new = [Cell(I.copyval(rv(args[2]))) for _ in range(a1)]
        elif isinstance(a1, Seq) and a1.kind == "initializer_list" and not (o.et and o.et.name in SEQS):
            new = [Cell(I.copyval(x.v)) for x in a1.cells]
        else:
            new = [Cell(I.conv_scalar(I.copyval(a1), o.et) if o.et else I.copyval(a1))]
        o.cells[k:k] = new
        return It(o, k)
    if nm == "erase":
        p = rv(args[0])
        c.touch(o)
        if len(args) == 2:
            e = rv(args[1])
            del o.cells[p.i:e.i]
        else:
            if not 0 <= p.i < len(o.cells):
                raise UB("erase(end())")
            del o.cells[p.i]
        return It(o, p.i)
    if nm == "data":
        return Ptr((Arr_of(o), 0))
    if nm == "swap":
        s = rv(args[0])
        c.touch(o)
        c.touch(s)
        o.cells, s.cells = s.cells, o.cells
        return None
    if nm == "remove":
        c.touch(o)
        o.cells = [x for x in o.cells if not decide(I, val_eq(I, x.v, rv(args[0])))]
        return None
    if nm == "sort":
        c.touch(o)
        o.cells = sort_cells(I, o.cells, rv(args[0]) if args else None)
        return None
    if nm == "unique":
        c.touch(o)
        out = []
        for x in o.cells:
            if out and decide(I, val_eq(I, out[-1].v, x.v)):
                continue
            out.append(x)
        o.cells = out
        return None
    if nm in ("operator+=", "operator-=") and o.kind == "ublas":
        s = rv(args[0])
        for x, y in zip(o.cells, s.cells):
            c.set(x, arith(nm[-2], x.v, y.v))
        return this
    if nm in ("operator*=", "operator/=") and o.kind == "ublas":
        for x in o.cells:
            c.set(x, I.numop(nm[-2], x.v, rv(args[0]), parse_type("double"), None, None))
        return this
    if nm.startswith("~") or ref.get("k") == "dtor":
        return None
    raise Unsupported("%s::%s" % (o.kind, nm))


def Arr_of(o):
    a = Arr(o.cells)
    a.cells = o.cells
    return a


def less_fn(I, f):
    if f is None:
        return lambda a, b: decide(I, val_less(I, a, b))
    return lambda a, b: decide(I, as_bool(rv(I.call_callable(f, [Cell(a), Cell(b)]))))


def sort_cells(I, cells, f):
    lt = less_fn(I, f)
    out = []
    for c in cells:
        i = len(out)
        while i > 0 and lt(c.v, out[i - 1].v):
            i -= 1
        out.insert(i, c)
    return out


def map_call(I, nm, this, o, args, ref):
    c = I.c
    if nm == "size":
        if o.lazy is not None:
            raise Unsupported("size of a symbolic map")
        return len(o.ents)
    if nm == "empty":
        if o.lazy is not None:
            if o.ents:
                return False
            raise Unsupported("empty() of a symbolic map")
        return not o.ents
    if nm == "clear":
        c.touch(o)
        o.ents = []
        if o.lazy is not None:
            raise Unsupported("clear of symbolic map")
        return None
    if nm in ("begin", "cbegin"):
        if o.lazy is not None:
            raise Unsupported("iteration over a symbolic map")
        return It(o, o.ents[0] if o.ents else None)
    if nm in ("end", "cend"):
        return It(o, None)
    if nm in ("rbegin", "crbegin"):
        return It(o, None, True)
    if nm in ("rend", "crend"):
        return It(o, o.ents[0] if o.ents else None, True)
    if nm == "find":
        key = rv(args[0])
        if o.kt is None and is_z(key) and o.lazy is None and o.ents and all(is_num(e[0].v) and is_num(e[1].v) for e in o.ents):
            # read-only table (bimap): membership decided once, the value is an if-then-else over the table
            if not decide(I, OR(*[EQ(e[0].v, key) for e in o.ents])):
                return It(o, None)
            acc = o.ents[-1][1].v
            for e in reversed(o.ents[:-1]):
                acc = ITE(EQ(e[0].v, key), e[1].v, acc)
            vals = [e[1].v for e in o.ents]
            if all(0 <= x < 64 for x in vals):
                acc = I.from_bits([OR(*[EQ(e[0].v, key) for e in o.ents if e[1].v >> b & 1]) for b in range(6)])
            e = (Cell(key), Cell(acc))
            return It(RoTable(o, e), e)
        e = map_find(I, o, args[0])
        return It(o, e)
    if nm == "count":
        if o.kind in ("mmap", "mset"):
            return sum(1 for e in o.ents if decide(I, val_eq(I, e[0].v, rv(args[0]))))
        if o.lazy is None and not isinstance(rv(args[0]), (Obj, Ptr)) and o.cmp is None:
            e = OR(*[val_eq(I, x[0].v, rv(args[0])) for x in o.ents])
            return (1 if e else 0) if isinstance(e, bool) else z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return 1 if map_find(I, o, args[0]) is not None else 0
    if nm in ("operator[]", "at"):
        e = map_find(I, o, args[0])
        if e is None:
            if nm == "at":
                throw_std("std::out_of_range", "map::at")
            e = map_insert(I, o, Cell(I.copyval(rv(args[0]))), Cell(I.default_value(parse_type(o.vt))))
        return e[1]
    if nm in ("insert", "emplace", "try_emplace", "emplace_hint"):
        if nm == "emplace_hint":
            args = args[1:]
            nm = "emplace"
        if nm in ("emplace", "try_emplace"):
            if o.vt is not None:
                if len(args) == 2:
                    v = PairV(Cell(rv(args[0])), Cell(I.conv_scalar(rv(args[1]), parse_type(o.vt)) if not (isinstance(rv(args[1]), (int, str)) and bare(o.vt) in I.P.records) else make_obj(I, o.vt, [args[1]], None)))
                elif len(args) == 1:
                    v = rv(args[0])
                else:
                    raise Unsupported("map emplace")
            else:
                v = rv(args[0]) if len(args) == 1 and not (bare(o.kt) in I.P.records and not isinstance(rv(args[0]), Obj)) else make_obj(I, o.kt, args, None) if not o.kt.startswith("std::pair") else PairV(Cell(rv(args[0])), Cell(rv(args[1])))
            e, ins = map_add(I, o, v)
            return PairV(Cell(It(o, e)), Cell(ins)) if o.kind not in ("mmap", "mset") else It(o, e)
        if len(args) == 2:
            a0 = rv(args[0])
            if is_it(a0) and is_it(rv(args[1])):
                for x in seq_from(I, args[0], args[1], "vector", None).cells:
                    map_add(I, o, x.v)
                return None
            e, ins = map_add(I, o, rv(args[1]))
            return It(o, e)
        v = rv(args[0])
        if isinstance(v, Seq) and v.kind == "initializer_list":
            for x in v.cells:
                map_add(I, o, x.v)
            return None
        e, ins = map_add(I, o, v)
        return PairV(Cell(It(o, e)), Cell(ins)) if o.kind not in ("mmap", "mset") else It(o, e)
    if nm == "erase":
        a0 = rv(args[0])
        if isinstance(a0, It):
            if len(args) == 2:
                i = a0
                e = rv(args[1])
                while not it_eq(I, i, e):
                    nx = it_adv(I, i, 1)
                    map_erase(I, o, i.i)
                    i = nx
                return i
            if a0.i is None:
                raise UB("erase(end())")
            k = map_erase(I, o, a0.i)
            return It(o, o.ents[k] if k < len(o.ents) else None)
        if o.kind in ("mmap", "mset"):
            hits = [e for e in list(o.ents) if decide(I, val_eq(I, e[0].v, a0))]
            for e in hits:
                map_erase(I, o, e)
            return len(hits)
        e = map_find(I, o, a0)
        if e is None:
            return 0
        map_erase(I, o, e)
        return 1
    if nm == "operator=":
        s = rv(args[0])
        if isinstance(s, Seq):
            c.touch(o)
            o.ents = []
            for x in s.cells:
                map_add(I, o, x.v)
            return this
        s2 = I.copyval(s)
        c.touch(o)
        o.ents = s2.ents
        return this
    if nm in ("lower_bound", "upper_bound"):
        for e in o.ents:
            if nm == "lower_bound":
                hit = NOT(val_less(I, e[0].v, rv(args[0]), o.cmp))
            else:
                hit = val_less(I, rv(args[0]), e[0].v, o.cmp)
            if decide(I, hit):
                return It(o, e)
        return It(o, None)
    if nm == "equal_range":
        hits = [e for e in o.ents if decide(I, val_eq(I, e[0].v, rv(args[0])))]
        if not hits:
            return PairV(Cell(It(o, None)), Cell(It(o, None)))
        k = m_index(o, hits[-1])
        return PairV(Cell(It(o, hits[0])), Cell(It(o, o.ents[k + 1] if k + 1 < len(o.ents) else None)))
    if nm == "swap":
        s = rv(args[0])
        c.touch(o)
        c.touch(s)
        o.ents, s.ents = s.ents, o.ents
        return None
    if nm == "reserve":
        return None
    if ref.get("k") == "dtor":
        return None
    raise Unsupported("%s::%s" % (o.kind, nm))


def it_call(I, nm, this, o, args, ref):
    if o is None or not isinstance(o, It):
        if nm == "operator=":
            I.c.set(this, rv(args[0]))
            return this
        if isinstance(o, Ptr):
            if nm == "operator*":
                return I.deref(o)
            if nm == "operator->":
                return o
        raise Unsupported("iterator operation %s on %r" % (nm, o))
    if nm == "operator*":
        return it_deref(I, o)
    if nm == "operator->":
        return Ptr(it_deref(I, o))
    if nm in ("operator++", "operator--"):
        new = it_adv(I, o, 1 if nm == "operator++" else -1)
        I.c.set(this, new)
        return o if args or ref["p"] else this
    if nm in ("operator+", "operator-") and args:
        k = rv(args[0])
        if isinstance(k, It):
            return arith("-", o.i, k.i)
        return it_adv(I, o, k if nm == "operator+" else -k)
    if nm in ("operator+=", "operator-="):
        I.c.set(this, it_adv(I, o, rv(args[0]) if nm == "operator+=" else -rv(args[0])))
        return this
    if nm == "operator==":
        return it_eq(I, o, rv(args[0]))
    if nm == "operator!=":
        return NOT(it_eq(I, o, rv(args[0])))
    if nm == "operator=":
        I.c.set(this, rv(args[0]))
        return this
    if nm == "base":
        return It(o.c, o.i, False)
    if nm == "operator[]":
        return it_deref(I, it_adv(I, o, rv(args[0])))
    raise Unsupported("iterator " + nm)


def str_call(I, nm, this, s, args, ref):
    c = I.c
    a = [rv(x) for x in args]
    npos = 2 ** 64 - 1
    if nm in ("operator=", "assign"):
        v = a[0]
        if isinstance(v, int):
            v = schar(I, v)
        c.set(this, v if len(a) == 1 else str_ctor(I, ref, args))
        return this
    if nm in ("operator+=", "append", "push_back"):
        v = a[0]
        if isinstance(v, int) or (is_z(v) and z3.is_int(v)):
            v = schar(I, v) if len(a) == 1 else schar(I, a[1]) * v
        c.set(this, scat(s, v))
        return this
    if nm in ("empty",):
        if isinstance(s, str):
            return s == ""
        if isinstance(s, SymStr):
            return False if any(isinstance(p, str) and p for p in s.p) or any(not isinstance(p, str) and p[0] in "di" for p in s.p) else Unsup("emptiness")
        return z3.Length(s) == 0
    if nm in ("size", "length"):
        if isinstance(s, str):
            return len(s)
        if isinstance(s, SymStr):
            raise Unsupported("length of symbolic string")
        return z3.Length(s)
    if nm in ("c_str", "data"):
        return s
    if nm == "clear":
        c.set(this, "")
        return None
    if nm == "compare" and len(a) in (3, 5) and all(isinstance(x, (str, int)) for x in [s] + list(a)):
        x = s[a[0]:][:a[1]]
        y = a[2] if len(a) == 3 else a[2][a[3]:][:a[4]]
        if T.has(x) or T.has(y):
            return 0 if EQ(x, y) else -1 if T.str_less(x, y) else 1
        return 0 if x == y else -1 if x < y else 1
    if nm == "compare" and len(a) == 1:
        e = EQ(s, a[0])
        if isinstance(e, bool):
            return 0 if e else (-1 if s < a[0] else 1)
        return z3.If(e, z3.IntVal(0), z3.If(toz(s) < toz(a[0]), z3.IntVal(-1), z3.IntVal(1)))
    if not isinstance(s, str) or any(is_z(x) or isinstance(x, SymStr) for x in a):
        if is_z(s) and nm == "substr":
            p = a[0] if a else 0
            ln = z3.Length(s)
            return z3.SubString(s, p, ln - p if len(a) < 2 or a[1] == npos else a[1])
        if nm in ("find",) and not isinstance(s, SymStr):
            r = z3.IndexOf(toz(s), toz(a[0]), a[1] if len(a) > 1 else 0)
            return z3.If(r < 0, z3.IntVal(npos), r)
        if nm in ("operator[]", "at"):
            if is_z(s):
                return z3.StrToCode(z3.SubString(s, toz(a[0]), 1))
            if isinstance(s, str) and is_z(a[0]):
                for k in range(len(s)):
                    if c.branch(a[0] == k):
                        return T.code(s[k])
        raise Unsupported("string::%s on a symbolic string" % nm)
    if nm in ("begin", "cbegin"):
        return It(this, 0)
    if nm in ("end", "cend"):
        return It(this, len(s))
    if nm == "substr":
        p = a[0] if a else 0
        if p > len(s):
            throw_std("std::out_of_range", "basic_string::substr")
        return s[p:] if len(a) < 2 else s[p:p + a[1]]
    if nm in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        x = schar(I, a[0]) if isinstance(a[0], int) else a[0]
        if isinstance(a[0], Loose):
            n = sum(d in s for d in "0123456789")
            if T.has(s) or 0 < n < 10 or "not" in nm:
                raise Unsupported("search of a character of a number")
            return Loose(0, 0, len(s) - 1) if n else npos
        if nm in ("find", "rfind"):
            T.guard_find(s, x)
        if nm == "find":
            r = s.find(x, a[1] if len(a) > 1 else 0)
        elif nm == "rfind":
            r = s.rfind(x) if len(a) < 2 else s.rfind(x, 0, a[1] + len(x))
        else:
            st = a[1] if len(a) > 1 else 0
            rng = range(st, len(s)) if "first" in nm else range(min(len(s) - 1, st if len(a) > 1 else npos), -1, -1)
            r = next((k for k in rng if T.inset(s[k], x) != ("not" in nm)), -1)
        return npos if r < 0 else r
    if nm in ("operator[]", "at"):
        i = a[0]
        if i == len(s) and nm == "operator[]":
            return Cell(0)
        if not 0 <= i < len(s):
            if nm == "at":
                throw_std("std::out_of_range", "string::at")
            raise UB("string index out of range")
        return CharRef(I, this, i)
    if nm in ("back", "front"):
        if not s:
            raise UB("back() on empty string")
        return CharRef(I, this, len(s) - 1 if nm == "back" else 0)
    if nm == "pop_back":
        if not s:
            raise UB("pop_back on empty string")
        c.set(this, s[:-1])
        return None
    if nm == "erase":
        p = a[0] if a else 0
        if isinstance(p, It):
            e = a[1].i if len(a) > 1 else p.i + 1
            c.set(this, s[:p.i] + s[e:])
            return It(this, p.i)
        k = a[1] if len(a) > 1 else npos
        c.set(this, s[:p] + (s[p + k:] if k != npos else ""))
        return this
    if nm == "insert":
        if isinstance(a[0], It):
            c.set(this, s[:a[0].i] + (schar(I, a[1]) if isinstance(a[1], int) else a[1]) + s[a[0].i:])
            return a[0]
        x = a[1]
        if isinstance(x, int):
            x = schar(I, a[2]) * x
        c.set(this, s[:a[0]] + x + s[a[0]:])
        return this
    if nm == "replace":
        if isinstance(a[0], int):
            x = a[2]
            if isinstance(x, int):
                x = schar(I, a[3]) * x
            c.set(this, s[:a[0]] + x + s[a[0] + a[1]:])
            return this
    if nm == "resize":
        k = a[0]
        c.set(this, s[:k] + (schar(I, a[1]) if len(a) > 1 else "\0") * (k - len(s)))
        return None
    if nm == "reserve":
        return None
    if nm == "swap":
        v = a[0]
        c.set(args[0], s)
        c.set(this, v)
        return None
    if ref.get("k") == "dtor":
        return None
    raise Unsupported("string::" + nm)


def Unsup(x):
    raise Unsupported(x)


class CharRef(Cell):
    """reference to one character of a string"""
    __slots__ = ("I", "cell", "i")

    def __init__(self, I, cell, i):
        self.I, self.cell, self.i = I, cell, i
        Cell.__init__(self, T.code(cell.v[i]))


def charref_sync(self, v):
    pass


_set0 = Ctx.set


def _set(self, cell, v):
    if isinstance(cell, CharRef):
        s = cell.cell.v
        _set0(self, cell.cell, s[:cell.i] + schar(None, v) + s[cell.i + 1:])
    _set0(self, cell, v)


Ctx.set = _set


# ------------------------------------------------------------------ streams
class Manip:
    def __init__(self, k, v):
        self.k, self.v = k, v


def put(I, s, v, ref=None):
    I.c.touch(s)
    v = rv(v)
    if isinstance(v, Manip):
        if v.k in ("prec", "width", "fill"):
            s.flags[v.k] = v.v
        return
    if isinstance(v, FnRef):
        q = strip_tmpl(v.ref["q"])
        if q == "std::endl":
            emit(s, "\n")
        elif q in ("std::scientific", "std::fixed"):
            s.flags["float"] = q[5:]
        elif q in ("std::left", "std::right", "std::internal"):
            s.flags["adj"] = q[5:]
        elif q == "std::uppercase":
            s.flags["upper"] = True
        elif q == "std::defaultfloat":
            s.flags.pop("float", None)
        elif q in ("std::boolalpha",):
            s.flags["ba"] = True
        elif q in ("std::showpoint",):
            s.flags["showpoint"] = True
        elif q in ("std::flush", "std::dec", "std::noboolalpha", "std::skipws"):
            pass
        elif q == "std::showpos":
            s.flags["pos+"] = True
        elif q == "std::hex":
            s.flags["hex"] = True
        else:
            raise Unsupported("manipulator " + q)
        return
    w = s.flags.pop("width", 0)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, Fraction):
        t = ("d", v, tuple(sorted((k, x) for k, x in s.flags.items() if k in ("prec", "float", "upper", "showpoint"))))
        if I.c.opts.get("concrete_streams"):
            t = fmt_double(v, s.flags)
    elif isinstance(v, int):
        t = str(v)
    elif isinstance(v, str):
        t = v
    elif isinstance(v, SymStr):
        if w:
            raise Unsupported("padding of symbolic text")
        for p in v.p:
            emit(s, p)
        return
    elif is_z(v):
        if z3.is_real(v):
            t = ("d", v, tuple(sorted((k, x) for k, x in s.flags.items() if k in ("prec", "float", "upper", "showpoint"))))
        elif z3.is_string(v):
            t = ("s", v)
        elif z3.is_bool(v):
            t = ("i", z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        else:
            t = ("i", v)
    elif isinstance(v, Ptr):
        t = ("ptr", v)
    elif isinstance(v, Stream) or isinstance(v, Opaque):
        t = ("?", v)
    else:
        raise Unsupported("output of %r" % (v,))
    if w:
        if isinstance(t, str):
            f = s.flags.get("fill", " ")
            t = t + f * (w - len(t)) if s.flags.get("adj") == "left" else f * (w - len(t)) + t
        else:
            t = t[:2] + (tuple(t[2] if len(t) > 2 else ()) + (("width", w), ("adj", s.flags.get("adj", "right")), ("fill", s.flags.get("fill", " "))),)
    emit(s, t)


def emit(s, t):
    if isinstance(t, str):
        if t == "":
            return
        if s.pieces and isinstance(s.pieces[-1], str):
            s.pieces[-1] = s.pieces[-1] + t
            return
    s.pieces.append(t)


def stream_call(I, nm, this, s, args, ref):
    if nm == "operator<<":
        v = rv(args[0])
        pt = bare(ref["tu"].types[ref["p"][0]]) if ref["p"] else ""
        if pt == "char" and isinstance(v, int):
            v = schar(I, v)
        if pt == "bool" and s.flags.get("ba"):
            v = ITE(as_bool(v), 1, 0)
            if isinstance(v, int):
                v = "true" if v else "false"
        put(I, s, v)
        return this
    if nm == "str":
        if args:
            I.c.touch(s)
            v = rv(args[0])
            s.pieces = list(v.p) if isinstance(v, SymStr) else [v] if v != "" else []
            s.flags["in"] = v
            s.flags["pos"] = 0
            return None
        if "in" in s.flags and not s.pieces:
            return s.flags["in"]
        return symstr(s.pieces)
    if nm == "precision":
        if args:
            I.c.touch(s)
            old = s.flags.get("prec", 6)
            s.flags["prec"] = rv(args[0])
            return old
        return s.flags.get("prec", 6)
    if nm in ("width", "fill"):
        if args:
            I.c.touch(s)
            v = rv(args[0])
            s.flags[nm] = chr(v) if nm == "fill" else v
        return s.flags.get(nm, 0)
    if nm in ("flags", "setf", "unsetf", "imbue", "exceptions"):
        I.c.touch(s)
        if nm == "setf":
            a0 = rv(args[0])
            nmv = a0.name if isinstance(a0, Opaque) else ""
            if "scientific" in nmv:
                s.flags["float"] = "scientific"
            elif "fixed" in nmv:
                s.flags["float"] = "fixed"
            elif "showpoint" in nmv:
                s.flags["showpoint"] = True
        return 0
    if nm in ("put", "write"):
        put(I, s, chr(rv(args[0])) if nm == "put" else rv(args[0]))
        return this
    if nm in ("is_open", "good", "operator bool"):
        return True
    if nm in ("fail", "operator!") and "failbit" in s.flags:
        return s.flags["failbit"]
    if nm in ("fail", "bad", "eof", "operator!"):
        return False
    if nm == "operator>>" and isinstance(s.flags.get("in"), str) and bare(ref["tu"].types[ref["p"][0]]).rstrip(" &") == "int":
        m = re.match(r"\s*([-+]?[0-9]+)", s.flags["in"][s.flags["pos"]:])
        I.c.touch(s)
        s.flags["failbit"] = m is None
        if m:
            s.flags["pos"] += m.end()
        I.c.set(args[0], int(m.group(1)) if m else 0)
        return this
    if nm in ("close", "open", "flush", "clear"):
        return this if nm == "flush" else None
    if nm == "rdbuf":
        return s
    if ref.get("k") == "dtor":
        return None
    raise Unsupported("stream " + nm)


def mat_call(I, nm, this, m, args):
    if nm == "operator()":
        i, j = rv(args[0]), rv(args[1])
        if not (0 <= i < m.r and 0 <= j < m.cn):
            raise UB("matrix index out of range")
        return m.cells[i][j]
    if nm == "size1":
        return m.r
    if nm == "size2":
        return m.cn
    if nm in ("operator=", "assign"):
        s = rv(args[0])
        if isinstance(s, Mat):
            for i in range(m.r):
                for j in range(m.cn):
                    I.c.set(m.cells[i][j], s.cells[i][j].v)
            return this
    raise Unsupported("matrix " + nm)


OPAQUE = {}

# ------------------------------------------------------------------ free functions
FREE = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


@free("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::__addressof")
def _move(I, args, ref):
    return args[0]


@free("std::make_shared", "std::make_unique", "boost::make_shared")
def _mks(I, args, ref):
    rt = parse_type(ref["tu"].types[ref["r"]])
    v = make_obj(I, rt.args[0], args, None)
    return Ptr(Cell(v))


@free("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast")
def _dpc(I, args, ref):
    p = rv(args[0])
    if hasattr(p, "libcast"):
        return p.libcast(I, ref)
    if not isinstance(p, Ptr):
        raise Unsupported("pointer cast of %r" % (p,))
    if p.c is None:
        return p
    o = rv(p.c)
    rt = parse_type(ref["tu"].types[ref["r"]])
    want = bare(rt.args[0])
    if "dynamic" in ref["q"]:
        if isinstance(o, Obj):
            return p if I.P.is_sub(o.cls, want) else NULL
        if hasattr(o, "dyncast"):
            return p if o.dyncast(I, want) else NULL
        raise Unsupported("dynamic_pointer_cast")
    if isinstance(o, Obj) and o.cls in I.P.records and not I.P.is_sub(o.cls, want):
        raise UB("static_pointer_cast of %s to unrelated %s" % (o.cls, want))
    return p


@free("std::make_pair")
def _mkp(I, args, ref):
    rt = parse_type(ref["tu"].types[ref["r"]])
    return PairV(Cell(I.copyval(rv(args[0]))), Cell(I.copyval(rv(args[1]))))


@free("std::abs", "fabs", "std::fabs", "abs")
def _abs(I, args, ref):
    v = rv(args[0])
    if is_num(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


@free("std::max", "std::min", "std::fmax", "std::fmin", "fmax", "fmin")
def _max(I, args, ref):
    mx = "max" in ref["q"]
    a = rv(args[0])
    if len(args) == 1 and isinstance(a, Seq):
        vs = [c.v for c in a.cells]
        r = vs[0]
        for v in vs[1:]:
            r = ITE(cmpop("<", r, v) if mx else cmpop("<", v, r), v, r)
        return r
    b = rv(args[1])
    return ITE(cmpop("<", a, b) if mx else cmpop("<", b, a), b, a)


@free("sqrt", "std::sqrt")
def _sqrt(I, args, ref):
    v = rv(args[0])
    if v is NANV:
        return v
    if is_num(v):
        if v == 0:
            return Fraction(0)
        if v > 0:
            n, d = Fraction(v).numerator, Fraction(v).denominator
            import math
            a, b = math.isqrt(n), math.isqrt(d)
            if a * a == n and b * b == d:
                return Fraction(a, b)
        else:
            raise Unsupported("sqrt of negative")
    memo = I.c.__dict__.setdefault("sqrtmemo", {})
    z = toz(v) if is_z(v) else toz(Fraction(v))
    k = z3.simplify(z, som=True).get_id() if is_z(v) else str(v)
    for (kz, r) in memo.values():
        if kz.eq(z):
            return r
    r = I.c.fresh("sqrt", "real")
    I.c.assume_local(z3.And(r >= 0, z3.Implies(z >= 0, r * r == z)))
    if I.c.local_dec is None:
        memo[len(memo)] = (z, r)
    return r


UF = {}


@free("sin", "cos", "tan", "atan2", "acos", "asin", "atan", "exp", "log", "log10", "std::sin", "std::cos", "std::tan", "std::atan2", "std::acos", "std::asin", "std::atan", "std::exp", "std::log", "std::log10", "hypot")
def _trig(I, args, ref):
    nm = ref["q"].replace("std::", "")
    vs = [rv(a) for a in args]
    if all(is_num(v) and v == 0 for v in vs):
        if nm in ("sin", "tan", "asin", "atan"):
            return Fraction(0)
        if nm in ("cos", "exp"):
            return Fraction(1)
    f = UF.setdefault((nm, len(vs)), z3.Function("m_" + nm, *([z3.RealSort()] * (len(vs) + 1))))
    zs = [toz(Fraction(v)) if is_num(v) else v for v in vs]
    r = f(*zs)
    if nm in ("sin", "cos"):
        s = UF.setdefault(("sin", 1), z3.Function("m_sin", z3.RealSort(), z3.RealSort()))(*zs)
        co = UF.setdefault(("cos", 1), z3.Function("m_cos", z3.RealSort(), z3.RealSort()))(*zs)
        I.c.assume_local(s * s + co * co == 1)
    if nm == "atan2":
        # contract: rho*cos(atan2(y,x)) = x, rho*sin(..) = y with rho = sqrt(x^2+y^2)
        s = UF.setdefault(("sin", 1), z3.Function("m_sin", z3.RealSort(), z3.RealSort()))(r)
        co = UF.setdefault(("cos", 1), z3.Function("m_cos", z3.RealSort(), z3.RealSort()))(r)
        rho = rv(FREE["sqrt"](I, [arith("+", arith("*", vs[0], vs[0]), arith("*", vs[1], vs[1]))], ref))
        rho = toz(Fraction(rho)) if is_num(rho) else rho
        I.c.assume_local(z3.And(s * s + co * co == 1, z3.Or(rho == 0, z3.And(rho * co == zs[1], rho * s == zs[0]))))
    if nm == "acos":
        co = UF.setdefault(("cos", 1), z3.Function("m_cos", z3.RealSort(), z3.RealSort()))(r)
        s = UF.setdefault(("sin", 1), z3.Function("m_sin", z3.RealSort(), z3.RealSort()))(r)
        I.c.assume_local(z3.Implies(z3.And(zs[0] >= -1, zs[0] <= 1), z3.And(co == zs[0], s >= 0, s * s + co * co == 1)))
    return r


@free("pow", "std::pow")
def _pow(I, args, ref):
    a, b = rv(args[0]), rv(args[1])
    if is_num(b) and Fraction(b).denominator == 1:
        k = int(b)
        if is_num(a):
            return Fraction(a) ** k
        r = Fraction(1)
        for _ in range(abs(k)):
            r = arith("*", r, a)
        return r if k >= 0 else 1 / r
    if is_num(a) and is_num(b):
        return Fraction(float(a) ** float(b))
    f = UF.setdefault(("pow", 2), z3.Function("m_pow", z3.RealSort(), z3.RealSort(), z3.RealSort()))
    return f(toz(Fraction(a)) if is_num(a) else a, toz(Fraction(b)) if is_num(b) else b)


@free("floor", "ceil", "std::floor", "std::ceil", "round", "std::round")
def _floor(I, args, ref):
    v = rv(args[0])
    nm = ref["q"].replace("std::", "")
    if is_num(v):
        import math
        return Fraction({"floor": math.floor, "ceil": math.ceil, "round": lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))}[nm](v))
    fl = lambda x: z3.ToReal(z3.ToInt(x))
    if nm == "floor":
        return fl(v)
    if nm == "ceil":
        return -fl(-v)
    return z3.If(v >= 0, fl(v + z3.Q(1, 2)), -fl(-v + z3.Q(1, 2)))


@free("std::isnan", "isnan", "std::isinf", "__builtin_isnan")
def _isnan(I, args, ref):
    return False


@free("std::numeric_limits::max")
def _nmax(I, args, ref):
    t = parse_type(ref["tu"].types[ref["r"]])
    return DBL_MAX if t.k == "double" else (1 << (t.bits - (1 if t.signed else 0))) - 1


@free("std::numeric_limits::min")
def _nmin(I, args, ref):
    t = parse_type(ref["tu"].types[ref["r"]])
    return DBL_MIN if t.k == "double" else (-(1 << (t.bits - 1)) if t.signed else 0)


@free("std::numeric_limits::lowest")
def _nlow(I, args, ref):
    t = parse_type(ref["tu"].types[ref["r"]])
    return -DBL_MAX if t.k == "double" else (-(1 << (t.bits - 1)) if t.signed else 0)


@free("std::numeric_limits::epsilon")
def _neps(I, args, ref):
    return DBL_EPS


@free("boost::math::constants::pi")
def _pi(I, args, ref):
    return Fraction(3.141592653589793)


@free("std::to_string")
def _tos(I, args, ref):
    v = rv(args[0])
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return "%f" % float(v)
    return SymStr([("i", v)]) if z3.is_int(v) else SymStr([("f", v)])


@free("std::stoi", "std::stol", "atoi", "std::stoul")
def _stoi(I, args, ref):
    s = rv(args[0])
    if not isinstance(s, str):
        if isinstance(s, SymStr) and len(s.p) == 1 and s.p[0][0] == "i":
            return s.p[0][1]
        raise Unsupported("stoi of a symbolic string")
    if T.has(s):
        return T.prefix(I, s, False, "stoi")
    base = rv(args[2]) if len(args) > 2 else 10
    m = re.match(r"\s*([+-]?\d+)", s)
    if not m:
        throw_std("std::invalid_argument", "stoi")
    v = int(m.group(1), base)
    if len(args) > 1 and isinstance(rv(args[1]), Ptr) and rv(args[1]).c is not None:
        I.c.set(rv(args[1]).c, m.end())
    if not -2 ** 31 <= v < 2 ** 31 and "stoi" in ref["q"]:
        throw_std("std::out_of_range", "stoi")
    return v


@free("std::operator>>")
def _read_complex(I, args, ref):
    """a complex number between brackets: (real,imaginary), from the beginning of a text"""
    s, to = rv(args[0]), args[1]
    if not isinstance(s, Stream) or s.flags.get("pos") != 0 or "complex" not in ref["tu"].types[ref["p"][1]]:
        raise Unsupported("std::operator>> to " + ref["tu"].types[ref["p"][1]])
    t = s.flags.get("in")
    p = list(t.p) if isinstance(t, SymStr) else [t]
    q = []
    for x in p:
        if isinstance(x, str):
            q += [y for y in re.split(r"([(),])", x) if y]
        else:
            q.append(x)
    num = lambda x: x[1] if not isinstance(x, str) else Fraction(float(x)) if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", x) else None
    if len(q) != 5 or [q[0], q[2], q[4]] != ["(", ",", ")"] or any(not isinstance(x, str) and x[0] not in ("d", "i") or num(x) is None for x in (q[1], q[3])):
        raise Unsupported("complex number from %r" % (t,))
    I.c.touch(s)
    s.flags["pos"] = 1
    I.c.set(to, CplxV(num(q[1]), num(q[3])))
    return args[0]


@free("std::stod", "atof", "std::stof")
def _stod(I, args, ref):
    s = rv(args[0])
    if not isinstance(s, str):
        if isinstance(s, SymStr) and len(s.p) == 1 and s.p[0][0] == "d":
            return s.p[0][1]
        raise Unsupported("stod of a symbolic string")
    if T.has(s):
        return T.prefix(I, s, True, "stod")
    m = re.match(r"\s*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", s)
    if not m:
        throw_std("std::invalid_argument", "stod")
    if len(args) > 1 and isinstance(rv(args[1]), Ptr) and rv(args[1]).c is not None:
        I.c.set(rv(args[1]).c, m.end())
    return Fraction(float(m.group(1)))


@free("std::begin", "std::cbegin")
def _begin(I, args, ref):
    b, e = begin_end(I, args[0])
    return b


@free("std::end", "std::cend")
def _end(I, args, ref):
    b, e = begin_end(I, args[0])
    return e


@free("std::swap")
def _swap(I, args, ref):
    a, b = args[0].v, args[1].v
    I.c.set(args[0], b)
    I.c.set(args[1], a)


def it_norm(v):
    v = rv(v)
    if isinstance(v, Ptr) and isinstance(v.c, tuple):
        return It(v.c[0], v.c[1])
    return v


def rng(I, a, b):
    i, e = it_norm(a), it_norm(b)
    out = []
    while not decide(I, it_eq(I, i, e)):
        out.append(i)
        i = it_adv(I, i, 1)
    return out, e


@free("std::find")
def _find(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i in its:
        if decide(I, val_eq(I, it_deref(I, i).v, rv(args[2]))):
            return i
    return e


@free("std::find_if")
def _findif(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i in its:
        if decide(I, as_bool(rv(I.call_callable(args[2], [it_deref(I, i)])))):
            return i
    return e


def one_char(cell):
    if isinstance(cell.v, Loose):
        raise Unsupported("number of characters of a number")
    return True


@free("std::count")
def _count(I, args, ref):
    its, e = rng(I, args[0], args[1])
    return len([1 for i in its if decide(I, val_eq(I, it_deref(I, i).v, rv(args[2]))) and one_char(it_deref(I, i))])


@free("std::count_if")
def _countif(I, args, ref):
    its, e = rng(I, args[0], args[1])
    return len([1 for i in its if decide(I, as_bool(rv(I.call_callable(args[2], [it_deref(I, i)])))) and one_char(it_deref(I, i))])


@free("std::all_of", "std::any_of", "std::none_of")
def _allof(I, args, ref):
    its, e = rng(I, args[0], args[1])
    vs = [as_bool(rv(I.call_callable(args[2], [it_deref(I, i)]))) for i in its]
    if "all_of" in ref["q"]:
        return AND(*vs)
    r = OR(*vs)
    return r if "any_of" in ref["q"] else NOT(r)


@free("std::for_each")
def _foreach(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i in its:
        I.call_callable(args[2], [it_deref(I, i)])
    return rv(args[2])


@free("std::accumulate")
def _accum(I, args, ref):
    its, e = rng(I, args[0], args[1])
    acc = rv(args[2])
    for i in its:
        x = it_deref(I, i)
        acc = rv(I.call_callable(args[3], [Cell(acc), x])) if len(args) > 3 else arith("+", acc, x.v)
    return acc


@free("std::inner_product")
def _innerp(I, args, ref):
    its, e = rng(I, args[0], args[1])
    j = it_norm(args[2])
    acc = rv(args[3])
    for i in its:
        acc = arith("+", acc, arith("*", it_deref(I, i).v, it_deref(I, j).v))
        j = it_adv(I, j, 1)
    return acc


class Inserter:
    def __init__(self, cell, kind):
        self.cell, self.kind = cell, kind
        self.b = 0

    def put(self, I, v):
        o = rv(self.cell)
        if isinstance(o, MapV):
            map_add(I, o, v)
        elif isinstance(o, Seq):
            seq_call(I, "push_front" if self.kind == "front" else "push_back", self.cell, o, [v], None)
        elif is_str(o):
            I.c.set(self.cell, scat(o, schar(I, v)))
        else:
            raise Unsupported("inserter")


@free("std::back_inserter", "std::inserter", "std::front_inserter")
def _bi(I, args, ref):
    return Inserter(args[0], "front" if "front" in ref["q"] else "back")


CTORS["std::insert_iterator"] = lambda I, t, ref, args: rv(args[0])
CTORS["std::back_insert_iterator"] = lambda I, t, ref, args: rv(args[0])


def out_put(I, out, v):
    out = rv(out)
    if isinstance(out, Inserter):
        out.put(I, v)
        return out
    out = it_norm(out)
    if isinstance(out, It):
        I.c.set(it_deref(I, out), v) if not (isinstance(out.c, Cell)) else set_char(I, out, v)
        return it_adv(I, out, 1)
    raise Unsupported("output iterator %r" % (out,))


def set_char(I, it, v):
    s = it.c.v
    I.c.set(it.c, s[:it.i] + schar(I, v) + s[it.i + 1:])


@free("std::copy", "std::copy_if")
def _copy(I, args, ref):
    its, e = rng(I, args[0], args[1])
    out = args[2]
    for i in its:
        x = it_deref(I, i)
        if len(args) > 3 and not decide(I, as_bool(rv(I.call_callable(args[3], [x])))):
            continue
        out = out_put(I, out, I.copyval(x.v))
    return rv(out)


@free("std::copy_n")
def _copyn(I, args, ref):
    i = it_norm(args[0])
    out = args[2]
    for _ in range(rv(args[1])):
        out = out_put(I, out, I.copyval(it_deref(I, i).v))
        i = it_adv(I, i, 1)
    return rv(out)


@free("std::transform")
def _transform(I, args, ref):
    its, e = rng(I, args[0], args[1])
    if len(args) == 4:
        out = args[2]
        for i in its:
            out = out_put(I, out, rv(I.call_callable(args[3], [it_deref(I, i)])))
        return rv(out)
    j = it_norm(args[2])
    out = args[3]
    for i in its:
        out = out_put(I, out, rv(I.call_callable(args[4], [it_deref(I, i), it_deref(I, j)])))
        j = it_adv(I, j, 1)
    return rv(out)


@free("std::generate_n")
def _generaten(I, args, ref):
    out = args[0]
    for _ in range(rv(args[1])):
        out = out_put(I, out, I.copyval(rv(I.call_callable(args[2], []))))
    return rv(out)


@free("std::generate")
def _generate(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i in its:
        out_put(I, i, I.copyval(rv(I.call_callable(args[2], []))))


@free("std::fill_n")
def _filln(I, args, ref):
    out = args[0]
    for _ in range(max(0, rv(args[1]))):
        out = out_put(I, out, I.copyval(rv(args[2])))
    return rv(out)


@free("std::find_if_not")
def _findifnot(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i in its:
        if not decide(I, as_bool(rv(I.call_callable(args[2], [it_deref(I, i)])))):
            return i
    return e


@free("std::find_first_of")
def _findfirstof(I, args, ref):
    its, e = rng(I, args[0], args[1])
    js, _ = rng(I, args[2], args[3])
    for i in its:
        for j in js:
            if decide(I, val_eq(I, it_deref(I, i).v, it_deref(I, j).v)):
                return i
    return e


@free("std::adjacent_find")
def _adjfind(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i, j in zip(its, its[1:]):
        if decide(I, as_bool(rv(I.call_callable(args[2], [it_deref(I, i), it_deref(I, j)]))) if len(args) > 2 else val_eq(I, it_deref(I, i).v, it_deref(I, j).v)):
            return i
    return e


@free("std::lower_bound", "std::upper_bound", "std::binary_search")
def _bound(I, args, ref):
    """on a sorted range: what the standard prescribes when it is partitioned, the first element not before (after) the value"""
    its, e = rng(I, args[0], args[1])
    f = less_fn(I, rv(args[3]) if len(args) > 3 else None)
    x = rv(args[2])
    hit = [bool(f(x, it_deref(I, i).v)) if "upper" in ref["q"] else not f(it_deref(I, i).v, x) for i in its]
    k = hit.index(True) if True in hit else len(hit)
    if not all(hit[k:]):
        raise UB("binary search in a range that is not partitioned")
    if "binary" in ref["q"]:
        return k < len(its) and not f(x, it_deref(I, its[k]).v)
    return its[k] if k < len(its) else e


@free("std::includes")
def _includes(I, args, ref):
    xs = [it_deref(I, i).v for i in rng(I, args[0], args[1])[0]]
    ys = [it_deref(I, i).v for i in rng(I, args[2], args[3])[0]]
    return all(any(decide(I, val_eq(I, x, y)) for x in xs) for y in ys)


@free("std::exchange")
def _exchange(I, args, ref):
    old = I.copyval(rv(args[0]))
    I.c.set(args[0], I.copyval(rv(args[1])))
    return old


@free("strchr", "std::strchr", "memchr")
def _strchr(I, args, ref):
    s, x = rv(args[0]), rv(args[1])
    if not isinstance(s, str) or not isinstance(x, int):
        raise Unsupported("strchr")
    r = str_call(I, "find", Cell(s), s, [x], ref)
    return NULL if isinstance(r, int) and not isinstance(r, Loose) and r == 2 ** 64 - 1 and x != 0 else Ptr(Cell(x))


@free("boost::algorithm::join")
def _join(I, args, ref):
    out = ""
    for k, x in enumerate(iterate(I, args[0])):
        out = scat(scat(out, rv(args[1])) if k else out, x.v)
    return out


@free("boost::algorithm::iequals")
def _iequals(I, args, ref):
    a, b = rv(args[0]), rv(args[1])
    if isinstance(a, str) and isinstance(b, str):
        return EQ(a.upper(), b.upper())
    raise Unsupported("iequals")


@free("std::replace")
def _replace(I, args, ref):
    i0 = it_norm(args[0])
    if isinstance(i0.c, Cell) and isinstance(i0.c.v, str):
        e = it_norm(args[1])
        s = i0.c.v
        a, b = chr(rv(args[2])), chr(rv(args[3]))
        I.c.set(i0.c, s[:i0.i] + s[i0.i:e.i].replace(a, b) + s[e.i:])
        return None
    its, e = rng(I, args[0], args[1])
    for i in its:
        c = it_deref(I, i)
        if decide(I, val_eq(I, c.v, rv(args[2]))):
            I.c.set(c, rv(args[3]))


@free("std::remove")
def _remove(I, args, ref):
    return remove_common(I, args, lambda x: decide(I, val_eq(I, x.v, rv(args[2]))))


@free("std::remove_if")
def _removeif(I, args, ref):
    return remove_common(I, args, lambda x: decide(I, as_bool(rv(I.call_callable(args[2], [x])))))


def remove_common(I, args, pred):
    i0 = it_norm(args[0])
    e = it_norm(args[1])
    if isinstance(i0.c, Cell):
        s = i0.c.v
        keep = "".join(ch for k, ch in enumerate(s[i0.i:e.i]) if not pred(Cell(T.code(ch))))
        I.c.set(i0.c, s[:i0.i] + keep + s[i0.i + len(keep):])
        return It(i0.c, i0.i + len(keep))
    o = i0.c
    cells = o.cells[i0.i:e.i]
    keep = [c for c in cells if not pred(c)]
    I.c.touch(o)
    rest = [Cell(None) for _ in range(len(cells) - len(keep))]
    o.cells[i0.i:e.i] = keep + rest
    return It(o, i0.i + len(keep))


@free("std::sort", "std::stable_sort")
def _sort(I, args, ref):
    i0, e = it_norm(args[0]), it_norm(args[1])
    o = i0.c
    I.c.touch(o)
    o.cells[i0.i:e.i] = sort_cells(I, o.cells[i0.i:e.i], rv(args[2]) if len(args) > 2 else None)


@free("std::reverse")
def _reverse(I, args, ref):
    i0, e = it_norm(args[0]), it_norm(args[1])
    o = i0.c
    I.c.touch(o)
    o.cells[i0.i:e.i] = list(reversed(o.cells[i0.i:e.i]))


@free("std::unique")
def _uniq(I, args, ref):
    i0, e = it_norm(args[0]), it_norm(args[1])
    o = i0.c
    I.c.touch(o)
    cells = o.cells[i0.i:e.i]
    out = []
    for x in cells:
        if out and decide(I, val_eq(I, out[-1].v, x.v)):
            continue
        out.append(x)
    o.cells[i0.i:e.i] = out + [Cell(None) for _ in range(len(cells) - len(out))]
    return It(o, i0.i + len(out))


@free("std::fill")
def _fill(I, args, ref):
    its, e = rng(I, args[0], args[1])
    for i in its:
        I.c.set(it_deref(I, i), I.copyval(rv(args[2])))


@free("std::iota")
def _iota(I, args, ref):
    its, e = rng(I, args[0], args[1])
    v = rv(args[2])
    for i in its:
        I.c.set(it_deref(I, i), v)
        v = arith("+", v, 1)


@free("std::equal")
def _equal(I, args, ref):
    its, e = rng(I, args[0], args[1])
    j = it_norm(args[2])
    cs = []
    for i in its:
        cs.append(val_eq(I, it_deref(I, i).v, it_deref(I, j).v))
        j = it_adv(I, j, 1)
    return AND(*cs)


@free("std::max_element", "std::min_element")
def _maxel(I, args, ref):
    its, e = rng(I, args[0], args[1])
    if not its:
        return e
    mx = "max" in ref["q"]
    f = less_fn(I, rv(args[2]) if len(args) > 2 else None)
    best = its[0]
    for i in its[1:]:
        a, b = it_deref(I, best).v, it_deref(I, i).v
        if (f(a, b) if mx else f(b, a)):
            best = i
    return best


@free("std::distance")
def _dist(I, args, ref):
    its, e = rng(I, args[0], args[1])
    return len(its)


@free("std::next", "std::prev")
def _next(I, args, ref):
    k = rv(args[1]) if len(args) > 1 else 1
    return it_adv(I, it_norm(args[0]), k if "next" in ref["q"] else -k)


@free("std::advance")
def _advance(I, args, ref):
    I.c.set(args[0], it_adv(I, it_norm(args[0]), rv(args[1])))


@free("std::set_difference", "std::set_intersection", "std::set_union")
def _setop(I, args, ref):
    a, _ = rng(I, args[0], args[1])
    b, _ = rng(I, args[2], args[3])
    A = [it_deref(I, i).v for i in a]
    B = [it_deref(I, i).v for i in b]
    out = args[4]
    isin = lambda x, ys: any(decide(I, val_eq(I, x, y)) for y in ys)
    if "difference" in ref["q"]:
        R = [x for x in A if not isin(x, B)]
    elif "intersection" in ref["q"]:
        R = [x for x in A if isin(x, B)]
    else:
        m = MapV("set", None)
        for x in A + B:
            map_add(I, m, x)
        R = [k.v for k, _ in m.ents]
    for x in R:
        out = out_put(I, out, I.copyval(x))
    return rv(out)


@free("std::setw", "std::setprecision", "std::setfill", "std::setiosflags", "std::resetiosflags")
def _setw(I, args, ref):
    k = {"std::setw": "width", "std::setprecision": "prec", "std::setfill": "fill"}.get(strip_tmpl(ref["q"]), "?")
    v = rv(args[0])
    if k == "fill" and isinstance(v, int):
        v = schar(I, v)
    return Manip(k, v)


@free("boost::algorithm::trim_copy")
def _trimc(I, args, ref):
    s = rv(args[0])
    if isinstance(s, str):
        return s.strip(" \t\n\r\f\v")
    if is_z(s):
        return z3_trim(I, s)
    if isinstance(s, SymStr):
        p = list(s.p)
        if isinstance(p[0], str):
            p[0] = p[0].lstrip()
        if isinstance(p[-1], str):
            p[-1] = p[-1].rstrip()
        return symstr(p)
    raise Unsupported("trim_copy of a symbolic string")


def z3_trim(I, s):
    raise Unsupported("trim of a symbolic string")


@free("boost::algorithm::trim_right_copy")
def _trimrc(I, args, ref):
    s = rv(args[0])
    if isinstance(s, str):
        return s.rstrip(" \t\n\r\f\v")
    raise Unsupported("trim of a symbolic string")


@free("boost::algorithm::trim", "boost::algorithm::trim_left", "boost::algorithm::trim_right")
def _trim(I, args, ref):
    s = args[0].v
    if not isinstance(s, str):
        raise Unsupported("trim of a symbolic string")
    w = " \t\n\r\f\v"
    I.c.set(args[0], s.strip(w) if ref["q"].startswith("boost::algorithm::trim<") or strip_tmpl(ref["q"]).endswith("trim") else s.lstrip(w) if "left" in ref["q"] else s.rstrip(w))


def _case(up, cp):
    def f(I, args, ref):
        s = rv(args[0])
        if not isinstance(s, str):
            raise Unsupported("case change of a symbolic string")
        r = s.upper() if up else s.lower()
        if cp:
            return r
        I.c.set(args[0], r)
    return f


FREE["boost::algorithm::to_upper"] = _case(True, False)
FREE["boost::algorithm::to_lower"] = _case(False, False)
FREE["boost::algorithm::to_upper_copy"] = _case(True, True)
FREE["boost::algorithm::to_lower_copy"] = _case(False, True)


@free("boost::algorithm::starts_with")
def _sw(I, args, ref):
    a, b = rv(args[0]), rv(args[1])
    if isinstance(a, str) and isinstance(b, str):
        return a.startswith(b)
    return z3.PrefixOf(toz(b), toz(a))


@free("boost::algorithm::ends_with")
def _ew(I, args, ref):
    a, b = rv(args[0]), rv(args[1])
    if isinstance(a, str) and isinstance(b, str):
        return a.endswith(b)
    return z3.SuffixOf(toz(b), toz(a))


@free("boost::algorithm::contains")
def _ct(I, args, ref):
    a, b = rv(args[0]), rv(args[1])
    if isinstance(a, str) and isinstance(b, str):
        return b in a
    return z3.Contains(toz(a), toz(b))


@free("boost::algorithm::replace_all", "boost::algorithm::replace_first", "boost::algorithm::erase_all")
def _ra(I, args, ref):
    s = args[0].v
    if not isinstance(s, str):
        raise Unsupported("replace on a symbolic string")
    a = rv(args[1])
    T.guard_find(s, a)
    b = rv(args[2]) if len(args) > 2 else ""
    I.c.set(args[0], s.replace(a, b) if "all" in strip_tmpl(ref["q"]) else s.replace(a, b, 1))


@free("boost::get", "boost::relaxed_get", "boost::strict_get")
def _vget(I, args, ref):
    v = rv(args[0])
    t = noref(parse_type(ref["tu"].types[ref["r"]]))
    p = isinstance(v, Ptr)
    if p:
        v, t = rv(v.c), t.elem
    if not isinstance(v, VarV):
        raise Unsupported("boost::get from %r" % (v,))
    x = v.v.v
    ok = (isinstance(x, Obj) and t.k == "class" and strip_tmpl(t.s.replace("const ", "")) == strip_tmpl(x.cls)) or (t.k in ("double", "int") and not isinstance(x, bool) and (is_num(x) or is_z(x)))
    if p:
        return Ptr(v.v) if ok else NULL
    if not ok:
        throw_std("boost::bad_get")
    return v.v


@free("boost::lexical_cast")
def _lc(I, args, ref):
    v = rv(args[0])
    t = parse_type(ref["tu"].types[ref["r"]])
    if t.name in STR and isinstance(v, (int, str)):
        return str(v)
    if t.name in STR and is_z(v) and z3.is_int(v):
        return SymStr([("i", v)])
    if isinstance(v, str):
        return T.lexical(I, v, t.k != "int")
    raise Unsupported("lexical_cast")


@free("toupper", "std::toupper", "tolower", "std::tolower")
def _tu(I, args, ref):
    v = rv(args[0])
    if isinstance(v, Loose):
        return v
    if isinstance(v, int):
        return ord(chr(v).upper() if "upper" in ref["q"] else chr(v).lower()) if 0 <= v < 128 else v
    raise Unsupported("toupper")


@free("isdigit", "std::isdigit", "isspace", "std::isspace", "isalpha", "std::isalpha", "isalnum")
def _isd(I, args, ref):
    v = rv(args[0])
    f = ref["q"].replace("std::", "")
    if isinstance(v, int):
        if isinstance(v, Loose):
            return int(f in ("isdigit", "isalnum"))
        ch = chr(v & 255)
        return int({"isdigit": ch.isdigit(), "isspace": ch in " \t\n\r\f\v", "isalpha": ch.isalpha(), "isalnum": ch.isalnum()}[f])
    if f == "isdigit":
        return z3.If(z3.And(v >= 48, v <= 57), z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f)


@free("__assert_fail", "abort", "exit", "std::terminate", "std::abort")
def _af(I, args, ref):
    raise UB("%s(%s)" % (ref["q"], rv(args[0]) if args else ""))


@free("boost::numeric::ublas::norm_2")
def _norm2(I, args, ref):
    v = rv(args[0])
    acc = Fraction(0)
    for c in v.cells:
        acc = arith("+", acc, arith("*", c.v, c.v))
    return FREE["sqrt"](I, [acc], ref)


@free("boost::numeric::ublas::inner_prod")
def _ip(I, args, ref):
    acc = Fraction(0)
    for a, b in zip(rv(args[0]).cells, rv(args[1]).cells):
        acc = arith("+", acc, arith("*", a.v, b.v))
    return acc


@free("boost::numeric::ublas::prod")
def _prod(I, args, ref):
    m, v = rv(args[0]), rv(args[1])
    if isinstance(m, Mat) and isinstance(v, Seq):
        out = []
        for i in range(m.r):
            acc = Fraction(0)
            for j in range(m.cn):
                acc = arith("+", acc, arith("*", m.cells[i][j].v, v.cells[j].v))
            out.append(Cell(acc))
        return Seq(out, "ublas")
    raise Unsupported("ublas prod")


def free_operator(I, nm, args, ref):
    op = nm[8:]
    a = args[0]
    av = rv(a)
    bv = rv(args[1]) if len(args) > 1 else None
    if op == "<<":
        if isinstance(av, Stream):
            pt = bare(ref["tu"].types[ref["p"][1]]) if len(ref["p"]) > 1 else ""
            if isinstance(bv, int) and pt in ("char", "signed char", "unsigned char"):
                bv = chr(bv)
            elif is_z(bv) and pt == "char":
                bv = z3.StrFromCode(bv)
            if isinstance(bv, Obj):
                r = user_op(I, "<<", av, bv)
                raise Unsupported("output of %s" % bv.cls)
            put(I, av, bv)
            return a
    if op == "==":
        return val_eq(I, av, bv)
    if op == "!=":
        return NOT(val_eq(I, av, bv))
    if op == "<":
        return val_less(I, av, bv)
    if op == ">":
        return val_less(I, bv, av)
    if op == "<=":
        return NOT(val_less(I, bv, av))
    if op == ">=":
        return NOT(val_less(I, av, bv))
    if op == "+":
        if is_str(av) or is_str(bv):
            x = schar(I, av) if isinstance(av, int) else av
            y = schar(I, bv) if isinstance(bv, int) else bv
            return scat(x, y)
        if isinstance(av, Seq):
            return Seq([Cell(arith("+", x.v, y.v)) for x, y in zip(av.cells, bv.cells)], "ublas")
        if isinstance(av, It):
            return it_adv(I, av, bv)
    if op == "-":
        if isinstance(av, It) and isinstance(bv, It):
            return arith("-", av.i, bv.i)
        if isinstance(av, It):
            return it_adv(I, av, -bv)
        if isinstance(av, Seq) and isinstance(bv, Seq):
            return Seq([Cell(arith("-", x.v, y.v)) for x, y in zip(av.cells, bv.cells)], "ublas")
        if isinstance(av, Seq) and bv is None:
            return Seq([Cell(arith("-", Fraction(0), x.v)) for x in av.cells], "ublas")
    if op == "*":
        if isinstance(av, Seq) and not isinstance(bv, Seq):
            return Seq([Cell(arith("*", x.v, bv)) for x in av.cells], "ublas")
        if isinstance(bv, Seq) and not isinstance(av, Seq):
            return Seq([Cell(arith("*", av, x.v)) for x in bv.cells], "ublas")
    if op == "/" and isinstance(av, Seq):
        return Seq([Cell(I.numop("/", x.v, bv, parse_type("double"), None, None)) for x in av.cells], "ublas")
    if op == "|":
        if isinstance(av, Opaque) and isinstance(bv, Opaque):
            return Opaque(av.name + "|" + bv.name)
        if is_num(av) and is_num(bv):
            return av | bv
    raise Unsupported("operator%s on %r,%r" % (op, type(av).__name__, type(bv).__name__))


# ------------------------------------------------------------------ boost::bimap / assign::list_of
class ListOf:
    def __init__(self, items):
        self.items = items
        self.b = next(E_stamp)

    def libcall(self, I, ref, nm, this, args):
        if nm == "operator()":
            self.items.append(mk_rel(I, args))
            return this
        if nm.startswith("operator ") or "convert" in nm or nm == "to_container":
            rt = parse_type(ref["tu"].types[ref["r"]])
            return build_list(I, rt, self)
        raise Unsupported("list_of::" + nm)


def mk_rel(I, args):
    if len(args) == 2:
        return PairV(Cell(rv(args[0])), Cell(rv(args[1])))
    return rv(args[0])


def build_list(I, t, lo):
    t = noref(t)
    if t.name == "boost::bimap" or t.name == "boost::bimaps::bimap":
        return BiMap(I, t, lo.items)
    if t.name in SEQS:
        return Seq([Cell(x) for x in lo.items], SEQS[t.name], parse_type(t.args[0]))
    if t.name in MAPS:
        m = mk_map(I, t)
        for x in lo.items:
            map_add(I, m, x)
        return m
    raise Unsupported("list_of -> " + t.s)


class RoTable(MapV):
    """result of a table lookup with a symbolic key: equal to its table for iterator comparison"""
    __slots__ = ("table",)

    def __init__(self, table, e):
        MapV.__init__(self, table.kind, None, table.vt)
        self.table = table
        self.ents = [e]


class BiMap:
    def __init__(self, I, t, items):
        self.left, self.right = MapV("map", None, "x"), MapV("map", None, "x")
        for x in items:
            if map_find(I, self.left, x.first.v) is None and map_find(I, self.right, x.second.v) is None:
                map_insert(I, self.left, x.first, x.second)
                map_insert(I, self.right, x.second, x.first)
        self.b = next(E_stamp)

    def get_field(self, I, key):
        return Cell(self.left if key.endswith("left") else self.right)


@free("boost::assign::list_of", "boost::assign::map_list_of")
def _listof(I, args, ref):
    return ListOf([mk_rel(I, args)])


def _bimap_ctor(I, t, ref, args):
    v = rv(args[0]) if args else None
    if isinstance(v, ListOf):
        return build_list(I, t, v)
    if isinstance(v, BiMap):
        return v
    return BiMap(I, t, [])


CTORS["boost::bimaps::bimap"] = CTORS["boost::bimap"] = _bimap_ctor
CTORS["boost::assign_detail::generic_list"] = lambda I, t, ref, args: rv(args[0])

import text as T

"""P01  DOF set algebra, iteration and Nastran component codes."""
from common import *

TUS = ["Abstract/Dof.cpp", "Abstract/Value.cpp"]
DS, D1 = "vega::DOFS", "vega::DOF"


def u_algebra(c):
    I = begin(c)
    A, a = dofs(I, "A")
    B, b = dofs(I, "B")
    c.cover("dof sets")
    eqc = lambda r, bits: EQ(code(I, r), I.from_bits(bits))
    for nm, q, f in (("union", "vega::operator+", lambda x, y: OR(x, y)), ("difference", "vega::operator-", lambda x, y: AND(x, NOT(y))),
                     ("intersection", "vega::operator&", lambda x, y: AND(x, y))):
        r = rv(I.callq(q, None, [A, B], [DS, DS]))
        c.prove("P01.%s.set" % nm, eqc(r, [f(x, y) for x, y in zip(a, b)]))
    r = rv(I.callq(DS + "::intersection", Cell(A), [B]))
    c.prove("P01.intersection.method", eqc(r, [AND(x, y) for x, y in zip(a, b)]))
    c.prove("P01.containsAll", EQ(rv(I.callq(DS + "::containsAll", Cell(A), [B])), AND(*[IMPL(y, x) for x, y in zip(a, b)])))
    c.prove("P01.containsAnyOf", EQ(rv(I.callq(DS + "::containsAnyOf", Cell(A), [B])), OR(*[AND(y, x) for x, y in zip(a, b)])))
    c.prove("P01.equal", EQ(rv(I.callq(DS + "::operator==", Cell(A), [B], [DS])), AND(*[x == y for x, y in zip(a, b)])))
    c.prove("P01.size", EQ(rv(I.callq(DS + "::size", Cell(A))), count(a)))
    c.prove("P01.empty", EQ(rv(I.callq(DS + "::empty", Cell(A))), NOT(OR(*a))))
    X = I.copyval(A)
    I.callq(DS + "::operator+=", Cell(X), [B], [DS])
    c.prove("P01.union.assign", eqc(X, [OR(x, y) for x, y in zip(a, b)]))
    c.prove("P01.frame", AND(eqc(A, a), eqc(B, b)))


def u_single(c):
    I = begin(c)
    A, a = dofs(I, "A")
    d, k = anydof(I)
    bit = [j == k for j in range(6)]
    eqc = lambda r, bits: EQ(code(I, r), I.from_bits(bits))
    c.prove("P01.contains", EQ(rv(I.callq(DS + "::contains", Cell(A), [d])), a[k]))
    c.prove("P01.union.dof", eqc(rv(I.callq("vega::operator+", None, [A, d], [DS, D1])), [OR(x, y) for x, y in zip(a, bit)]))
    c.prove("P01.difference.dof", eqc(rv(I.callq("vega::operator-", None, [A, d], [DS, D1])), [AND(x, NOT(y)) for x, y in zip(a, bit)]))
    X = I.copyval(A)
    I.callq(DS + "::operator+=", Cell(X), [d], [D1])
    c.prove("P01.union.assign.dof", eqc(X, [OR(x, y) for x, y in zip(a, bit)]))
    X = I.copyval(A)
    I.callq(DS + "::operator=", Cell(X), [d], [D1])
    c.prove("P01.assign.dof", eqc(X, bit))
    c.prove("P01.equal.dof", EQ(rv(I.callq(DS + "::operator==", Cell(A), [d], [D1])), AND(*[x == y for x, y in zip(a, bit)])))
    o = rv(d)
    g = lambda n: rv(I.field(o, n))
    c.prove("P01.singletons", AND(EQ(g("code"), 1 << k), EQ(g("position"), k), EQ(g("isTranslation"), k < 3), EQ(g("isRotation"), k >= 3), EQ(g("label"), ["DX", "DY", "DZ", "RX", "RY", "RZ"][k])))
    f = rv(I.callq("vega::DOF::findByPosition", None, [k]))
    c.prove("P01.findByPosition", AND(EQ(rv(I.field(f, "code")), 1 << k), EQ(rv(I.field(f, "position")), k)))
    one = I.new_object(DS, I.fn(DS + "::DOFS", [D1]).ref, [d])
    c.prove("P01.ctor.dof", eqc(one, bit))


def u_bools(c):
    I = begin(c)
    a = [c.input("a%d" % k, "bool") for k in range(6)]
    o = I.new_object(DS, I.fn(DS + "::DOFS", ["bool"] * 6).ref, list(a))
    c.prove("P01.ctor.bools", EQ(code(I, o), I.from_bits(a)))
    for nm, lo, hi in (("getTranslations", 0, 3), ("getRotations", 3, 6)):
        v = rv(I.callq(DS + "::" + nm, Cell(o)))
        xs = [rv(I.callm(v, n)) for n in "xyz"]
        c.prove("P01." + nm, AND(*[EQ(x, ITE(b, UNAV, Fraction(0))) for x, b in zip(xs, a[lo:hi])]))


def u_constants(c):
    I = begin(c)
    for n, m in (("NO_DOFS", 0), ("TRANSLATIONS", 7), ("ROTATIONS", 56), ("ALL_DOFS", 63)):
        u = next((u for u, g in I.P.globals.items() if g[3] == "vega::DOFS::" + n), None)
        if u is None:
            raise Unsupported("constant DOFS::%s" % n)
        c.prove("P01.constant." + n, EQ(code(I, rv(I.global_cell({"u": u, "q": "x"}, None))), m))


def u_iteration(c):
    """begin()..end() yields exactly the members, in increasing position, for each of the 64 sets"""
    I = begin(c)
    A, a = dofs(I, "A")
    got = [rv(I.field(rv(x), "position")) for x in L.iterate(I, Cell(A))]
    c.prove("P01.iteration.members", AND(*[EQ(a[k], k in got) for k in range(6)]))
    c.prove("P01.iteration.order", got == sorted(set(got)))


def u_roundtrip(c):
    I = begin(c)
    A, a = dofs(I, "A")
    r = rv(I.callq(DS + "::nastranCode", Cell(A)))
    back = rv(I.callq(DS + "::nastranCodeToDOFS", None, [r]))
    c.prove("P01.code.roundtrip", OR(NOT(OR(*a)), EQ(code(I, back), I.from_bits(a))))
    # digits strictly increasing, one per member
    if isinstance(r, int):
        ds = [int(ch) for ch in str(r)] if r else []
        c.prove("P01.code.digits", AND(ds == sorted(set(ds)), *[EQ(a[k], (k + 1) in ds) for k in range(6)]))
    else:
        raise Unsupported("symbolic code")


def u_decode(c):
    """any non-negative int: the set of its digits, or invalid_argument iff a digit is outside 1..6 (0 alone means a scalar point's DX)"""
    I = begin(c)
    n = integer(I, "code", 0, INT_MAX)
    if not c.branch(n > 0):
        n = 0
    digs, x = [], n
    if is_z(n):
        for _ in range(10):
            q, r = c.divmod(x, 10)
            digs.append((r, x > 0))
            x = q
    bad = OR(*[AND(u, OR(d < 1, d > 6)) for d, u in digs])
    try:
        r = rv(I.callq(DS + "::nastranCodeToDOFS", None, [n]))
        c.prove("P01.decode.accepts", OR(EQ(n, 0), NOT(bad)))
        v = code(I, r)
        b = I.zbits(v, 6) if is_z(v) else [bool(v >> k & 1) for k in range(6)]
        for k in range(6):
            c.prove("P01.decode.member%d" % (k + 1), EQ(b[k], OR(AND(EQ(n, 0), k == 0), *[AND(u, d == k + 1) for d, u in digs])))
    except CppThrow as e:
        c.prove("P01.decode.rejects", AND(is_z(n), bad, L.exc_match(I, e.tname, "std::invalid_argument")))


def rp_ab(m):
    return suite_pairs([(mask_of_model(m, "A"), mask_of_model(m, "B"))])


def rp_code(m):
    return [case_code(num(m, "code"))]


UNITS = [
    Unit("algebra", u_algebra, replay=rp_ab),
    Unit("single", u_single, replay=rp_ab),
    Unit("bools", u_bools),
    Unit("constants", u_constants),
    Unit("iteration", u_iteration, replay=rp_ab),
    Unit("roundtrip", u_roundtrip, replay=rp_ab),
    Unit("decode", u_decode, replay=rp_code),
]


def spec_pair(a, b, p):
    mem = [k for k in range(6) if a >> k & 1]
    code_ = int("".join(str(k + 1) for k in mem) or "0")
    v = [(-1.7976931348623157e308 if k in mem else 0.0) for k in range(6)]
    return {"u": a | b, "d": a & ~b, "i": a & b, "inter": a & b, "all": (b & ~a) == 0, "any": (a & b) != 0, "size": len(mem), "empty": a == 0, "uf": a | 1 << p, "df": a & ~(1 << p),
            "pe": a | b, "pd": a | 1 << p, "as": 1 << p, "iter": mem, "cont": [1 if k in mem else 0 for k in range(6)], "eq": a == b, "nc": code_, "cmb": a, "tr": v,
            "str": "[" + ",".join(["DX", "DY", "DZ", "RX", "RY", "RZ"][k] for k in mem) + "]"}


def suite_pairs(ps):
    out = []
    for a, b in ps:
        p = (a + b) % 6
        out.append(Case("dofs:%d:%d:%d" % (a, b, p), "dofs_ops %d %d %d" % (a, b, p), lambda r, a=a, b=b, p=p: diff(spec_pair(a, b, p), r)))
    return out


def case_code(n):
    ds = {int(ch) for ch in str(n)} if n else {1}
    ok = ds <= {1, 2, 3, 4, 5, 6}

    def chk(r):
        if ok:
            return diff({"dofs": sum(1 << (d - 1) for d in ds), "back": int("".join(map(str, sorted(ds))))}, r)
        return None if r.get("exc") == "std::invalid_argument" else "code %d: expected rejection, got %s" % (n, r)
    return Case("code:%d" % n, "dofs_code %d" % n, chk)


def suite(rng, tier):
    out = suite_pairs([(a, b) for a in range(64) for b in range(64)])
    codes = set(range(0, 700)) | {int("".join(p)) for k in range(1, 5) for p in __import__("itertools").permutations("123456", k)} | {123456, 654321, 1234560, 7, 18, 2147483647}
    for _ in range(300):
        codes.add(rng.randrange(2 ** 31))
        codes.add(int("".join(rng.choice("123456") for _ in range(rng.randrange(1, 10)))))
    out += [case_code(n) for n in sorted(codes)]
    for p in range(6):
        out.append(Case("pos:%d" % p, "dof_pos %d" % p, lambda r, p=p: diff({"code": 1 << p, "pos": p, "label": ["DX", "DY", "DZ", "RX", "RY", "RZ"][p], "t": p < 3, "r": p > 2}, r)))
    for p in (6, 7, 200):
        out.append(Case("pos:%d" % p, "dof_pos %d" % p, lambda r, p=p: None if r.get("exc") else "position %d accepted: %s" % (p, r)))
    return out

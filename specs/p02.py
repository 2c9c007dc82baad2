"""P02  Matrices and coefficients indexed by degrees of freedom."""
from common import *

TUS = ["Abstract/Dof.cpp"]
DM, DC, D1 = "vega::DOFMatrix", "vega::DOFCoefs", "vega::DOF"
SYM, FULL, DIAG = 0, 1, 2
TOL = Fraction(5, 2 ** 52)


def zabs(x):
    return ITE(cmpop(">=", x, 0), x, arith("-", Fraction(0), x))


def mat(I, t):
    return I.new_object(DM, I.fn(DM + "::DOFMatrix", ["vega::MatrixType"]).ref, [t])


def add(I, m, i, j, v):
    I.callq(DM + "::addComponent", Cell(m), [dof(I, i), dof(I, j), v])


def find(I, m, i, j):
    return rv(I.callq(DM + "::findComponent", Cell(m), [dof(I, i), dof(I, j)]))


def same_entry(t, a, b):
    return a == b or (t == SYM and a == (b[1], b[0]))


def u_entry(c):
    """after storing two values, every one of the 36 components reads as specified, for the three kinds of matrix"""
    I = begin(c)
    t = c.choose(3, "type")
    a = (c.choose(6, "i"), c.choose(6, "j"))
    kind = c.choose(3, "second")
    b = [a, (a[1], a[0]), ((a[0] + 1) % 6, a[1])][kind]
    v, w = real(I, "v"), real(I, "w")
    c.info = (t, a, b)
    m = mat(I, t)
    exp = {}
    for p, x in ((a, v), (b, w)):
        off = t == DIAG and p[0] != p[1]
        try:
            add(I, m, p[0], p[1], x)
            if off:
                c.prove("P02.diagonal.rejects", cmpop("<=", zabs(x), TOL))
        except CppThrow as e:
            c.prove("P02.store.accepts", AND(off, cmpop(">", zabs(x), TOL)) if off else False)
            return
        exp[p] = x
    for i in range(6):
        for j in range(6):
            e = Fraction(0)
            for p in (b, a):
                if same_entry(t, p, (i, j)) and not (t == DIAG and i != j):
                    e = exp[p]
                    break
            c.prove("P02.find", EQ(find(I, m, i, j), e))


def dense(I, t, rot=True):
    n = 6 if rot else 3
    m = mat(I, t)
    V = {}
    for i in range(n):
        for j in range(n):
            if t == SYM and j < i or t == DIAG and i != j:
                continue
            x = real(I, "m%d%d" % (i, j))
            V[i, j] = x
            add(I, m, i, j, x)
    def val(i, j):
        if (i, j) in V:
            return V[i, j]
        if t == SYM and (j, i) in V:
            return V[j, i]
        return Fraction(0)
    return m, V, val


def veq(got, exp):
    return AND(len(got) == len(exp), *[EQ(a, b) for a, b in zip(got, exp)])


def u_views(c):
    I = begin(c)
    t = c.choose(3, "type")
    rot = c.choose(2, "rot")
    m, V, val = dense(I, t, rot)
    q = lambda n, *a: rv(I.callq(DM + "::" + n, Cell(m), list(a)))
    sq = lambda n, *a: [rv(x) for x in L.iterate(I, Cell(q(n, *a)))]
    for flag in (False, True):
        n = 6 if rot or flag else 3
        c.prove("P02.columns", veq(sq("asColumnsVector", flag), [val(i, j) for j in range(n) for i in range(n)]))
        c.prove("P02.upper", veq(sq("asUpperTriangularColumnsVector", flag), [val(i, j) for j in range(n) for i in range(j + 1)]))
        c.prove("P02.diagonal", veq(sq("diagonal", flag), [val(i, i) for i in range(n)]))
    c.prove("P02.hasRotations", EQ(q("hasRotations"), bool(rot)))
    c.prove("P02.hasTranslations", EQ(q("hasTranslations"), True))
    c.prove("P02.isEmpty", EQ(q("isEmpty"), False))
    tr = q("transposed")
    c.prove("P02.transposed", AND(*[EQ(find(I, tr, i, j), val(j, i)) for i in range(6) for j in range(6)]))
    I.callq(DM + "::setAllZero", Cell(m), [])
    c.prove("P02.setAllZero", AND(*[EQ(find(I, m, i, j), Fraction(0)) for i in range(6) for j in range(6)]))


def u_pred(c):
    """predicates over translational matrices with every component free"""
    I = begin(c)
    t = c.choose(3, "type")
    m, V, val = dense(I, t, False)
    which = c.choose(4, "predicate")
    q = lambda n, *a: rv(I.callq(DM + "::" + n, Cell(m), list(a)))
    zero = lambda x: cmpop("<=", zabs(x), TOL)
    if which == 0:
        c.prove("P02.isDiagonal", EQ(q("isDiagonal"), AND(*[zero(x) for (i, j), x in V.items() if i != j])))
    elif which == 1:
        c.prove("P02.isZero", EQ(q("isZero"), AND(*[zero(x) for x in V.values()])))
    elif which == 2:
        r = q("isSymmetric")
        def near(x, y):
            mx = ITE(cmpop(">=", zabs(x), zabs(y)), zabs(x), zabs(y))
            mx = ITE(cmpop(">=", mx, 1), mx, Fraction(1))
            return cmpop("<=", zabs(arith("-", x, y)), arith("*", TOL, mx))
        c.prove("P02.isSymmetric", EQ(r, AND(*[near(val(i, j), val(j, i)) for i in range(3) for j in range(i)])))
    else:
        r = q("isMaxDiagonal")
        c.prove("P02.isMaxDiagonal.offdiagonal", IMPL(r, AND(*[False for (i, j) in V if i != j])) if t == DIAG else IMPL(r, AND(*[zero(x) for (i, j), x in V.items() if i != j])))


def u_coefs(c):
    I = begin(c)
    a = [real(I, "a%d" % k) for k in range(6)]
    b = [real(I, "b%d" % k) for k in range(6)]
    f, v = real(I, "f"), real(I, "v")
    for x in a + b:
        c.assume(AND(x > -10 ** 100, x < 10 ** 100))
    mk = lambda vs: I.new_object(DC, I.fn(DC + "::DOFCoefs", ["double"] * 6).ref, list(vs))
    get = lambda o: [rv(I.callq(DC + "::getValue", Cell(o), [dof(I, k)])) for k in range(6)]
    c.prove("P02.coefs.get", veq(get(mk(a)), a))
    o = mk(a)
    c.prove("P02.coefs.index", veq([rv(I.callq(DC + "::operator[]", Cell(o), [k])) for k in range(6)], a))
    I.callq(DC + "::operator+=", Cell(o), [mk(b)])
    c.prove("P02.coefs.add", veq(get(o), [arith("+", x, y) for x, y in zip(a, b)]))
    o = mk(a)
    I.callq(DC + "::operator*=", Cell(o), [f])
    c.prove("P02.coefs.scale", veq(get(o), [arith("*", x, f) for x in a]))
    k = c.choose(6, "dof")
    o = mk(a)
    I.callq(DC + "::setValue", Cell(o), [dof(I, k), v])
    c.prove("P02.coefs.set", veq(get(o), [v if j == k else x for j, x in enumerate(a)]))
    o = I.new_object(DC, I.fn(DC + "::DOFCoefs", [D1, "double"]).ref, [dof(I, k), v])
    c.prove("P02.coefs.single", veq(get(o), [v if j == k else UNAV for j in range(6)]))


def u_coefs_set(c):
    I = begin(c)
    v = real(I, "v")
    c.assume(AND(v > -10 ** 100, v < 10 ** 100))
    mask = c.choose(64, "set")
    o = I.new_object(DC, I.fn(DC + "::DOFCoefs", ["vega::DOFS", "double"]).ref, [dofs_of(I, mask), v])
    get = [rv(I.callq(DC + "::getValue", Cell(o), [dof(I, k)])) for k in range(6)]
    c.prove("P02.coefs.dofs", veq(get, [v if mask >> k & 1 else UNAV for k in range(6)]))
    c.prove("P02.coefs.getDOFS", EQ(code(I, rv(I.callq(DC + "::getDOFS", Cell(o)))), mask))
    c.prove("P02.coefs.isEmpty", EQ(rv(I.callq(DC + "::isEmpty", Cell(o))), mask == 0))
    w = [real(I, "w%d" % k) for k in range(6)]
    for x in w:
        c.assume(AND(x > -10 ** 100, x < 10 ** 100))
    full = c.choose(2, "right")
    o2 = I.new_object(DC, I.fn(DC + "::DOFCoefs", ["vega::DOFS", "double"]).ref, [dofs_of(I, mask), v])
    r = [w[k] if full or mask >> k & 1 else UNAV for k in range(6)]
    I.callq(DC + "::operator+=", Cell(o2), [I.new_object(DC, I.fn(DC + "::DOFCoefs", ["double"] * 6).ref, r)])
    get = [rv(I.callq(DC + "::getValue", Cell(o2), [dof(I, k)])) for k in range(6)]
    c.prove("P02.coefs.add.undefined", veq(get, [arith("+", v, w[k]) if mask >> k & 1 else r[k] for k in range(6)]))
    I.callq(DC + "::operator*=", Cell(o), [Fraction(2)])
    get = [rv(I.callq(DC + "::getValue", Cell(o), [dof(I, k)])) for k in range(6)]
    c.prove("P02.coefs.scale.undefined", veq(get, [arith("*", v, Fraction(2)) if mask >> k & 1 else UNAV for k in range(6)]))


UNITS = [Unit("entry", u_entry), Unit("views", u_views), Unit("predicates", u_pred), Unit("coefs", u_coefs), Unit("coefsset", u_coefs_set)]


# ---------------------------------------------------------------- executable specification for the real code
UN = -1.7976931348623157e308
EPS = 1e-8


def eqd(x, y):
    return abs(x - y) <= float(TOL) * max(1.0, abs(x), abs(y))


class PM:
    def __init__(s, t, ents):
        s.t, s.e, s.err = t, {}, False
        for i, j, v in ents:
            if t == DIAG and i != j and abs(v) > float(TOL):
                s.err = True
                return
            k = (j, i) if t == SYM and i > j else (i, j)
            s.e[k] = v

    def f(s, i, j):
        if s.t == DIAG and i != j:
            return 0.0
        k = (j, i) if s.t == SYM and i > j else (i, j)
        return s.e.get(k, 0.0)

    def tr(s):
        return PM(s.t, [(j, i, v) for (i, j), v in s.e.items()])

    def zero(s):
        return PM(s.t, [(i, j, 0.0) for (i, j), v in s.e.items()])

    def dump(s):
        r = {"f": [s.f(i, j) for i in range(6) for j in range(6)], "hasT": any(min(k) < 3 for k in s.e), "hasR": any(max(k) > 2 for k in s.e), "empty": not s.e,
             "zero": all(abs(v) <= float(TOL) for v in s.e.values()), "diag": s.t == DIAG or all(i == j or abs(v) <= float(TOL) for (i, j), v in s.e.items()),
             "sym": s.t in (SYM, DIAG) or all(eqd(v, s.e[j, i]) if (j, i) in s.e else abs(v) <= float(TOL) for (i, j), v in s.e.items()),
             "maxd": all(not (i != j and abs(v) > float(TOL)) and eqd(v, -UN) for (i, j), v in s.e.items())}
        for a in (0, 1):
            n = 6 if a or r["hasR"] else 3
            r["dg%d" % a] = [s.f(i, i) for i in range(n)]
            r["ut%d" % a] = [s.f(i, j) for j in range(n) for i in range(j + 1)]
            r["cv%d" % a] = [s.f(i, j) for j in range(n) for i in range(n)]
        return r


def enc(t, ents):
    return "%d %d %s" % (t, len(ents), " ".join("%d %d %s" % (i, j, fl(v)) for i, j, v in ents))


def mcase(t, ents):
    m = PM(t, ents)
    ops = [o + " " + enc(t, ents) for o in ("dofmatrix", "dofmatrix_tr", "dofmatrix_zero")]
    def chk(rs):
        if m.err:
            return None if all("exc" in r for r in rs) else "non-zero off-diagonal value accepted in a diagonal matrix"
        for r, e in zip(rs, (m.dump(), m.tr().dump(), m.zero().dump())):
            d = diff(e, r)
            if d:
                return d
    return Case("mat:" + enc(t, ents), ops, chk)


def eqcase(t, a, b, exp):
    return Case("mateq:%s|%s" % (enc(t, a), enc(t, b)), "dofmatrix_eq %s %s" % (enc(t, a), enc(t, b)), lambda r: diff({"eq": exp}, r))


def ccase(a, b, f, p, v, mask):
    av = [x != UN for x in a]
    e = {"a": a, "ai": a, "s": [x + y if d else y for x, y, d in zip(a, b, av)], "m": [x * f if d else x for x, d in zip(a, av)], "w": [v if k == p else x for k, x in enumerate(a)],
         "k": [v if mask >> k & 1 else UN for k in range(6)], "k1": [v if k == p else UN for k in range(6)], "dofs": sum(1 << k for k in range(6) if av[k]), "empty": not any(av),
         "eq": all(eqd(x, y) for x, y in zip(a, b))}
    d = next(((x, y) for x, y in zip(a, b) if not eqd(x, y)), None)
    e["lt"], e["gt"] = (d is not None and d[0] < d[1]), (d is not None and d[0] > d[1])
    return Case("coefs:%s:%s:%s:%s:%s:%s" % (a, b, f, p, v, mask), "dofcoefs %s %s %s %d %s %d" % (" ".join(map(fl, a)), " ".join(map(fl, b)), fl(f), p, fl(v), mask), lambda r: diff(e, r))


def suite(rng, tier):
    out = []
    N = 400 if tier == "quick" else 4000
    val = lambda: rng.choice([0.0, 1.0, -2.5, 1e-9, 1e-14, 1e-6, -UN, rng.uniform(-1e3, 1e3), rng.uniform(-1, 1)])
    for t in range(3):
        out.append(mcase(t, []))
        for i in range(6):
            for j in range(6):
                out.append(mcase(t, [(i, j, 3.5)]))
                out.append(mcase(t, [(i, j, 0.0)]))
                out.append(mcase(t, [(i, j, 3.5), (j, i, -1.25)]))
        out.append(mcase(t, [(i, i, -UN) for i in range(6)]))
    for _ in range(N):
        t = rng.randrange(3)
        n = rng.randrange(0, 12)
        hi = rng.choice([3, 6])
        ents = [(rng.randrange(hi), rng.randrange(hi), val()) for _ in range(n)]
        if t == DIAG and rng.random() < .8:
            ents = [(i, i, v) for i, j, v in ents]
        if t == FULL and rng.random() < .5:
            ents += [(j, i, v) for i, j, v in ents]
        out.append(mcase(t, ents))
        m = PM(t, ents)
        if not m.err and m.e:
            es = [(i, j, v) for (i, j), v in m.e.items()]
            out.append(eqcase(t, es, list(reversed(es)), True))
            k = rng.randrange(len(es))
            ch = [(i, j, v + (2.0 + abs(v) if q == k else 0)) for q, (i, j, v) in enumerate(es)]
            if abs(es[k][2]) < 1e300:
                out.append(eqcase(t, es, ch, False))
            out.append(eqcase(t, es, es[:-1], False))
    out.append(eqcase(FULL, [(0, 0, 0.0), (1, 1, 1.0)], [(2, 2, 1.0), (1, 1, 1.0)], False))
    out.append(eqcase(FULL, [(0, 0, 0.0)], [(1, 1, 0.0)], True))
    for _ in range(N):
        a = [UN if rng.random() < .25 else val() for _ in range(6)]
        a = [x if x != -UN else 7.0 for x in a]
        b = list(a) if rng.random() < .4 else [rng.choice([x for x in [0.0, 1.5, -2.0, rng.uniform(-9, 9)]]) for x in a]
        if b == a and UN in a:
            out.append(ccase([x if x != UN else 1.0 for x in a], [x if x != UN else 1.0 for x in a], rng.uniform(-3, 3), rng.randrange(6), rng.uniform(-9, 9), rng.randrange(64)))
        else:
            out.append(ccase(a, b, rng.uniform(-3, 3), rng.randrange(6), rng.uniform(-9, 9), rng.randrange(64)))
    return out

"""P03  Vector algebra and coordinate systems."""
from common import *
import math

TUS = ["Abstract/CoordinateSystem.cpp", "Abstract/Value.cpp", "Abstract/Dof.cpp", "Abstract/Mesh.cpp", "Abstract/Utility.cpp"]
VV, CS = "vega::VectorialValue", "vega::CoordinateSystem"
CAR, CYL, SPH, ORI = ("vega::%sCoordinateSystem" % k for k in ("Cartesian", "Cylindrical", "Spherical", "Orientation"))
RCS = "vega::Reference<vega::CoordinateSystem>"


def vec(I, name):
    return V3([real(I, name + k) for k in "xyz"])


class V3(list):
    def __add__(s, o): return V3([arith("+", a, b) for a, b in zip(s, o)])
    def __sub__(s, o): return V3([arith("-", a, b) for a, b in zip(s, o)])
    def __mul__(s, f): return V3([arith("*", a, f) for a in s])


def dot(a, b):
    r = Fraction(0)
    for x, y in zip(a, b):
        r = arith("+", r, arith("*", x, y))
    return r


def cross(a, b):
    m = lambda x, y: arith("*", x, y)
    return V3([arith("-", m(a[1], b[2]), m(a[2], b[1])), arith("-", m(a[2], b[0]), m(a[0], b[2])), arith("-", m(a[0], b[1]), m(a[1], b[0]))])


def mk(I, v):
    return I.new_object(VV, I.fn(VV + "::VectorialValue", ["double"] * 3).ref, list(v))


def comps(I, o):
    o = rv(o)
    return V3([rv(I.callq(VV + "::" + k, Cell(o))) for k in "xyz"])


def same(a, b):
    return AND(*[EQ(x, y) for x, y in zip(a, b)])


def lin(l, ex, ey, ez):
    return V3([arith("+", arith("+", arith("*", l[0], ex[k]), arith("*", l[1], ey[k])), arith("*", l[2], ez[k])) for k in range(3)])


def u_algebra(c):
    I = begin(c)
    a, b = vec(I, "a"), vec(I, "b")
    f = real(I, "f")
    A, B = mk(I, a), mk(I, b)
    op = lambda o, *x: comps(I, I.callq("vega::operator" + o, None, list(x), ["double" if not isinstance(y, Obj) else VV for y in x]))
    m = lambda n, *x: rv(I.callq(VV + "::" + n, Cell(A), list(x)))
    c.prove("P03.add", same(op("+", A, B), a + b))
    c.prove("P03.sub", same(op("-", A, B), a - b))
    c.prove("P03.mul", same(op("*", f, A), a * f))
    c.prove("P03.dot", EQ(m("dot", B), dot(a, b)))
    c.prove("P03.cross", same(comps(I, m("cross", B)), cross(a, b)))
    c.prove("P03.scaled", same(comps(I, m("scaled", f)), a * f))
    n = m("norm")
    c.prove("P03.norm", AND(cmpop(">=", n, 0), EQ(arith("*", n, n), dot(a, a))))
    X = I.copyval(A)
    I.callq(VV + "::scale", Cell(X), [f])
    c.prove("P03.scale", same(comps(I, X), a * f))
    I.callq(VV + "::operator=", Cell(X), [B], [VV])
    c.prove("P03.assign", same(comps(I, X), b))
    c.prove("P03.frame", AND(same(comps(I, A), a), same(comps(I, B), b)))


def u_normal(c):
    I = begin(c)
    a = vec(I, "a")
    c.assume(cmpop(">", dot(a, a), 0))
    r = comps(I, I.callq(VV + "::normalized", Cell(mk(I, a))))
    c.prove("P03.normalized.parallel", same(cross(a, r), [Fraction(0)] * 3))
    c.prove("P03.normalized.unit", EQ(dot(r, r), Fraction(1)))
    c.prove("P03.normalized.sense", cmpop(">", dot(a, r), 0))


def u_ortho(c):
    """orthonormalized against contracts of normalized (unit, parallel, same sense)"""
    I = begin(c)
    a, u = vec(I, "a"), vec(I, "u")
    c.assume(EQ(dot(u, u), Fraction(1)))
    w = V3([I.c.fresh("w%d" % k, "real") for k in range(3)])
    seen = []

    def h(I2, this, args):
        seen.append(comps(I2, this))
        return mk(I2, w)
    c.contracts[VV + "::normalized"] = h
    r = comps(I, I.callq(VV + "::orthonormalized", Cell(mk(I, a)), [mk(I, u)]))
    c.prove("P03.orthonormalized.normalizes", AND(len(seen) == 1, same(r, w)))
    if seen:
        c.prove("P03.orthonormalized.orthogonal", EQ(dot(seen[0], u), Fraction(0)))
        c.prove("P03.orthonormalized.inplane", same(seen[0], a - u * dot(a, u)))


GLOB = None


def mesh_obj(I):
    """an unconstrained mesh; what coordinate systems need from it goes through the contracts set by each unit"""
    return Obj("vega::Mesh")


def gref(I):
    return I.global_of("vega::CoordinateSystem::GLOBAL_COORDINATE_SYSTEM")


def aref(I, n):
    r = I.new_object(RCS, I.fn(RCS + "::Reference", ["vega::CoordinateSystem::Type", "int", "int"]).ref, [0, n, INT_MIN])
    return r


def setv(I, o, f, v):
    I.field(o, f).v = mk(I, v)


def mkcs(I, cls, tag, ref, mesh=None):
    """a system of class cls with arbitrary origin and axes, defined in ref"""
    mesh = mesh or mesh_obj(I)
    sig = {CAR: ["vega::Mesh", VV, VV, VV, RCS, "int"], CYL: ["vega::Mesh", VV, VV, VV, RCS, "int"], SPH: ["vega::Mesh", VV, VV, VV, RCS, "int"]}[cls]
    one = [mk(I, [Fraction(0)] * 3), mk(I, [Fraction(1), Fraction(0), Fraction(0)]), mk(I, [Fraction(0), Fraction(1), Fraction(0)])]
    o = I.new_object(cls, I.fn(cls + "::" + cls.split("::")[1], sig).ref, [mesh] + one + [ref, 7])
    d = {k: vec(I, tag + k) for k in ("o", "ex", "ey", "ez")}
    for k, f in (("o", "origin"), ("ex", "ex"), ("ey", "ey"), ("ez", "ez")):
        setv(I, o, f, d[k])
    if cls == CYL:
        setv(I, o, "ur", d["ex"])
        setv(I, o, "utheta", d["ey"])
    return o, d


def u_ctor(c):
    """explicit definition: ex along the given x, ey in the given plane, ez right-handed; type tags"""
    I = begin(c)
    k = c.choose(3, "kind")
    cls = [CAR, CYL, SPH][k]
    n, on = V3([c.fresh("n%d" % j, "real") for j in range(3)]), V3([c.fresh("p%d" % j, "real") for j in range(3)])
    seen = {}

    def hn(I2, this, args):
        seen["n"] = comps(I2, this)
        return mk(I2, n)

    def ho(I2, this, args):
        seen["o"] = (comps(I2, this), comps(I2, args[0]))
        return mk(I2, on)
    c.contracts[VV + "::normalized"] = hn
    c.contracts[VV + "::orthonormalized"] = ho
    o, x, y = vec(I, "o"), vec(I, "x"), vec(I, "y")
    rid = c.choose(2, "rcs")
    ref = aref(I, 5) if rid else gref(I)
    cs = I.new_object(cls, I.fn(cls + "::" + cls.split("::")[1], ["vega::Mesh", VV, VV, VV, RCS, "int"]).ref, [mesh_obj(I), mk(I, o), mk(I, x), mk(I, y), ref, 7])
    g = lambda f: comps(I, rv(I.field(cs, f)))
    c.prove("P03.ctor.origin", same(g("origin"), o))
    c.prove("P03.ctor.ex", AND(same(g("ex"), n), same(seen["n"], x)))
    c.prove("P03.ctor.ey", AND(same(g("ey"), on), same(seen["o"][0], y), same(seen["o"][1], n)))
    c.prove("P03.ctor.ez", same(g("ez"), cross(n, on)))
    if k == 1:
        c.prove("P03.ctor.localbase", AND(same(g("ur"), n), same(g("utheta"), on)))
    c.prove("P03.ctor.type", EQ(rv(I.field(cs, "type")), 0))
    if k < 2:
        c.prove("P03.ctor.coordType", EQ(rv(I.field(cs, "coordType")), k))


def chain(I, c, cls, tag="c"):
    """a system possibly defined in a parent whose own maps are arbitrary affine maps"""
    up = c.choose(2, "parent")
    ref = aref(I, 5) if up else gref(I)
    cs, d = mkcs(I, cls, tag, ref)
    if not up:
        return cs, d, lambda v: v, lambda v: v, lambda v: v
    P = {k: vec(I, "p" + k) for k in ("o", "ex", "ey", "ez", "ia", "ib", "ic")}
    par, _ = mkcs(I, CAR, "q", gref(I))
    def find(I2, this, args):
        a = rv(args[0])
        I2.c.prove("P03.chain.reference", EQ(rv(I2.field(a, "original_id")), 5))
        return Ptr(Cell(par))
    c.contracts["vega::Mesh::findCoordinateSystem"] = find
    pg = lambda v: P["o"] + lin(v, P["ex"], P["ey"], P["ez"])
    vg = lambda v: lin(v, P["ex"], P["ey"], P["ez"])
    vl = lambda v: V3([dot(P["ia"], v), dot(P["ib"], v), dot(P["ic"], v)])
    inner = {}
    def wrapc(name, f):
        q = CAR + "::" + name
        def h(I2, this, args):
            if rv(this) is par:
                return mk(I2, f(comps(I2, args[0])))
            return I2.invoke(I2.fn(q), this, args)
        c.contracts[q] = h
    wrapc("positionToGlobal", pg)
    wrapc("vectorToGlobal", vg)
    wrapc("vectorToLocal", vl)
    return cs, d, pg, vg, vl


def u_cart(c):
    I = begin(c)
    cs, d, pg, vg, vl = chain(I, c, CAR)
    l = vec(I, "l")
    L_ = mk(I, l)
    lv = lin(l, d["ex"], d["ey"], d["ez"])
    c.prove("P03.cartesian.vectorToGlobal", same(comps(I, I.callq(CAR + "::vectorToGlobal", Cell(cs), [L_])), vg(lv)))
    c.prove("P03.cartesian.positionToGlobal", same(comps(I, I.callq(CAR + "::positionToGlobal", Cell(cs), [L_])), pg(d["o"] + lv)))
    inv = [[real(I, "i%d%d" % (a, b)) for b in range(3)] for a in range(3)]
    M = rv(I.field(cs, "inverseMatrix"))
    L.matrix_set(I, M, inv)
    w = vl(l)
    c.prove("P03.cartesian.vectorToLocal", same(comps(I, I.callq(CAR + "::vectorToLocal", Cell(cs), [L_])), [dot(inv[a], w) for a in range(3)]))


def u_build(c):
    """build(): inverse of [ex ey ez]; three-node definition; orientation definition"""
    I = begin(c)
    which = c.choose(4, "kind")
    got = {}
    inv = [[c.fresh("i%d%d" % (a, b), "real") for b in range(3)] for a in range(3)]

    def hinv(I2, this, args):
        got["m"] = L.matrix_get(I2, rv(args[0]))
        L.matrix_set(I2, rv(args[1]), inv)
        return True
    c.contracts["vega::InvertMatrix"] = hinv
    normd = []

    def hn(I2, this, args):
        w = V3([I2.c.fresh("n", "real") for j in range(3)])
        normd.append((comps(I2, this), w))
        return mk(I2, w)
    orth = []

    def ho(I2, this, args):
        w = V3([I2.c.fresh("p", "real") for j in range(3)])
        orth.append((comps(I2, this), comps(I2, args[0]), w))
        return mk(I2, w)
    if which:
        c.contracts[VV + "::normalized"] = hn
        c.contracts[VV + "::orthonormalized"] = ho
    nodes = {n: vec(I, "node%d" % n) for n in (11, 12, 13)}
    c.contracts["vega::Mesh::findNodePosition"] = lambda I2, this, args: rv(args[0]) + 100

    def hnode(I2, this, args):
        p = nodes[rv(args[0]) - 100]
        o = Obj("vega::Node")
        for k, x in zip("xyz", p):
            o.f["vega::Node::" + k] = Cell(x)
        for k, x in zip(("lx", "ly", "lz"), p):
            o.f["vega::Node::" + k] = Cell(I2.c.fresh(k, "real"))
        return o
    c.contracts["vega::Mesh::findNode"] = hnode
    ref = gref(I)
    if which == 0:
        cs, d = mkcs(I, CAR, "c", ref)
        cls = CAR
    elif which == 1:
        cls = CAR
        cs = I.new_object(CAR, I.fn(CAR + "::CartesianCoordinateSystem", ["vega::Mesh", "int", "int", "int", RCS, "int"]).ref, [mesh_obj(I), 11, 12, 13, ref, 7])
    elif which == 2:
        cls = ORI
        cs = I.new_object(ORI, I.fn(ORI + "::OrientationCoordinateSystem", ["vega::Mesh", "int", "int", "int", RCS, "int"]).ref, [mesh_obj(I), 11, 12, 13, ref, 7])
    else:
        cls = ORI
        vo = vec(I, "v")
        cs = I.new_object(ORI, I.fn(ORI + "::OrientationCoordinateSystem", ["vega::Mesh", "int", "int", VV, RCS, "int"]).ref, [mesh_obj(I), 11, 12, mk(I, vo), ref, 7])
    n0, o0 = len(normd), len(orth)
    vnow = comps(I, rv(I.field(cs, "v"))) if cls == ORI else None
    I.callq(cls + "::build", Cell(cs))
    g = lambda f: comps(I, rv(I.field(cs, f)))
    ex, ey, ez = g("ex"), g("ey"), g("ez")
    c.prove("P03.build.matrix", AND(*[same(got["m"][r], [ex[r], ey[r], ez[r]]) for r in range(3)]) if "m" in got else False)
    O, N2, N3 = nodes[11], nodes[12], nodes[13]
    nd, od = normd[n0:], orth[o0:]
    if which == 0:
        c.prove("P03.build.keepsAxes", AND(same(ex, d["ex"]), same(ey, d["ey"]), same(ez, d["ez"]), same(g("origin"), d["o"])))
        return
    def unit_of(v, x):
        return OR(*[AND(same(a, x), same(w, v)) for a, w in nd])
    def orth_of(v, pred, u):
        return OR(*[AND(pred(a), same(b, u), same(w, v)) for a, b, w in od])
    isn = lambda x: (lambda a: OR(same(a, x), *[AND(same(s, x), same(w, a)) for s, w in nd]))
    c.prove("P03.build.origin", same(g("origin"), O))
    if which == 1:
        c.prove("P03.build3.ez", unit_of(ez, N2 - O))
        c.prove("P03.build3.ex", orth_of(ex, isn(N3 - O), ez))
        c.prove("P03.build3.ey", same(ey, cross(ez, ex)))
    else:
        c.prove("P03.orientation.ex", unit_of(ex, N2 - O))
        c.prove("P03.orientation.ey", orth_of(ey, isn(N3 - O) if which == 2 else (lambda a: same(a, vnow)), ex))
        c.prove("P03.orientation.ez", same(ez, cross(ex, ey)))
    c.prove("P03.build.notVirtual", EQ(rv(I.field(cs, "isVirtual")), False))


def u_inverse(c):
    """vectorToLocal inverts vectorToGlobal when the stored matrix is the inverse of [ex ey ez] (contract of InvertMatrix)"""
    I = begin(c)
    cs, d = mkcs(I, CAR, "c", gref(I))
    inv = [[real(I, "i%d%d" % (a, b)) for b in range(3)] for a in range(3)]
    L.matrix_set(I, rv(I.field(cs, "inverseMatrix")), inv)
    l = vec(I, "l")
    g = I.callq(CAR + "::vectorToGlobal", Cell(cs), [mk(I, l)])
    r = comps(I, I.callq(CAR + "::vectorToLocal", Cell(cs), [rv(g)]))
    ax = [d["ex"], d["ey"], d["ez"]]
    # inverse * [ex ey ez] = I ; the claim follows by the linear combination sum_k (inv*R - I)_{jk} l_k
    t = [[arith("-", dot(inv[a], ax[b]), Fraction(1 if a == b else 0)) for b in range(3)] for a in range(3)]
    for j in range(3):
        comb = Fraction(0)
        for k in range(3):
            comb = arith("+", comb, arith("*", t[j][k], l[k]))
        c.prove("P03.inverse", EQ(arith("-", r[j], l[j]), comb))


def u_cyl(c):
    I = begin(c)
    cs, d, pg, vg, vl = chain(I, c, CYL)
    l = vec(I, "l")
    pi = Fraction(math.pi)
    ang = arith("*", l[1], pi / 180)
    co, si = c_sin(I, ang)
    v = V3([arith("*", l[0], co), arith("*", l[0], si), l[2]])
    c.prove("P03.cylindrical.positionToGlobal", same(comps(I, I.callq(CYL + "::positionToGlobal", Cell(cs), [mk(I, l)])), pg(d["o"] + lin(v, d["ex"], d["ey"], d["ez"]))))
    ur, ut = vec(I, "ur"), vec(I, "ut")
    setv(I, cs, "ur", ur)
    setv(I, cs, "utheta", ut)
    c.prove("P03.cylindrical.vectorToGlobal", same(comps(I, I.callq(CYL + "::vectorToGlobal", Cell(cs), [mk(I, l)])), vg(lin(l, ur, ut, d["ez"]))))


def c_sin(I, x):
    """the very terms the executor uses for cos and sin"""
    import lib
    zs = toz(x)
    if z3.is_int(zs):
        zs = z3.ToReal(zs)
    s = lib.UF.setdefault(("sin", 1), z3.Function("m_sin", z3.RealSort(), z3.RealSort()))(zs)
    k = lib.UF.setdefault(("cos", 1), z3.Function("m_cos", z3.RealSort(), z3.RealSort()))(zs)
    return k, s


def u_sph(c):
    I = begin(c)
    cs, d, pg, vg, vl = chain(I, c, SPH)
    l = vec(I, "l")
    pi = Fraction(math.pi)
    ct, st = c_sin(I, arith("*", l[1], pi / 180))
    cp, sp = c_sin(I, arith("*", l[2], pi / 180))
    m = lambda x, y: arith("*", x, y)
    v = V3([m(m(l[0], st), cp), m(m(l[0], st), sp), m(l[0], ct)])
    c.prove("P03.spherical.positionToGlobal", same(comps(I, I.callq(SPH + "::positionToGlobal", Cell(cs), [mk(I, l)])), pg(d["o"] + lin(v, d["ex"], d["ey"], d["ez"]))))


def u_localbase(c):
    I = begin(c)
    cs, d = mkcs(I, CYL, "c", gref(I))
    p = vec(I, "p")
    w = V3([c.fresh("w%d" % k, "real") for k in range(3)])
    seen = []
    def hn(I2, this, args):
        seen.append(comps(I2, this))
        return mk(I2, w)
    c.contracts[VV + "::normalized"] = hn
    r = p - d["o"]
    zero = AND(*[AND(cmpop("<=", x, TOLF), cmpop(">=", x, -TOLF)) for x in r])
    I.callq(CYL + "::updateLocalBase", Cell(cs), [mk(I, p)])
    g = lambda f: comps(I, rv(I.field(cs, f)))
    if seen:
        c.prove("P03.localbase.away", NOT(zero))
        c.prove("P03.localbase.utheta", AND(same(seen[0], cross(d["ez"], r)), same(g("utheta"), w)))
        c.prove("P03.localbase.ur", same(g("ur"), cross(w, d["ez"])))
    else:
        c.prove("P03.localbase.axis", AND(zero, same(g("ur"), d["ex"]), same(g("utheta"), d["ey"])))


TOLF = Fraction(5, 2 ** 52)
UNITS = [Unit("algebra", u_algebra), Unit("normalized", u_normal), Unit("orthonormalized", u_ortho), Unit("ctor", u_ctor), Unit("cartesian", u_cart), Unit("build", u_build),
         Unit("inverse", u_inverse), Unit("cylindrical", u_cyl), Unit("spherical", u_sph), Unit("localbase", u_localbase)]


# ---------------------------------------------------------------- executable specification for the real code
def fd(a, b): return sum(x * y for x, y in zip(a, b))
def fc(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def fa(a, b): return [x + y for x, y in zip(a, b)]
def fs(a, b): return [x - y for x, y in zip(a, b)]
def fm(f, a): return [f * x for x in a]
def fn_(a): return fm(1 / math.sqrt(fd(a, a)), a)
def fo(a, u): return fn_(fs(a, fm(fd(a, u) / fd(u, u), u)))


def cmpv(exp, got, tol=1e-8):
    if not isinstance(got, list) or len(got) != len(exp):
        return False
    sc = max([1.0] + [abs(x) for x in exp])
    return all(isinstance(y, (int, float)) and abs(x - y) <= tol * sc for x, y in zip(exp, got))


class Sys:
    def __init__(s, kind, id, rcs, o, ex, ey, ez):
        s.kind, s.id, s.rcs, s.o, s.ex, s.ey, s.ez = kind, id, rcs, o, ex, ey, ez
        s.ur, s.ut = ex, ey

    def locpos(s, l):
        if s.kind == "Y":
            t = math.radians(l[1])
            return [l[0] * math.cos(t), l[0] * math.sin(t), l[2]]
        if s.kind == "S":
            t, p = math.radians(l[1]), math.radians(l[2])
            return [l[0] * math.sin(t) * math.cos(p), l[0] * math.sin(t) * math.sin(p), l[0] * math.cos(t)]
        return l

    def pg(s, l, S):
        p = s.locpos(l)
        r = fa(s.o, fa(fa(fm(p[0], s.ex), fm(p[1], s.ey)), fm(p[2], s.ez)))
        return r if not s.rcs else S[s.rcs].pgc(r, S)

    def pgc(s, l, S):
        return s.pg(l, S)

    def vg(s, l, S):
        if s.kind == "S":
            return None
        a, b = (s.ur, s.ut) if s.kind == "Y" else (s.ex, s.ey)
        r = fa(fa(fm(l[0], a), fm(l[1], b)), fm(l[2], s.ez))
        return r if not s.rcs else S[s.rcs].vg(r, S)

    def vl(s, g, S):
        if s.kind in "YS":
            return None
        if s.rcs:
            g = S[s.rcs].vl(g, S)
            if g is None:
                return None
        return [fd(s.ex, g), fd(s.ey, g), fd(s.ez, g)]

    def world(s, S):
        """columns of the rotation, in global coordinates"""
        f = (lambda v: v) if not s.rcs else (lambda v: S[s.rcs].vg(v, S))
        return [f(s.ex), f(s.ey), f(s.ez)]


def rot(psi, th, ph):
    cz, sz, cy, sy, cx, sx = math.cos(psi), math.sin(psi), math.cos(th), math.sin(th), math.cos(ph), math.sin(ph)
    return [[cz * cy, sz * cy, -sy], [cz * sy * sx - sz * cx, sz * sy * sx + cz * cx, cy * sx], [cz * sy * cx + sz * sx, sz * sy * cx - cz * sx, cy * cx]]


def unitvec(rng):
    while True:
        v = [rng.uniform(-1, 1) for _ in range(3)]
        if .2 < math.sqrt(fd(v, v)) < 1:
            return fm(rng.choice([1, 1, 3.5, .25]) , v)


def axes(rng):
    r = rng.random()
    if r < .35:
        X = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]
        while True:
            x, y = rng.choice(X), rng.choice(X)
            if abs(fd(x, y)) < .5:
                return [float(t) for t in x], [float(t) for t in y]
    while True:
        x, y = unitvec(rng), unitvec(rng)
        c = fc(fn_(x), fn_(y))
        if fd(c, c) > .05:
            return x, y


def cs_case(rng, k):
    coord = lambda: rng.choice([0.0, 1.0, -2.0, rng.uniform(-5, 5)])
    S, txt, nodes = {}, [], []
    while len(nodes) < 6:
        p = [rng.uniform(-4, 4) for _ in range(3)]
        nodes.append((len(nodes) + 1, p, 0))
    nsys = rng.randrange(1, 6)
    for i in range(nsys):
        id = 10 + i
        kind = rng.choice("CCCYSNVW")
        rcs = 0
        if kind in "CYS" and S and rng.random() < .6:
            cand = [x for x in S if S[x].kind in "CN"]
            rcs = rng.choice(cand) if cand else 0
        if kind in "CYS":
            o = [coord() for _ in range(3)]
            x, y = axes(rng)
            ex = fn_(x)
            ey = fo(y, ex)
            S[id] = Sys(kind, id, rcs, o, ex, ey, fc(ex, ey))
            txt.append("%s %d %d %s" % (kind, id, rcs, " ".join(map(fl, o + x + y))))
        else:
            a, b, d = rng.sample([n[0] for n in nodes], 3)
            pa, pb, pd = (nodes[q - 1][1] for q in (a, b, d))
            if kind == "N":
                ez = fn_(fs(pb, pa))
                ex = fo(fs(pd, pa), ez)
                S[id] = Sys("N", id, 0, pa, ex, fc(ez, ex), ez)
                txt.append("N %d 0 %d %d %d" % (id, a, b, d))
            else:
                ex = fn_(fs(pb, pa))
                v = fs(pd, pa) if kind == "W" else unitvec(rng)
                ey = fo(v, ex)
                S[id] = Sys(kind, id, 0, pa, ex, ey, fc(ex, ey))
                txt.append("W %d 0 %d %d %d" % (id, a, b, d) if kind == "W" else "V %d 0 %d %d %s" % (id, a, b, " ".join(map(fl, v))))
    extra = []
    for j in range(4):
        cp = rng.choice([0] + [x for x in S if S[x].kind in "CYSN"])
        extra.append((100 + j, [coord() * (20 if t and cp and S[cp].kind in "YS" else 1) for t in range(3)], cp))
    nn = nodes + extra
    q = []
    for id in S:
        v = [coord() * (15 if t and S[id].kind in "YS" else 1) for t in range(3)]
        q.append(("L" if S[id].kind == "Y" and rng.random() < .5 else "P", id, v, rng.choice([0, 0] + [x for x in S if S[x].kind in "CNVW" and not S[x].rcs])))
    # absolute references only resolve to systems of the absolute type
    ops = "cs_eval %d %s %d %s %d %s" % (len(nn), " ".join("%d %s %d" % (i, " ".join(map(fl, p)), cp) for i, p, cp in nn), len(txt), " ".join(txt), len(q),
                                         " ".join("%s %d %s %d" % (a, b, " ".join(map(fl, v)), o) for a, b, v, o in q))

    def check(r):
        for row, (i, p, cp) in zip(r["nodes"], sorted(nn)):
            e = p if not cp else S[cp].pg(p, S)
            if row[0] != i or not cmpv(e, row[1:4]) or not cmpv(p, row[4:7], 0):
                return "node %d: expected global position %s (local %s), real code gave %s" % (i, e, p, row)
        for g, (what, id, v, other) in zip(r["q"], q):
            s = S[id]
            if "missing" in g:
                return "system %d not found" % id
            if s.kind == "Y":
                s.ur, s.ut = s.ex, s.ey
            if what == "L":
                d = fs(v, s.o)
                c_ = fc(s.ez, d)
                if math.sqrt(fd(c_, c_)) < 1e-6:
                    continue
                s.ut = fn_(c_)
                s.ur = fc(s.ut, s.ez)
            e = {"o": s.o, "ex": s.ex, "ey": s.ey, "ez": s.ez, "pg": s.pg(v, S), "vg": s.vg(v, S), "vl": s.vl(v, S), "cl": s.pg(v, S)}
            if s.kind == "Y":
                e["ur"], e["ut"] = s.ur, s.ut
            for k2, x in e.items():
                if x is None:
                    if not (isinstance(g.get(k2), str) and g[k2].startswith("exc:")):
                        return "system %d (%s): %s should be refused, real code gave %s" % (id, s.kind, k2, g.get(k2))
                elif not cmpv(x, g.get(k2)):
                    return "system %d (%s) of %s: %s: expected %s, real code gave %s" % (id, s.kind, v, k2, x, g.get(k2))
            if g["t"] != (1 if s.kind in "VW" else 0) or g["ct"] != {"C": 0, "N": 0, "Y": 1, "S": 2}.get(s.kind, 3):
                return "system %d: wrong kind tags %s" % (id, (g["t"], g["ct"]))
            for key, W in (("eu", s.world(S) if all(x is not None for x in s.world(S)) else None), ("le", [s.ur, s.ut, s.ez] if s.kind == "Y" and not s.rcs else None)):
                if W is None or key not in g:
                    continue
                if other:
                    W = [S[other].vl(w, S) for w in W]
                if not isinstance(g[key], list):
                    return "system %d: %s: %s" % (id, key, g[key])
                R = rot(*g[key])
                if not all(cmpv(a, b, 1e-6) for a, b in zip(W, R)):
                    return "system %d (%s): rotation by the returned Euler angles %s gives axes %s, expected %s" % (id, s.kind, g[key], R, W)
            if s.kind == "Y":
                s.ur, s.ut = s.ex, s.ey
        return None
    return Case("cs:%d" % k, ops, check)


def vec_case(a, b, f):
    def check(r):
        e = {"add": fa(a, b), "sub": fs(a, b), "mul": fm(f, a), "dot": fd(a, b), "cross": fc(a, b), "norm": math.sqrt(fd(a, a)), "scaled": fm(f, a), "scale": fm(f, a), "assign": a,
             "zero": all(abs(x) <= 2e-15 for x in a)}
        if f:
            e["div"] = fm(1 / f, a)
        if fd(a, a) > 0:
            e["normalized"] = fn_(a)
        if fd(b, b) > 0 and fd(fc(a, b), fc(a, b)) > 1e-6:
            e["on"] = fo(a, b)
        n = max(math.sqrt(fd(a, a)), math.sqrt(fd(b, b)))
        d = math.sqrt(fd(fs(a, b), fs(a, b)))
        if n > 1e-6 and not (1e-9 < d / n < 1e-7):
            e["eq"] = d / n < 1e-8
            e["ne"] = not e["eq"]
        return diff(e, r)
    return Case("vec:%s:%s:%s" % (a, b, f), "vec %s %s" % (" ".join(map(fl, list(a) + list(b))), fl(f)), check)


def store_case(seq):
    """positions are stable and unique; a stored system is found by reference and by position"""
    def check(r):
        pos, added = {}, set()
        for (k, id), g in zip(seq, r):
            if id == 0:
                if k == "R" and g.get("p") != 0:
                    return "global system position %s" % g
                if k in "FP" and "exc" not in g:
                    return "global system looked up: %s" % g
                continue
            if k == "R":
                if id in pos and g["p"] != pos[id] or id not in pos and g["p"] in pos.values():
                    return "reserve %d gave position %s, known %s" % (id, g["p"], pos)
                pos[id] = g["p"]
            elif k == "A":
                if id in pos and g["p"] != pos[id] or id not in pos and g["p"] in pos.values():
                    return "adding %d gave position %s, known %s" % (id, g["p"], pos)
                pos[id] = g["p"]
                added.add(id)
            elif k == "F":
                if g["null"] != (id not in added) or not g["null"] and g["o"] != id:
                    return "find %d: %s" % (id, g)
            elif k == "P":
                if id not in pos:
                    if "exc" not in g:
                        return "unknown position %d: %s" % (id, g)
                elif g.get("p") != pos[id] or g["null"] != (id not in added) or not g["null"] and g["o"] != id:
                    return "position of %d: %s" % (id, g)
        return None
    return Case("store:" + " ".join("%s%d" % x for x in seq), "cs_store " + " ".join("%s %d" % x for x in seq), check)


def ocs_case(items):
    def check(r):
        seen = {}
        for it, p in zip(items, r):
            if p == 0 or (it in seen and seen[it] != p) or (it not in seen and p in seen.values()):
                return "orientation %s got position %s, known %s" % (it, p, seen)
            seen[it] = p
    enc = lambda it: "W %d %d %d" % it if isinstance(it[2], int) else "V %d %d %s" % (it[0], it[1], " ".join(map(fl, it[2])))
    return Case("ocs:%s" % (items,), "ocs_store %d %s" % (len(items), " ".join(map(enc, items))), check)


def suite(rng, tier):
    N = 300 if tier == "quick" else 4000
    out = []
    sp = [0.0, 1.0, -1.0, 3.0, -4.0, 1e-3]
    for _ in range(N):
        g = lambda: [rng.choice(sp) if rng.random() < .5 else rng.uniform(-9, 9) for _ in range(3)]
        a, b = g(), g()
        if rng.random() < .15:
            b = list(a)
        out.append(vec_case(a, b, rng.choice([2.0, -1.5, .1, rng.uniform(-3, 3)])))
    for k in range(N):
        out.append(cs_case(rng, k))
    for _ in range(N // 4):
        out.append(store_case([(rng.choice("RRAFP"), rng.randrange(0, 5)) for _ in range(rng.randrange(1, 12))]))
        dirs = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.0, -1.0, 0.0)]
        out.append(ocs_case([(rng.randrange(1, 3), rng.randrange(3, 5), rng.choice([5, 6]) if rng.random() < .4 else rng.choice(dirs)) for _ in range(rng.randrange(1, 9))]))
    return out

"""P14  Translation to code_aster: what the command file says of each element, node and analysis."""
from aster import *
import math
from cards import Reject
from engine import Infeasible

TUS = TUS_A
BL = None
BEAM, SHELL, SOLID = ["POU_D_T"], ["DKT"], ["3D", "3D_SI"]


def static(load=None, spc=None):
    return ["SOL 101", "CEND"] + (["LOAD = %d" % load] if load else []) + (["SPC = %d" % spc] if spc else [])


SQUARE = [(0., 0., 0.), (1., 0., 0.), (1., 1., 0.), (0., 1., 0.)]
CUBE = SQUARE + [(x, y, 1.) for x, y, z in SQUARE]


def grids(F, pts):
    """nodes 11, 12… at given places"""
    return [("GRID", [F.num(11 + k), BL] + [F.r(x) for x in p]) for k, p in enumerate(pts)]


def nodes(F, *ks):
    return [F.num(11 + k) for k in ks]


def mat1(F, mid=3, **kw):
    """isotropic material of given modulus"""
    E = kw.get("E") or F.r(210.)
    return [("MAT1", [F.num(mid), E, BL, F.r(0.25), F.r(7.5)])], {"ELAS": {"E": E.v, "NU": F.c(.25), "RHO": F.c(7.5)}}


def clamp(F, sid=2, node=11):
    return [("SPC1", [F.num(sid), F.num(123456), F.num(node)])]


def clamped(p=0):
    return [[p, d, 0] for d in DOFN]


def case(F, **kw):
    """what one static analysis is expected to apply"""
    e = blank_case()
    e.update(kw)
    return {k: Bag(v) if isinstance(v, list) else v for k, v in e.items()}


def away(F, x):
    """x is not a value that the code may take for zero"""
    if is_z(x):
        F.assume(z3.Or(x > z3.RealVal("0.001"), x < z3.RealVal("-0.001")))
    else:
        F.assume(abs(x) > 1e-3)


# ---------------------------------------------------------------- properties and materials
def MATERIAL(F):
    """isotropic material on a bar"""
    E, nu, rho, ge = F.d("E", pos=True), F.d("nu"), F.od("rho", 0), F.od("ge", None)
    e = {"E": E.v, "NU": nu.v, "RHO": rho.v}
    if not ge.blank:
        e["AMOR_HYST"] = ge.v
    cards = grids(F, SQUARE[:2]) + [("PROD", [F.num(7), F.num(3), F.r(2.)]), ("MAT1", [F.num(3), E, BL, nu, rho, BL, BL, ge]), ("CROD", [F.num(21), F.num(7)] + nodes(F, 0, 1))]
    return static(), cards, {"materials": {0: {"ELAS": e}, ...: 1}, "barre": {0: {"SECTION": "GENERALE", "A": F.c(2)}}}


def MATERIAL8(F):
    """orthotropic material: only in laminates"""
    v = [F.d(k) for k in ("E1", "E2", "nu12", "G12", "G1Z", "G2Z", "rho")]
    k = F.pick("strength", [0, 1])
    x = [F.d(n, pos=True) for n in ("A1", "A2", "TREF", "Xt", "Xc", "Yt", "Yc", "S")] if k else []
    e = dict(zip(("E_L", "E_T", "NU_LT", "G_LT", "G_LN", "G_TN", "RHO"), [f.v for f in v]))
    if k:
        e.update(dict(zip(("ALPHA_L", "ALPHA_T", "TEMP_DEF_ALPHA", "XT", "XC", "YT", "YC", "S_LT"), [f.v for f in x])))
        del e["YT"]
    e[...] = 1
    t, th = F.d("t", pos=True), F.d("theta")
    cards = grids(F, SQUARE) + [("MAT8", [F.num(4)] + v + x), ("PCOMP", [F.num(9)] + [BL] * 7 + [F.num(4), t, th]), ("CQUAD4", [F.num(23), F.num(9)] + nodes(F, 0, 1, 2, 3))]
    return static(), cards, {"model": {0: SHELL}, "materials": {0: {"COUCHE": [{"EPAIS": t.v, "ORIENTATION": th.v, "MATER": {"ELAS_ORTH": e}}]}}, "coque": {0: {"EPAIS": t.v, "COQUE_NCOU": 1, ...: 1}}}


def bar_cards(F, prop):
    m, mat = mat1(F)
    return grids(F, SQUARE[:3]) + prop + m, mat


def BAR(F):
    """bending stiffnesses in the planes of the bar, shear flexibility, orientation"""
    A, I1, I2, J = F.d("A", pos=True), F.d("I1", pos=True), F.d("I2", pos=True), F.d("J", pos=True)
    k = F.pick("shear", [0, 1])
    K = [F.d("K1", pos=True), F.d("K2", pos=True)] if k else []
    for f in K:
        away(F, F.div(F.c(1), f.v))
    v = [F.d("v%d" % j) for j in (1, 2)] + [F.d("v3", nz=True)]
    c, mat = bar_cards(F, [("PBAR", [F.num(7), F.num(3), A, I1, I2, J] + ([BL] * 10 + K if k else []))])
    c += [("CBAR", [F.num(21), F.num(7)] + nodes(F, 0, 1) + v)] + clamp(F)
    inv = lambda f: F.div(F.c(1), f.v)
    return static(None, 2), c, {"model": {0: lambda g: g == ["POU_D_T"] or (not k and g == ["POU_D_E"])}, "materials": {0: mat},
                                "poutre": {0: {"SECTION": "GENERALE", "A": A.v, "IY": I2.v, "IZ": I1.v, "JX": J.v, "AY": inv(K[0]) if k else 0, "AZ": inv(K[1]) if k else 0}},
                                "orientation": {0: {"VECT_Y": along(F, [x.v for x in v])}}, "statics": [case(F, ddl=clamped())]}


def SECTIONS(F):
    """standard cross-sections"""
    ty = F.pick("type", ["ROD", "TUBE", "BAR"])
    d = [F.d("d1", pos=True)] + ([F.d("d2", pos=True)] if ty != "ROD" else [])
    if ty == "TUBE":
        F.assume(d[1].v < d[0].v)
    card = F.pick("card", ["PBARL", "PBEAML"])
    c, mat = bar_cards(F, [(card, [F.num(7), F.num(3), BL, F.s(ty)] + [BL] * 4 + d)])
    c += [("CBAR" if card == "PBARL" else "CBEAM", [F.num(21), F.num(7)] + nodes(F, 0, 1) + [F.r(0.), F.r(0.), F.r(1.)])]
    e = {"ROD": lambda: {"SECTION": "CERCLE", "R": d[0].v}, "TUBE": lambda: {"SECTION": "CERCLE", "R": d[0].v, "EP": F.add(d[0].v, F.neg(d[1].v))},
         "BAR": lambda: {"SECTION": "RECTANGLE", "VARI_SECT": "CONSTANT", "HY": d[1].v, "HZ": d[0].v}}[ty]()
    return static(), c, {"poutre": {0: e}, "materials": {0: mat, ...: 1}, "orientation": {0: {"VECT_Y": [0, 0, 1]}}}


def NSM(F):
    """non-structural mass of a bar: the mass per unit length is carried as well"""
    A, nsm = F.d("A", pos=True), F.d("nsm", pos=True)
    away(F, F.div(nsm.v, A.v))
    c, mat = bar_cards(F, [("PBAR", [F.num(7), F.num(3), A, F.r(1.), F.r(2.), F.r(3.), nsm])])
    c += [("CBAR", [F.num(21), F.num(7)] + nodes(F, 0, 1) + [F.r(0.), F.r(0.), F.r(1.)])] + clamp(F)
    return static(None, 2), c, {"superposed": {(0, 1): Bag([mat, {"ELAS": {"E": 0, "NU": 0, "RHO": F.div(nsm.v, A.v)}}])}, "statics": [case(F, ddl=clamped())]}


def SHELLS(F):
    """thickness, offset of the elements of one property"""
    t, z = F.d("t", pos=True), F.d("z", nz=True)
    m, mat = mat1(F)
    pts = SQUARE + [(2., 0., 0.), (2., 1., 0.)]
    c = grids(F, pts) + m + [("PSHELL", [F.num(9), F.num(3), t]), ("CQUAD4", [F.num(23), F.num(9)] + nodes(F, 0, 1, 2, 3)), ("CQUAD4", [F.num(24), F.num(9)] + nodes(F, 1, 4, 5, 2) + [BL, z])]
    return static(), c, {"model": {0: SHELL, 1: SHELL}, "materials": {0: mat, 1: mat}, "coque": {0: {"EPAIS": t.v, ...: 1}, 1: {"EPAIS": t.v, "EXCENTREMENT": z.v, ...: 1}}, "excentrement": {0: 0, 1: z.v}}


def LAMINATE(F):
    """layers from bottom to top with their own materials; the offset of the laminate"""
    t1, t2, a1, a2, z0 = F.d("t1", pos=True), F.d("t2", pos=True), F.d("a1"), F.d("a2"), F.d("z0")
    E1, E2 = F.d("E1", pos=True), F.d("E2", pos=True)
    sym = F.pick("sym", [0, 1])
    m8 = lambda k, E: ("MAT8", [F.num(k), E, F.r(2.), F.r(.25), F.r(3.), F.r(4.), F.r(5.), F.r(6.)])
    o8 = lambda E: {"ELAS_ORTH": {"E_L": E.v, "E_T": F.c(2), "NU_LT": F.c(.25), "G_LT": F.c(3), "G_LN": F.c(4), "G_TN": F.c(5), "RHO": F.c(6)}}
    lay = [{"EPAIS": t.v, "ORIENTATION": a.v, "MATER": o8(E)} for t, a, E in ((t1, a1, E1), (t2, a2, E2))]
    if sym:
        lay = lay + lay[::-1]
    tot = F.mul(F.c(2 if sym else 1), F.add(t1.v, t2.v))
    away(F, F.add(z0.v, F.mul(F.c(.5), tot)))
    c = grids(F, SQUARE) + [m8(4, E1), m8(5, E2), ("PCOMP", [F.num(9), z0, BL, BL, BL, BL, BL, F.s("SYM") if sym else BL, F.num(4), t1, a1, BL, F.num(5), t2, a2]), ("CQUAD4", [F.num(23), F.num(9)] + nodes(F, 0, 1, 2, 3))]
    return static(), c, {"model": {0: SHELL}, "materials": {0: {"COUCHE": lay}}, "coque": {0: {"EPAIS": tot, "COQUE_NCOU": len(lay), ...: 1}}, "excentrement": {0: F.add(z0.v, F.mul(F.c(.5), tot))}}


def SOLIDS(F):
    """two solids with different properties"""
    E1, E2 = F.d("E1", pos=True), F.d("E2", pos=True)
    m1, s1 = mat1(F, 3, E=E1)
    m2, s2 = mat1(F, 4, E=E2)
    pts = CUBE + [(0., 0., 2.)]
    c = grids(F, pts) + m1 + m2 + [("PSOLID", [F.num(8), F.num(3)]), ("PSOLID", [F.num(9), F.num(4), BL, F.s("TWO"), BL, F.s("FULL")]), ("CHEXA", [F.num(21), F.num(8)] + nodes(F, *range(8))), ("CPYRAM" if False else "CTETRA", [F.num(22), F.num(9)] + nodes(F, 4, 5, 6, 8))]
    return static(), c, {"model": {0: SOLID, 1: ["3D"], ...: 1}, "materials": {0: s1, 1: s2, ...: 1}}


def SPRING(F):
    """a scalar spring acts on the named components only"""
    k, c1, c2 = F.d("k", pos=True), F.pick("c1", [1, 3, 5]), F.pick("c2", [None, 1, 3, 6])
    card = F.pick("card", ["CELAS2", "CELAS1"])
    m, mat = mat1(F)
    c2_ = c1 if c2 is None else c2
    ends = [F.num(12), F.num(c1), F.num(14), F.num(c2_)]
    c = grids(F, SQUARE) + m + ([("CELAS2", [F.num(23), k] + ends)] if card == "CELAS2" else [("PELAS", [F.num(7), k]), ("CELAS1", [F.num(23), F.num(7)] + ends)])
    a, b = c1 - 1, 6 + c2_ - 1
    return static(), c, {"discret": {0: {"K": sym6({(a, a): k.v, (a, b): F.neg(k.v), (b, b): k.v}, 2)}, ...: 1}, "conn": {0: [1, 3], ...: 1}}


def GROUNDED(F):
    """a grounded scalar spring: the other end is fixed"""
    k, c1 = F.d("k", pos=True), F.pick("c1", [1, 2, 3, 4, 5, 6])
    c = grids(F, SQUARE) + [("CELAS2", [F.num(23), k, F.num(12), F.num(c1)])]
    a, b = c1 - 1, 6 + c1 - 1
    return static(), c, {"discret": {0: {"K": sym6({(a, a): k.v, (a, b): F.neg(k.v), (b, b): k.v}, 2)}, ...: 1}, "conn": {0: [1, 4], ...: 1}, "statics": [case(F, ddl=clamped(4))]}


def BUSH(F):
    """six stiffnesses of a bushing element"""
    ks = [F.d("k%d" % j, pos=True) for j in range(6)]
    c = grids(F, SQUARE) + [("PBUSH", [F.num(7), F.s("K")] + ks), ("CBUSH", [F.num(23), F.num(7)] + nodes(F, 1, 3) + [BL, BL, BL, F.num(0)])]
    e = {}
    for j, k in enumerate(ks):
        e[(j, j)], e[(j, j + 6)], e[(j + 6, j + 6)] = k.v, F.neg(k.v), k.v
    return static(), c, {"discret": {0: {"K": sym6(e, 2)}, ...: 1}, "conn": {0: [1, 3], ...: 1}}


def MASS(F):
    """concentrated mass: offset and inertia (products of inertia enter the matrix with a minus sign)"""
    m, x, i = F.d("m", pos=True), [F.d("x%d" % k, nz=True) for k in range(3)], [F.d("i%d" % k, nz=True) for k in range(6)]
    k = F.pick("what", ["mass", "offset", "inertia"])
    c = grids(F, SQUARE[:2]) + [("CONM2", [F.num(23), F.num(12), BL, m] + ([] if k == "mass" else x if k == "offset" else x + [BL] + i))]
    neg_ = lambda f: F.neg(f.v)
    J = [0] * 6 if k != "inertia" else [i[0].v, i[2].v, i[5].v, neg_(i[1]), neg_(i[4]), neg_(i[3])]
    e = sym6({(j, j): m.v for j in range(3)}, 1) if k == "mass" else {"mass": m.v, "inertia": J, "eccentricity": [f.v for f in x]}
    return static(), c, {"discret": {0: {"M": e}, ...: 1}, "conn": {0: [1], ...: 1}}


def WEIGHTED(F):
    """the factor of PARAM WTMASS on every mass of the structure: density, non-structural mass, concentrated and scalar masses and inertias"""
    w, k = F.d("w", pos=True), F.pick("what", ["bar", "shell", "offset", "inertia", "CMASS2", "CONM1", "DMIG"])
    away(F, w.v)
    times = lambda v: F.mul(v, w.v)
    param, c, out = [("PARAM", [F.s("WTMASS"), w])], grids(F, SQUARE), {}
    if k in ("bar", "shell"):
        A, nsm = F.d("A", pos=True), F.d("nsm", pos=True)
        away(F, F.div(nsm.v, A.v))
        away(F, times(F.div(nsm.v, A.v)))
        c += mat1(F)[0] + ([("PBAR", [F.num(7), F.num(3), A, F.r(1.), F.r(2.), F.r(3.), nsm]), ("CBAR", [F.num(21), F.num(7)] + nodes(F, 0, 1) + [F.r(0.), F.r(0.), F.r(1.)])] if k == "bar" else
                           [("PSHELL", [F.num(9), F.num(3), A, F.num(3), BL, F.num(3), BL, nsm]), ("CQUAD4", [F.num(23), F.num(9)] + nodes(F, 0, 1, 2, 3))])
        out = {"superposed": {(0, 1) if k == "bar" else (0, 1, 2, 3): Bag([{"ELAS": {"E": F.c(210), "NU": F.c(.25), "RHO": times(F.c(7.5))}}, {"ELAS": {"E": 0, "NU": 0, "RHO": times(F.div(nsm.v, A.v))}}])}}
    elif k in ("offset", "inertia"):
        m, x, i = F.d("m", pos=True), [F.d("x%d" % j, nz=True) for j in range(3)], [F.d("i%d" % j, nz=True) for j in range(6 if k == "inertia" else 0)]
        c += [("CONM2", [F.num(23), F.num(12), BL, m] + x + ([BL] + i if i else []))]
        J = [times(i[0].v), times(i[2].v), times(i[5].v)] + [F.neg(times(i[j].v)) for j in (1, 4, 3)] if i else [0] * 6
        out = {"discret": {0: {"M": {"mass": times(m.v), "inertia": J, "eccentricity": [f.v for f in x]}}, ...: 1}}
    else:
        m = F.d("m", pos=True)
        away(F, m.v)
        away(F, times(m.v))
        c += {"CMASS2": [("CMASS2", [F.num(23), m, F.num(12), F.num(2)])], "CONM1": [("CONM1", [F.num(23), F.num(12), BL, BL, BL, m])],
              "DMIG": [("DMIG", [F.s("MAX"), F.num(0), F.num(6), F.num(1), F.num(0)]), ("DMIG", [F.s("MAX"), F.num(12), F.num(2), BL, F.num(12), F.num(2), m])]}[k]
        out = {"assembled": {"K": {}, "M": {((1, 1), (1, 1)): m.v if k == "DMIG" else times(m.v)}, "A": {}}}
    late = F.pick("late", [0, 1])
    return ["SOL 101", "M2GG = MAX", "CEND"] if k == "DMIG" else static(), c + param if late else param + c, out


def link(a, b, v, F):
    """matrix of a scalar element between two (node, component)"""
    a, b = (a[0], a[1] - 1), (b[0], b[1] - 1)
    return {(a, a): v, (min(a, b), max(a, b)): F.neg(v), (b, b): v}


def DAMPERS(F):
    """viscous elements: their damping on the named components, and no stiffness"""
    k = F.pick("card", ["CDAMP1", "CDAMP1 grounded", "CVISC", "CBUSH", "CBUSH both"])
    b = F.d("b", pos=True)
    away(F, b.v)
    e = {"K": {}, "M": {}, "A": {}}
    c = grids(F, SQUARE)
    if k.startswith("CDAMP1"):
        c1, c2 = F.pick("c1", [1, 4]), F.pick("c2", [2, 6])
        g = k != "CDAMP1"
        c += [("PDAMP", [F.num(7), b]), ("CDAMP1", [F.num(23), F.num(7), F.num(12), F.num(c1)] + ([] if g else [F.num(14), F.num(c2)]))]
        e["A"] = link((1, c1), (4, c1) if g else (3, c2), b.v, F)
    elif k == "CVISC":
        b2 = F.d("b2", pos=True)
        away(F, b2.v)
        c += [("PVISC", [F.num(7), b, b2]), ("CVISC", [F.num(23), F.num(7)] + nodes(F, 0, 1))]
        e["A"] = {}
        for j in (1, 2, 3):      # the damping is the same in all directions
            e["A"].update({**link((0, j), (1, j), b.v, F), **link((0, j + 3), (1, j + 3), b2.v, F)})
    else:
        ks = [F.d("b%d" % j, pos=True) for j in range(1, 6)]
        st = [F.d("k%d" % j, pos=True) for j in range(6)] if k == "CBUSH both" else []
        for f in ks + st:
            away(F, f.v)
        c += [("PBUSH", [F.num(7)] + ([F.s("K")] + st + [BL] if st else []) + [F.s("B"), b] + ks), ("CBUSH", [F.num(23), F.num(7)] + nodes(F, 1, 3) + [BL, BL, BL, F.num(0)])]
        for j, f in enumerate([b] + ks):
            e["A"].update(link((1, j + 1), (3, j + 1), f.v, F))
        for j, f in enumerate(st):
            e["K"].update(link((1, j + 1), (3, j + 1), f.v, F))
    return static(), c, {"assembled": e}


def MASSES(F):
    """scalar masses, and the symmetric mass matrix of a point"""
    k = F.pick("card", ["CMASS2", "CMASS2 grounded", "CONM1"])
    e = {"K": {}, "M": {}, "A": {}}
    c = grids(F, SQUARE)
    if k == "CONM1":
        n = F.pick("terms", [1, 6, 21])
        m = [F.d("m%d" % j, nz=True) for j in range(n)]
        for f in m:
            away(F, f.v)
        c += [("CONM1", [F.num(23), F.num(12), BL] + m)]
        it = [(i, j) for i in range(6) for j in range(i + 1)]
        e["M"] = {((1, j), (1, i)): f.v for (i, j), f in zip(it, m)}
    else:
        m, g, c1, c2 = F.d("m", pos=True), k != "CMASS2", F.pick("c1", [1, 4]), F.pick("c2", [2, 6])
        away(F, m.v)
        c += [("CMASS2", [F.num(23), m, F.num(12), F.num(c1)] + ([] if g else [F.num(14), F.num(c2)]))]
        e["M"] = {((1, c1 - 1), (1, c1 - 1)): m.v} if g else link((1, c1), (3, c2), m.v, F)
    return static(), c, {"assembled": e}


def DIRECT(F):
    """matrices given term by term, assembled over any points; the components without any term on points without element are fixed"""
    which, pat = F.pick("matrix", [("K", "K2GG"), ("M", "M2GG"), ("A", "B2GG")]), F.pick("points", ["one", "two", "chain", "triangle"])
    D = {"one": [(0, 1, 0, 1), (0, 1, 0, 5), (0, 5, 0, 5)], "two": [(0, 1, 0, 1), (0, 1, 1, 2), (1, 2, 1, 2), (1, 2, 1, 3), (1, 3, 1, 3)],
         "chain": [(0, 1, 0, 1), (0, 1, 1, 1), (1, 1, 1, 1), (1, 1, 2, 6), (2, 6, 2, 6)],
         "triangle": [(0, 1, 0, 1), (0, 1, 1, 1), (0, 1, 2, 1), (1, 1, 1, 1), (1, 1, 2, 1), (2, 1, 2, 1)]}[pat]
    name, c, e = "K" + which[0] + "AX", grids(F, SQUARE[:3]), {"K": {}, "M": {}, "A": {}}
    c.append(("DMIG", [F.s(name), F.num(0), F.num(6), F.num(1), F.num(0)]))
    cols = {}
    for j, (g, d, h, x) in enumerate(D):
        v = F.d("v%d" % j, nz=True)
        away(F, v.v)
        cols.setdefault((g, d), []).append((h, x, v))
        e[which[0]][((g, d - 1), (h, x - 1))] = v.v
    for (g, d), rows in cols.items():
        c.append(("DMIG", [F.s(name), F.num(11 + g), F.num(d), BL] + sum([[F.num(11 + h), F.num(x), v, BL] for h, x, v in rows], [])[:-1]))
    used = {(g, DOFN[d - 1]) for g, d, *_ in D} | {(h, DOFN[d - 1]) for _, _, h, d in D}

    def fixed(got):
        return all(x[2] == 0 for x in got) and not {(x[0], x[1]) for x in got} & used and all((n, d) in {(x[0], x[1]) for x in got} for n in {n for n, _ in used} for d in DOFN[:3] if (n, d) not in used)
    if F.pick("loaded", [0, 1]) and pat != "triangle":
        # loads elsewhere do not matter
        used.add((2, "DY"))
        c += [("FORCE", [F.num(4), F.num(13), BL, F.r(2.), F.r(0.), F.r(1.)])]
        return ["SOL 101", "%s = %s" % (which[1], name), "CEND", "LOAD = 4"], c, {"assembled": e, "statics": [case(F, ddl=fixed, forces={2: [0, 2, 0, 0, 0, 0]})]}
    return ["SOL 101", "%s = %s" % (which[1], name), "CEND"], c, {"assembled": e, "statics": [case(F, ddl=fixed)]}


# ---------------------------------------------------------------- loads and constraints of static analyses
def bar(F, n=1):
    """bars along X, clamped at the first node by set 2"""
    m, mat = mat1(F)
    c = grids(F, [(float(k), 0., 0.) for k in range(n + 1)]) + m + [("PBAR", [F.num(7), F.num(3), F.r(1.), F.r(2.), F.r(3.), F.r(4.)])]
    return c + [("CBAR", [F.num(21 + k), F.num(7)] + nodes(F, k, k + 1) + [F.r(0.), F.r(0.), F.r(1.)]) for k in range(n)] + clamp(F)


ROT = ("CORD2R", lambda F, cid: [F.num(cid), BL] + [F.r(x) for x in (0., 0., 0.)] + [F.r(x) for x in (0., 0., 1.)] + [F.r(x) for x in (0., 1., 0.)])     # x' = Y, y' = -X, z' = Z


def turned(F, x, y, z):
    return [F.neg(y), x, z]


def FORCES(F):
    """forces of one set add up at a node, in the global frame"""
    f, g, x, y, z = F.d("f", nz=True), F.d("g", nz=True), F.d("x", nz=True), F.d("y", nz=True), F.d("z", nz=True)
    local = F.pick("cid", [0, 1])
    c = bar(F) + ([(ROT[0], ROT[1](F, 5))] if local else []) + [("FORCE", [F.num(4), F.num(12), F.num(5) if local else BL, f, x, y, z]), ("FORCE", [F.num(4), F.num(12), BL, g, F.r(1.)]),
                                                               ("MOMENT", [F.num(4), F.num(12), F.num(5) if local else BL, f, z, x, y])]
    m = lambda a: F.mul(f.v, a.v)
    w, t = [m(x), m(y), m(z)], [m(z), m(x), m(y)]
    if local:
        w, t = turned(F, *w), turned(F, *t)
    away(F, F.add(w[0], g.v))
    return static(4, 2), c, {"statics": [case(F, ddl=clamped(), forces={1: [F.add(w[0], g.v), w[1], w[2]] + t})]}


def FORCES12(F):
    """forces along the line between two nodes and normal to two lines"""
    f, g = F.d("f", nz=True), F.d("g", nz=True)
    c = bar(F, 2) + [("GRID", [F.num(15), BL, F.r(1.), F.r(2.), F.r(0.)]), ("FORCE1", [F.num(4), F.num(12), f, F.num(12), F.num(15)]), ("FORCE2", [F.num(4), F.num(13), g, F.num(12), F.num(13), F.num(12), F.num(15)])]
    return static(4, 2), c, {"statics": [case(F, ddl=clamped(), forces={1: [0, f.v, 0, 0, 0, 0], 2: [0, 0, g.v, 0, 0, 0]})]}


def COMBINED(F):
    """LOAD: scaled sum of sets, those of the combination only"""
    s, s1, s2, f, g, a = [F.d(k, nz=True) for k in ("S", "S1", "S2", "f", "g", "a")]
    for k in (s1, s2):
        away(F, F.add(F.mul(s.v, k.v), F.c(-1)))
    c = bar(F) + [("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("FORCE", [F.num(5), F.num(12), BL, g, F.r(0.), F.r(1.)]), ("MOMENT", [F.num(5), F.num(12), BL, a, F.r(0.), F.r(1.)]), ("FORCE", [F.num(6), F.num(12), BL, g, F.r(0.), F.r(1.)]),
                  ("LOAD", [F.num(8), s, s1, F.num(4), s2, F.num(5)])]
    return static(8, 2), c, {"statics": [case(F, ddl=clamped(), forces={1: [F.mul(s.v, s1.v, f.v), F.mul(s.v, s2.v, g.v), 0, 0, F.mul(s.v, s2.v, a.v), 0]})]}


def FACTORS(F):
    """LOAD: every kind of load with its factor, in a subcase, and as it is in another one"""
    how = F.pick("load", ["FORCE1", "FORCE2", "PLOAD", "PLOAD1", "PLOAD2", "PLOAD4", "SPCD", "GRAV", "RFORCE"])
    p, f = [F.d(k, pos=how in ("RFORCE", "GRAV")) for k in ("p", "f")]
    for x in (p, f):
        away(F, x.v)
    away(F, F.add(f.v, F.c(-1)))
    q = F.mul(f.v, p.v)
    away(F, q)
    n4 = [F.num(4)]
    shell = grids(F, SQUARE) + mat1(F)[0] + [("PSHELL", [F.num(9), F.num(3), F.r(.5)]), ("CQUAD4", [F.num(21), F.num(9)] + nodes(F, 0, 1, 2, 3))] + clamp(F)
    c = shell if how in ("PLOAD2", "PLOAD4", "PLOAD") else bar(F, 2)
    x = {"FORCE1": n4 + [F.num(13), p, F.num(11), F.num(12)], "FORCE2": n4 + [F.num(13), p, F.num(11), F.num(12), F.num(11), F.num(99)], "PLOAD": n4 + [p] + nodes(F, 0, 1, 2, 3),
         "PLOAD1": n4 + [F.num(21), F.s("FY"), F.s("FR"), F.r(0.), p, F.r(1.), p], "PLOAD2": n4 + [p, F.num(21)], "PLOAD4": n4 + [F.num(21), p], "SPCD": n4 + [F.num(13), F.num(25), p],
         "GRAV": n4 + [BL, p, F.r(0.), F.r(1.)], "RFORCE": n4 + [F.num(13), BL, p, F.r(0.), F.r(1.), F.r(0.)]}[how]
    if how == "SPCD":
        c.append(("SPC1", [F.num(2), F.num(25), F.num(13)]))
    if how == "FORCE2":
        c.append(("GRID", [F.num(99), BL, F.r(0.), F.r(0.), F.r(1.)]))
    c += [(how, x), ("LOAD", [F.num(8), F.r(1.), f, F.num(4)])]

    def e(v):
        k = dict(ddl=clamped() if c[0] else [])
        if how == "FORCE1":
            k["forces"] = {2: [v, 0, 0, 0, 0, 0]}
        elif how == "FORCE2":
            k["forces"] = {2: [0, F.neg(v), 0, 0, 0, 0]}
        elif how == "PLOAD":
            k["forces"] = {j: [0, 0, F.div(v, F.c(4)), 0, 0, 0] for j in range(4)}
        elif how == "PLOAD1":
            k["lines"] = {0: constant(F, "FY", v)}
        elif how in ("PLOAD2", "PLOAD4"):
            k["pressures"] = {0: F.neg(v)}
        elif how == "SPCD":
            k["ddl"] = clamped() + [[2, d, v] for d in ("DY", "DRY")]
        elif how == "GRAV":
            k["gravity"] = [[v, [0, 1, 0]]]
        return case(F, **k)
    if how == "RFORCE":
        w = F.mul(F.c(2 * math.pi), p.v)
        two = F.mul(w, w, f.v)
        r = lambda g, sq: case(F, ddl=clamped(), rotation=[[g, [0, 1, 0], [2, 0, 0]]])
        sq = (lambda g: AND(toz(g) * toz(g) <= toz(two) * z3.RealVal("1.00001"), toz(g) * toz(g) >= toz(two) * z3.RealVal("0.99999"), toz(g) >= 0)) if F.sym else (lambda g: g >= 0 and abs(g * g - two) <= 1e-4 * two)
        e2 = [r(near(F, w), 0), r(sq, 1)]
    else:
        e2 = [e(p.v), e(q)]
    order = F.pick("order", [0, 1])
    lines = ["SOL 101", "CEND", "SPC = 2"]
    for j, k in enumerate((8, 4) if order else (4, 8)):
        lines += ["SUBCASE %d" % (j + 1), "LOAD = %d" % k]
    return lines, c, {"statics": e2[::-1] if order else e2}


def constant(F, ty, v):
    """a line load of one value over the whole length"""
    def ok(g):
        if set(g) != {ty} or not isinstance(g[ty], dict) or set(g[ty]) != {"DEFI_FONCTION"}:
            return False
        x = CM.as_list(g[ty]["DEFI_FONCTION"]["VALE"])
        at = {0: None, 1: None}
        for a, y in zip(x[::2], x[1::2]):
            if not is_z(a) and abs(float(a) - round(float(a))) < 1e-9 and round(float(a)) in at:
                at[round(float(a))] = y if at[round(float(a))] is None or (not is_z(at[round(float(a))]) and at[round(float(a))] == 0) else at[round(float(a))]
        if any(y is None for y in at.values()):
            return False
        return AND(*[EQ(y, v) for y in at.values()]) if F.sym else all(abs(y - v) <= 1e-5 * abs(v) for y in at.values())
    return ok


def GRAVITY(F):
    """gravity: intensity and direction"""
    g = F.d("g", pos=True)
    k, sg = F.pick("axis", [0, 1, 2]), F.pick("sign", [1, -1])
    two = F.pick("scaled", [0, 1])
    n = [F.r(0.), F.r(0.), F.r(0.)]
    n[k] = F.r(float(sg))
    c = bar(F) + [("GRAV", [F.num(4), BL, g] + n)] + ([("LOAD", [F.num(8), F.r(2.), F.r(1.5), F.num(4)])] if two else [])
    return static(8 if two else 4, 2), c, {"statics": [case(F, ddl=clamped(), gravity=[[F.mul(F.c(3), g.v) if two else g.v, [sg if j == k else 0 for j in range(3)]]])]}


def ROTATION(F):
    """centrifugal load: axis, centre and speed in revolutions per unit time"""
    a = F.d("a", pos=True)
    k = F.pick("axis", [0, 1, 2])
    n = [F.r(0.), F.r(0.), F.r(0.)]
    n[k] = F.r(1.)
    c = bar(F, 2) + [("RFORCE", [F.num(4), F.num(13), BL, a] + n)]
    w = F.mul(F.c(2 * math.pi), a.v)
    return static(4, 2), c, {"statics": [case(F, ddl=clamped(), rotation=[[near(F, w), [1 if j == k else 0 for j in range(3)], [2, 0, 0]]])]}


def near(F, w):
    def ok(g):
        if F.sym:
            d = toz(g) - toz(w)
            return AND(d * 10 ** 4 < toz(w), -d * 10 ** 4 < toz(w))
        return abs(g - w) <= 1e-4 * abs(w)
    return ok


def SHELLP(F):
    """pressures on shells act along the normal of the element"""
    p, q = F.d("p", nz=True), F.d("q", nz=True)
    m, mat = mat1(F)
    pts = SQUARE + [(2., 0., 0.), (2., 1., 0.)]
    flip = F.pick("flip", [0, 1])
    how = F.pick("card", ["PLOAD2", "PLOAD4"])
    second = (5, 4, 1, 2) if flip else (1, 4, 5, 2)
    sq = second if not flip else (2, 5, 4, 1) if False else (2, 5, 4, 1)
    sq = (1, 4, 5, 2) if not flip else (2, 5, 4, 1)
    c = grids(F, pts) + m + [("PSHELL", [F.num(9), F.num(3), F.r(.5)]), ("CQUAD4", [F.num(23), F.num(9)] + nodes(F, 0, 1, 2, 3)), ("CQUAD4", [F.num(24), F.num(9)] + nodes(F, *sq))] + clamp(F)
    if how == "PLOAD2":
        c += [("PLOAD2", [F.num(4), p, F.num(23)]), ("PLOAD2", [F.num(4), q, F.num(24)])]
    elif how == "PLOAD4":
        c += [("PLOAD4", [F.num(4), F.num(23), p]), ("PLOAD4", [F.num(4), F.num(24), q])]
    else:
        raise Reject() if not F.sym else Infeasible()
    sg = -1 if flip else 1
    z = lambda v, s_: v if s_ > 0 else F.neg(v)
    return static(4, 2), c, {"tractions": [{(0, 1, 2, 3): [0, 0, p.v], (1, 2, 4, 5): [0, 0, z(q.v, sg)]}], "statics": [case(F, ddl=clamped(), pressures={0: F.neg(p.v), 1: F.neg(q.v)})]}


FACES = {(0, 2): ((0, 1, 2, 3), (0, 0, 1)), (4, 6): ((4, 5, 6, 7), (0, 0, -1)), (0, 5): ((0, 1, 4, 5), (0, 1, 0)), (1, 6): ((1, 2, 5, 6), (-1, 0, 0)), (2, 7): ((2, 3, 6, 7), (0, -1, 0)), (3, 4): ((0, 3, 4, 7), (1, 0, 0))}


def SOLIDP(F):
    """a pressure on the face of a solid pushes into the solid"""
    p = F.d("p", nz=True)
    ks = sorted(FACES)
    k = F.pick("face", list(range(len(ks))))
    swap = F.pick("swap", [0, 1])
    m, mat = mat1(F)
    a, b = ks[k][::-1] if swap else ks[k]
    c = grids(F, CUBE) + m + [("PSOLID", [F.num(8), F.num(3)]), ("CHEXA", [F.num(21), F.num(8)] + nodes(F, *range(8))), ("SPC1", [F.num(2), F.num(123), F.num(11)]), ("PLOAD4", [F.num(4), F.num(21), p, BL, BL, BL] + nodes(F, a, b))]
    ns, d = FACES[ks[k]]
    return static(4, 2), c, {"tractions": [{ns: [0 if x == 0 else p.v if x > 0 else F.neg(p.v) for x in d]}]}


def PRESSED(F):
    """a pressure on the polygon of three or four points, on whatever is below: half of it on each triangle of three of the four points, a third at each point of a triangle"""
    from fractions import Fraction as Q
    k = F.pick("points", ["triangle", "square", "kite", "arrow", "trapezium", "other diagonal", "warped"])
    pts = {"triangle": [(0., 0., 0.), (3., 0., 0.), (1., 2., 0.)], "square": SQUARE, "kite": [(0., 0., 0.), (2., -1., 0.), (6., 0., 0.), (2., 1., 0.)], "arrow": [(0., 0., 0.), (4., 1., 0.), (3., 3., 0.), (1., 4., 0.)],
           "trapezium": [(0., 0., 0.), (4., 0., 0.), (3., 2., 0.), (0., 2., 0.)], "other diagonal": [(4., 0., 0.), (3., 2., 0.), (0., 2., 0.), (0., 0., 0.)], "warped": [(0., 0., 0.), (2., 0., 0.), (2., 2., 1.), (0., 2., 0.)]}[k]
    p = F.d("p", nz=True)
    n = len(pts)
    c = grids(F, pts) + [("PLOAD", [F.num(4), p] + nodes(F, *range(n)))]
    tri = [(0, 1, 2)] if n == 3 else [(0, 1, 2), (0, 2, 3), (0, 1, 3), (1, 2, 3)]
    w = {i: [Q(0)] * 3 for i in range(n)}
    for t in tri:
        u, v = [[Q(pts[j][q]) - Q(pts[t[0]][q]) for q in range(3)] for j in t[1:]]
        x = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        for i in t:
            w[i] = [y + z / (6 if n == 3 else 12) for y, z in zip(w[i], x)]
    val = lambda q: 0 if q == 0 else F.div(F.mul(F.c(q.numerator), p.v), F.c(q.denominator))
    return static(4), c, {"statics": [case(F, forces={i: [val(q) for q in w[i]] + [0, 0, 0] for i in w}, ddl=lambda g: True)]}


def LINES(F):
    """line loads on a part of a bar: from the first value to the second one between the two places, nothing elsewhere"""
    p, q = F.d("p", nz=True), F.d("q", nz=True)
    ty = F.pick("type", ["FX", "FY", "FZ", "MX", "MY", "MZ"])
    lo, hi = F.pick("span", [(0., 1.), (0.25, 0.5), (0., 0.5)])
    c = bar(F) + [("PLOAD1", [F.num(4), F.num(21), F.s(ty), F.s("FR"), F.r(lo), p, F.r(hi), q])]

    def table(g):
        if set(g) != {ty} or not isinstance(g[ty], dict) or set(g[ty]) != {"DEFI_FONCTION"}:
            return False
        v = CM.as_list(g[ty]["DEFI_FONCTION"]["VALE"])
        pts = list(zip(v[::2], v[1::2]))
        at = [k for k, x in enumerate(pts) if not is_z(x[0]) and abs(float(x[0]) - lo) < 1e-9]
        if len(at) != 1 or at[0] + 1 >= len(pts) or abs(float(pts[at[0] + 1][0]) - hi) > 1e-9 or any(is_z(y) or y != 0 for k, (x, y) in enumerate(pts) if k - at[0] not in (0, 1)):
            return False
        y, z = pts[at[0]][1], pts[at[0] + 1][1]
        return AND(EQ(y, p.v), EQ(z, q.v)) if F.sym else abs(y - p.v) <= 1e-5 * abs(p.v) and abs(z - q.v) <= 1e-5 * abs(q.v)
    return static(4, 2), c, {"statics": [case(F, ddl=clamped(), lines={0: table})]}


COMPS = [(1,), (2,), (3,), (4,), (5,), (6,), (1, 2, 3), (4, 5, 6), (2, 4, 6), (1, 2, 3, 4, 5, 6)]


def code(ks):
    return int("".join(map(str, ks)))


def FREEDOMS(F):
    """components fixed or imposed by each card that can do it"""
    how, ks = F.pick("how", ["SPC1", "SPC", "SPCD", "PS"]), F.pick("comps", COMPS)
    v = F.d("v", nz=True)
    c = bar(F, 2)
    if how == "PS":
        i = [k for k, x in enumerate(c) if x[0] == "GRID"][2]
        c[i] = ("GRID", [F.num(13), BL, F.r(2.), F.r(0.), F.r(0.), BL, F.num(code(ks))])
    elif how == "SPC":
        c += [("SPC", [F.num(2), F.num(13), F.num(code(ks)), v])]
    else:
        c += [("SPC1", [F.num(2), F.num(code(ks)), F.num(13)])]
    if how == "SPCD":
        c += [("SPCD", [F.num(4), F.num(13), F.num(code(ks)), v])]
    val = v.v if how in ("SPC", "SPCD") else 0
    return static(4 if how == "SPCD" else None, 2), c, {"statics": [case(F, ddl=clamped() + [[2, DOFN[k - 1], val] for k in ks])]}


def IMPOSED(F):
    """displacements imposed on several components of a point, card by card, replace the fixed components"""
    two = F.pick("comps", [((1,), (2,)), ((4,), (1, 2)), ((3,), (6,)), ((2, 5), (3,))])
    v = [F.d("v%d" % k, nz=True) for k in range(3)]
    other = F.pick("other", [0, 1])
    card = F.pick("card", ["two", "one"])
    rest = F.pick("rest", [0, 1])
    more = tuple(k for k in (3, 5, 6) if k not in two[0] + two[1])[:2] if rest else ()
    c = bar(F, 2) + [("SPC1", [F.num(2), F.num(code(sorted(two[0] + two[1] + more))), F.num(13)])]
    x = [("SPCD", [F.num(4), F.num(13), F.num(code(k)), w]) for k, w in zip(two, v)]
    if card == "one":
        x = [("SPCD", [F.num(4), F.num(13), F.num(code(two[0])), v[0], F.num(13), F.num(code(two[1])), v[1]])]
    e = clamped() + [[2, DOFN[k - 1], w.v] for ks, w in zip(two, v) for k in ks] + [[2, DOFN[k - 1], 0] for k in more]
    if other:
        c += [("SPC1", [F.num(2), F.num(35 if rest else 3), F.num(12)])]
        e += [[1, "DRY", 0]] if rest else []
        x.insert(F.pick("at", [0, 1]), ("SPCD", [F.num(4), F.num(12), F.num(3), v[2]]))
        e.append([1, "DZ", v[2].v])
    return static(4, 2), c + x, {"statics": [case(F, ddl=e)]}


def DIRECTED(F):
    """a load per area in a given direction, whatever the length of the vector that gives it, on the face of a solid"""
    p = F.d("p", nz=True)
    n = F.pick("direction", [(0., 0., 1.), (0., -2., 0.), (3., 0., 4.), (2., -1., 2.)])
    face, a, b = F.pick("face", [((0, 1, 2, 3), 0, 2), ((1, 2, 5, 6), 1, 6), ((0, 3, 4, 7), 4, 3)])
    k = F.r(2.) if F.pick("scaled", [0, 1]) else None
    m, mat = mat1(F)
    away(F, p.v)
    c = grids(F, CUBE) + m + [("PSOLID", [F.num(8), F.num(3)]), ("CHEXA", [F.num(21), F.num(8)] + nodes(F, *range(8))), ("SPC1", [F.num(2), F.num(123), F.num(11)]),
                              ("PLOAD4", [F.num(4), F.num(21), p, BL, BL, BL] + nodes(F, a, b) + [BL] + [F.r(x) for x in n])] + ([("LOAD", [F.num(6), k, F.r(1.), F.num(4)])] if k else [])
    w = math.sqrt(sum(x * x for x in n))
    return static(6 if k else 4, 2), c, {"onfaces": [{face: {d: F.mul(F.c(Fraction(x) / Fraction(w) * (2 if k else 1)), p.v) for d, x in zip(FN, n) if x}}]}


def AVERAGE(F):
    """an interpolation element: components of the dependent node, components and weights of the others"""
    names = lambda ks: [DOFN[k - 1] for k in ks]
    three = [(1, 2, 3), (4, 5, 6), (1, 2, 3, 4, 5, 6), (2,), (6,), (1, 3, 5)]
    ref, one, two = F.pick("ref", three), F.pick("one", three), F.pick("two", [(1, 2, 3), (2, 4)])
    w, x = F.d("w", pos=True), F.d("x", pos=True)
    c = bar(F, 2) + [("GRID", [F.num(15), BL, F.r(1.), F.r(2.), F.r(3.)]),
                     ("RBE3", [F.num(31), BL, F.num(15), F.num(code(ref)), w, F.num(code(one)), F.num(12), F.num(11), x, F.num(code(two)), F.num(13)])]
    e = [3, Bag(names(ref)), Bag([[1, "-".join(names(one)), w.v], [0, "-".join(names(one)), w.v], [2, "-".join(names(two)), x.v]])]
    return static(None, 2), c, {"statics": [case(F, rbe3=[e], ddl=lambda g: True)]}


def RELATED(F):
    """linear relations: every component, several relations of a set, relations of other sets left out"""
    ks = [F.pick("c%d" % k, [1, 2, 3, 4, 5, 6]) for k in range(2)]
    a = [F.d(k, nz=True) for k in ("a", "b", "d")]
    c = bar(F, 2) + [("MPC", [F.num(6), F.num(12), F.num(ks[0]), a[0], F.num(13), F.num(ks[1]), a[1]]), ("MPC", [F.num(6), F.num(13), F.num(4), a[1], F.num(12), F.num(2), a[2]]),
                     ("MPC", [F.num(8), F.num(13), F.num(4), a[1], F.num(12), F.num(3), a[2]])]
    e = [relation(F, [[1, DOFN[ks[0] - 1], a[0].v], [2, DOFN[ks[1] - 1], a[1].v]]), relation(F, [[2, "DRX", a[1].v], [1, "DY", a[2].v]])]
    return static(None, 2) + ["MPC = 6"], c, {"statics": [case(F, relations=e, ddl=lambda g: True)]}


def SPCS(F):
    """imposed values, several sets of constraints"""
    a, b = F.d("a", nz=True), F.d("b", nz=True)
    how = F.pick("how", ["SPC", "SPCADD", "PS"])
    c = bar(F, 2)[:-1]
    if how == "PS":
        c[0] = ("GRID", [F.num(11), BL, F.r(0.), F.r(0.), F.r(0.), BL, F.num(123456)])
        return static(None, 2), c + [("SPC", [F.num(2), F.num(12), F.num(2), a, F.num(13), F.num(46), b])], {"statics": [case(F, ddl=clamped() + [[1, "DY", a.v], [2, "DX" if False else "DRX", b.v], [2, "DRZ", b.v]])]}
    c += clamp(F, 3 if how == "SPCADD" else 2) + [("SPC", [F.num(2), F.num(12), F.num(2), a, F.num(13), F.num(46), b])]
    if how == "SPCADD":
        c += [("SPCADD", [F.num(9), F.num(2), F.num(3)]), ("SPC1", [F.num(5), F.num(1), F.num(13)])]
    return static(None, 9 if how == "SPCADD" else 2), c, {"statics": [case(F, ddl=clamped() + [[1, "DY", a.v], [2, "DRX", b.v], [2, "DRZ", b.v]])]}


def relation(F, terms, value=0):
    """a linear relation, whatever the factor -1 and the order of its terms; terms that may vanish are left out where they do"""
    def ok(g):
        co, v = g
        alts = []
        for sg in (1, -1):
            exp = Bag([[n, d, F.mul(F.c(sg), x)] for n, d, x in terms])
            alts.append(match(exp, Bag([list(x) for x in co])) if F.sym else cdiff(exp, Bag([list(x) for x in co])) is None)
        if F.sym:
            return AND(OR(*[toz(a) if not isinstance(a, bool) else z3.BoolVal(a) for a in alts]), EQ(v, value))
        return any(alts) and v == value
    return ok


def RIGIDS(F):
    """rigid links, interpolation elements and linear relations between given components"""
    how = F.pick("how", ["RBE2", "RBE2y", "RBE2x", "RBAR", "RBE3", "MPC"])
    y, z = F.d("y", nz=True), F.d("z", nz=True)
    c = bar(F, 2) + [("GRID", [F.num(15), BL, F.r(1.), y, z])]
    lines = static(None, 2)
    e = {}
    one, two = F.c(1), F.c(-1)
    # the displacement of node 15 as the one of a solid moving with node 12: u + rotation x (0, y, z)
    row = {1: [[3, "DX", one], [1, "DX", two], [1, "DRY", F.neg(z.v)], [1, "DRZ", y.v]], 2: [[3, "DY", one], [1, "DY", two], [1, "DRX", z.v]], 3: [[3, "DZ", one], [1, "DZ", two], [1, "DRX", F.neg(y.v)]]}
    for k in (4, 5, 6):
        row[k] = [[3, DOFN[k - 1], one], [1, DOFN[k - 1], two]]
    if how == "RBE2":
        c += [("RBE2", [F.num(31), F.num(12), F.num(123456), F.num(15)])]
        e = {"solid": [Bag([1, 3])]}
    elif how in ("RBE2x", "RBE2y"):
        k = 1 if how == "RBE2x" else 2
        c += [("RBE2", [F.num(31), F.num(12), F.num(k), F.num(15)])]
        e = {"relations": [relation(F, row[k])]}
    elif how == "RBAR":
        c += [("RBAR", [F.num(31), F.num(12), F.num(15), F.num(123456)])]
        e = {"relations": [relation(F, row[k]) for k in range(1, 7)]}
    elif how == "RBE3":
        w = F.d("w", pos=True)
        c += [("RBE3", [F.num(31), BL, F.num(15), F.num(123), w, F.num(123), F.num(12), F.num(13)])]
        e = {"rbe3": [[3, Bag(["DX", "DY", "DZ"]), Bag([[1, ("DX-DY-DZ"), w.v], [2, "DX-DY-DZ", w.v]])]]}
    else:
        a, b, d = F.d("a", nz=True), F.d("b", nz=True), F.d("c", nz=True)
        c += [("MPC", [F.num(6), F.num(12), F.num(1), a, F.num(15), F.num(3), b, BL, BL, F.num(12), F.num(5), d])]
        lines = lines + ["MPC = 6"]
        e = {"relations": [relation(F, [[1, "DX", a.v], [3, "DZ", b.v], [1, "DRY", d.v]])]}
    return lines, c, {"statics": [case(F, **dict(e, ddl=lambda g: True))]}


def SUBCASES(F):
    """each subcase has its own loads and constraints, or those given above"""
    f, g = F.d("f", nz=True), F.d("g", nz=True)
    how = F.pick("how", ["own", "common", "override"])
    c = bar(F) + [("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("FORCE", [F.num(5), F.num(12), BL, g, F.r(0.), F.r(1.)]), ("SPC1", [F.num(3), F.num(123456), F.num(12)])]
    if how == "own":
        lines = ["SOL 101", "CEND", "SUBCASE 1", "LOAD = 4", "SPC = 2", "SUBCASE 2", "LOAD = 5", "SPC = 3"]
    elif how == "common":
        lines = ["SOL 101", "CEND", "SPC = 2", "SUBCASE 1", "LOAD = 4", "SUBCASE 2", "LOAD = 5"]
    else:
        lines = ["SOL 101", "CEND", "SPC = 2", "LOAD = 4", "SUBCASE 1", "SUBTITLE = X", "SUBCASE 2", "LOAD = 5", "SPC = 3"]
    two = 0 if how == "common" else 1
    return lines, c, {"statics": [case(F, ddl=clamped(), forces={1: [f.v, 0, 0, 0, 0, 0]}), case(F, ddl=clamped(two), forces={1: [0, g.v, 0, 0, 0, 0]} if two == 0 else lambda x: True)]}


def MODES(F):
    """a search of modes: band, number, normalisation, constraints"""
    a, b, n = F.d("V1", pos=True), F.d("V2", pos=True), F.i("ND", 1, 500)
    F.assume(a.v < b.v)
    how = F.pick("how", ["both", "number", "band"])
    norm = F.pick("norm", [None, "MASS", "MAX"])
    f = {"both": [a, b, n], "number": [BL, BL, n], "band": [a, b, BL], "low": [a, BL, BL]}[how]
    c = bar(F) + [("EIGRL", [F.num(6)] + f + [BL, BL, BL, F.s(norm) if norm else BL])]
    e = {"option": {"both": "PLUS_PETITE", "number": "PLUS_PETITE", "band": "BANDE", "low": "CENTRE"}[how], "norm": "TRAN_ROTA" if norm == "MAX" else "MASS_GENE",
         "rigi": {"option": "RIGI_MECA", "ddl": Bag(clamped())}, "mass": {"option": "MASS_MECA", "ddl": Bag(clamped())},
         "freq": {"both": [], "number": [], "band": [a.v, b.v], "low": [a.v]}[how], "nmax": n.v if how in ("both", "number") else None}
    return ["SOL 103", "CEND", "SPC = 2", "METHOD = 6"], c, {"modes": [e]}


def table(F, kind, tid, scales=("LINEAR", "LINEAR"), n=2):
    """a table of n points; what it is for code_aster"""
    f, pts = [], []
    for k in range(n):
        x, y = F.d("x%d_%d" % (tid, k)), F.d("y%d_%d" % (tid, k))
        f += [x, y]
        pts.append([x.v, y.v])
    first = [F.s(kind)] if kind != "TABLED1" else [BL if x == "LINEAR" and k else F.s(x) for k, x in enumerate(scales)]
    c = [("TABLED1" if kind == "TABLED1" else "TABDMP1", [F.num(tid)] + first + [BL] * (7 - len(first)) + f + [F.s("ENDT")])]
    e = {"points": pts, "scales": ["LIN" if x == "LINEAR" else "LOG" for x in scales]}
    return c, dict(e, outside=["LINEAIRE", "LINEAIRE"]) if kind == "TABLED1" else e


def dynamic(F, how, sid=9, table_id=6, comps=((1, 5),)):
    """a harmonic excitation: nodal amplitudes, function of the frequency, constant phase"""
    a, b, p = F.d("a", nz=True), F.d("b", nz=True), F.d("p")
    c, fun = table(F, "TABLED1", table_id, F.pick("scales", [("LINEAR", "LINEAR"), ("LINEAR", "LOG"), ("LOG", "LINEAR")]))
    k, q = F.pick("comps", list(comps))
    c += [("DAREA", [F.num(4), F.num(12), F.num(k), a]), ("DAREA", [F.num(4), F.num(13), F.num(q), b])]
    c += [("RLOAD2", [F.num(sid), F.num(4), BL, p, F.num(table_id)]) if how == "RLOAD2" else ("RLOAD1", [F.num(sid), F.num(4), BL, p, F.num(table_id)])]
    at = lambda k, v: [v if j == k else 0 for j in range(1, 7)]
    return c, {"forces": {1: at(k, a.v), 2: at(q, b.v)}, "function": fun, "phase": p.v, "type": "FORC"}


def matrices(*ks):
    return {"MATR_" + k: {"option": {"RIGI": "RIGI_MECA", "MASS": "MASS_MECA", "AMOR": "AMOR_MECA"}[k], "ddl": Bag(clamped())} for k in ks}


def steps(F, lo, st):
    """steps that the code does not take for none"""
    away(F, st.v)
    F.assume(lo.v < 1000000)


def HARMONIC(F):
    """direct frequency response: matrices with their constraints, frequencies, excitations"""
    d, e = dynamic(F, F.pick("card", ["RLOAD1", "RLOAD2"]))
    f = F.pick("freq", ["FREQ1", "FREQ"])
    if f == "FREQ1":
        lo, st, n = F.d("lo", pos=True), F.d("st", pos=True), F.i("n", 1, 10000)
        steps(F, lo, st)
        c, fs = [("FREQ1", [F.num(7), lo, st, n])], {"from": lo.v, "to": F.add(lo.v, F.mul(st.v, F.real(n.v))), "number": n.v}
    else:
        v = [F.d("f%d" % k, pos=True) for k in range(3)]
        for x, y in zip(v, v[1:]):
            F.assume(x.v < y.v)
        c, fs = [("FREQ", [F.num(7)] + v)], [x.v for x in v]
    return ["SOL 108", "CEND", "SPC = 2", "DLOAD = 9", "FREQ = 7"], bar(F, 2) + c + d, {"harmonic": [{"calculation": ["HARM", "PHYS"], "matrices": matrices("RIGI", "MASS", "AMOR"), "base": None, "frequencies": fs, "excitations": Bag([e]), "damping": None}]}


def EXCITED(F):
    """excitations by static loads: directly or as the loads that LSEQ gives for each excitation, before or after them in the deck"""
    src, card, last = F.pick("loads", ["FORCE", "LSEQ", "DAREA and FORCE"]), F.pick("card", ["RLOAD1", "RLOAD2"]), F.pick("last", [0, 1])
    v, x, loads, exc, E = [F.d("a", nz=True), F.d("b", nz=True)], [F.d("p"), F.d("q")], [], [], []
    for k in range(2):
        t, fun = table(F, "TABLED1", 60 + k)
        sid = {"FORCE": 4, "LSEQ": 14, "DAREA and FORCE": 4}[src] + k
        loads += [("FORCE", [F.num(sid), F.num(12), BL, v[k], F.r(1.), F.r(0.), F.r(0.)] if k else [F.num(sid), F.num(13), BL, v[k], F.r(0.), F.r(1.)])]
        e = {"forces": {1: [v[k].v, 0, 0, 0, 0, 0]} if k else {2: [0, v[k].v, 0, 0, 0, 0]}, "function": fun, "phase": x[k].v, "type": "FORC"}
        if src == "LSEQ":
            loads.append(("LSEQ", [F.num(50), F.num(4 + k), F.num(sid)]))
        if src == "DAREA and FORCE" and k:
            loads[-1:] = [("DAREA", [F.num(4 + k), F.num(13), F.num(3), F.r(7.)])]
            e["forces"] = {2: [0, 0, F.c(7), 0, 0, 0]}
        exc += t + [(card, [F.num(30 + k), F.num(4 + k), BL, x[k], F.num(60 + k)])]
        E.append(e)
    exc += [("DLOAD", [F.num(9), F.r(1.), F.r(1.), F.num(30), F.r(1.), F.num(31)]), ("FREQ1", [F.num(7), F.r(1.), F.r(2.), F.num(5)])]
    lines = ["SOL 108", "CEND", "SPC = 2", "DLOAD = 9", "FREQ = 7"] + (["LOADSET = 50"] if src == "LSEQ" else [])
    return lines, bar(F, 2) + (exc + loads if last else loads + exc), {"harmonic": [{"calculation": ["HARM", "PHYS"], "matrices": matrices("RIGI", "MASS", "AMOR"), "base": None,
                                                                                      "frequencies": {"from": F.c(1), "to": F.c(11), "number": 5}, "excitations": Bag(E), "damping": None}]}


def SCALED(F):
    """the factors of DLOAD: each one only for its own excitation, even where these share the table or the excitation"""
    how = F.pick("sharing", ["nothing", "table", "excitation"])
    s, f = [F.d("s", nz=True) if how != "excitation" else F.r(3.), F.r(-2.)], [F.d("f0", nz=True), F.d("f1", nz=True)]
    a, x = [F.d("a", nz=True), F.d("b", nz=True)], [F.d("p"), F.d("q")]
    c, funs, E = [("DAREA", [F.num(4 + k), F.num(12 + k), F.num(1), a[k]]) for k in range(2)], [], []
    for k in range(2 if how == "nothing" else 1):
        t, fun = table(F, "TABLED1", 60 + k)
        c += t
        funs.append(fun)
    for k in range(2):
        e = 0 if how == "excitation" else k
        if e == k:
            c.append(("RLOAD2", [F.num(30 + k), F.num(4 + k), BL, x[k], F.num(60 + (k if how == "nothing" else 0))]))
        w = F.mul(s[0].v if how != "excitation" else F.c((3, -2)[k]), f[k].v)
        away(F, F.add(w, F.c(-1)))
        fun = funs[k if how == "nothing" else 0]
        E.append({"forces": {1 + e: [a[e].v, 0, 0, 0, 0, 0]}, "function": dict(fun, points=[[p, F.mul(w, q)] for p, q in fun["points"]]), "phase": x[e].v, "type": "FORC"})
    if how == "excitation":
        c += [("DLOAD", [F.num(8 + k), s[k], f[k], F.num(30)]) for k in range(2)]
        lines = ["SUBCASE 1", "DLOAD = 8", "SUBCASE 2", "DLOAD = 9"]
    else:
        c.append(("DLOAD", [F.num(9), s[0], f[0], F.num(30), f[1], F.num(31)]))
        lines = ["DLOAD = 9"]
    x = lambda E: {"calculation": ["HARM", "PHYS"], "matrices": matrices("RIGI", "MASS", "AMOR"), "base": None, "frequencies": {"from": F.c(1), "to": F.c(11), "number": 5}, "excitations": Bag(E), "damping": None}
    return ["SOL 108", "CEND", "SPC = 2", "FREQ = 7"] + lines, bar(F, 2) + c + [("FREQ1", [F.num(7), F.r(1.), F.r(2.), F.num(5)])], {"harmonic": [x([e]) for e in E] if how == "excitation" else [x(E)]}


def search(F):
    n = F.i("nd", 1, 500)
    return [("EIGRL", [F.num(3), BL, BL, n])], n


def MODALRESPONSE(F):
    """modal frequency response: base of modes, projected matrices and excitations, frequencies, damping"""
    res = F.pick("residual", [0, 1])
    d, e = dynamic(F, "RLOAD2", comps=((1, 5), (2, 6), (3, 4)) if res else ((1, 5),))
    m, n = search(F)
    f = F.pick("freq", ["FREQ1", "FREQ4"])
    lo, hi, k = F.d("lo", pos=True), F.d("hi", pos=True), F.i("n", 1, 10000)
    if f == "FREQ1":
        steps(F, lo, hi)
        c, fs = [("FREQ1", [F.num(7), lo, hi, k])], {"from": lo.v, "to": F.add(lo.v, F.mul(hi.v, F.real(k.v))), "number": k.v}
    else:
        F.assume(lo.v < hi.v)
        sp = F.d("spread", pos=True)
        c, fs = [("FREQ4", [F.num(7), lo, hi, sp, k])], {"from": lo.v, "to": hi.v, "number": k.v, "around": [[0], "RELATIF", sp.v]}
    dmp = F.pick("damping", [None, "CRIT", "G"])
    x = {"calculation": ["HARM", "GENE"], "matrices": matrices("RIGI", "MASS", *([] if dmp else ["AMOR"])), "frequencies": fs, "excitations": Bag([e]), "damping": None,
         "base": {"modes": [0], "static": Bag([[q, DOFN[j]] for q, w in e["forces"].items() for j in range(6) if is_z(w[j]) or w[j] != 0]) if res else []}}
    if dmp:
        t, fun = table(F, dmp, 8)
        c += t
        x["damping"] = [F.c(1) if dmp == "CRIT" else F.c(.5), dict(fun, outside=lambda g: True), [0]]
    lines = ["SOL 111", "CEND", "SPC = 2", "DLOAD = 9", "FREQ = 7", "METHOD = 3"] + (["SDAMPING = 8"] if dmp else []) + (["RESVEC = YES"] if res else [])
    return lines, bar(F, 2) + (d + m + c if not res and F.pick("order", [0, 1]) else c + d + m), {"harmonic": [x], "modes": [dict(modes(n), nmax=n.v)]}


def modes(n, p=0):
    return {"option": "PLUS_PETITE", "norm": "MASS_GENE", "freq": [], "nmax": n.v, "rigi": {"option": "RIGI_MECA", "ddl": Bag(clamped(p))}, "mass": {"option": "MASS_MECA", "ddl": Bag(clamped(p))}}


def REUSED(F):
    """modes found once serve the analyses with the same search and constraints, and no other"""
    d, e = dynamic(F, "RLOAD2")
    m, n = search(F)
    c = bar(F, 2) + d + m + [("SPC1", [F.num(5), F.num(123456), F.num(13)]), ("FREQ1", [F.num(7), F.r(1.), F.r(2.), F.num(3)])]
    how = F.pick("how", ["same", "spc", "method"])
    two = {"same": ["SPC = 2", "METHOD = 3"], "spc": ["SPC = 5", "METHOD = 3"], "method": ["SPC = 2", "METHOD = 8"]}[how]
    k = F.i("k", 1, 500)
    if how == "method":
        c += [("EIGRL", [F.num(8), BL, BL, k])]
        F.assume(k.v != n.v)
    lines = ["SOL 111", "CEND", "DLOAD = 9", "FREQ = 7", "SUBCASE 1", "SPC = 2", "METHOD = 3", "SUBCASE 2"] + two
    at = 2 if how == "spc" else 0
    ms = [modes(n)] + ([] if how == "same" else [modes(n, 2)] if how == "spc" else [modes(k)])
    M = lambda p: {"MATR_" + q: {"option": o, "ddl": Bag(clamped(p))} for q, o in (("RIGI", "RIGI_MECA"), ("MASS", "MASS_MECA"), ("AMOR", "AMOR_MECA"))}
    x = lambda p, b: {"calculation": ["HARM", "GENE"], "matrices": M(p), "frequencies": {"from": 1, "to": 7, "number": 3}, "excitations": Bag([e]), "damping": None, "base": {"modes": [b], "static": []}}
    return lines, c, {"modes": ms, "harmonic": [x(0, 0), x(at, 0 if how == "same" else 1)]}


def STRUCTURAL(F):
    """structural damping of a direct response: the stiffness times G/W3, where both are given"""
    g, w = F.d("g", pos=True), F.d("w", pos=True)
    away(F, g.v)
    away(F, w.v)
    how = F.pick("given", ["both", "G", "W3"])
    d, e = dynamic(F, "RLOAD2")
    c = [("PARAM", [F.s("G"), g])] if how != "W3" else []
    c += [("PARAM", [F.s("W3"), w])] if how != "G" else []
    m = matrices("RIGI", "MASS", "AMOR")
    if how == "both":
        m["MATR_AMOR"] = {"comb": Bag([[quotient(F, g.v, w.v), m["MATR_RIGI"]], [F.c(1), m["MATR_AMOR"]]])}
    return ["SOL 108", "CEND", "SPC = 2", "DLOAD = 9", "FREQ = 7"], bar(F, 2) + [("FREQ1", [F.num(7), F.r(1.), F.r(2.), F.num(3)])] + d + c, {"harmonic": [{"calculation": ["HARM", "PHYS"], "matrices": m, "base": None, "frequencies": {"from": 1, "to": 7, "number": 3}, "excitations": Bag([e]), "damping": None}]}


def quotient(F, a, b):
    def ok(g):
        g = Fraction(g) if isinstance(g, (int, float)) and F.sym else g
        return EQ(toz(g) * toz(b), toz(a)) if F.sym else abs(g * b - a) <= 1e-4 * abs(a)
    return ok


def RAYLEIGH(F):
    """damping proportional to the mass (ALPHA1) and to the stiffness (ALPHA2), on every material"""
    a, b = F.d("a", nz=True), F.d("b", nz=True)
    away(F, a.v)
    away(F, b.v)
    how = F.pick("given", ["both", "ALPHA1", "ALPHA2"])
    m, mat = mat1(F)
    c = grids(F, SQUARE[:2]) + m + [("PROD", [F.num(7), F.num(3), F.r(2.)]), ("CROD", [F.num(21), F.num(7)] + nodes(F, 0, 1))]
    e = dict(mat["ELAS"])
    if how != "ALPHA2":
        c.append(("PARAM", [F.s("ALPHA1"), a]))
        e["AMOR_BETA"] = a.v
    if how != "ALPHA1":
        c.append(("PARAM", [F.s("ALPHA2"), b]))
        e["AMOR_ALPHA"] = b.v
    return static(), c, {"materials": {0: {"ELAS": lambda g: set(g) == set(e) and same_values(F, e, g), ...: 1}}}


def same_values(F, e, g):
    r = [match(e[k], g[k]) if F.sym else cdiff(e[k], g[k]) is None for k in e]
    return AND(*[x for x in r if x is not True]) if F.sym else all(r)


def CUTOFF(F):
    """the modes kept: those between LFREQ and HFREQ"""
    a, b, n = F.d("lo", pos=True), F.d("hi", pos=True), F.i("n", 1, 100)
    away(F, a.v)
    F.assume(a.v < b.v)
    F.assume(b.v < 10 ** 6)
    how = F.pick("given", ["both", "LFREQ", "HFREQ", "none"])
    c = bar(F) + [("EIGRL", [F.num(6), BL, BL, n])]
    c += [("PARAM", [F.s("LFREQ"), a])] if how in ("both", "LFREQ") else []
    c += [("PARAM", [F.s("HFREQ"), b])] if how in ("both", "HFREQ") else []
    return ["SOL 103", "CEND", "SPC = 2", "METHOD = 6"], c, {"kept": [[[0], a.v if how in ("both", "LFREQ") else 0, b.v if how in ("both", "HFREQ") else (lambda g: not is_z(g) and g >= 1e29)]]}


def BETWEEN(F):
    """frequencies in equal steps in each interval cut by the modes between the ends of the range (FREQ3)"""
    n = F.pick("number", [2, 3, 6])
    d, e = dynamic(F, "RLOAD2")
    m, k = search(F)
    out = []
    for modes_ in Told.SAMPLES:
        b = [2.] + sorted(x for x in modes_ if 2. < x < 10.) + [10.]
        out.append([x + j * (y - x) / (n - 1) for x, y in zip(b, b[1:]) for j in range(n - 1)] + [10.])
    x = {"calculation": ["HARM", "GENE"], "matrices": matrices("RIGI", "MASS", "AMOR"), "frequencies": {"sampled": [lambda g, o=o: len(g) == len(o) and all(abs(u - v) < 1e-5 for u, v in zip(sorted(g), o)) for o in out]},
         "excitations": Bag([e]), "damping": None, "base": {"modes": [0], "static": []}}
    return ["SOL 111", "CEND", "SPC = 2", "DLOAD = 9", "FREQ = 7", "METHOD = 3"], bar(F, 2) + d + m + [("FREQ3", [F.num(7), F.r(2.), F.r(10.), BL, F.num(n)])], {"harmonic": [x], "modes": [dict(modes(k), nmax=k.v)]}


def BUCKLING(F):
    """buckling: geometric stiffness of the static preload, lowest critical loads"""
    f, n = F.d("f", nz=True), F.i("nd", 1, 500)
    c = bar(F, 2) + [("FORCE", [F.num(4), F.num(13), BL, f, F.r(1.)]), ("EIGRL", [F.num(3), BL, BL, n])]
    lines = ["SOL 105", "CEND", "SPC = 2", "SUBCASE 1", "LOAD = 4", "SUBCASE 2", "METHOD = 3"]
    return lines, c, {"statics": [case(F, ddl=clamped(), forces={2: [f.v, 0, 0, 0, 0, 0]})],
                      "modes": [{"option": "PLUS_PETITE", "nmax": n.v, "rigi": {"option": "RIGI_MECA", "ddl": Bag(clamped())}, "mass": {"option": "RIGI_GEOM", "ddl": lambda g: True, "stress": [0]}, "norm": None, "freq": []}]}


def PRELOADS(F):
    """several searches of critical loads after one preload: each about the stresses of the static analysis, with its own number"""
    f, n, m, k = F.d("f", nz=True), F.i("nd", 1, 500), F.i("ndp", 1, 500), F.i("ndn", 1, 500)
    a, b, lo, up = F.pick("STATSUB 2", [False, True]), F.pick("STATSUB 3", [False, True]), F.d("L1"), F.d("L2")
    F.assume(lo.v < up.v)
    search_ = F.pick("card", ["EIGB", "EIGRL"])
    c = bar(F, 2) + [("FORCE", [F.num(4), F.num(13), BL, f, F.r(1.)]), ("EIGRL", [F.num(3), BL, BL, n]),
                     ("EIGB", [F.num(5), F.s("SINV"), lo, up, BL, m, k]) if search_ == "EIGB" else ("EIGRL", [F.num(5), lo, up, m])]
    sub = lambda x: ["STATSUB = 1"] if x else []
    lines = ["SOL 105", "CEND", "SPC = 2", "SUBCASE 1", "LOAD = 4", "SUBCASE 2", "METHOD = 3"] + sub(a) + ["SUBCASE 3", "METHOD = 5"] + sub(b)
    e = lambda x: {"option": "PLUS_PETITE", "nmax": x, "rigi": {"option": "RIGI_MECA", "ddl": Bag(clamped())}, "mass": {"option": "RIGI_GEOM", "ddl": lambda g: True, "stress": [0]}, "norm": None, "freq": []}
    return lines, c, {"statics": [case(F, ddl=clamped(), forces={2: [f.v, 0, 0, 0, 0, 0]})], "modes": [e(n.v), e(m.v)]}


def fixed(F, p, dof, sg, val):
    """one component held to sg*val: by itself or as a relation"""
    v = lambda x: F.mul(F.c(sg), x) if val is not None else F.c(0)

    def ok(c):
        ddl, rel = list(c["ddl"]), list(c["relations"])
        rest = [x for x in ddl if [x[0], x[1]] != [p, dof]]
        got = [[F.c(1), x[2]] for x in ddl if [x[0], x[1]] == [p, dof]] + [[r[0][0][2], r[1]] for r in rel if len(r[0]) == 1 and [r[0][0][0], r[0][0][1]] == [p, dof]]
        if len(got) != 1 or len(rel) + len(ddl) != len(rest) + 1 or len(rest) != 6:
            return False
        k, x = got[0]
        num = lambda y: toz(y) if F.sym else y
        w = num(x) - num(k) * num(v(val)) if val is not None else num(x)
        base = match(Bag(clamped()), Bag(rest)) if F.sym else cdiff(Bag(clamped()), Bag(rest)) is None
        return AND(base, EQ(w, 0), z3.Not(num(k) == 0)) if F.sym else base and abs(w) <= 1e-6 * max(1, abs(float(x))) and abs(k) > 1e-6
    return ok


def LOCALSPC(F):
    """components fixed or imposed in the displacement frame of the node"""
    how = F.pick("how", ["SPC1", "SPC", "SPCD"])
    local = how != "SPCD"
    k = F.pick("component", [1, 2, 3, 4, 5, 6])
    v = F.d("v", nz=True)
    c = bar(F, 2) + [(ROT[0], ROT[1](F, 5)), ("GRID", [F.num(15), BL, F.r(0.), F.r(0.), F.r(1.), F.num(5) if local else BL]), ("CBAR", [F.num(29), F.num(7), F.num(15), F.num(11), F.r(0.), F.r(1.), F.r(0.)])]
    lines = static(4 if how == "SPCD" else None, 2)
    c += [("SPC1", [F.num(2), F.num(k), F.num(15)])] if how == "SPC1" else [("SPC", [F.num(2), F.num(15), F.num(k), v])] if how == "SPC" else [("SPC1", [F.num(2), F.num(k), F.num(15)]), ("SPCD", [F.num(4), F.num(15), F.num(k), v])]
    # x' = Y, y' = -X, z' = Z
    dof, sg = {1: ("DY", 1), 2: ("DX", -1), 3: ("DZ", 1), 4: ("DRY", 1), 5: ("DRX", -1), 6: ("DRZ", 1)}[k] if local else (DOFN[k - 1], 1)
    return lines, c, {"statics": [fixed(F, 3, dof, sg, None if how == "SPC1" else v.v)]}


def COMBINATION(F):
    """combination of the results of the subcases"""
    f, g, k, l = F.d("f", nz=True), F.d("g", nz=True), F.i("k", 1, 99), F.i("l", 1, 99)
    c = bar(F) + [("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("FORCE", [F.num(5), F.num(12), BL, g, F.r(0.), F.r(1.)])]
    lines = ["SOL 101", "CEND", "SPC = 2", "SUBCASE 1", "LOAD = 4", "SUBCASE 2", "LOAD = 5", "SUBCOM 3", ["SUBSEQ = ", k, "., -", l, "."]]
    return lines, c, {"combined": [Bag([[[0], F.real(k.v)], [[1], F.neg(F.real(l.v))]])], "statics": [case(F, ddl=clamped(), forces={1: [f.v, 0, 0, 0, 0, 0]}), case(F, ddl=clamped(), forces={1: [0, g.v, 0, 0, 0, 0]})]}


def NONLINEAR(F):
    """nonlinear static subcases: each goes on from the previous one, from its loads to its own, in the steps of its strategy"""
    f, g, n, k = F.d("f", nz=True), F.d("g", nz=True), F.i("n", 1, 1000), F.i("k", 1, 1000)
    law = F.pick("law", [None, "PLASTIC"])
    c = bar(F) + [("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("FORCE", [F.num(5), F.num(12), BL, g, F.r(0.), F.r(1.)]), ("NLPARM", [F.num(8), n]), ("NLPARM", [F.num(9), k])]
    e = {}
    if law:
        h, y = F.d("h", pos=True), F.d("y", pos=True)
        c += [("MATS1", [F.num(3), BL, F.s("PLASTIC"), h, F.num(1), F.num(1), y])]
        if F.sym:
            slope = lambda q: EQ(toz(q) * (toz(h.v) + 210), toz(h.v) * 210)
        else:
            slope = lambda q: abs(q * (h.v + 210) - h.v * 210) <= 1e-5 * h.v * 210
        e = {"materials": {0: {"ELAS": {"E": 210, "NU": F.c(.25), "RHO": F.c(7.5)}, "ECRO_LINE": {"D_SIGM_EPSI": slope, "SY": y.v}}}}
    lines = ["SOL 106", "CEND", "SPC = 2", "SUBCASE 1", "LOAD = 4", "NLPARM = 8", "SUBCASE 2", "LOAD = 5", "NLPARM = 9"]
    one, two = case(F, ddl=clamped(), forces={1: [f.v, 0, 0, 0, 0, 0]}), case(F, ddl=clamped(), forces={1: [0, g.v, 0, 0, 0, 0]})
    b = {0: {"RELATION": "VMIS_ISOT_LINE" if law else "ELAS"}}
    return lines, c, dict(e, nonlinear=[{"start": case(F, ddl=clamped()), "end": one, "steps": n.v, "from": 0, "to": 1, "behaviour": b, "after": None}, {"start": one, "end": two, "steps": k.v, "from": 1, "to": 2, "behaviour": b, "after": [0]}])


def nonlinear(spc=2, *more):
    return ["SOL 106", "CEND", "SPC = %d" % spc] + list(more) + ["SUBCASE 1", "LOAD = 4", "NLPARM = 8"]


def GAPS(F):
    """openings between nodes, together with the constraints that always apply: each closes along its own line, after its own opening"""
    u, v, f, n = F.d("u", pos=True), F.d("v", pos=True), F.d("f", nz=True), F.i("n", 1, 1000)
    to = F.pick("towards", [(0., 0., 2.), (0., -1., 0.), (3., 0., 0.), (3., 4., 0.), (-3., 0., 4.)])
    two, ground = F.pick("two", [0, 1, 2]), F.pick("fixed", [0, 1])
    c = bar(F, 2) + [("GRID", [F.num(15), BL] + [F.r(1. * (k == 0) + x) for k, x in enumerate(to)]), ("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("NLPARM", [F.num(8), n])]
    if ground:
        i = [k for k, x in enumerate(c) if x[0] == "GRID"][2]
        c[i] = ("GRID", [F.num(13), BL, F.r(2.), F.r(0.), F.r(0.), BL, F.num(2)])
    g = [("CGAP", [F.num(31), F.num(41), F.num(12), F.num(15), F.r(0.), F.r(1.), F.r(0.)]), ("PGAP", [F.num(41), u, BL, F.r(1000.)])]
    w = math.sqrt(sum(x * x for x in to))
    zs = [[1, u.v, {d: F.c(Fraction(x) / Fraction(w)) for d, x in zip(("DX", "DY", "DZ"), to) if x}]]
    if two == 1:
        g += [("CGAP", [F.num(32), F.num(42), F.num(13), F.num(11), F.r(0.), F.r(1.), F.r(0.)]), ("PGAP", [F.num(42), v, BL, F.r(1000.)])]
        zs.append([2, v.v, {"DX": F.c(-1)}])
    elif two == 2:
        g += [("CGAP", [F.num(32), F.num(41), F.num(13), F.num(11), F.r(0.), F.r(1.), F.r(0.)])]
        zs.append([2, u.v, {"DX": F.c(-1)}])
    e = case(F, ddl=clamped() + ([[2, "DY", 0]] if ground else []), forces={1: [f.v, 0, 0, 0, 0, 0]})
    return nonlinear(), c + g, {"contact": [{"formulation": "LIAISON_UNIL", "zones": Bag(zs)}], "nonlinear": [{"start": lambda g: True, "end": e, "steps": n.v, "from": 0, "to": 1, "behaviour": lambda g: True, "after": None}]}


def CONTACTS(F):
    """sliding lines, surfaces of nodes and contact bodies: which elements are on which side"""
    how = F.pick("how", ["lines", "nodes", "bodies"])
    f, mu = F.d("f", nz=True), F.d("mu", pos=True)
    m, mat = mat1(F)
    pts = SQUARE + [(x, y, .5) for x, y, z in SQUARE] + [(2., 0., .5), (2., 1., .5)]
    quad = ((23, (0, 1, 2, 3)), (24, (4, 5, 6, 7)), (25, (5, 8, 9, 6)))
    c = grids(F, pts) + m + [("PSHELL", [F.num(9), F.num(3), F.r(.5)])] + [("CQUAD4", [F.num(e), F.num(9)] + nodes(F, *ns)) for e, ns in quad] + clamp(F)
    c += [("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("NLPARM", [F.num(8), F.num(5)])]
    lines, none = nonlinear(), None
    side = lambda *ns: Bag([list(n) for n in ns])
    if how == "lines":
        c += [("BCONP", [F.num(31), F.num(51), F.num(52), BL, BL, F.num(61), F.num(1), F.num(0)]), ("BFRIC", [F.num(61), BL, BL, mu]), ("BLSEG", [F.num(51)] + nodes(F, 0, 1, 2)), ("BLSEG", [F.num(52)] + nodes(F, 8, 5))]
        z = {"slave": side((0, 1), (1, 2)), "master": side((8, 5)), "friction": mu.v}
    elif how == "nodes":
        c += [("BSCONP", [F.num(31), F.num(51), F.num(52)]), ("BSSEG", [F.num(51)] + nodes(F, 0, 1, 2, 3)), ("BSSEG", [F.num(52)] + nodes(F, 4, 5, 6, 7, 5, 8, 9, 6))]
        z = {"slave": side((0, 1, 2, 3)), "master": side((4, 5, 6, 7), (5, 8, 9, 6)), "friction": none}
    else:
        c += [("BSURF", [F.num(51), F.num(23)]), ("BSURF", [F.num(52), F.num(24), F.num(25)]), ("BCBODY", [F.num(71), BL, BL, F.num(51)]), ("BCBODY", [F.num(72), BL, BL, F.num(52)]),
              ("BCTABLE", [F.num(5), BL, BL, F.num(1)] + [BL] * 4 + [F.s("SLAVE"), F.num(71)] + [BL] * 6 + [F.s("MASTERS"), F.num(72)])]
        z = {"slave": side((0, 1, 2, 3)), "master": side((4, 5, 6, 7), (5, 8, 9, 6)), "friction": none}
        lines = nonlinear(2, "BCONTACT = 5")
    e = case(F, ddl=clamped(), forces={1: [f.v, 0, 0, 0, 0, 0]})
    return lines, c, {"contact": [{"formulation": "DISCRETE" if how == "bodies" else "CONTINUE", "zones": Bag([z])}], "nonlinear": [{"start": lambda g: True, "end": e, "steps": 5, "from": 0, "to": 1, "behaviour": lambda g: True, "after": None}]}


def SELECTED(F):
    """the contacts of each nonlinear subcase are those that it selects"""
    which = F.pick("selected", [(5, 6), (6, 6), (5, None), (None, 6), (6, 5)])
    f = F.d("f", nz=True)
    m, mat = mat1(F)
    pts = SQUARE + [(x, y, .5) for x, y, z in SQUARE] + [(x, y, 1.) for x, y, z in SQUARE]
    c = grids(F, pts) + m + [("PSHELL", [F.num(9), F.num(3), F.r(.5)])] + [("CQUAD4", [F.num(23 + e), F.num(9)] + nodes(F, *range(4 * e, 4 * e + 4))) for e in range(3)] + clamp(F)
    c += [("FORCE", [F.num(4), F.num(12), BL, f, F.r(1.)]), ("NLPARM", [F.num(8), F.num(5)])]
    c += [("BSURF", [F.num(51 + k), F.num(23 + k)]) for k in range(3)] + [("BCBODY", [F.num(71 + k), BL, BL, F.num(51 + k)]) for k in range(3)]
    pairs = {5: (0, 1), 6: (2, 1)}
    for k, (a, b) in pairs.items():
        c.append(("BCTABLE", [F.num(k), BL, BL, F.num(1)] + [BL] * 4 + [F.s("SLAVE"), F.num(71 + a)] + [BL] * 6 + [F.s("MASTERS"), F.num(71 + b)]))
    face = lambda k: Bag([list(range(4 * k, 4 * k + 4))])
    e = [None if k is None else {"formulation": "DISCRETE", "zones": Bag([{"slave": face(pairs[k][0]), "master": face(pairs[k][1]), "friction": None}])} for k in which]
    lines = ["SOL 106", "CEND", "SPC = 2", "LOAD = 4"]
    for j, k in enumerate(which):
        lines += ["SUBCASE %d" % (j + 1)] + ([] if k is None else ["BCONTACT = %d" % k]) + ["NLPARM = 8"]
    return lines, c, {"contact": e}


def HYPER(F):
    """hyperelastic material: coefficients, behaviour in large strains"""
    a, b, d, rho, a2 = F.d("a", pos=True), F.d("b", pos=True), F.od("d", None), F.od("rho", 0), F.od("a2", 0)
    f = F.d("f", nz=True)
    c = grids(F, CUBE) + [("MATHP", [F.num(3), a, b, d, rho, BL, BL, BL, BL, BL, BL, BL, BL, BL, BL, BL, a2]), ("PLSOLID", [F.num(8), F.num(3)]), ("CHEXA", [F.num(21), F.num(8)] + nodes(F, *range(8))),
                          ("SPC1", [F.num(2), F.num(123), F.num(11)]), ("FORCE", [F.num(4), F.num(13), BL, f, F.r(1.)]), ("NLPARM", [F.num(8), F.num(5)])]
    k = F.mul(F.c(1000), F.add(a.v, b.v)) if d.blank else d.v
    K = lambda g: EQ(toz(g), toz(k) * 2) if F.sym else abs(g - 2 * k) <= 1e-4 * abs(k)
    return nonlinear(), c, {"materials": {0: {"ELAS_HYPER": {"C10": a.v, "C01": b.v, "C20": a2.v, "RHO": rho.v, "K": K}, ...: 1}, ...: 1},
                            "nonlinear": [{"start": lambda g: True, "end": lambda g: True, "steps": 5, "from": 0, "to": 1, "behaviour": {0: {"RELATION": "ELAS_HYPER", "DEFORMATION": "GROT_GDEP"}, ...: 1}, "after": None}]}


SPECS = [MATERIAL, MATERIAL8, BAR, SECTIONS, NSM, SHELLS, LAMINATE, SOLIDS, SPRING, GROUNDED, BUSH, MASS, DAMPERS, MASSES, WEIGHTED, DIRECT, FORCES, FORCES12, COMBINED, GRAVITY, FACTORS, ROTATION, SHELLP, SOLIDP, PRESSED, LINES, SPCS, FREEDOMS, IMPOSED, DIRECTED, RIGIDS, AVERAGE, RELATED, SUBCASES, MODES, HARMONIC, EXCITED, SCALED, MODALRESPONSE, REUSED, STRUCTURAL, RAYLEIGH, CUTOFF, BETWEEN, BUCKLING, PRELOADS, LOCALSPC, COMBINATION, NONLINEAR, GAPS, CONTACTS, SELECTED, HYPER]
UNITS = [aster_unit("P14", f.__name__, f, {"max_steps": 3000000, "pointer_orders": True}) for f in SPECS]


def SPCD_LOCAL(F):
    """a displacement imposed by SPCD in the displacement frame of the node"""
    k, v = F.pick("component", [1, 2]), F.d("v", nz=True)
    c = bar(F, 2) + [(ROT[0], ROT[1](F, 5)), ("GRID", [F.num(15), BL, F.r(0.), F.r(0.), F.r(1.), F.num(5)]), ("CBAR", [F.num(29), F.num(7), F.num(15), F.num(11), F.r(0.), F.r(1.), F.r(0.)]),
                     ("SPC1", [F.num(2), F.num(k), F.num(15)]), ("SPCD", [F.num(4), F.num(15), F.num(k), v])]
    dof, sg = {1: ("DY", 1), 2: ("DX", -1)}[k]
    return static(4, 2), c, {"statics": [fixed(F, 3, dof, sg, v.v)]}


def suite(rng, tier):
    out = []
    for f in SPECS:
        out += aster_cases("P14", f.__name__, f, rng, 8 if tier == "quick" else 200)
    for c in aster_cases("P14", "SPCD_LOCAL", SPCD_LOCAL, random.Random(3), 1):
        c.key = "spcd:local-frame"
        out.append(c)
    return out

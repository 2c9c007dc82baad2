"""P11  Material and property cards: the material or property created is the one the Nastran definition prescribes."""
import math
from cards import *
from p09 import distinct

BL = None
(EULER, TIMO, TRUSS) = range(3)


def near(v):
    return v


def material(oid, *natures):
    return {"materials": [{"type": 0, "oid": oid.v, "natures": list(natures)}]}


def MAT1(F):
    """E, G and NU: each one missing comes from the two others"""
    m = F.i("mid")
    have = F.pick("given", ["EGN", "EG", "EN", "GN", "E", "G"])
    e, g, nu = F.d("E", pos=True), F.d("G", pos=True), F.d("NU")
    F.assume(AND(nu.v > Fraction(-9, 10), nu.v < Fraction(9, 10)) if F.sym else -.9 < nu.v < .9)
    rho, a, tref, ge = (F.od(k, None) for k in ("RHO", "A", "TREF", "GE"))
    E, G, N = e.v, g.v, nu.v
    two = F.c(2)
    if have == "EG":
        N = F.add(F.div(E, F.mul(two, G)), F.c(-1))
    elif have == "EN":
        G = F.div(E, F.mul(two, F.add(N, F.c(1))))
    elif have == "GN":
        E = F.mul(two, F.add(N, F.c(1)), G)
    elif have == "E":
        N, G = 0, 0
    elif have == "G":
        N, E = 0, 0
    out = [m, e if "E" in have else BL, g if "G" in have else BL, nu if "N" in have else BL, rho, a, tref, ge]
    if F.pick("limits", [0, 1]):
        out += [F.d("ST"), F.d("SC"), F.d("SS"), F.i("mcsid")]
    return [("MAT1", out)], material(m, {"class": "ElasticNature", "e": E, "nu": N, "g": G, "rho": rho.v, "alpha": a.v, "tref": tref.v, "ge": ge.v})


def MAT8(F):
    m = F.i("mid")
    e1, e2, nu, g12 = (F.d(k) for k in ("E1", "E2", "NU12", "G12"))
    k = F.pick("n", [0, 3, 6, 11])
    names = ["G1Z", "G2Z", "RHO", "A1", "A2", "TREF", "Xt", "Xc", "Yt", "Yc", "S"]
    o = [F.od(x, None) if j < k and (j % 3 == 0 or not F.sym) else F.d(x) if j < k else Fld(None, None, "", True) for j, x in enumerate(names)]
    g1z, g2z, rho, a1, a2, tref, xt, xc, yt, yc, s = (x.v for x in o)
    return [("MAT8", [m, e1, e2, nu, g12] + o[:k])], material(m, {"class": "OrthotropicNature", "_e_longitudinal": e1.v, "_e_transverse": e2.v, "_nu_longitudinal_transverse": nu.v, "_g_longitudinal_transverse": g12.v,
                                                                 "_g_longitudinal_normal": g1z, "_g_transverse_normal": g2z, "rho": rho, "alpha_l": a1, "alpha_t": a2, "alpha_n": None, "temp_def_alpha": tref, "xt": xt, "xc": xc, "yt": yt, "yc": yc, "s_lt": s})


def MATHP(F):
    m, a10, a01 = F.i("mid"), F.od("A10", 0), F.od("A01", 0)
    d1 = F.od("D1", None)
    rho = F.od("RHO", 0)
    D1 = d1.v if not d1.blank else F.mul(F.c(1000), F.add(a10.v, a01.v))
    k = F.pick("more", [0, 1, 2])
    out, a20 = [m, a10, a01, d1, rho], 0
    if k:
        out += [F.d("AV"), F.d("TREF"), F.d("GE"), BL, F.pick("NA", [BL, F.num(1), F.num(2)]), F.pick("ND", [BL, F.num(1)])]
    if k == 2:
        x = F.d("A20")
        out += [BL] * 5 + [x]
        a20 = x.v
    return [("MATHP", out)], material(m, {"class": "HyperElasticNature", "c10": a10.v, "c01": a01.v, "c20": a20, "k": F.mul(F.c(2), D1), "rho": rho.v})


def MATS1(F):
    m = F.i("mid")
    if F.pick("kind", [0, 1]):
        t = F.i("tid")
        return [("MATS1", [m, t, F.s("NLELAST")])], material(m, {"class": "NonLinearElasticNature", "stress_strain_function_ref": [5, t.v]})
    h, lim = F.od("H", None), F.od("LIMIT1", None)
    return [("MATS1", [m, F.pick("tid0", [BL, F.num(0)]), F.s("PLASTIC"), h, F.pick("YF", [BL, F.num(1)]), F.pick("HR", [BL, F.num(1)]), lim])], material(
        m, {"class": "BilinearElasticNature", "elastic_limit": lim.v, "secondary_slope": h.v, "yield_function_von_mises": True, "hardening_rule_isotropic": True})


def MATS1BAD(F):
    """laws that are not supported are refused, never replaced by another one"""
    m = F.i("mid")
    bad = F.pick("bad", [[F.num(0), F.s("PLASTIC"), BL, F.num(2)], [F.num(0), F.s("PLASTIC"), BL, BL, F.num(2)], [F.num(0), F.s("PLASTIC"), BL, BL, BL, BL, F.d("l2", pos=True)], [F.num(4), F.s("PLASTIC")], [BL, F.s("PLSTRN")]])
    return [("MATS1", [m] + bad)], {"materials": [{"type": 0, "oid": m.v, "natures": []}], "errors": 1}


def TWOMAT(F):
    """several cards of one material complete it; two materials do not mix"""
    a, b = distinct(F, "m", 2)
    e, nu, h, lim, e2, nu2 = F.d("E", pos=True), F.d("NU", pos=True), F.d("H"), F.d("L"), F.d("E2", pos=True), F.d("NU2", pos=True)
    half = lambda E, N: F.div(E, F.mul(F.c(2), F.add(N, F.c(1))))
    cards = [("MAT1", [a, e, BL, nu]), ("MATS1", [a, BL, F.s("PLASTIC"), h, BL, BL, lim]), ("MAT1", [b, e2, BL, nu2])]
    o = F.pick("order", [(0, 1, 2), (1, 2, 0), (2, 0, 1)])
    first = [x for x in o if x != 2][0], o.index(2)
    A = {"type": 0, "oid": a.v, "natures": Bag([{"class": "ElasticNature", "e": e.v, "nu": nu.v, "g": half(e.v, nu.v)}, {"class": "BilinearElasticNature", "elastic_limit": lim.v, "secondary_slope": h.v}])}
    B = {"type": 0, "oid": b.v, "natures": [{"class": "ElasticNature", "e": e2.v, "nu": nu2.v, "g": half(e2.v, nu2.v)}]}
    return [cards[k] for k in o], {"materials": Bag([A, B])}


# ---------------------------------------------------------------- properties: they apply to the elements that name them
def prop(F, pid, cls, mids=(), kw=None, **k2):
    d = {"class": cls, "oid": pid.v, "materials": Bag([[0, x.v] for x in mids]), "cells": []}
    d.update(kw or {}, **k2)
    return {"elementSets": [d]}


def PSHELL(F):
    pid, mid, t, nsm = F.i("pid"), F.i("mid"), F.od("T", 0), F.od("NSM", 0)
    m2 = F.pick("MID2", [BL, mid])
    ex = [F.d("z1"), F.d("z2")] if F.pick("z", [0, 1]) else []
    return [("PSHELL", [pid, mid, t, m2, BL, F.pick("MID3", [BL, mid]), BL, nsm] + ex)], prop(F, pid, "Shell", [mid], thickness=t.v, additional_mass=nsm.v, offset=0)


def PBAR(F):
    pid, mid, a, i1, i2, j, nsm = F.i("pid"), F.i("mid"), F.d("A"), F.od("I1", 0), F.od("I2", 0), F.od("J", 0), F.od("NSM", 0)
    out = [pid, mid, a, i1, i2, j, nsm]
    pts, k1, k2 = [], 0, 0
    if F.pick("more", [0, 1]):
        out.append(BL)
        for n in "CDEF":
            w = F.pick(n, [0, 1, 2]) if n in "CF" else F.pick(n, [0, 1]) if not F.sym else 1
            y, z = (F.d(n + "1", nz=True), F.d(n + "2")) if w == 1 else (F.od(n + "b", None), F.num(0)) if False else (BL, F.d(n + "2", nz=True)) if w == 2 else (BL, BL)
            out += [y, z]
            if w:
                Y, Z = y.v if y else 0, z.v
                pts += [[0, Y, Z], [1, Y, Z]]
        x1, x2 = F.pick("K", [(None, None), (F.d("K1", nz=True), F.d("K2", nz=True)), (None, F.d("K2b", nz=True))])
        inv = lambda x: F.div(F.c(1), x.v)
        out += [x1, x2]
        k1, k2 = (inv(x1) if x1 else 0), (inv(x2) if x2 else 0)
    return [("PBAR", out)], prop(F, pid, "GenericSectionBeam", [mid], area_cross_section=a.v, moment_of_inertia_Z=i1.v, moment_of_inertia_Y=i2.v, torsional_constant=j.v, additional_mass=nsm.v, beamModel=TIMO,
                                 shear_area_factor_Y=k1, shear_area_factor_Z=k2, recoveryPoints=pts)


def section(card):
    def f(F):
        pid, mid = F.i("pid"), F.i("mid")
        kind, n = F.pick("type", [("BAR", 2), ("ROD", 1), ("TUBE", 2), ("I", 6)])
        d = [F.d("D%d" % k, pos=True) for k in range(n)]
        nsm = F.od("NSM", 0)
        v = [x.v for x in d]
        out = [pid, mid, F.pick("group", [BL, F.s("MSCBML0")]), F.s(kind), BL, BL, BL, BL] + d + [nsm]
        if kind == "BAR":
            cls, kw = "RectangularSectionBeam", {"width": v[0], "height": v[1]}
        elif kind == "ROD":
            cls, kw = "CircularSectionBeam", {"radius": v[0]}
        elif kind == "TUBE":
            cls, kw = "TubeSectionBeam", {"getAreaCrossSection": F.mul(F.c(math.pi), F.add(F.mul(v[0], v[0]), F.neg(F.mul(v[1], v[1]))))}
            kw = {}
        else:
            cls, kw = "ISectionBeam", dict(zip(("beam_height", "lower_flange_width", "upper_flange_width", "web_thickness", "lower_flange_thickness", "upper_flange_thickness"), v))
        return [(card, out)], prop(F, pid, cls, [mid], kw, additional_mass=nsm.v, beamModel=TIMO)
    f.__name__ = card
    return f


def PBEAM(F):
    pid, mid = F.i("pid"), F.i("mid")
    a, i1, i2, j, nsm = (F.od(k, 0) for k in ("A", "I1", "I2", "J", "NSM"))
    return [("PBEAM", [pid, mid, a, i1, i2, BL, j, nsm])], prop(F, pid, "GenericSectionBeam", [mid], area_cross_section=a.v, moment_of_inertia_Z=i1.v, moment_of_inertia_Y=i2.v, torsional_constant=j.v, additional_mass=nsm.v,
                                                               beamModel=EULER, shear_area_factor_Y=0, shear_area_factor_Z=0, recoveryPoints=[])


def PROD(F):
    pid, mid, a, j, c, nsm = F.i("pid"), F.i("mid"), F.d("A", pos=True), F.od("J", 0), F.od("C", 0), F.od("NSM", 0)
    return [("PROD", [pid, mid, a, j, c, nsm])], prop(F, pid, "GenericSectionBeam", [mid], area_cross_section=a.v, torsional_constant=j.v, additional_mass=nsm.v, beamModel=TRUSS)


def PSOLID(F):
    pid, mid = F.i("pid"), F.i("mid")
    inn, isop, name = F.pick("int", [(BL, BL, "SI"), (F.s("BUBBLE"), F.s("REDUCED"), "SI"), (F.s("TWO"), F.s("FULL"), ""), (F.num(2), F.num(1), ""), (F.s("THREE"), F.s("FULL"), ""), (F.num(3), F.num(1), ""), (F.num(3), F.s("FULL"), ""), (BL, F.s("REDUCED"), "SI")])
    full = "TRIDIMENSIONAL" if not name else "TRIDIMENSIONAL_SI"
    return [("PSOLID", [pid, mid, F.pick("cordm", [BL, F.num(0)]), inn, F.pick("stress", [BL, F.s("GRID")]), isop, F.pick("fctn", [BL, F.s("SMECH")])])], prop(F, pid, "Continuum", [mid], modelName=lambda g: str(g).upper() in (("3D_SI", "TRIDIMENSIONAL_SI") if name else ("3D", "TRIDIMENSIONAL")))


def PLSOLID(F):
    pid, mid = F.i("pid"), F.i("mid")
    return [("PLSOLID", [pid, mid, F.pick("stress", [BL, F.s("GRID")])])], prop(F, pid, "Continuum", [mid], modelName=lambda g: str(g).upper() in ("3D", "TRIDIMENSIONAL"))


FT = {None: 0, "HILL": 1, "HOFF": 2, "TSAI": 3, "STRESS": 4, "STRAIN": 5, "STRN": 5, "LARC02": 6, "PUCK": 7, "MCT": 8}


def PCOMP(F):
    """layers from bottom to top; a symmetric laminate is mirrored; Z0 is the bottom of the laminate"""
    pid, z0, sb = F.i("pid"), F.od("Z0", None), F.od("SB", None)
    n = F.pick("n", [1, 2, 3])
    ft = F.pick("FT", list(FT) if n == 1 or not F.sym else ["HILL"])
    sym = F.pick("LAM", [0, 1])
    lay, out, mids, tot = [], [], [], 0
    for k in range(n):
        m = F.i("m%d" % k) if k == 0 else F.oi("m%d" % k, lay[0][0][1]) if not F.sym or n == 2 else F.i("m%d" % k)
        if k and not m.blank:
            for o in mids:
                F.assume(NOT(EQ(m.v, o.v)) if F.sym else m.v != o.v)
        t = F.d("t0", pos=True) if k == 0 else F.od("t%d" % k, lay[0][1]) if not F.sym or n == 2 else F.d("t%d" % k, pos=True)
        if k and not F.sym and not t.blank:
            t = F.d("tt%d" % k, pos=True)
        th = F.od("th0", 0) if k == 0 else F.od("th%d" % k, lay[0][2]) if not F.sym or n == 2 else F.d("th%d" % k)
        if k and m.blank and t.blank and th.blank:
            F.assume(False) if F.sym else (_ for _ in ()).throw(Reject())
        out += [m, t, th, F.pick("sout%d" % k, [BL, F.s("YES")]) if k < n - 1 or not F.sym else BL]
        lay.append([[0, m.v], t.v, th.v])
        if not m.blank:
            mids.append(m)
        tot = F.add(tot, t.v)
    if sym:
        tot = F.mul(F.c(2), tot)
    off = 0 if z0.blank else F.add(z0.v, F.mul(F.c(.5), tot))
    return [("PCOMP", [pid, z0, BL, sb, BL if ft is None else F.s(ft), BL, BL, F.s("SYM") if sym else BL] + out)], prop(
        F, pid, "Composite", mids, layers=lay, offset=off, allowableInterlaminarShearStress=sb.v, plyFailureTheory=FT[ft], laminateOption=0 if sym else 6)


def diag(v):
    return [v[a] if a == b else 0 for a in range(6) for b in range(6)]


RIGID = 1.7976931348623157e308


def PBUSH(F):
    pid = F.i("pid")
    shape = F.pick("flags", ["K", "B", "KB", "BK", "KBG"])
    out, K, B = [pid], [0] * 6, [0] * 6
    for f in shape:
        vals = []
        for k in range(6):
            x = F.od("%s%d" % (f, k), 0) if not F.sym or (f == "K" and k in (1, 4)) else F.d("%s%d" % (f, k))
            vals.append(x)
        if f == "K":
            r = F.pick("rigid", [None, 0, 5])
            if r is not None:
                vals[r] = F.s("RIGID")
        if f == "G":
            vals = vals[:2]
        if f == "K" and shape == "K":
            n = F.pick("short", [6, 4, 1])
            vals = vals[:n] + [Fld(None, 0, "", True)] * (6 - n)
        v = [F.c(RIGID) if isinstance(x.v, str) else x.v for x in vals]
        if f == "K":
            K = v
        elif f == "B":
            B = v
        if shape == "K":
            while vals and vals[-1].blank:
                vals.pop()
        out += [F.s({"K": "K", "B": "B", "G": "GE"}[f])] + vals + ([BL] if f != shape[-1] else [])
    return [("PBUSH", out)], prop(F, pid, "StructuralSegment", [], stiffness=diag(K), damping=diag(B), mass=diag([0] * 6), matrixType=2)


def PELAS(F):
    n = F.pick("n", [1, 2])
    ps = distinct(F, "pid", n)
    out, exp = [], []
    for k, p in enumerate(ps):
        K = F.od("K%d" % k, 0)
        out += [p, K] + ([F.od("GE%d" % k, 0), F.od("S%d" % k, None)] if n == 2 or F.pick("x", [0, 1]) else [])
        exp.append({"class": "ScalarSpring", "oid": p.v, "stiffness": K.v, "mass": 0, "cells": [], "materials": []})
    return [("PELAS", out)], {"elementSets": exp}


def PDAMP(F):
    n = F.pick("n", [1, 2, 3, 4])
    ps = distinct(F, "pid", n)
    out, exp = [], []
    for k, p in enumerate(ps):
        b = F.od("B%d" % k, 0) if k < 2 else F.d("B%d" % k)
        out += [p, b]
        exp.append({"class": "ScalarSpring", "oid": p.v, "damping": b.v, "mass": 0, "cells": [], "materials": []})
    return [("PDAMP", out)], {"elementSets": exp}


def PVISC(F):
    n = F.pick("n", [1, 2])
    ps = distinct(F, "pid", n)
    out, exp = [], []
    for k, p in enumerate(ps):
        a, b = (F.pick(x + str(k), [BL, F.d(x + str(k), nz=True)]) for x in ("CE", "CR"))
        A, B = (0 if x is None else x.v for x in (a, b))
        out += [p, a, b, BL]
        exp.append({"class": "StructuralSegment", "oid": p.v, "damping": diag([A] * 3 + [B] * 3), "stiffness": diag([0] * 6), "mass": diag([0] * 6), "cells": [], "materials": []})
    return [("PVISC", out[:-1])], {"elementSets": exp}


CARDS = [MAT1, MAT8, MATHP, MATS1, MATS1BAD, TWOMAT, PSHELL, PBAR, section("PBARL"), section("PBEAML"), PBEAM, PROD, PSOLID, PLSOLID, PCOMP, PBUSH, PELAS, PDAMP, PVISC]
UNITS = [card_unit("P11", f.__name__, f) for f in CARDS]


def suite(rng, tier):
    out = []
    for f in CARDS:
        out += card_cases("P11", f.__name__, f, rng, 16 if tier == "quick" else 300)
    return out

"""P12  Mesh and element cards: nodes, elements, connectivity, orientation, discrete elements and coordinate systems are the ones prescribed, whatever the order of the cards."""
import math
from cards import *
from p09 import CODES, comp, distinct
from p10 import mask, code, in_common, imposed, COMMON, cset
from p11 import prop, diag, TRUSS, TIMO

BL = None
SI = 3  # Constraint type SPC


def ids(F, name, n):
    """n distinct numbers: one arbitrary, the others at fixed distances from it"""
    off = [(7 * k) % (n + 3) if math.gcd(7, n + 3) == 1 else k for k in range(n)]
    b = F.i(name, hi=10 ** 6)
    out = []
    for o in off:
        v = b.v + o if o else b.v
        out.append(Fld("i", v, str(v)))
    return out


def vs(fs):
    return [f.v for f in fs]


def cell(i, ty, nodes, **kw):
    d = {"id": i.v, "type": ty, "nodes": vs(nodes), "virtual": False, "off": 0, "cs": 0, "orientation": None}
    d.update(kw)
    return d


def pgroup(pid, cells, name="PROP_"):
    return {"cellGroups": [{"oid": pid, "cells": Bag(cells)}]}


# ---------------------------------------------------------------- nodes
def GRID(F):
    n = F.pick("n", [1, 2]) if not F.sym else 1
    out, nodes, spcs = [], [], []
    gs = distinct(F, "id", n)
    gset = F.pick("grdset", [0, 1])
    dcp = dcd = 0
    dps = ""
    if gset:
        a, b = F.oi("gcp", 0, hi=900), F.oi("gcd", 0, lo=1000, hi=2000)
        p = F.pick("gps", ["", "3", "456"])
        out.append(("GRDSET", [BL, a, BL, BL, BL, b, F.num(int(p)) if p else BL]))
        dcp, dcd, dps = a.v, b.v, p
    for k, g in enumerate(gs):
        cp = F.pick("cp%d" % k, [BL, F.num(0), F.i("cpid%d" % k, lo=3000, hi=4000)])
        cd = F.pick("cd%d" % k, [BL, F.num(0), F.i("cdid%d" % k, lo=5000, hi=6000)])
        x = [F.od("x%d%d" % (k, j), 0) if j == 1 or not F.sym else F.d("x%d%d" % (k, j)) for j in range(3)]
        ps = F.pick("ps%d" % k, ["", "0", "246"] if F.sym and gset else ["", "0", "1", "246", "123456"])
        out.append(("GRID", [g, cp] + x + [cd, F.num(int(ps)) if ps else BL]))
        q = "" if ps == "0" else ps or dps
        nodes.append({"id": g.v, "l": [v.v for v in x], "cp": dcp if cp is BL else cp.v, "cd": dcd if cd is BL else cd.v})
        if q:
            spcs.append({"class": "SinglePointConstraint", "nodes": [g.v], "spcs": imposed([c in q for c in "123456"], 0), "sets": [[2, 0]]})
    if gset and (not F.sym or p == "3") and F.pick("late", [0, 1]):
        out.append(out.pop(0))
    e = {"nodes": Bag(nodes), "constraints": spcs, "constraintSets": [dict(COMMON, members=Bag(range(len(spcs))))] if spcs else []}
    if not spcs:
        del e["constraintSets"]
    return out, e


def SPOINT(F):
    k = F.pick("n", [1, 2, 3, 0])
    if k:
        fs = distinct(F, "s", k)
        v = vs(fs)
    else:
        a = F.pick("first", [3, 40])
        b = a + F.pick("len", [1, 4])
        fs, v = [F.num(a), F.s("THRU"), F.num(b)], list(range(a, b + 1))
    return [("SPOINT", fs)], {"nodes": Bag([{"id": x, "dofs": 1} for x in v]), "constraints": [{"class": "SinglePointConstraint", "nodes": Bag(v), "spcs": imposed([0, 1, 1, 1, 1, 1], 0), "sets": [[2, 0]]}],
                              "constraintSets": [dict(COMMON, members=[0])]}


# ---------------------------------------------------------------- elements with a property
# corner and mid-side numbering of Nastran (faces seen from outside or inside) given as geometry: position of each Nastran node on a reference element,
# and position of each MED node: the connectivity written is the one where the two agree
def mid(*p):
    return tuple(sum(x) / 2 for x in zip(*p))


TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
PEN = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)]
HEX = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
PYR = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, 1)]
# edges carrying the mid-side nodes, in the order of the two formats
NAS = {"CTETRA": (TET, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
       "CPENTA": (PEN, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 4), (2, 5), (3, 4), (4, 5), (5, 3)]),
       "CPYRAM": (PYR, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)]),
       "CHEXA": (HEX, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)])}
MEDE = {"CTETRA": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
        "CPENTA": [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
        "CPYRAM": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
        "CHEXA": [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]}
# the MED element is the mirror image: its base is run the other way round from the same first corner
FLIP = {"CTETRA": [0, 2, 1, 3], "CPENTA": [0, 2, 1, 3, 5, 4], "CPYRAM": [0, 3, 2, 1, 4], "CHEXA": [0, 3, 2, 1, 4, 7, 6, 5]}
TYPES = {"CTETRA": ("TETRA4", "TETRA10"), "CPENTA": ("PENTA6", "PENTA15"), "CPYRAM": ("PYRA5", "PYRA13"), "CHEXA": ("HEXA8", "HEXA20")}


def connectivity(card, nodes):
    """MED connectivity of the Nastran connectivity `nodes`: corners run the other way round, each mid-side node between the same two corners"""
    edges = NAS[card][1]
    nc = len(NAS[card][0])
    corner = [nodes[k] for k in FLIP[card]]
    if len(nodes) == nc:
        return corner
    at = {frozenset((nodes[a], nodes[b])): nodes[nc + k] for k, (a, b) in enumerate(edges)}
    return corner + [at[frozenset((corner[a], corner[b]))] for a, b in MEDE[card]]


def TWOBARS(F):
    """two beams between the same points: each has its own orientation"""
    (e1, e2), p, ns = distinct(F, "e", 2), F.i("pid"), distinct(F, "g", 4)
    how = F.pick("kinds", ["vg", "gv", "gg", "vv"])
    cards, cs = [], []
    for k, e in ((0, e1), (1, e2)):
        ids_ = vs(ns[:2])
        if how[k] == "g":
            fs, o = [ns[2 + k], BL, BL], {"class": "OrientationCoordinateSystem", "nodesId": ids_ + [ns[2 + k].v]}
        else:
            if how == "vv" and F.sym:   # two nearly equal directions are one system: the obligation takes opposite ones
                x = [Fld("d", F.c((0, 1 - 2 * k, 0)[j]), "%d." % (0, 1 - 2 * k, 0)[j]) for j in range(3)]
            else:
                x = [F.d("v%d%d" % (k, j), nz=j == k) for j in range(2)] + [Fld("d", F.c(0), "0.")]
                if how == "vv" and k == 1 and F.pick("opposite", [0, 1]):
                    x = [Fld("d", F.neg(q.v), "%.9E" % -q.v) for q in x0]
                x0 = x
            fs, o = x, {"class": "OrientationCoordinateSystem", "nodesId": ids_ + [INT_MAX], "v": along(F, vs(x))}
        cards.append(("CBAR", [e, p, ns[0], ns[1]] + fs))
        cs.append(cell(e, "SEG2", ns[:2], el=p.v, orientation=o, cs=None))
    return cards, {"cells": Bag(cs), "systems": lambda g: True, "cellGroups": lambda g: True}


def solid(card):
    def f(F):
        q = F.pick("quad", [0, 1])
        name = card if card != "CPYRAM" else F.pick("name", ["CPYRAM", "CPYRA"])
        n = len(NAS[card][0]) + (len(NAS[card][1]) if q else 0)
        e, ns = F.i("eid"), ids(F, "n", n)
        p = F.oi("pid", e.v)
        conn = connectivity(card, list(range(n)))
        exp = {"cells": [cell(e, TYPES[card][q], [ns[k] for k in conn], el=p.v)]}
        exp.update(pgroup(p.v, [e.v]))
        return [(name, [e, p] + ns)], exp
    f.__name__ = card
    return f


def shell(card, ty, n, layout):
    """layout: order of the fields after the nodes: th(eta), z(offset), f(lag), t(hicknesses), _ (unused)"""
    def f(F):
        e, ns = F.i("eid"), ids(F, "n", n)
        p = F.oi("pid", e.v)
        z = F.od("zoffs", 0)
        m = F.pick("rest", [0, 1, 2])
        out = []
        for c in layout:
            out.append({"h": lambda: F.d("theta") if m == 1 else F.i("mcid") if m == 2 else BL, "z": lambda: z, "_": lambda: BL, "f": lambda: F.num(1) if m == 2 else BL, "t": lambda: F.d("t%d" % len(out)) if m == 1 else BL}[c]())
        if not m and z.blank:
            out = []
        exp = {"cells": [cell(e, ty, ns, el=p.v, off=z.v)]}
        exp.update(pgroup(p.v, [e.v]))
        return [(card, [e, p] + ns + out)], exp
    f.__name__ = card
    return f


def CQUAD(F):
    n = F.pick("n", [4, 8, 9])
    e, ns = F.i("eid"), ids(F, "n", n)
    p = F.oi("pid", e.v)
    exp = {"cells": [cell(e, "QUAD%d" % n, ns, el=p.v)]}
    exp.update(pgroup(p.v, [e.v]))
    return [("CQUAD", [e, p] + ns)], exp


def CROD(F):
    e, ns = F.i("eid"), distinct(F, "g", 2)
    p = F.oi("pid", e.v)
    exp = {"cells": [cell(e, "SEG2", ns, el=p.v)]}
    exp.update(pgroup(p.v, [e.v]))
    return [("CROD", [e, p] + ns)], exp


def grids(F, ns):
    """the nodes, placed away from each other"""
    return [("GRID", [n, BL, F.num(0) if False else Fld("d", F.c(k), "%d." % k), Fld("d", F.c(k * k), "%d." % (k * k)), BL]) for k, n in enumerate(ns)]


def along(F, v):
    """unit vector along v, in the same sense"""
    def ck(g):
        if F.sym:
            g = [toz(x) for x in g]
            v2 = [toz(x) for x in v]
            cr = [g[1] * v2[2] - g[2] * v2[1], g[2] * v2[0] - g[0] * v2[2], g[0] * v2[1] - g[1] * v2[0]]
            return z3.And(*[c == 0 for c in cr], g[0] * v2[0] + g[1] * v2[1] + g[2] * v2[2] > 0, g[0] * g[0] + g[1] * g[1] + g[2] * g[2] == 1)
        n = math.sqrt(sum(x * x for x in v))
        return all(abs(a - b / n) < 1e-6 for a, b in zip(g, v))
    return ck


def orient(F, ns):
    """orientation fields and the coordinate system expected: G0, or a vector"""
    if F.pick("ori", [0, 1]):
        return [ns[2], BL, BL], {"class": "OrientationCoordinateSystem", "nodesId": vs(ns[:3])}
    x = [F.d("v1"), F.d("v2", nz=True), F.d("v3")]
    return x, {"class": "OrientationCoordinateSystem", "nodesId": vs(ns[:2]) + [INT_MAX], "v": along(F, vs(x))}


def beam(card):
    def f(F):
        e, p, ns = F.i("eid"), F.i("pid"), distinct(F, "g", 3)
        fs, ori = orient(F, ns)
        vec = F.sym and "v" in ori
        k = 1 if vec else F.pick("rest", [0, 1, 2])
        more = [[], [F.s("GGG")], [BL] * 3 + [F.num(0) if False else Fld("d", F.c(0), "0.")] * 6][k]
        exp = {"cells": [cell(e, "SEG2", ns[:2], el=p.v, orientation=ori, cs=None)], "systems": [ori]}
        exp.update(pgroup(p.v, [e.v]))
        g = grids(F, ns) if not vec and F.pick("grids", [0, 1]) else []
        cd = [(card, [e, p, ns[0], ns[1]] + fs + more)]
        return (g + cd if not g or F.pick("first", [0, 1]) else cd + g), dict(exp, cellGroups=Bag([{"oid": p.v, "cells": Bag([e.v])}, {"oid": None, "cells": [e.v]}]))
    f.__name__ = card
    return f


# ---------------------------------------------------------------- discrete elements
def CONROD(F):
    e, ns, m, a, j, c, nsm = F.i("eid"), distinct(F, "g", 2), F.i("mid"), F.d("A"), F.od("J", 0), F.od("C", 0), F.od("NSM", 0)
    return [("CONROD", [e] + ns + [m, a, j, c, nsm])], {"cells": [cell(e, "SEG2", ns)], "elementSets": [{"class": "GenericSectionBeam", "oid": None, "area_cross_section": a.v, "torsional_constant": j.v, "additional_mass": nsm.v,
            "moment_of_inertia_Y": 0, "moment_of_inertia_Z": 0, "beamModel": TRUSS, "materials": [[0, m.v]], "cells": [e.v]}]}


def CONM1(F):
    """the lower triangle row by row; the mass matrix is symmetric"""
    e, g = F.i("eid"), F.i("g")
    cid = F.pick("cid", [BL, F.num(0), F.i("cidv")])
    n = F.pick("len", [21, 1, 12])
    ms = [F.od("m%d" % k, 0) if not F.sym or k in (0, 4, 20) else F.d("m%d" % k) for k in range(n)]
    v = [m.v for m in ms] + [0] * (21 - n)
    at = lambda a, b: v[max(a, b) * (max(a, b) + 1) // 2 + min(a, b)]
    return [("CONM1", [e, g, cid] + ms)], {"cells": [cell(e, "POINT1", [g], cs=0 if cid is BL else cid.v)], "elementSets": [{"class": "DiscretePoint", "oid": e.v, "mass": [at(a, b) for a in range(6) for b in range(6)],
            "stiffness": diag([0] * 6), "damping": diag([0] * 6), "matrixType": 0, "cells": [e.v], "materials": []}]}


def CONM2(F):
    e, g = F.i("eid"), F.i("g")
    m = F.d("m")
    k = F.pick("len", [0, 3, 10])
    cid = F.pick("cid", [BL, F.num(0), F.i("cidv")]) if not k else BL
    x = [F.od("x%d" % j, 0) if not F.sym or j == 0 else F.d("x%d" % j) for j in range(3 if k else 0)]
    i = [F.od("i" + n, 0) if not F.sym or n in ("11", "32") else F.d("i" + n) for n in ("11", "21", "22", "31", "32", "33")] if k == 10 else []
    X = [f.v for f in x] or [0] * 3
    J = [f.v for f in i] or [0] * 6
    neg = lambda f: f if isinstance(f, (int, Fraction)) and f == 0 else F.neg(f)
    return [("CONM2", [e, g, cid, m] + x + ([BL] + i if i else []))], {"cells": [cell(e, "POINT1", [g], cs=0 if cid is BL else cid.v)],
            "elementSets": [{"class": "NodalMass", "oid": e.v, "m": m.v, "ixx": J[0], "iyy": J[2], "izz": J[5], "ixy": neg(J[1]), "iyz": neg(J[4]), "ixz": neg(J[3]), "ex": X[0], "ey": X[1], "ez": X[2], "cells": [e.v], "materials": []}]}


def none(v):
    """no stiffness or damping: zero or not available"""
    return v is None or v == 0 or isun(v) or v == UNAV


def ground(g):
    """constraint that clamps the node created for the grounded end"""
    return {"class": "SinglePointConstraint", "nodes": lambda n: isinstance(n, list) and len(n) == 1, "spcs": imposed([1] * 6, 0), "sets": [[2, 0]]}


def dofc(F, name, xs=(1, 4, 6)):
    c = F.pick(name, list(xs) if not F.sym else list(xs)[:2])
    return F.num(c), max(c - 1, 0)


def ends(F):
    """two ends G1 C1 G2 C2; without G2 the second one is the ground, with the same component"""
    g1, (c1, d1) = F.i("g1"), dofc(F, "c1", (1, 6, 3, 0))
    if F.pick("gnd", [0, 1]):
        if F.pick("how", [0, 1]):
            return [g1, c1], g1, None, d1, d1
        return [g1, c1, BL, BL], g1, None, d1, d1
    g2, (c2, d2) = F.i("g2", ne=[g1]), dofc(F, "c2", (5, 1, 2, 0))
    return [g1, c1, g2, c2], g1, g2, d1, d2


def spring(card):
    def f(F):
        """elements of one property, its card before or after them"""
        pid = F.i("pid")
        es = distinct(F, "e", F.pick("n", [1, 2]) if not F.sym else 1)
        k = F.d("k")
        cards, cells, spcs, by = [], [], [], {}
        for e in es:
            fs, g1, g2, d1, d2 = ends(F)
            cards.append((card, [e, pid] + fs))
            c = cell(e, "SEG2", [g1], el=pid.v)
            c["nodes"] = [g1.v, g2.v if g2 else (lambda x: True)]
            cells.append(c)
            if not g2:
                spcs.append(ground(e))
            by.setdefault((d1, d2), []).append(e.v)
        p = F.pick("prop", [0, 1, 2])
        pc = ("PELAS" if card == "CELAS1" else "PDAMP", [pid, k])
        cards = cards if not p else [pc] + cards if p == 1 else cards + [pc]
        K = k.v if p else none
        es_ = {"class": "ScalarSpring", "oid": pid.v, "cells": Bag([e.v for e in es]), "cellpositionByDOFS": Bag([[a, b, v] for (a, b), v in by.items()]), "mass": 0}
        es_.update({"stiffness": K, "damping": none} if card == "CELAS1" else {"damping": K, "stiffness": none})
        exp = {"cells": Bag(cells), "elementSets": [es_], "constraints": spcs}
        if spcs:
            exp["constraintSets"] = [dict(COMMON, members=Bag(range(len(spcs))))]
        return cards, exp
    f.__name__ = card
    return f


def CELAS2(F):
    e, k = F.i("eid"), F.d("k")
    fs, g1, g2, d1, d2 = ends(F)
    ge = F.od("ge", 0)
    c = cell(e, "SEG2", [g1])
    c["nodes"] = [g1.v, g2.v if g2 else (lambda x: True)]
    exp = {"cells": [c], "elementSets": [{"class": "ScalarSpring", "oid": e.v, "cells": [e.v], "stiffness": k.v, "cellpositionByDOFS": [[d1, d2, [e.v]]], "mass": 0}], "constraints": [] if g2 else [ground(e)]}
    if not g2:
        exp["constraintSets"] = [dict(COMMON, members=[0])]
    if len(fs) == 2:
        fs = fs + [BL, BL]
    return [("CELAS2", [e, k] + fs + ([ge] if not ge.blank or F.pick("s", [0, 1]) else []))], exp


def CELAS4(F):
    e, k, (a, b) = F.i("eid"), F.d("k"), distinct(F, "s", 2)
    return [("CELAS4", [e, k, a, b])], {"cells": [cell(e, "SEG2", [a, b])], "elementSets": [{"class": "ScalarSpring", "oid": e.v, "cells": [e.v], "stiffness": k.v, "cellpositionByDOFS": [[0, 0, [e.v]]], "mass": 0, "damping": 0}]}


def CBUSH(F):
    e, p, ns = F.i("eid"), F.i("pid"), distinct(F, "g", 3)
    how = F.pick("how", ["two", "one", "cid", "onecid", "ori"])
    two = how in ("two", "cid", "ori")
    fs, o, cs, grp = [], None, 0, [{"oid": p.v, "cells": Bag([e.v])}]
    sysm = []
    if how == "ori":
        fs, o = orient(F, ns)
        cs, sysm = None, [o]
        grp.append({"oid": None, "cells": [e.v]})
    elif "cid" in how:
        cid = F.i("cid")
        fs, cs = [BL, BL, BL, cid], cid.v
    more = []
    if how != "one" and how != "two" and F.pick("s", [0, 1]):
        more = [Fld("d", F.c(.5), ".5")]
        fs = (fs + [BL] * 4)[:4]
    pr = F.pick("prop", [0, 1, 2]) if how != "ori" else 0
    k1 = F.d("k1")
    exp = {"cells": [cell(e, "SEG2" if two else "POINT1", ns[:2] if two else ns[:1], el=p.v, cs=cs, orientation=o if o else (lambda x: True))], "cellGroups": (lambda g: True) if "cid" in how else Bag(grp), "systems": sysm}
    cards = [("CBUSH", [e, p, ns[0]] + ([ns[1]] if two else [BL] if fs else []) + fs + more)]
    if pr:
        exp["elementSets"] = [{"class": "StructuralSegment", "oid": p.v, "stiffness": diag([k1.v] + [0] * 5), "cells": [e.v]}]
        pc = [("PBUSH", [p, F.s("K"), k1])]
        cards = pc + cards if pr == 1 else cards + pc
    return cards, exp


def CVISC(F):
    e, p, ns = F.i("eid"), F.i("pid"), distinct(F, "g", 2)
    pr = F.pick("prop", [0, 1, 2])
    b = F.d("b", nz=True)
    exp = {"cells": [cell(e, "SEG2", ns, el=p.v)]}
    exp.update(pgroup(p.v, [e.v]))
    cards = [("CVISC", [e, p] + ns)]
    if pr:
        exp["elementSets"] = [{"class": "StructuralSegment", "oid": p.v, "damping": diag([b.v] * 3 + [0] * 3), "cells": [e.v]}]
        pc = [("PVISC", [p, b])]
        cards = pc + cards if pr == 1 else cards + pc
    return cards, exp


def CGAP(F):
    """the gap elements of a property are one constraint, opening from the property"""
    p = F.i("pid")
    n = F.pick("n", [1, 2]) if not F.sym else 1
    es, ns = distinct(F, "e", n), distinct(F, "g", 2 + n)
    cards, gaps = [], []
    for k, e in enumerate(es):
        cards.append(("CGAP", [e, p, ns[k], ns[k + 1], ns[n + 1] if k + 1 < n + 1 else ns[0]]))
        gaps.append([ns[k].v, ns[k + 1].v])
    u = F.od("u0", 0)
    ka = F.d("ka", pos=True)
    o = F.pick("prop", [0, 1, 2])
    if o:
        pc = [("PGAP", [p, u, BL, ka])]
        cards = pc + cards if o == 1 else cards + pc
    return cards, {"constraints": [{"class": "GapTwoNodes", "oid": p.v, "initial_gap_opening": u.v if o else 0, "directionNodePositionsByconstrainedNodePosition": Bag(gaps), "sets": [[2, 0]]}], "constraintSets": [dict(COMMON, members=[0])], "systems": lambda x: True}


def ent(**k):
    """6x6 matrix from its non-zero terms"""
    m = [0] * 36
    for (a, b), v in k["m"].items():
        m[6 * a + b] = v
    return m


def CMASS2(F):
    """the inertia force m(a1-a2) on G1 C1 and its opposite on G2 C2; without G2 the second point is the ground"""
    e, m = F.i("eid"), F.d("m", nz=True)
    fs, g1, g2, d1, d2 = ends(F)
    es = [[g1.v, g1.v, ent(m={(d1, d1): m.v})]]
    if g2:
        es += [[g2.v, g2.v, ent(m={(d2, d2): m.v})], [g1.v, g2.v, ent(m={(d1, d2): F.neg(m.v)})]]
    return [("CMASS2", [e, m] + fs)], {"elementSets": [{"class": "MassMatrix", "oid": e.v, "submatrixByNodes": Bag(es)}]}


def TWOELEM(F):
    """several elements of two properties: each property has the elements that name it, wherever the cards are"""
    (p, q), m = distinct(F, "pid", 2), F.i("mid")
    es, ns, t, u = distinct(F, "e", 3), ids(F, "n", 7), F.d("t"), F.d("u")
    cs = [("CQUAD4", [es[0], p] + ns[:4]), ("CTRIA3", [es[1], q] + ns[1:4]), ("CTRIA3", [es[2], p] + ns[4:7]), ("PSHELL", [p, m, t]), ("PSHELL", [q, m, u])]
    o = F.pick("order", [(0, 1, 2, 3, 4), (3, 4, 0, 1, 2), (0, 3, 1, 4, 2), (4, 2, 1, 3, 0), (3, 0, 4, 2, 1)])
    return [cs[k] for k in o], {"cells": Bag([cell(es[0], "QUAD4", ns[:4], el=p.v), cell(es[1], "TRI3", ns[1:4], el=q.v), cell(es[2], "TRI3", ns[4:7], el=p.v)]),
                                "elementSets": Bag([{"class": "Shell", "oid": p.v, "thickness": t.v, "cells": Bag([es[0].v, es[2].v])}, {"class": "Shell", "oid": q.v, "thickness": u.v, "cells": [es[1].v]}])}


# ---------------------------------------------------------------- coordinate systems and sets
FRAMES = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 0, -1), (1, 0, 0), (0, -1, 0)), ((Fraction(1, 3), Fraction(2, 3), Fraction(2, 3)), (Fraction(-2, 3), Fraction(-1, 3), Fraction(2, 3)), (Fraction(2, 3), Fraction(-2, 3), Fraction(1, 3)))]


def axis(F, v):
    return v if F.sym else [(lambda g, x=x: abs(g - x) < 1e-4) for x in v]


def unit_contract(F, axes):
    """contract of VectorialValue::normalized (P03.normalized.*: parallel, same sense, unit): a vector that is a positive multiple of a known unit vector gives that unit vector"""
    from p03 import VV, V3, comps, mk, cross, dot
    def h(I2, this, args):
        a = comps(I2, this)
        for e in axes:
            e = V3(e)
            cond = AND(cmpop(">", dot(a, e), 0), *[EQ(x, 0) for x in cross(a, e)])
            if cond is True or cond is not False and not F.F.I.c.feasible(NOT(cond)):
                return mk(I2, e)
        raise Unsupported("normalized: direction not known")
    F.F.I.c.contracts[VV + "::normalized"] = h


def cord2(card, cls):
    def f(F):
        c = F.i("cid")
        r = F.oi("rid", 0)
        w = F.pick("frame", list(range(len(FRAMES))))
        ex, ey, ez = [[Fraction(x) for x in v] if F.sym else [float(x) for x in v] for v in FRAMES[w]]
        A = [F.od("a%d" % k, 0) if k == 1 or not F.sym else F.d("a%d" % k) for k in range(3)]
        L, p, q = F.d("L", pos=True), F.d("p", pos=True), F.d("q")
        if not F.sym and abs(q.v) > 100:
            raise Reject()
        if F.sym:
            unit_contract(F, [ex, ey, ez])
        at = lambda *t: [F.add(A[k].v, _sum(F, [F.mul(s, v[k]) for s, v in t])) for k in range(3)]
        B, C = at((L.v, ez)), at((p.v, ex), (q.v, ez))
        num_ = lambda v: Fld("d", v, None if F.sym else "%.9E" % v)
        return [(card, [c, r] + A + [num_(v) for v in B + C])], {"systems": [{"class": cls, "origin": vs(A), "ex": axis(F, ex), "ey": axis(F, ey), "ez": axis(F, ez), "rcs": [0, r.v], "ref": [0, c.v], "isVirtual": False}]}
    f.__name__ = card
    return f


def _sum(F, xs):
    r = xs[0]
    for x in xs[1:]:
        r = F.add(r, x)
    return r


def CORD1R(F):
    n = F.pick("n", [1, 2])
    cs = distinct(F, "cid", n)
    out, exp = [], []
    for k, c in enumerate(cs):
        ns = ids(F, "n%d" % k, 3)
        out += [c] + ns
        exp.append({"class": "CartesianCoordinateSystem", "nodesId": vs(ns), "ref": [0, c.v], "isVirtual": True, "rcs": [0, 0]})
    return [("CORD1R", out)], {"systems": Bag(exp)}


def SET1(F):
    s = F.i("sid")
    if F.pick("thru", [0, 1]):
        a = F.pick("a", [1, 12])
        b = a + F.pick("b", [1, 5])
        fs, v = [F.num(a), F.s("THRU"), F.num(b)], list(range(a, b + 1))
    else:
        fs = distinct(F, "x", F.pick("n", [1, 2, 3]) if F.sym else F.pick("n", [1, 3, 9]))
        v = vs(fs)
    return [("SET1", [s] + fs)], {"values": [{"oid": s.v, "aset": Bag(v)}]}


def SET3(F):
    s = F.i("sid")
    fs = distinct(F, "x", F.pick("n", [1, 2]) if F.sym else F.pick("n", [1, 3, 9]))
    k = F.pick("des", ["GRID", "ELEM"])
    exp = {"values": [{"oid": s.v, "aset": Bag(vs(fs))}]}
    cards = [("SET3", [s, F.s(k)] + fs)]
    if k == "GRID":
        exp["nodeGroups"] = [{"name": name_of("SET3_", s), "nodes": Bag(vs(fs))}]
        return cards, exp
    p = F.i("pid")
    cs = [("CROD", [f, p, F.num(1), F.num(2)]) for f in fs]
    exp["cells"] = Bag([cell(f, "SEG2", [F.num(1), F.num(2)], el=p.v) for f in fs])
    exp["cellGroups"] = Bag([{"cells": Bag(vs(fs))}, {"cells": Bag(vs(fs))}])
    return (cs + cards if F.pick("order", [0, 1]) else cards + cs), exp


def name_of(prefix, f):
    def ok(n):
        if isinstance(n, E.SymStr):
            return len(n.p) == 2 and n.p[0] == prefix and EQ(n.p[1][1], f.v)
        return n == prefix + str(f.v)
    return ok


def BSURF(F):
    """contact surface: the elements listed, defined before or after"""
    s, p = F.i("sid"), F.i("pid")
    fs, ns = distinct(F, "x", F.pick("n", [1, 2]) if F.sym else F.pick("n", [1, 3, 9])), ids(F, "n", 4)
    cs = [("CQUAD4", [f, p] + ns) for f in fs]
    b = [("BSURF", [s] + fs)]
    return (cs + b if F.pick("order", [0, 1]) else b + cs), {"cells": Bag([cell(f, "QUAD4", ns, el=p.v) for f in fs]), "targets": [{"class": "BoundarySurface", "oid": s.v, "cells": Bag(vs(fs))}]}


def SETPROP(F):
    """numbers of sets, properties and surfaces are independent: the same number may be used for all"""
    p = F.i("pid")
    e, x = distinct(F, "e", 2)
    k = F.pick("des", ["GRID", "ELEM"])
    (n1, n2), t, m = distinct(F, "n", 2), F.d("A", pos=True), F.i("mid")
    q = F.i("q", ne=[p])
    cs = [("CROD", [e, p, n1, n2]), ("CROD", [x, q, n1, n2]), ("SET3", [p, F.s(k), x if k == "ELEM" else n1]), ("PROD", [p, m, t])]
    o = F.pick("order", [(0, 1, 2, 3), (1, 2, 0, 3), (3, 1, 2, 0), (1, 2, 3, 0)])
    exp = {"cells": Bag([cell(e, "SEG2", [n1, n2], el=p.v), cell(x, "SEG2", [n1, n2], el=q.v)]), "elementSets": [{"class": "GenericSectionBeam", "oid": p.v, "cells": [e.v]}], "values": [{"oid": p.v}]}
    if k == "GRID":
        exp["nodeGroups"] = [{"nodes": [n1.v]}]
        exp["cellGroups"] = Bag([{"cells": [e.v]}, {"cells": [x.v]}])
    else:
        exp["cellGroups"] = Bag([{"cells": [e.v]}, {"cells": [x.v]}, {"cells": [x.v]}])
    return [cs[j] for j in o], exp


CARDS = [CONROD, CONM1, CONM2, spring("CELAS1"), spring("CDAMP1"), CELAS2, CELAS4, CBUSH, CVISC, CGAP, CMASS2, TWOELEM, cord2("CORD2R", "CartesianCoordinateSystem"), cord2("CORD2C", "CylindricalCoordinateSystem"), cord2("CORD2S", "SphericalCoordinateSystem"), CORD1R, SET1, SET3, BSURF, SETPROP, TWOBARS,
         GRID, SPOINT] + [solid(c) for c in NAS] + [shell("CTRIA3", "TRI3", 3, "hz__fttt"), shell("CTRIAR", "TRI3", 3, "hz__fttt"), shell("CQUAD4", "QUAD4", 4, "hz_ftttt"), shell("CQUADR", "QUAD4", 4, "hz_ftttt"),
         shell("CTRIA6", "TRI6", 6, "hztttf"), shell("CQUAD8", "QUAD8", 8, "tttthzf"), CQUAD, CROD, beam("CBAR"), beam("CBEAM")]
UNITS = [card_unit("P12", f.__name__, f) for f in CARDS]


def suite(rng, tier):
    out = []
    for f in CARDS:
        out += card_cases("P12", f.__name__, f, rng, 16 if tier == "quick" else 300)
    return out

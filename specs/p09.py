"""P09  Load cards: the loading created is the one the Nastran definition prescribes."""
import math
from cards import *

LOAD, DLOAD, LOADSET, EXCITEID, ALLS = range(5)
(T_DYN, T_FSURF, T_GRAV, T_ROT, T_FLINE, T_NODAL, T_FACE, T_SHELL, T_COMB, T_TEMP, T_DISP) = range(11)
ANY = lambda g: True
BL = None


def ref(t, f):
    return [t, f.v]


def loadset(sid, n=1, t=LOAD, embedded=()):
    return {"type": t, "oid": sid.v, "embedded": list(embedded), "members": Bag(range(n))}


def one(sid, cls, t=LOAD, **kw):
    d = {"class": cls, "loadset": [t, sid.v]}
    d.update(kw)
    return {"loadings": [d], "loadSets": [loadset(sid, 1, t)]}


def vec(F, n, default=0):
    return [F.od("n%d" % k, default) for k in range(3)]


def FORCE(F):
    sid, g, cid, f, n = F.i("sid"), F.i("g"), F.oi("cid", 0), F.od("F", 0), vec(F, 3)
    return [("FORCE", [sid, g, cid, f] + n)], one(sid, "NodalForce", csref=[0, cid.v], nodes=[g.v], force=[F.mul(f.v, x.v) for x in n], moment=[0, 0, 0])


def MOMENT(F):
    sid, g, cid, f, n = F.i("sid"), F.i("g"), F.oi("cid", 0), F.d("M"), vec(F, 3)
    return [("MOMENT", [sid, g, cid, f] + n)], one(sid, "NodalForce", csref=[0, cid.v], nodes=[g.v], moment=[F.mul(f.v, x.v) for x in n], force=[0, 0, 0])


def FORCE1(F):
    sid, g, f = F.i("sid"), F.i("g"), F.d("F")
    g1 = F.i("g1")
    g2 = F.i("g2", ne=[g1])
    return [("FORCE1", [sid, g, f, g1, g2])], one(sid, "NodalForceTwoNodes", csref=[0, 0], nodes=[g.v], magnitude=f.v, node_position1=g1.v, node_position2=g2.v)


def FORCE2(F):
    sid, g, f = F.i("sid"), F.i("g"), F.d("F")
    gs = [F.i("g%d" % k) for k in range(1, 5)]
    return [("FORCE2", [sid, g, f] + gs)], one(sid, "NodalForceFourNodes", csref=[0, 0], nodes=[g.v], magnitude=f.v, **{"node_position%d" % (k + 1): x.v for k, x in enumerate(gs)})


def GRAV(F):
    sid, a, n = F.i("sid"), F.d("A"), vec(F, 3)
    cid = F.pick("cid", [BL, F.num(0)])
    return [("GRAV", [sid, cid, a] + n)], one(sid, "Gravity", scalingFactor=a.v, gravityVector=[x.v for x in n], csref=[0, 0])


def RFORCE(F):
    sid, g, a, n = F.i("sid"), F.i("g"), F.d("A"), [F.d("r%d" % k) for k in range(3)]
    return [("RFORCE", [sid, g, F.pick("cid", [BL, F.num(0)]), a] + n + [F.pick("method", [BL, F.num(1)])])], one(sid, "RotationNode", speed=F.mul(F.c(2 * math.pi), a.v), axis=[x.v for x in n], node_position=g.v)


def distinct(F, name, n):
    out = []
    for k in range(n):
        out.append(F.i("%s%d" % (name, k + 1), ne=out))
    if F.sym and n > 3:         # long lists: increasing or decreasing
        up = F.pick(name + "order", [True, False])
        for a, b in zip(out, out[1:]):
            F.assume(a.v < b.v if up else a.v > b.v)
    return out


def PLOAD(F):
    sid, p = F.i("sid"), F.d("p")
    gs = distinct(F, "g", 4 if F.pick("quad", [0, 1]) else 3)
    return [("PLOAD", [sid, p] + gs)], one(sid, "StaticPressure", nodes=Bag([x.v for x in gs]), magnitude=p.v, node_position4=gs[3].v if len(gs) == 4 else None,
                                           **{"node_position%d" % (k + 1): gs[k].v for k in range(3)})


def tri(F, n=1):
    eids = distinct(F, "e", n)
    out = []
    for k, e in enumerate(eids):
        out.append(("CTRIA3", [e, F.num(7)] + [F.num(3 * k + j) for j in (1, 2, 3)]))
    return eids, out


def bar(F):
    e = F.i("eid")
    X = lambda v: Fld("d", F.c(v), "%d." % v)
    return e, [("GRID", [F.num(1), BL, X(0), X(0), X(0)]), ("GRID", [F.num(2), BL, X(1), X(0), X(0)]), ("CBAR", [e, F.num(7), F.num(1), F.num(2), X(0), X(1), X(0)])]


def PLOAD1(F):
    eid, cards = bar(F)
    sid, p1, p2 = F.i("sid"), F.od("p1", 0), F.od("p2", 0)
    dirs = ["FX", "FY", "FZ", "MX", "MY", "MZ"]
    xs = [(0, 1), (0, 0.5), (0.25, 0.75), (0.5, 1)]
    (x1, x2), d, sc = F.pick("how", list(zip((xs * 2)[:6], dirs, ["FR", "FRPR", "LE"] * 2))) if F.sym else (F.pick("x", xs), F.pick("dir", dirs), F.pick("scale", ["FR", "FRPR", "LE"]))
    X = lambda v: Fld("d", Fraction(v) if F.sym else float(v), repr(float(v)))

    def table(g):
        k = next((k for k in range(len(g) - 1) if EQ(g[k][0], x1) is True and EQ(g[k + 1][0], x2) is True), None) if F.sym else next((k for k in range(len(g) - 1) if g[k][0] == x1 and g[k + 1][0] == x2), None)
        if k is None:
            return False
        rest = g[:k] + g[k + 2:]
        if not all(r[0] < x1 or r[0] > x2 for r in rest):
            return False
        conds = [match(p1.v, g[k][1]), match(p2.v, g[k + 1][1])] + [match(0, r[1]) for r in rest]
        return AND(*conds) if F.sym else close(g[k][1], p1.v) and close(g[k + 1][1], p2.v) and all(r[1] == 0 for r in rest)
    exp = one(sid, "ForceLine", cells=[eid.v], dof=dirs.index(d))
    exp.update(values=[{"class": "FunctionTable", "valuesXY": table, "parameter": 0, "value": 0, "paraX": 5 if sc == "LE" else ANY}], cells=ANY, systems=ANY)
    exp["values"][0]["paraX"] = ANY
    return cards + [("PLOAD1", [sid, eid, F.s(d), F.s(sc), X(x1), p1, X(x2), p2])], exp


def PLOAD2(F):
    eids, cards = tri(F, F.pick("n", [1, 2, 3]))
    sid, p = F.i("sid"), F.d("p")
    exp = one(sid, "NormalPressionShell", cells=Bag([e.v for e in eids]), intensity=p.v)
    exp["cells"] = ANY
    return cards + [("PLOAD2", [sid, p] + eids)], exp


DIRECTIONS = [(1., 0., 0.), (0., -3., 0.), (2., -1., 2.), (6., 0., -8.), (-4., 3., 0.), (1., 2., -2.)]


def unit(F, p, n):
    """p along n, whatever the length of n"""
    n = [Fraction(str(x)) for x in n] if not F.sym else [Fraction(0) if not is_z(x) and x == 0 else Fraction(str(z3.simplify(toz(x)))) for x in n]
    w = Fraction(math.sqrt(sum(x * x for x in n))).limit_denominator(1000)
    return [F.mul(F.c(x / w), p) for x in n]


def PLOAD4(F):
    """pressure on a shell, uniform; a range of elements; a direction"""
    sid, p = F.i("sid"), F.d("p")
    thru = F.pick("thru", [0, 1, 3])
    if thru:
        cards, eids = [], [F.num(k) for k in range(11, 11 + thru)]
        for k, e in enumerate(eids):
            cards.append(("CTRIA3", [e, F.num(7)] + [F.num(3 * k + j) for j in (1, 2, 3)]))
        sel = [F.s("THRU"), eids[-1]]
    else:
        eids, cards = tri(F)
        sel = [BL, BL]
    same = F.pick("p234", [0, 1])
    q = [p, p, p] if same else [BL, BL, BL]
    direction = F.pick("dir", [0, 1, 2])
    n = [] if direction == 0 else [F.pick("cid", [BL, F.num(0)])] + ([F.r(x) for x in F.pick("n", DIRECTIONS)] if direction == 1 else [BL, BL, F.r(2.)])
    cells = Bag([e.v for e in eids])
    if direction:
        exp = one(sid, "ForceSurface", cells=cells, force=unit(F, p.v, [x.v if x is not None else 0 for x in n[1:]]), moment=[0, 0, 0])
    else:
        exp = one(sid, "NormalPressionFace", cells=cells, intensity=p.v)
    exp["cells"] = ANY
    return cards + [("PLOAD4", [sid, eids[0], p] + q + sel + n)], exp


def PLOAD4S(F):
    """pressure on a face of a solid: positive pressure acts inwards"""
    sid, p, e = F.i("sid"), F.d("p"), F.i("eid")
    gs = [F.num(k) for k in (1, 2, 3, 4)]
    cards = [("CTETRA", [e, F.num(7)] + gs)]
    g1, g3 = F.pick("g1", gs[:3]), F.pick("g3", [BL, gs[3]])
    direction = F.pick("dir", [0, 1])
    n = [BL] + [F.r(x) for x in F.pick("n", DIRECTIONS)] if direction else []
    nodes = {"nodePosition1": g1.v, "nodePosition2": g3.v if g3 else None}
    if direction:
        exp = one(sid, "ForceSurfaceTwoNodes", cells=[e.v], force=unit(F, p.v, [x.v for x in n[1:]]), moment=[0, 0, 0], **nodes)
    else:
        exp = one(sid, "NormalPressionFaceTwoNodes", cells=[e.v], intensity=F.neg(p.v), **nodes)
    exp["cells"] = ANY
    return cards + [("PLOAD4", [sid, e, p, BL, BL, BL, g1, g3] + n)], exp


def combination(kw, t):
    def f(F):
        sid, S = F.i("sid"), F.od("S", 1)
        n = F.pick("n", [1, 2, 4])
        ps = [(F.d("s%d" % k), F.i("l%d" % k)) for k in range(n)]
        return [(kw, [sid, S] + [x for p in ps for x in p])], {"loadSets": [loadset(sid, 0, t, [[[t, l.v], F.mul(S.v, s.v)] for s, l in ps])]}
    f.__name__ = kw
    return f


def LSEQ(F):
    sid, d, l = F.i("sid"), F.i("darea"), F.i("lid")
    return [("LSEQ", [sid, d, l])], {"loadSets": [loadset(sid, 0, LOADSET, [[[LOAD, l.v], 1]])]}


def TEMP(F):
    sid = F.i("sid")
    ps = [(F.i("g%d" % k), F.d("t%d" % k)) for k in range(F.pick("n", [1, 2, 3]))]
    return [("TEMP", [sid] + [x for p in ps for x in p])], {"loadings": [{"class": "InitialTemperature", "loadset": [LOAD, sid.v], "nodes": [g.v], "temperature": t.v} for g, t in ps], "loadSets": [loadset(sid, len(ps))]}


def SLOAD(F):
    sid = F.i("sid")
    ps = [(F.i("g%d" % k), F.d("f%d" % k)) for k in range(F.pick("n", [1, 2, 3]))]
    return [("SLOAD", [sid] + [x for p in ps for x in p])], {"loadings": [{"class": "NodalForce", "loadset": [LOAD, sid.v], "nodes": [g.v], "force": [f.v, 0, 0], "moment": [0, 0, 0]} for g, f in ps], "loadSets": [loadset(sid, len(ps))]}


CODES = ["1", "2", "3", "4", "5", "6", "12", "345", "26", "123456"]


def comp(F, name, k=0):
    c = F.pick(name, CODES if k == 0 or not F.sym else CODES[7:9])
    return F.num(int(c)), [str(k + 1) in c for k in range(6)]


def DAREA(F):
    sid = F.i("sid")
    out, ls = [], []
    for k in range(F.pick("n", [1, 2])):
        g, (c, on), a = F.i("g%d" % k), comp(F, "c%d" % k, k), F.d("a%d" % k)
        out += [g, c, a]
        v = [a.v if x else 0 for x in on]
        ls.append({"class": "NodalForce", "loadset": [EXCITEID, sid.v], "nodes": [g.v], "force": v[:3], "moment": v[3:], "csref": [0, 0]})
    return [("DAREA", [sid] + out)], {"loadings": ls, "loadSets": [loadset(sid, len(ls), EXCITEID)]}


def SPCD(F):
    sid = F.i("sid")
    out, ls = [], []
    for k in range(F.pick("n", [1, 2])):
        g, (c, on), d = F.i("g%d" % k), comp(F, "c%d" % k, k), F.d("d%d" % k)
        out += [g, c, d]
        ls.append({"class": "ImposedDisplacement", "loadset": [LOAD, sid.v], "nodes": [g.v], "displacements": [d.v if x else None for x in on], "csref": [0, 0]})
    return [("SPCD", [sid] + out)], {"loadings": ls, "loadSets": [loadset(sid, len(ls))]}


V_TABLE, V_PHASE = 5, 9
M2PI = -2 * math.pi


def rload(kw):
    def f(F):
        sid, ex = F.i("sid"), F.i("excite")
        fields, exp, vals = [sid, ex], {}, []
        for nm in ("delay", "phase"):
            k = F.pick(nm, ["blank", "int", "real"])
            x = BL if k == "blank" else F.i(nm) if k == "int" else F.d(nm)
            fields.append(x)
            if k == "int":
                exp["dyna" + nm.capitalize()] = [V_PHASE, x.v]
                exp[nm] = None
            else:
                v = F.c(0) if x is None else F.mul(F.c(M2PI), x.v) if nm == "delay" else x.v
                vals.append({"class": "DynaPhase", "value": v, "oid": None})
                exp["dyna" + nm.capitalize()] = [V_PHASE, None]
                exp[nm] = v
        tb = F.i("tb")
        tp = F.i("tp") if kw == "RLOAD2" and F.pick("tp?", [0, 1]) else BL
        ty, code = F.pick("type", [(BL, 0), ("LOAD", 0), ("L", 0), (0, 0), ("DISP", 1), (1, 1), ("VELO", 2), (2, 2), ("ACCE", 3), ("A", 3), (3, 3)])
        tyf = ty if ty is BL else F.num(ty) if isinstance(ty, int) else F.s(ty)
        e = one(sid, "DynamicExcitation", DLOAD, functionTableB=[V_TABLE, tb.v], functionTableP=[V_TABLE, tp.v] if tp else ANY, loadSet=[EXCITEID, ex.v], excitType=code, oid=sid.v, **exp)
        e["loadSets"] = lambda g: (True if F.sym else None) and None
        sets = [loadset(sid, 1, DLOAD)]
        if kw == "RLOAD1":
            sets = [{"type": EXCITEID, "oid": ex.v, "embedded": [], "members": []}] + sets
        e["loadSets"] = sets
        e["values"] = vals
        return [(kw, fields + [tb, tp, tyf])], e
    f.__name__ = kw
    return f


def DELAY(F):
    sid, d = F.i("sid"), F.d("d")
    return [("DELAY", [sid, BL, BL, d])], {"values": [{"class": "DynaPhase", "value": F.mul(F.c(M2PI), d.v), "oid": sid.v}]}


def DPHASE(F):
    sid, d = F.i("sid"), F.d("d")
    return [("DPHASE", [sid, BL, BL, d])], {"values": [{"class": "DynaPhase", "value": d.v, "oid": sid.v}]}


def pairs(F):
    """(x, y) pairs of a table ended by ENDT; a pair with SKIP is ignored"""
    out, exp = [], []
    for k in range(F.pick("npairs", [1, 2, 3])):
        x, y = F.d("x%d" % k), F.d("y%d" % k)
        sk = F.pick("skip%d" % k, [0, 1, 2]) if k == 1 else 0
        out += [F.s("SKIP") if sk == 1 else x, F.s("SKIP") if sk == 2 else y]
        if not sk:
            exp.append([x.v, y.v])
    return out + [F.s("ENDT")], exp


def TABLED1(F):
    sid = F.i("sid")
    ax = [F.os("axis%d" % k, "LINEAR", ["LINEAR", "LOG"]) for k in range(2)]
    f, exp = pairs(F)
    return [("TABLED1", [sid] + ax + [BL] * 5 + f)], {"values": [{"class": "FunctionTable", "valuesXY": exp, "parameter": 1 if ax[0].v == "LOG" else 0, "value": 1 if ax[1].v == "LOG" else 0, "left": 0, "right": 0, "oid": sid.v}]}


def TABLES1(F):
    sid = F.i("sid")
    f, exp = pairs(F)
    return [("TABLES1", [sid] + [BL] * 7 + f)], {"values": [{"class": "FunctionTable", "valuesXY": exp, "parameter": 0, "value": 0, "oid": sid.v}]}


CARDS = [FORCE, MOMENT, FORCE1, FORCE2, GRAV, RFORCE, PLOAD, PLOAD1, PLOAD2, PLOAD4, PLOAD4S, combination("LOAD", LOAD), combination("DLOAD", DLOAD), LSEQ, TEMP, SLOAD, DAREA, SPCD, rload("RLOAD1"), rload("RLOAD2"), DELAY, DPHASE, TABLED1, TABLES1]
UNITS = [card_unit("P09", f.__name__, f) for f in CARDS]


def late(kw):
    """the load comes before the element it is applied to: bulk data cards come in any order"""
    load = {"PLOAD2": "PLOAD2,1,2.5,5\n", "PLOAD4": "PLOAD4,1,5,2.5\n", "PLOAD1": "PLOAD1,1,6,FX,FR,0.,2.5,1.,2.5\n"}[kw]
    text = EXEC + load + "GRID,1,,0.,0.,0.\nGRID,2,,1.,0.,0.\nGRID,3,,0.,1.,0.\nCTRIA3,5,7,1,2,3\nCBAR,6,7,1,2,0.,1.,0.\nENDDATA\n"
    eid = 6 if kw == "PLOAD1" else 5

    def check(r):
        if not isinstance(r, dict) or "exc" in r:
            return "%s before its element: %s for deck %r" % (kw, r, text)
        ls = r.get("loadings") or []
        if len(ls) != 1 or ls[0].get("cells") != [eid]:
            return "%s before its element: loadings %s; deck %r" % (kw, str(ls)[:300], text)
    return Case("late:" + kw, "deck best 0 aster " + esc(text), check)


def suite(rng, tier):
    out = []
    for kw in ("PLOAD2", "PLOAD4", "PLOAD1"):
        out.append(late(kw))
    for f in CARDS:
        out += card_cases("P09", f.__name__, f, rng, 12 if tier == "quick" else 200)
    return out

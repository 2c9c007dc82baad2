"""P10  Constraint cards: the constraint created is the one the Nastran definition prescribes, in the right set."""
from cards import *
from p09 import CODES, comp, distinct

SPCS, MPCS = 0, 1
COMMON = {"type": 2, "oid": 0, "refs": []}
BL = None


def mask(code):
    return sum(1 << (int(x) - 1) for x in str(code))


def code(F, name, xs=CODES):
    c = F.pick(name, xs)
    return F.num(int(c)), mask(c)


def cset(t, sid, n):
    return {"type": t, "oid": sid.v, "refs": [], "members": Bag(range(n))}


def in_common(c):
    """constraints that always apply"""
    d = dict(c)
    d["sets"] = [[2, 0]]
    return {"constraints": [d], "constraintSets": [dict(COMMON, members=[0])]}


def imposed(on, v):
    return [v if x else (lambda g: g is None or (isinstance(g, list) and g[1] is None)) for x in on]


def SPC(F):
    sid = F.i("sid")
    out, cs, gs = [sid], [], []
    for k in range(F.pick("n", [1, 2])):
        g, (c, on), d = F.i("g%d" % k), comp(F, "c%d" % k, k), F.od("d%d" % k, 0)
        out += [g, c, d]
        gs.append(g.v)
        cs.append({"class": "SinglePointConstraint", "nodes": [g.v], "spcs": imposed(on, d.v), "sets": [[SPCS, sid.v]]})
    return [("SPC", out)], {"pre": [("SPC", sid)], "constraints": cs, "constraintSets": [cset(SPCS, sid, len(cs))]}


def SPC1(F):
    sid, (c, on) = F.i("sid"), comp(F, "c")
    k = F.pick("n", [0, 1, 2, 3, 7])
    if k:
        gs = distinct(F, "g", k)
        fs, ids = gs, [g.v for g in gs]
    else:
        a = F.pick("first", [5, 17])
        b = a + F.pick("len", [1, 3, 9])
        fs, ids = [F.num(a), F.s("THRU"), F.num(b)], list(range(a, b + 1))
    return [("SPC1", [sid, c] + fs)], {"pre": [("SPC", sid)], "constraints": [{"class": "SinglePointConstraint", "nodes": Bag(ids), "spcs": imposed(on, 0), "sets": [[SPCS, sid.v]]}], "constraintSets": [cset(SPCS, sid, 1)]}


def SPCADD(F):
    """a union of sets: its members are the constraints of every set listed"""
    sid = F.i("sid")
    ss = distinct(F, "s", F.pick("n", [1, 2, 3]))
    for x in ss:
        F.assume(NOT(EQ(x.v, sid.v)) if F.sym else x.v != sid.v)
    cards, cs = [], []
    for k, x in enumerate(ss):
        g = F.num(k + 1)
        cards.append(("SPC1", [x, F.num(k + 1), g]))
        cs.append({"class": "SinglePointConstraint", "nodes": [k + 1], "sets": [[SPCS, x.v]]})
    add = [("SPCADD", [sid] + ss)]
    order = F.pick("order", [0, 1])
    sets = [{"type": SPCS, "oid": sid.v, "refs": [[SPCS, x.v] for x in ss], "members": Bag(range(len(ss)))}] + [cset(SPCS, x, 1) for x in ss]
    for k, x in enumerate(ss):
        sets[k + 1]["members"] = [k]
    return (add + cards if order else cards + add), {"pre": [("SPC", sid)], "constraints": cs, "constraintSets": sets}


def MPC(F):
    sid = F.i("sid")
    n = F.pick("n", [2, 3, 4, 5])
    gs = distinct(F, "g", n)
    out, exp = [sid], []
    for k in range(n):
        c = F.pick("c%d" % k, "123456" if k == 0 or not F.sym else "36"[k % 2])
        a = F.d("a%d" % k, nz=k == 0)
        out += [gs[k], F.num(int(c)), a]
        if k % 2 == 1 and k < n - 1:
            out += [BL, BL]
        exp.append([gs[k].v, [a.v if int(c) == j + 1 else 0 for j in range(6)]])
    return [("MPC", out)], {"pre": [("MPC", sid)], "constraints": [{"class": "LinearMultiplePointConstraint", "dofCoefsByNodePosition": Bag(exp), "coef_impo": 0, "sets": [[MPCS, sid.v]]}], "constraintSets": [cset(MPCS, sid, 1)]}


def MPCSAME(F):
    """the same point twice in an equation: the coefficients of its components add up"""
    sid, g, h = F.i("sid"), *distinct(F, "g", 2)
    c1, c2 = F.pick("c", [("1", "2"), ("3", "3"), ("6", "1")])
    a, b, d = F.d("a", nz=True), F.d("b"), F.d("d")
    co = [F.add(a.v if int(c1) == j + 1 else 0, b.v if int(c2) == j + 1 else 0) for j in range(6)]
    return [("MPC", [sid, g, F.num(int(c1)), a, g, F.num(int(c2)), b, BL, BL, h, F.num(1), d])], {
        "pre": [("MPC", sid)], "constraints": [{"class": "LinearMultiplePointConstraint", "dofCoefsByNodePosition": Bag([[g.v, co], [h.v, [d.v, 0, 0, 0, 0, 0]]]), "coef_impo": 0, "sets": [[MPCS, sid.v]]}], "constraintSets": [cset(MPCS, sid, 1)]}


def RBAR(F):
    """two points tied rigidly in all components"""
    eid, (a, b) = F.i("eid"), distinct(F, "g", 2)
    ca, cb = F.pick("indep", [(BL, BL), (F.num(123456), BL), (BL, F.num(123456)), (F.num(123456), F.num(0)), (F.num(0), F.num(123456))])
    return [("RBAR", [eid, a, b, ca, cb])], in_common({"class": "QuasiRigidConstraint", "oid": eid.v, "nodes": Bag([a.v, b.v]), "dofs": 63})


def RBAR1(F):
    eid, (a, b) = F.i("eid"), distinct(F, "g", 2)
    c, m = F.pick("cb", [(BL, 63), (F.num(123456), 63), (F.num(123), 7), (F.num(12), 3), (F.num(3456), 60)])
    return [("RBAR1", [eid, a, b, c])], in_common({"class": "QuasiRigidConstraint", "oid": eid.v, "nodes": Bag([a.v, b.v]), "dofs": m})


def RBE2(F):
    eid, n = F.i("eid"), F.pick("n", [1, 2, 5, 6])
    gs = distinct(F, "g", n + 1)
    c, m = code(F, "cm")
    return [("RBE2", [eid, gs[0], c] + gs[1:])], in_common({"class": "QuasiRigidConstraint", "oid": eid.v, "nodes": Bag([g.v for g in gs]), "dofs": m, "masterPosition": gs[0].v, "addRotations": True})


def RBE3(F):
    """displacement of the reference point: weighted mean of the components given for each group of points"""
    eid = F.i("eid")
    shape = F.pick("groups", [(1,), (3,), (1, 2), (2, 1, 1)])
    gs = distinct(F, "g", sum(shape) + 1)
    c, m = code(F, "refc")
    out, k, dofs, coefs = [eid, BL, gs[0], c], 1, [], []
    for j, n in enumerate(shape):
        w, (ci, mi) = F.d("w%d" % j), code(F, "c%d" % j, CODES if j == 0 and len(shape) == 1 else CODES[7:9])
        out += [w, ci] + gs[k:k + n]
        dofs += [[g.v, mi] for g in gs[k:k + n]]
        coefs += [[g.v, w.v] for g in gs[k:k + n]]
        k += n
    return [("RBE3", out)], in_common({"class": "RBE3", "oid": eid.v, "nodes": Bag([g.v for g in gs]), "dofs": m, "masterPosition": gs[0].v, "slaveDofsByPosition": Bag(dofs), "slaveCoefByPosition": Bag(coefs)})


def CRIGD1(F):
    eid, n = F.i("eid"), F.pick("n", [1, 2, 4])
    gs = distinct(F, "g", n + 1)
    return [("CRIGD1", [eid, BL] + gs)], in_common({"class": "RigidConstraint", "oid": eid.v, "nodes": Bag([g.v for g in gs]), "dofs": 63, "masterPosition": gs[0].v})


CONTACT = 3
_, LINE, NODESURF, SURFACE, BODY = range(5)


def CLOUDS(F):
    """nodes that may come into contact, as lines or faces"""
    i, k = F.i("id"), F.pick("card", ["BLSEG", "BSSEG"])
    gs = distinct(F, "g", 4 if k == "BSSEG" else F.pick("n", [2, 3, 9]))
    return [(k, [i] + gs)], {"targets": [{"class": {"BLSEG": "BoundaryNodeLine", "BSSEG": "BoundaryNodeSurface"}[k], "oid": i.v, "nodeids": [g.v for g in gs]}]}


def BCBODY(F):
    i, s = F.i("id"), F.i("surface")
    return [("BCBODY", [i, F.pick("dim", [BL, F.s("3D")]), F.pick("behav", [BL, F.s("DEFORM")]), s])], {"targets": [{"class": "ContactBody", "oid": i.v, "boundary": [SURFACE, s.v]}]}


def zone(m, s, sid):
    return {"class": "ZoneContact", "oid": None, "master": [BODY, m.v], "slave": [BODY, s.v], "sets": [[CONTACT, sid.v]]}


def BCTABLE(F):
    """pairs of contact bodies, on the first line or in groups"""
    sid, n, first = F.i("sid"), F.pick("groups", [0, 1, 2]), F.pick("first", [0, 1])
    b = distinct(F, "b", 2 * (n + 1))
    out = [sid] + ([b[0], b[1]] if first else [BL, BL]) + [F.num(n), BL, BL, BL, BL]
    zs = [zone(b[1], b[0], sid)] if first else []
    for k in range(n):
        s, m = b[2 * k + 2:2 * k + 4]
        out += [F.s("SLAVE"), s] + [BL] * 6 + [F.s("MASTERS"), m] + [BL] * 6
        zs.append(zone(m, s, sid))
    return [("BCTABLE", out)], {"constraints": zs, "constraintSets": [cset(CONTACT, sid, len(zs))]}


def BCONP(F):
    """sliding along lines of nodes, with friction"""
    i, s, m, f, c = F.i("id"), F.i("slave"), F.i("master"), F.i("fric"), F.i("cid")
    mu, sf = F.d("mu"), F.od("sfact", 1)
    bf = F.pick("order", [0, 1])
    cs = [("BCONP", [i, s, m, BL, sf, f, F.pick("ptype", [BL, F.num(1)]), c])]
    b = [("BFRIC", [f, BL, BL, mu])]
    return (b + cs if bf else cs + b), dict(in_common({"class": "SlideContact", "oid": i.v, "master": [LINE, m.v], "slave": [LINE, s.v]}), values=[{"oid": f.v, "number": mu.v}])


def BSCONP(F):
    i, s, m = F.i("id"), F.i("slave"), F.i("master")
    return [("BSCONP", [i, s, m])], in_common({"class": "SurfaceContact", "oid": i.v, "master": [NODESURF, m.v], "slave": [NODESURF, s.v]})


CARDS = [SPC, SPC1, SPCADD, MPC, MPCSAME, RBAR, RBAR1, RBE2, RBE3, CRIGD1, CLOUDS, BCBODY, BCTABLE, BCONP, BSCONP]
UNITS = [card_unit("P10", f.__name__, f) for f in CARDS]


def suite(rng, tier):
    out = []
    for f in CARDS:
        out += card_cases("P10", f.__name__, f, rng, 16 if tier == "quick" else 300)
    return out

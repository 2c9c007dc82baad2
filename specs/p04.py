"""P04  Node and cell registry of the mesh: every operation, from an arbitrary consistent mesh, against its contract."""
from common import *

TUS = ["Abstract/Mesh.cpp", "Abstract/MeshComponents.cpp", "Abstract/Dof.cpp", "Abstract/CoordinateSystem.cpp", "Abstract/Value.cpp"]
M, ND, NS, CS_, CD, CL, CT = "vega::Mesh", "vega::NodeData", "vega::NodeStorage", "vega::CellStorage", "vega::CellData", "vega::Cell", "vega::CellType"
NOPOS = INT_MAX
VV = "vega::VectorialValue"
BIG = 2 ** 30
NF = ("id", "dofs", "x", "y", "z", "cpPos", "cdPos", "nodePart")


def nget(o, f):
    return rv(o.f[ND + "::" + f])


def nsnap(o):
    return {f: nget(o, f) for f in NF}


def eqnode(a, b, skip=()):
    return AND(*[EQ(a[f], b[f]) for f in NF if f not in skip])


class World:
    """an arbitrary mesh that satisfies the representation invariant:
    nodes: nodepositionById is exactly the inverse of position -> nodeDatas[position].id (a bijection on [0,n)),
    cells: cellpositionById likewise on ids of cellDatas; per type T, cellPositionsByType[T] lists the n_T cells of type T, the cell with
    cellTypePosition t has its connectivity in nodepositionsByCelltype[T][t*numNodes ...) and its extra data at index t"""

    def __init__(s, I):
        s.I, c = I, I.c
        s.n = c.input("n", "int", 0, BIG)
        s.m = c.input("m", "int", 0, BIG)
        s.o = o = Obj(M)
        P = E.parse_type
        st = Obj(NS)
        s.nodes = LSeq(s.n, s.node0, P(ND))
        s.byid = MapV("map", "int", "unsigned int")
        s.byid.lazy = s.lookup
        st.f.update({NS + "::nodeDatas": Cell(s.nodes), NS + "::nodepositionById": Cell(s.byid), NS + "::logLevel": Cell(2), NS + "::mesh": Cell(o)})
        for f in ("mainNodePartByCellPart", "cellPartsByNodePart", "interfaceNodePartByCellParts"):
            st.f[NS + "::" + f] = Cell(I.default_value(I.ty_of_field(NS, f)) if hasattr(I, "ty_of_field") else None)
        s.n0 = s.n
        o.f.update({M + "::nodes": Cell(st), M + "::logLevel": Cell(2), M + "::withNonZeroOffsets": Cell(c.fresh("offs", "bool"))})

    # --- nodes
    def node0(s, I, i):
        """content of a position not read before: a node registered under its own id"""
        nd = s.mknode(I)
        i_d = nget(nd, "id")
        for k, _ in s.byid.ents:
            I.c.assume(NOT(EQ(k.v, i_d)))
        for k in s.byid.absent:
            I.c.assume(NOT(EQ(k, i_d)))
        s.byid.ents.append((Cell(i_d), Cell(i)))
        return nd

    def mknode(s, I):
        c = I.c
        nd = Obj(ND)
        for f in NF:
            v = c.fresh("nd_" + f, "real" if f in "xyz" else "int")
            nd.f[ND + "::" + f] = Cell(v)
        c.assume(AND(nget(nd, "dofs") >= 0, nget(nd, "dofs") < 64, nget(nd, "cpPos") >= 0, nget(nd, "cpPos") < BIG, nget(nd, "cdPos") >= 0, nget(nd, "cdPos") < BIG))
        c.assume(AND(nget(nd, "id") >= INT_MIN, nget(nd, "id") <= INT_MAX, nget(nd, "nodePart") >= 0, nget(nd, "nodePart") < BIG))
        return nd

    def lookup(s, I, m, key):
        if not I.c.choose(2, "known"):
            return None
        p = I.c.fresh("pos", "int")
        I.c.assume(AND(p >= 0, p < s.n0))
        for k, _ in s.nodes.known:
            I.c.assume(NOT(EQ(k, p)))
        nd = s.mknode(I)
        I.c.assume(EQ(nget(nd, "id"), key))
        s.nodes.known.append((p, Cell(nd)))
        return (Cell(key), Cell(p))


def node_id(I, n):
    return integer(I, n, -2 ** 31 + 1, INT_MAX - 1)


def call(I, w, f, *args, sig=None):
    return rv(I.callq(M + "::" + f, Cell(w.o), list(args), *([sig] if sig else [])))


def u_addnode(c):
    I = begin(c)
    w = World(I)
    a = node_id(I, "id")
    x, y, z = (real(I, k) for k in "xyz")
    cp, cd, part = integer(I, "cp", 0, BIG), integer(I, "cd", 0, BIG), integer(I, "part", 0, BIG)
    q = integer(I, "q", 0, BIG)          # an arbitrary other node
    c.assume(q < w.n)
    other = nsnap(rv(I.lseq_at(w.nodes, q)))
    p0 = call(I, w, "findNodePosition", a)
    known = not (isinstance(p0, int) and p0 == NOPOS)
    before = nsnap(rv(I.lseq_at(w.nodes, p0))) if known else None
    same = known and c.branch(EQ(p0, q))
    p = call(I, w, "addNode", a, x, y, z, cp, cd, part)
    c.prove("P04.addNode.count", EQ(rv(I.callq(M + "::countNodes", Cell(w.o))), w.n0 if known else w.n0 + 1))
    c.prove("P04.addNode.position", EQ(p, p0 if known else w.n0))
    now = nsnap(rv(I.lseq_at(w.nodes, p)))
    c.prove("P04.addNode.content", AND(EQ(now["id"], a), EQ(now["x"], x), EQ(now["y"], y), EQ(now["z"], z), EQ(now["cpPos"], cp), EQ(now["cdPos"], cd)))
    if known:
        c.prove("P04.addNode.redefine.keeps", AND(EQ(now["dofs"], before["dofs"]), EQ(now["nodePart"], before["nodePart"])))
    else:
        c.prove("P04.addNode.new", AND(EQ(now["dofs"], 0), EQ(now["nodePart"], part)))
    c.prove("P04.addNode.registered", EQ(call(I, w, "findNodePosition", a), p))
    if not same:
        c.prove("P04.addNode.frame", AND(eqnode(nsnap(rv(I.lseq_at(w.nodes, q))), other), EQ(call(I, w, "findNodePosition", other["id"]), q)))
    b = node_id(I, "unknown")
    c.assume(NOT(EQ(a, b)))
    if not known:
        pb = call(I, w, "findNodePosition", b)
        if isinstance(pb, int) and pb == NOPOS:
            c.prove("P04.findNodePosition.unknown", EQ(call(I, w, "findNodeId", pb), INT_MAX))
        else:
            c.prove("P04.findNodePosition.known", AND(pb < w.n0, EQ(call(I, w, "findNodeId", pb), b)))


def modified(n, out=None):
    """variables assigned, incremented or decremented in a piece of code"""
    out = {} if out is None else out
    if isinstance(n, list):
        if n and n[0] == "bin" and n[3] in ("=", "+=", "-="):
            out.setdefault(str(n[4]), n[4]) if n[4][0] in ("local", "global") else None
        if n and n[0] == "un" and n[3] in ("++", "--") and n[5][0] in ("local", "global"):
            out.setdefault(str(n[5][:1] + n[5][3:]), n[5])
        for x in n:
            modified(x, out)
    return list(out.values())


def auto_loop():
    """cut of `while (findNodePosition(assignId) != UNAVAILABLE) assignId = auto_node_id--`. Invariant: after the last test, assignId is a number
    that was just tested; the loop is entered in an arbitrary state (any number tried so far), its body run once, and left in an arbitrary state
    in which the test failed. Partial correctness."""
    def h(I, n, fr):
        if not fr.fn or not fr.fn.q.endswith("Mesh::addNode"):
            return False
        for v in modified([n[3], n[4]]):
            k = I.c.fresh("auto", "int")
            I.c.assume(AND(k > -2 ** 31, k < INT_MAX))
            I.ev(v, fr).v = k
        if I.test(n[3], fr):
            I.st(n[4], fr)
            raise E.Infeasible()
        return True
    return h


def u_auto(c):
    """an automatically numbered node gets a number nobody uses"""
    I = begin(c)
    w = World(I)
    c.hooks["loop"] = auto_loop()
    x = real(I, "x")
    p = call(I, w, "addNode", INT_MIN, x, x, x, 0, 0, 0)
    c.prove("P04.auto.position", EQ(p, w.n0))
    c.prove("P04.auto.content", EQ(nsnap(rv(I.lseq_at(w.nodes, p)))["x"], x))
    c.prove("P04.auto.new", EQ(rv(I.callq(M + "::countNodes", Cell(w.o))), w.n0 + 1))
    q = integer(I, "q", 0, BIG)
    c.assume(q < w.n0)
    c.prove("P04.auto.fresh", NOT(EQ(nget(rv(I.lseq_at(w.nodes, q)), "id"), nget(rv(I.lseq_at(w.nodes, p)), "id"))))


def u_reserve(c):
    I = begin(c)
    w = World(I)
    a = node_id(I, "id")
    q = integer(I, "q", 0, BIG)
    c.assume(q < w.n)
    other = nsnap(rv(I.lseq_at(w.nodes, q)))
    p0 = call(I, w, "findNodePosition", a)
    known = not (isinstance(p0, int) and p0 == NOPOS)
    rs = Obj("std")
    st = rv(w.o.f[M + "::nodes"])
    st.f[NS + "::reservedButUnusedNodePositions"] = Cell(MapV("set", "unsigned int"))
    p = call(I, w, "findOrReserveNode", a, INT_MIN)
    c.prove("P04.reserve.position", EQ(p, p0 if known else w.n0))
    now = nsnap(rv(I.lseq_at(w.nodes, p)))
    c.prove("P04.reserve.registered", AND(EQ(now["id"], a), EQ(call(I, w, "findNodePosition", a), p)))
    c.prove("P04.reserve.count", EQ(rv(I.callq(M + "::countNodes", Cell(w.o))), w.n0 if known else w.n0 + 1))
    c.prove("P04.reserve.frame", AND(eqnode(nsnap(rv(I.lseq_at(w.nodes, q))), other), EQ(call(I, w, "findNodePosition", other["id"]), q)))
    if not known:
        c.prove("P04.reserve.new", AND(EQ(now["cpPos"], 0), EQ(now["cdPos"], 0), EQ(now["dofs"], 0)))
        x, cp, cd = real(I, "x"), integer(I, "cp", 0, BIG), integer(I, "cd", 0, BIG)
        p2 = call(I, w, "addNode", a, x, x, x, cp, cd, 0)
        now = nsnap(rv(I.lseq_at(w.nodes, p2)))
        c.prove("P04.reserve.define", AND(EQ(p2, p), EQ(now["x"], x), EQ(now["cpPos"], cp), EQ(now["cdPos"], cd)))


def u_findnode(c):
    I = begin(c)
    w = World(I)
    p = integer(I, "p", 0, BIG)
    c.assume(p < w.n)
    nd = nsnap(rv(I.lseq_at(w.nodes, p)))
    kind = c.choose(3, "cs")
    g = [c.fresh("g%d" % k, "real") for k in range(3)]
    if kind == 0:
        c.assume(EQ(nd["cpPos"], 0))
    else:
        c.assume(NOT(EQ(nd["cpPos"], 0)))
    car = Obj("vega::CartesianCoordinateSystem")
    seen = {}

    def hget(I2, this, args):
        seen["pos"] = rv(args[0])
        return Ptr(None) if kind == 2 else Ptr(Cell(car))

    def hpg(I2, this, args):
        seen["l"] = [rv(I2.callq(VV + "::" + k, Cell(rv(args[0])))) for k in "xyz"]
        return I2.new_object(VV, I2.fn(VV + "::VectorialValue", ["double"] * 3).ref, list(g))
    c.contracts[M + "::getCoordinateSystemByPosition"] = hget
    c.contracts["vega::CartesianCoordinateSystem::positionToGlobal"] = hpg
    r = call(I, w, "findNode", p)
    f = lambda k: rv(r.f["vega::Node::" + k])
    c.prove("P04.findNode.identity", AND(EQ(f("id"), nd["id"]), EQ(f("position"), p), EQ(f("nodepartId"), nd["nodePart"]), EQ(code(I, f("dofs")), nd["dofs"])))
    c.prove("P04.findNode.systems", AND(EQ(f("positionCS"), nd["cpPos"]), EQ(f("displacementCS"), nd["cdPos"])))
    c.prove("P04.findNode.local", AND(*[EQ(f("l" + k), nd[k]) for k in "xyz"]))
    if kind == 1:
        c.prove("P04.findNode.global.mapped", AND(EQ(seen["pos"], nd["cpPos"]), *[AND(EQ(seen["l"][i], nd[k]), EQ(f(k), g[i])) for i, k in enumerate("xyz")]))
    else:
        c.prove("P04.findNode.global", AND(*[EQ(f(k), nd[k]) for k in "xyz"]))
    c.prove("P04.findNodeId", EQ(call(I, w, "findNodeId", p), nd["id"]))
    c.prove("P04.findNodePartId", EQ(call(I, w, "findNodePartId", p), nd["nodePart"]))


def u_unavailable(c):
    I = begin(c)
    w = World(I)
    try:
        call(I, w, "findNode", NOPOS)
        ok = False
    except CppThrow as e:
        ok = "invalid_argument" in e.tname
    c.prove("P04.findNode.unavailable", ok)
    try:
        call(I, w, "findCell", NOPOS)
        ok = False
    except CppThrow as e:
        ok = "logic_error" in e.tname
    c.prove("P04.findCell.unavailable", ok)


def u_allow(c):
    I = begin(c)
    w = World(I)
    p, q = integer(I, "p", 0, BIG), integer(I, "q", 0, BIG)
    c.assume(AND(p < w.n, q < w.n))
    a, b = nsnap(rv(I.lseq_at(w.nodes, p))), nsnap(rv(I.lseq_at(w.nodes, q)))
    mask = c.choose(64, "mask")
    old = c.choose(3, "old")
    c.assume(EQ(a["dofs"], [0, 5, 56][old]))
    I.callq(M + "::allowDOFS", Cell(w.o), [p, dofs_of(I, mask)])
    now = nsnap(rv(I.lseq_at(w.nodes, p)))
    c.prove("P04.allowDOFS.adds", AND(EQ(now["dofs"], [0, 5, 56][old] | mask), eqnode(now, a, ("dofs",))))
    if not c.branch(EQ(p, q)):
        c.prove("P04.allowDOFS.frame", eqnode(nsnap(rv(I.lseq_at(w.nodes, q))), b))


# ---------------------------------------------------------------- cells
SOLID = ["POINT1", "SEG2", "SEG3", "TRI3", "TRI6", "QUAD4", "QUAD8", "TETRA4", "TETRA10", "PENTA6", "PENTA15", "HEXA8", "HEXA20", "PYRA5", "PYRA13", "POLY3", "POLY5"]
DIM = {"POINT1": 0, "SEG2": 1, "SEG3": 1, "TRI3": 2, "TRI6": 2, "QUAD4": 2, "QUAD8": 2}
NNODES = {"POINT1": 1, "SEG2": 2, "SEG3": 3, "TRI3": 3, "TRI6": 6, "QUAD4": 4, "QUAD8": 8, "TETRA4": 4, "TETRA10": 10, "PENTA6": 6, "PENTA15": 15, "HEXA8": 8, "HEXA20": 20, "PYRA5": 5, "PYRA13": 13,
          "POLY3": 3, "POLY5": 5}
CF = ("id", "typeCode", "isvirtual", "csPos", "elementId", "cellTypePosition")


class Cells(World):
    """the two cell types T (and U, a different one) are tracked; other types are irrelevant to the operations checked"""

    opaque = False      # reservations answer an arbitrary position

    def __init__(s, I, T, U=None):
        super().__init__(I)
        c, P = I.c, E.parse_type
        o = s.o
        s.types = [T] + ([U] if U else [])
        cs = Obj(CS_)
        s.cells = LSeq(s.m, s.cell0, P(CD))
        s.cbyid = MapV("map", "int", "unsigned int")
        s.cbyid.lazy = s.clookup
        bytype = MapV("map", CT, "std::vector<unsigned int>")
        conn = MapV("map", CT, "std::shared_ptr<std::deque<unsigned int>>")
        ext = [MapV("map", CT, "std::vector<vega::DimensionData%dD>" % d) for d in range(3)]
        s.nt, s.pos, s.conn, s.off = {}, {}, {}, {}
        for t in s.types:
            nt = s.nt[t] = c.input("n" + t, "int", 0, 2 ** 27)   # connectivity fits 32-bit positions
            s.pos[t] = LSeq(nt, lambda I2, i, t=t: s.pos0(I2, t, i), P("unsigned int"))
            s.conn[t] = LSeq(arith("*", nt, NNODES[t]), lambda I2, i: s.conn0(I2), P("unsigned int"), "deque")
            ty = lambda: I.copyval(I.global_of(CT + "::" + t))
            bytype.ents.append((Cell(ty()), Cell(s.pos[t])))
            if c.choose(2, "met" + t) if t == T else 1:
                conn.ents.append((Cell(ty()), Cell(Ptr(Cell(s.conn[t])))))
                if DIM.get(t, 3) < 3:
                    d = DIM[t]
                    s.off[t] = LSeq(nt, (lambda I2, i, d=d: s.ext0(I2, d)), P("vega::DimensionData%dD" % d))
                    ext[d].ents.append((Cell(ty()), Cell(s.off[t])))
            else:
                c.assume(EQ(nt, 0))
        cs.f.update({CS_ + "::cellDatas": Cell(s.cells), CS_ + "::cellpositionById": Cell(s.cbyid), CS_ + "::nodepositionsByCelltype": Cell(conn), CS_ + "::logLevel": Cell(2), CS_ + "::mesh": Cell(o)})
        for d in range(3):
            cs.f[CS_ + "::additional%dDdataByCelltype" % d] = Cell(ext[d])
        o.f.update({M + "::cells": Cell(cs), M + "::cellPositionsByType": Cell(bytype), M + "::groupByName": Cell(MapV("map", "std::string", "std::shared_ptr<vega::Group>"))})
        o.f[M + "::coordinateSystemStorage"] = Cell(Obj("vega::CoordinateSystemStorage"))
        c.contracts[M + "::findOrReserveNode"] = s.reserve
        c.contracts["vega::CoordinateSystemStorage::findByPosition"] = s.csys
        c.contracts[M + "::getOrCreateCellGroupForCS"] = s.csgroup
        c.contracts["vega::CellContainer::addCellId"] = s.added
        s.reserved, s.oriented, s.ocs = [], [], Obj("vega::OrientationCoordinateSystem")

    # contracts proved in other units
    def reserve(s, I, this, args):
        a = rv(args[0])
        if s.opaque:
            return I.c.fresh("rp", "int")
        p = rv(I.callq(M + "::findNodePosition", Cell(s.o), [a]))
        if isinstance(p, int) and p == NOPOS:
            p = s.nodes.n
            nd = s.mknode(I)
            I.c.assume(EQ(nget(nd, "id"), a))
            s.nodes.known.append((p, Cell(nd)))
            s.nodes.n = arith("+", p, 1)
            s.byid.ents.append((Cell(a), Cell(p)))
        s.reserved.append((a, rv(args[1]) if len(args) > 1 else INT_MIN, p))
        return p

    def csys(s, I, this, args):
        s.oriented.append(("find", rv(args[0])))
        return Ptr(Cell(s.ocs))

    def csgroup(s, I, this, args):
        s.oriented.append(("group", rv(args[0])))
        g = Obj("vega::CellGroup")
        return Ptr(Cell(g))

    def added(s, I, this, args):
        s.oriented.append(("add", rv(args[0])))

    def cell0(s, I, i, t=None, tp=None):
        c = I.c
        if t is None:
            t = s.types[c.choose(len(s.types), "celltype")]
        cd = Obj(CD)
        for f in CF:
            cd.f[CD + "::" + f] = Cell(c.fresh("cd_" + f, "bool" if f == "isvirtual" else "int"))
        g = lambda f: rv(cd.f[CD + "::" + f])
        cd.f[CD + "::typeCode"] = Cell(rv(I.field(I.global_of(CT + "::" + t), "code")))
        c.assume(AND(g("id") >= INT_MIN, g("id") <= INT_MAX, g("csPos") >= 0, g("csPos") < BIG, g("elementId") >= INT_MIN, g("elementId") <= INT_MAX))
        if tp is None:
            tp = g("cellTypePosition")
            c.assume(AND(tp >= 0, tp < s.nt[t]))
            for k, x in s.pos[t].known:
                c.assume(NOT(EQ(k, tp)))
            s.pos[t].known.append((tp, Cell(i)))
        else:
            cd.f[CD + "::cellTypePosition"] = Cell(tp)
        for k, _ in s.cbyid.ents:
            c.assume(NOT(EQ(k.v, g("id"))))
        for k in s.cbyid.absent:
            c.assume(NOT(EQ(k, g("id"))))
        s.cbyid.ents.append((Cell(g("id")), Cell(i)))
        return cd

    def clookup(s, I, m, key):
        if not I.c.choose(2, "knowncell"):
            return None
        p = I.c.fresh("cpos", "int")
        I.c.assume(AND(p >= 0, p < s.m))
        for k, _ in s.cells.known:
            I.c.assume(NOT(EQ(k, p)))
        cd = s.cell0(I, p)
        s.cbyid.ents.pop()
        I.c.assume(EQ(rv(cd.f[CD + "::id"]), key))
        s.cells.known.append((p, Cell(cd)))
        return (Cell(key), Cell(p))

    def pos0(s, I, t, i):
        """position of the i-th cell of type t"""
        p = I.c.fresh("tpos", "int")
        I.c.assume(AND(p >= 0, p < s.m))
        for k, _ in s.cells.known:
            I.c.assume(NOT(EQ(k, p)))
        s.cells.known.append((p, Cell(s.cell0(I, p, t, i))))
        return p

    def conn0(s, I):
        """a node of a cell; from the third on, taken to be a node not read before (nodes of an element are distinct)"""
        p = I.c.fresh("np", "int")
        I.c.assume(AND(p >= 0, p < s.n0))
        s.cps = getattr(s, "cps", []) + [p]
        if len(s.cps) > 2:
            for k in [k for k, _ in s.nodes.known] + s.cps[:-1]:
                I.c.assume(NOT(EQ(k, p)))
            s.nodes.known.append((p, Cell(s.node0(I, p))))
        return p

    def ext0(s, I, d):
        o = Obj("vega::DimensionData%dD" % d)
        if d == 2:
            o.f["vega::DimensionData2D::offset"] = Cell(I.c.fresh("off", "real"))
        return o


def csnap(o):
    return {f: rv(o.f[CD + "::" + f]) for f in CF}


def eqcell(a, b):
    return AND(*[EQ(a[f], b[f]) for f in CF])


def found(I, w, r, id, t, pos, npos, nids, el, cs, off):
    f = lambda k: rv(r.f[CL + "::" + k])
    code_ = rv(I.field(I.global_of(CT + "::" + t), "code"))
    v = [rv(x) for x in f("nodeIds").cells]
    q = [rv(x) for x in f("nodePositions").cells]
    return {"identity": AND(EQ(f("id"), id), EQ(rv(I.field(f("type"), "code")), code_), EQ(f("position"), pos), EQ(f("elementId"), el)),
            "connectivity": AND(len(v) == len(nids), *[EQ(a, b) for a, b in zip(v, nids)], len(q) == len(npos), *[EQ(a, b) for a, b in zip(q, npos)]),
            "orientation": AND(EQ(f("cspos"), cs), EQ(f("hasOrientation"), NOT(EQ(cs, 0)))),
            "offset": EQ(f("offset"), off)}


def u_addcell(c, T):
    I = begin(c)
    w = Cells(I, T)
    a = integer(I, "id", -2 ** 31 + 1, INT_MAX - 1)
    ids = [node_id(I, "n%d" % k) for k in range(NNODES[T])]
    if len(ids) > 4:       # further nodes: already known (the reservation contract is the same for each)
        ids = ids[:2] + [7000 + k for k in range(len(ids) - 2)]
        c.assume(AND(ids[0] < 7000, ids[1] < 7000))
        for k in ids[2:]:
            nd = w.mknode(I)
            c.assume(EQ(nget(nd, "id"), k))
            w.nodes.known.append((100 + k, Cell(nd)))
            w.byid.ents.append((Cell(k), Cell(100 + k)))
        c.assume(w.n > 20000)
    el, off = integer(I, "el", -2 ** 31 + 1, INT_MAX), real(I, "off")
    oriented = c.choose(2, "oriented")
    cs = 0
    if oriented:
        cs = integer(I, "cs", 1, BIG)
    pa = call(I, w, "findCellPosition", a)
    if not (isinstance(pa, int) and pa == NOPOS):
        return      # precondition: the number is not used yet
    m0, nt0 = w.m, w.nt[T]
    p = call(I, w, "addCell", a, I.global_of(CT + "::" + T), Seq([Cell(x) for x in ids], "vector", E.parse_type("int")), False, cs, el, off)
    c.prove("P04.addCell.position", EQ(p, m0))
    c.prove("P04.addCell.registered", AND(EQ(call(I, w, "findCellPosition", a), p), EQ(w.cells.n, m0 + 1)))
    c.prove("P04.addCell.reserves", AND(len(w.reserved) == len(ids), *[AND(EQ(x[0], y), EQ(x[1], el)) for x, y in zip(w.reserved, ids)]))
    c.prove("P04.addCell.count", EQ(rv(I.callq(M + "::countCells", Cell(w.o), [I.global_of(CT + "::" + T)], [CT])), arith("+", nt0, 1)))
    if oriented:
        c.prove("P04.addCell.orientationGroup", AND(("group", "x")[0] in [k for k, _ in w.oriented], *[EQ(v, cs if k == "group" else a) for k, v in w.oriented]))
    else:
        c.prove("P04.addCell.noOrientationGroup", not w.oriented)
    c.prove("P04.addCell.fid", EQ(rv(I.callq(M + "::findCellId", Cell(w.o), [p])), a))
    r = rv(I.callq(M + "::findCell", Cell(w.o), [p]))
    for k, v in found(I, w, r, a, T, p, [x[2] for x in w.reserved], ids, el, cs, off if DIM.get(T, 3) == 2 else Fraction(0)).items():
        c.prove("P04.addCell.then.findCell." + k, v)
    it = rv(I.callq("vega::CellIterator::CellIterator", None, [])) if False else None


def u_frame(c):
    """adding a cell leaves every other cell alone (same and other type)"""
    I = begin(c)
    T, U = [("TRI3", "QUAD4"), ("SEG2", "TRI3"), ("POINT1", "TETRA4"), ("TETRA4", "SEG3")][c.choose(4, "types")]
    w = Cells(I, T, U)
    w.opaque = True
    a = integer(I, "id", -2 ** 31 + 1, INT_MAX - 1)
    q = integer(I, "q", 0, BIG)
    c.assume(q < w.m)
    qc = csnap(rv(I.lseq_at(w.cells, q)))
    b = rv(I.callq(M + "::findCell", Cell(w.o), [q]))
    snap = lambda r: [rv(r.f[CL + "::" + k]) for k in ("id", "position", "elementId", "cspos", "hasOrientation", "offset", "cellTypePosition")] + [rv(I.field(rv(r.f[CL + "::type"]), "code"))] \
        + [rv(x) for x in rv(r.f[CL + "::nodePositions"]).cells] + [rv(x) for x in rv(r.f[CL + "::nodeIds"]).cells]
    sb = snap(b)
    pa = call(I, w, "findCellPosition", a)
    if not (isinstance(pa, int) and pa == NOPOS):
        return
    ids = [node_id(I, "n%d" % k) for k in range(NNODES[T])]
    I.callq(M + "::addCell", Cell(w.o), [a, I.global_of(CT + "::" + T), Seq([Cell(x) for x in ids], "vector", E.parse_type("int")), False, 0, 5, real(I, "off")])
    c.prove("P04.addCell.frame.data", eqcell(csnap(rv(I.lseq_at(w.cells, q))), qc))
    s2 = snap(rv(I.callq(M + "::findCell", Cell(w.o), [q])))
    c.prove("P04.addCell.frame.cell", AND(len(s2) == len(sb), *[EQ(x, y) for x, y in zip(sb, s2)]))
    c.prove("P04.addCell.frame.position", EQ(call(I, w, "findCellPosition", qc["id"]), q))


def u_findcell(c, T):
    I = begin(c)
    w = Cells(I, T)
    if T not in [t for t in w.types if w.conn[t]] :
        return
    q = integer(I, "q", 0, BIG)
    c.assume(AND(q < w.m, w.nt[T] > 0))
    qc = csnap(rv(I.lseq_at(w.cells, q)))
    r = rv(I.callq(M + "::findCell", Cell(w.o), [q]))
    nn = NNODES[T]
    base = arith("*", qc["cellTypePosition"], nn)
    npos = [rv(I.lseq_at(w.conn[T], arith("+", base, k))) for k in range(nn)]
    nids = [nget(rv(I.lseq_at(w.nodes, p)), "id") for p in npos]
    off = rv(rv(I.lseq_at(w.off[T], qc["cellTypePosition"])).f["vega::DimensionData2D::offset"]) if DIM.get(T, 3) == 2 else Fraction(0)
    for k, v in found(I, w, r, qc["id"], T, q, npos, nids, qc["elementId"], qc["csPos"], off).items():
        c.prove("P04.findCell." + k, v)
    c.prove("P04.findCell.ocs", AND(*[EQ(v, qc["csPos"]) for k, v in w.oriented if k == "find"]))
    c.prove("P04.hasCell", EQ(rv(I.callq(M + "::hasCell", Cell(w.o), [qc["id"]])), True))
    el = integer(I, "el2")
    I.callq(M + "::assignElementId", Cell(w.o), [q, el])
    now = csnap(rv(I.lseq_at(w.cells, q)))
    c.prove("P04.assignElementId", AND(EQ(now["elementId"], el), *[EQ(now[f], qc[f]) for f in CF if f != "elementId"]))


def u_update(c):
    """a rigid cell replaced by a polynomial one keeps its number, and its groups follow"""
    I = begin(c)
    w = Cells(I, "POLY3", "SEG2")
    a = integer(I, "id", -2 ** 31 + 1, INT_MAX - 1)
    pa = call(I, w, "findCellPosition", a)
    ids = [node_id(I, "n%d" % k) for k in range(3)]
    g = Obj("vega::CellGroup")
    g.f["vega::CellContainer::cellPositions"] = Cell(MapV("set", "unsigned int"))
    member = c.choose(2, "member")
    unknown = isinstance(pa, int) and pa == NOPOS
    if member and not unknown:
        rv(g.f["vega::CellContainer::cellPositions"]).ents.append((Cell(pa), None))
    rv(w.o.f[M + "::groupByName"]).ents.append((Cell("G"), Cell(Ptr(Cell(g)))))
    m0 = w.m
    try:
        p = call(I, w, "updateCell", a, I.global_of(CT + "::POLY3"), Seq([Cell(x) for x in ids], "vector", E.parse_type("int")), True, 0, 9)
    except CppThrow as e:
        c.prove("P04.updateCell.unknown", unknown and "invalid_argument" in e.tname)
        return
    c.prove("P04.updateCell.known", not unknown)
    c.prove("P04.updateCell.registered", AND(EQ(p, m0), EQ(call(I, w, "findCellPosition", a), p)))
    r = rv(I.callq(M + "::findCell", Cell(w.o), [p]))
    npos = [rv(I.callq(M + "::findNodePosition", Cell(w.o), [x])) for x in ids]
    for k, v in found(I, w, r, a, "POLY3", p, npos, ids, 9, 0, Fraction(0)).items():
        c.prove("P04.updateCell.then.findCell." + k, v)
    now = [rv(k) for k, _ in rv(g.f["vega::CellContainer::cellPositions"]).ents]
    c.prove("P04.updateCell.groups", AND(len(now) == (1 if member else 0), *[EQ(x, p) for x in now]))


UNITS = [Unit("addNode", u_addnode), Unit("auto", u_auto), Unit("reserve", u_reserve), Unit("findNode", u_findnode), Unit("unavailable", u_unavailable), Unit("allow", u_allow),
         Unit("frame", u_frame), Unit("update", u_update)]
for T in SOLID:
    UNITS.append(Unit("findCell." + T, lambda c, T=T: u_findcell(c, T)))
    if not T.startswith("POLY"):
        UNITS.append(Unit("addCell." + T, lambda c, T=T: u_addcell(c, T)))


# ---------------------------------------------------------------- histories of the real mesh against an executable specification
UNAV_POS = NOPOS
SKIN = {1: {2: "SEG2", 3: "SEG3", 4: "SEG4"}, 2: {3: "TRI3", 6: "TRI6", 4: "QUAD4", 8: "QUAD8", 9: "QUAD9"}}


class MeshModel:
    def __init__(s):
        s.nodes, s.cells, s.offs = {}, {}, False     # id -> dict, id -> dict

    def reserve(s, id, part=None):
        if id not in s.nodes:
            s.nodes[id] = {"p": len(s.nodes), "x": None, "dofs": 0, "parts": frozenset()}
        if part is not None:
            s.nodes[id]["parts"] |= {part}
        return s.nodes[id]["p"]

    def node(s, id, x):
        p = s.reserve(id)
        s.nodes[id]["x"] = x
        return p

    def cell(s, id, t, el, off, ids):
        np = [s.reserve(n, el) for n in ids]
        s.cells[id] = {"id": id, "type": t, "n": list(ids), "pos": len(s.cells), "np": np, "cs": 0, "el": el, "ctp": sum(1 for c in s.cells.values() if c["type"] == t), "off": off if DIM.get(t, 3) == 2 else 0.0}
        return s.cells[id]["pos"]


def history(rng, n):
    """tokens of a random history and the answers expected"""
    m = MeshModel()
    toks, exp = [], []
    nid = lambda: rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 5000, 99999999])
    types = [t for t in SOLID if not t.startswith("POLY")]
    for _ in range(n):
        k = rng.choice("NNNNRPCCCCCSAEQQQqqq")
        if k == "N":
            id, x = nid(), [float(rng.randint(-50, 50)) for _ in range(3)]
            toks += ["N", str(id)] + [fl(v) for v in x]
            exp.append({"p": m.node(id, x)})
        elif k == "R":
            id = nid()
            toks += ["R", str(id)]
            exp.append({"p": m.reserve(id)})
        elif k == "P":
            id, part = nid(), rng.randint(1, 4)
            toks += ["RP", str(id), str(part)]
            exp.append({"p": m.reserve(id, part)})
        elif k == "C":
            id = rng.randint(1, 60)
            if id in m.cells:
                continue
            t = rng.choice(types)
            el, off = rng.randint(1, 4), rng.choice([0.0, 0.0, 1.5, -2.0])
            ids = rng.sample(range(1, 25), NNODES[t])
            toks += ["C", str(id), t, str(el), fl(off), str(len(ids))] + [str(x) for x in ids]
            exp.append({"p": m.cell(id, t, el, off, ids)})
            m.offs = m.offs or (off != 0 and DIM.get(t, 3) == 2) or m.offs
        elif k == "S":
            d = rng.choice([1, 2])
            ids = rng.sample(range(1, 25), rng.choice([2, 3] if d == 1 else [3, 4, 6, 8]))
            toks += ["S", str(d), str(len(ids))] + [str(x) for x in ids]
            exp.append({"skin": SKIN[d][len(ids)], "n": ids})
            key = ("skin", len(m.cells))
            m.cell(key, SKIN[d][len(ids)], INT_MAX, 0.0, ids)
        elif k == "A":
            if not m.nodes:
                continue
            id, mask = rng.choice(list(m.nodes)), rng.randrange(64)
            m.nodes[id]["dofs"] |= mask
            toks += ["A", str(id), str(mask)]
            exp.append({})
        elif k == "E":
            ids = [i for i in m.cells if isinstance(i, int)]
            if not ids:
                continue
            id, el = rng.choice(ids), rng.randint(1, 9)
            m.cells[id]["el"] = el
            toks += ["E", str(id), str(el)]
            exp.append({})
        elif k == "Q":
            id = nid()
            toks += ["QN", str(id)]
            nd = m.nodes.get(id)
            exp.append({"p": UNAV_POS} if nd is None else dict({"p": nd["p"], "id": id, "pos": nd["p"], "fid": id, "dofs": nd["dofs"], "parts": nd["parts"]}, **({"x": nd["x"]} if nd["x"] else {})))
        else:
            id = rng.randint(1, 60)
            toks += ["QC", str(id)]
            cl = m.cells.get(id)
            exp.append({"has": cl is not None, "p": UNAV_POS} if cl is None else {"has": True, "p": cl["pos"], "cell": dict(cl), "fid": id})
    for id in sorted(m.nodes):      # every node at the end
        toks += ["QN", str(id)]
        nd = m.nodes[id]
        exp.append(dict({"p": nd["p"], "id": id, "pos": nd["p"], "fid": id, "dofs": nd["dofs"], "parts": nd["parts"], "final": True}, **({"x": nd["x"]} if nd["x"] else {})))
    for id in [i for i in m.cells if isinstance(i, int)]:
        toks += ["QC", str(id)]
        exp.append({"has": True, "p": m.cells[id]["pos"], "cell": dict(m.cells[id]), "fid": id})
    byt = {}
    for id, cl in m.cells.items():
        byt.setdefault(cl["type"], []).append(id)
    return toks, exp, m, byt


def check_history(exp, m, byt):
    def check(r):
        r = r[0] if isinstance(r, list) else r
        if "r" not in r:
            return "history rejected: %s" % r
        skins = set()
        partof = {}
        if len(r["r"]) != len(exp):
            return "%d answers for %d operations" % (len(r["r"]), len(exp))
        for k, (e, g) in enumerate(zip(exp, r["r"])):
            if "exc" in g:
                return "operation %d %s: %s" % (k, g["k"], g["exc"])
            if "skin" in e:
                c = g["cell"]
                if c["type"] != e["skin"] or c["n"] != e["n"] or c["id"] in skins or c["id"] in m.cells:
                    return "skin cell over %s: %s" % (e["n"], c)
                skins.add(c["id"])
                continue
            d = diff({x: y for x, y in e.items() if x in ("p", "id", "pos", "fid", "dofs", "x", "has")}, g)
            if d:
                return "operation %d %s: %s" % (k, g["k"], d)
            if "cell" in e:
                d = diff(e["cell"], g["cell"])
                if d:
                    return "operation %d, cell %s: %s" % (k, e["cell"]["id"], d)
            if e.get("final"):
                for q, (ps, pid) in partof.items():
                    if (ps == e["parts"]) != (pid == g["part"]):
                        return "nodes %s and %s belong to the cell parts %s and %s but to the node parts %s and %s" % (q, e["id"], sorted(ps), sorted(e["parts"]), pid, g["part"])
                partof[e["id"]] = (e["parts"], g["part"])
        d = r["d"]
        if d["nn"] != len(m.nodes) or d["nc"] != len(m.cells):
            return "counts %s %s, expected %d %d" % (d["nn"], d["nc"], len(m.nodes), len(m.cells))
        if sorted(d["nodes"]) != sorted(m.nodes):
            return "iteration over nodes: %s" % d["nodes"]
        for t in set(byt) | set(d["types"]):
            g = sorted(d["types"].get(t, []))
            w = byt.get(t, [])
            if len(g) != len(w) or not set(x for x in w if isinstance(x, int)) <= set(g) or len(set(g)) != len(g):
                return "cells of type %s: %s instead of %s" % (t, g, w)
    return check


def suite(rng, tier):
    out = []
    for k in range(120 if tier == "quick" else 1500):
        toks, exp, m, byt = history(rng, rng.choice([5, 20, 60]))
        out.append(Case("history:%d" % k, "mesh_seq " + " ".join(toks), check_history(exp, m, byt)))
    return out

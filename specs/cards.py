"""Nastran cards: symbolic execution of the real parseXXX functions over abstract card fields.
The tokenizer is used through its contract (checked on its own code in P07/P08): a card is a list of fields, each blank or holding an integer,
a real number or a word; nextInt/nextDouble/nextString return the value of the next field, the default for a blank or absent one when asked to,
and refuse otherwise; reading past the last field ends the card."""
from common import *
import random
import gendump
import text as TX

NT, NP, MODEL = "vega::nastran::NastranTokenizer", "vega::nastran::NastranParser", "vega::Model"
KEYWORD, FIELD = 0, 1
ABSTRACT = ["Abstract/" + f for f in ("Analysis.cpp BoundaryCondition.cpp ConfigurationParameters.cpp Constraint.cpp CoordinateSystem.cpp Dof.cpp Element.cpp Loading.cpp Material.cpp Mesh.cpp MeshComponents.cpp Model.cpp "
            "Objective.cpp Target.cpp Utility.cpp Value.cpp SolverInterfaces.cpp").split()]
NASTRAN = ["Nastran/NastranParser.cpp", "Nastran/NastranParser_geometry.cpp", "Nastran/NastranParser_param.cpp", "Nastran/NastranTokenizer.cpp"]
TUS = ABSTRACT + NASTRAN


EOF_ = 2


class Tok:
    """abstract deck: a list of cards (keyword, fields); each field None (blank), ("i", v), ("d", v), ("s", text)"""

    def __init__(s, I, cards):
        s.I, s.cards, s.k, s.p = I, [(k, list(f)) for k, f in cards], 0, -1
        c = I.c
        s.obj = Obj(NT)
        s.st = Cell(KEYWORD if cards else EOF_)
        s.obj.f[NT + "::nextSymbolType"] = s.st
        s.obj.f["vega::Tokenizer::fileName"] = Cell("deck")
        s.obj.f["vega::Tokenizer::lineNumber"] = Cell(1)
        s.obj.f["vega::Tokenizer::currentKeyword"] = Cell("")
        s.obj.f[NT + "::labelByCommentTypeAndId"] = Cell(MapV("map", "std::pair<vega::nastran::NastranTokenizer::CommentType, int>", "std::string"))
        for name in ("nextInt", "nextDouble", "nextString", "nextInts", "nextDoubles", "isNextInt", "isNextTHRU", "isNextBY", "isNextDouble", "isNextEmpty", "isEmptyUntilNextKeyword", "skip",
                     "skipToNotEmpty", "skipToNextKeyword", "remainingTextUntilNextKeyword", "nextLine", "nextSymbolString", "currentRawDataLine", "currentDataLine"):
            c.contracts[NT + "::" + name] = (lambda I2, this, args, m=getattr(s, name): s.do(m, args))
        c.contracts["vega::Tokenizer::getInputContext"] = lambda I2, this, args: Obj("vega::InputContext")
        c.contracts["vega::Parser::handleParsingWarning"] = lambda I2, this, args: s.warned.append(rv(args[0]))
        c.contracts["vega::Parser::handleParsingError"] = lambda I2, this, args: s.refuse(rv(args[0]))
        s.warned, s.errors = [], []

    def do(s, m, args):
        if s.I.c.journal is not None and not m.__name__.startswith(("is", "current", "remaining")):
            raise E.NeedFork()      # the position in the deck is not rolled back between merged paths
        try:
            return m(*[rv(a) for a in args])
        finally:
            s.st.v = EOF_ if s.k >= len(s.cards) else FIELD if 0 <= s.p < len(s.f) else KEYWORD

    def refuse(s, msg):
        s.errors.append(msg)
        raise CppThrow("skipCommand", "std::basic_string<char>")

    @property
    def f(s):
        return s.cards[s.k][1] if s.k < len(s.cards) else []

    def next(s):
        if s.p < 0:
            s.p = 0
            return ("s", s.cards[s.k][0])
        if s.p >= len(s.f):
            return None
        s.p += 1
        return s.f[s.p - 1]

    def get(s, kinds, default, dv):
        v = s.next()
        if v is None:
            if default is True:
                return dv
            s.refuse("missing value")
        if v[0] not in kinds:
            s.refuse("not %s: %s" % (kinds, v))
        return v

    def nextInt(s, default=False, dv=INT_MIN):
        v = s.get("i", default, dv)
        return v[1] if isinstance(v, tuple) else v

    def nextDouble(s, default=False, dv=UNAV):
        v = s.get("id", default, dv)
        if isinstance(v, tuple):
            v = v[1] if v[0] == "d" else (z3.ToReal(v[1]) if is_z(v[1]) else Fraction(v[1]))
        return Fraction(v) if isinstance(v, (int, float)) else v

    def nextString(s, default=False, dv=""):
        v = s.get("sid", default, dv)
        if isinstance(v, tuple) and v[0] != "s" and is_z(v[1]):
            raise Unsupported("number read as text")
        return str(v[1]) if isinstance(v, tuple) else v

    def nextSymbolString(s):
        v = s.next()
        return str(v[1]) if v is not None and not is_z(v[1]) else ""

    def currentDataLine(s):
        """raw fields: only blank or not is known of a field with a symbolic value"""
        return Seq([Cell(s.cards[s.k][0])] + [Cell("" if x is None else "\x01" if is_z(x[1]) else str(x[1])) for x in s.f], "vector", E.parse_type("std::string"))

    def currentRawDataLine(s):
        return s.cards[s.k][0]

    def at(s):
        return s.f[s.p] if 0 <= s.p < len(s.f) else None

    def isNextInt(s):
        return s.at() is not None and s.at()[0] == "i"

    def isNextDouble(s):
        return s.at() is not None and s.at()[0] in "id"

    def isNextTHRU(s):
        return s.at() == ("s", "THRU")

    def isNextBY(s):
        return s.at() == ("s", "BY")

    def isNextEmpty(s, n=1):
        if not 0 <= s.p < len(s.f):
            return False
        return all(x is None for x in s.f[s.p:s.p + n])

    def isEmptyUntilNextKeyword(s):
        return s.p < 0 or all(x is None for x in s.f[s.p:])

    def skip(s, n):
        s.p = min(len(s.f), max(s.p, 0) + n)

    def skipToNotEmpty(s):
        while s.isNextEmpty():
            s.p += 1

    def skipToNextKeyword(s):
        s.p = len(s.f)

    def remainingTextUntilNextKeyword(s):
        return "".join("," + str(x[1]) for x in s.f[s.p:] if x is not None)

    def nextLine(s):
        s.k, s.p = s.k + 1, -1

    def nextInts(s):
        out = []
        while s.isNextInt() or s.isNextTHRU():
            if s.isNextInt():
                out.append(s.nextInt())
            else:
                s.skip(1)
                b, e, st = out[-1], s.nextInt(), 1
                if s.isNextBY():
                    s.skip(1)
                    st = s.nextInt()
                if is_z(b) or is_z(e) or is_z(st):
                    raise Unsupported("THRU between symbolic numbers")
                if b > e:
                    b, e = e, b
                    out[-1] = b
                out += list(range(b + st, e, st)) + ([e] if b < e else [])
        return Seq([Cell(x) for x in out], "list", E.parse_type("int"))

    def nextDoubles(s):
        out = []
        while s.isNextDouble():
            out.append(s.nextDouble())
        return Seq([Cell(x) for x in out], "list", E.parse_type("double"))


def bulk(I, m, cards):
    """the real bulk section parser over abstract cards; returns the tokenizer (errors and warnings reported)"""
    t = Tok(I, cards)
    I.callq(NP + "::parseBULKSection", Cell(parser(I)), [Cell(t.obj), Cell(m)])
    return t


MC = "vega::ModelConfiguration"


def config(I, **kw):
    """default configuration of a model, fields overridden"""
    o = I.new_object(MC, None, [])
    for k, v in kw.items():
        o.f[MC + "::" + k].v = v
    return o


def model(I, mode=1, cells=True, **kw):
    if not hasattr(I.P, "celltypes"):
        I.P.celltypes = [(u, g[3]) for u, g in sorted(I.P.globals.items(), key=lambda x: (x[1][4], x[1][5])) if bare(g[2]) == "vega::CellType" and g[3].startswith("vega::CellType::")]
    for u, q in I.P.celltypes if cells else ():          # static initialisation of the cell types
        I.global_cell({"u": u, "q": q}, None)
    f = [f for f in I.P.byq["vega::Model::Model"] if len(f.params) > 1][0]
    return I.new_object(MODEL, f.ref, [Cell("m"), Cell("u"), Cell(0), Cell(config(I, **kw)), Cell(mode)])


def parser(I):
    return I.new_object(NP, next((m for m in I.P.records[NP]["mrefs"] if m.get("k") == "ctor" and not m["p"]), None), [])


# ---------------------------------------------------------------- canonical content of a model (symbolic), same shape as the harness dump
SKIPF = {"model", "mesh", "inputContext", "written", "id", "original_id", "cellPositions", "cellGroupNames", "nodePositions", "nodeGroupNames", "inverseMatrix", "type", "previousAnalysis", "modelType"}
VV = "vega::VectorialValue"


def pt(x):
    """the object behind cells, pointers and shared pointers"""
    while True:
        if isinstance(x, Cell):
            x = x.v
        elif isinstance(x, Ptr) and isinstance(x.c, Cell):
            x = x.c
        else:
            return x


def isun(v):
    return isinstance(v, (Fraction, float)) and v == UNAV


class Canon:
    def __init__(s, I, m):
        s.I, s.m = I, m
        s.mesh = m.f[MODEL + "::mesh"]

    def fld(s, o, name):
        for k, c in o.f.items():
            if k.endswith("::" + name):
                return rv(c)
        raise Unsupported("no field " + name)

    def oid(s, o):
        v = s.fld(o, "original_id")
        return None if isinstance(v, int) and v == INT_MIN else v

    def nid(s, p):
        if isinstance(p, int) and p == INT_MAX:
            return None
        return rv(s.I.callq("vega::Mesh::findNodeId", s.mesh, [p]))

    def cid(s, p):
        if isinstance(p, int) and p == INT_MAX:
            return None
        return rv(s.I.callq("vega::Mesh::findCellId", s.mesh, [p]))

    def seq(s, v):
        if isinstance(v, MapV):
            return [rv(k) for k, _ in v.ents]
        return [rv(c) for c in v.cells]

    def val(s, v):
        I = s.I
        if isinstance(v, Ptr):
            if v.c is None:
                return None
            return s.pointee(pt(v))
        if isinstance(v, PairV):
            return [s.val(rv(v.first)), s.val(rv(v.second))]
        if isinstance(v, LSeq):
            raise Unsupported("sequence of symbolic length")
        if isinstance(v, Seq):
            return [s.val(rv(c)) for c in v.cells]
        if isinstance(v, MapV):
            return [s.val(rv(k)) if x is None else [s.val(rv(k)), s.val(rv(x))] for k, x in v.ents]
        if isinstance(v, Obj):
            n = v.cls
            if n == VV:
                return [rv(I.callq(VV + "::" + k, Cell(v))) for k in "xyz"]
            if n == "vega::DOF":
                return s.fld(v, "position")
            if n == "vega::DOFS":
                return s.fld(v, "dofsCode")
            if n == "vega::DOFCoefs":
                return [None if isun(x) else x for x in (rv(c) for c in s.fld(v, "coefs").cells)]
            if n == "vega::DOFMatrix":
                f = I.fn("vega::DOFMatrix::findComponent")
                return [rv(I.callq("vega::DOFMatrix::findComponent", Cell(v), [dof(I, a), dof(I, b)])) for a in range(6) for b in range(6)]
            if n.startswith("vega::Reference<"):
                o = s.fld(v, "original_id")
                return [s.fld(v, "type"), None if isinstance(o, int) and o == INT_MIN else o]
            if n == "vega::ValueOrReference":
                w = rv(v.f[n + "::storage"])
                if hasattr(w, "v") and not isinstance(w, Obj):
                    w = rv(w.v)
                return None if isun(w) else s.val(w)
            return s.pointee(v)
        return v

    def pointee(s, v):
        if not isinstance(v, Obj):
            return s.val(v)
        n = v.cls
        if n == "vega::CompositeLayer":
            return [s.val(s.fld(v, "_materialRef")), s.fld(v, "_thickness"), s.fld(v, "_orientation")]
        if n == "vega::RecoveryPoint":
            return s.val(s.fld(v, "localCoords"))
        if n == "vega::CellGroup":
            return Bag([rv(x) for x in s.seq(rv(s.I.callq(n + "::cellIds", Cell(v))))])
        if n == "vega::CellContainer":
            return Bag([s.cid(x) for x in s.seq(rv(s.I.callq(n + "::getCellPositionsIncludingGroups", Cell(v))))])
        if n in ("vega::DOFMatrix",) or n.startswith("vega::Reference<"):
            return s.val(v)
        if any(k.endswith("::original_id") for k in v.f):
            return [s.fld(v, "type"), s.oid(v)]
        return "?"

    def put(s, name, v):
        pos, cel = "osition" in name, "ell" in name
        if pos and isinstance(v, int):
            return s.cid(v) if cel else s.nid(v)
        if isinstance(v, MapV) and not v.kind.startswith("set") and (pos or v.ents and isinstance(rv(v.ents[0][0]), PairV) and isinstance(rv(rv(v.ents[0][0]).first), int)):
            out = []
            for k, x in v.ents:
                kk = rv(k)
                if isinstance(kk, int):
                    xx = rv(x)
                    if isinstance(xx, MapV) and xx.kind.startswith("set"):
                        out += [[s.nid(kk), s.nid(rv(y[0]) if isinstance(y, tuple) else rv(y))] for y in xx.ents]
                    else:
                        out.append([s.nid(kk), s.nid(xx) if isinstance(xx, int) and "osition" in name.split("By")[0].split("by")[0] else s.val(xx)])
                elif isinstance(kk, PairV) and isinstance(rv(kk.first), int):
                    out.append([s.nid(rv(kk.first)), s.nid(rv(kk.second)), s.val(rv(x))])
                elif isinstance(kk, PairV):
                    out.append([s.val(rv(kk.first)), s.val(rv(kk.second)), [s.cid(rv(c)) for c in rv(x).cells]])
                else:
                    raise Unsupported("map of positions")
            return out
        return s.val(v)

    def obj(s, o, cls=None):
        """class and fields of a model object"""
        I = s.I
        top = cls is None
        cls = cls or o.cls
        d = {"class": cls[6:]} if top else {}
        rec = I.P.records.get(cls)
        for b in rec["basenames"]:
            if not b.startswith("vega::Identifiable") and b not in ("vega::BoundaryCondition", "vega::NodeContainer", "vega::CellContainer") and b in I.P.records:
                d.update(s.obj(o, b))
        if "vega::NodeContainer" in rec["basenames"]:
            d["nodes"] = Lazy(lambda: Bag([s.nid(p) for p in s.seq(rv(I.callq("vega::NodeContainer::getNodePositionsIncludingGroups", Cell(o))))]))
        if "vega::CellContainer" in rec["basenames"]:
            d["cells"] = Lazy(lambda: Bag([s.cid(p) for p in s.seq(rv(I.callq("vega::CellContainer::getCellPositionsIncludingGroups", Cell(o))))]))
        if cls == "vega::DynamicExcitation":
            def refval(k):
                r = rv(o.f[cls + "::" + k])
                if s.oid(r) is not None:
                    return None
                return next((s.fld(p, "value") for p in s.items("values") if s.fld(p, "id") == s.fld(r, "id")), None)
            for f, k in (("dynaDelay", "delay"), ("dynaPhase", "phase")):
                if cls + "::" + f in o.f:
                    d[k] = Lazy(lambda f=f: refval(f))
        for q_, g in gendump.VALUEOF:
            if q_ == cls:
                d["valueAt"] = Lazy(lambda g=g: next((i for i, p in enumerate(s.items("values")) if p is pt(I.callq(cls + "::" + g, Cell(o)))), -1))
        for f in rec["fields"]:
            if f[0] and f[0] not in SKIPF and cls + "::" + f[0] in o.f:
                d[f[0]] = Lazy(lambda k=f[0]: s.put(k, rv(o.f[cls + "::" + k])))
        return d

    def items(s, cont):
        c = rv(s.m.f[MODEL + "::" + cont])
        byid = next(rv(v) for k, v in c.f.items() if k.endswith("::by_id"))
        ents = sorted(byid.ents, key=lambda e: rv(e[0]))
        return [pt(x) for _, x in ents]

    def container(s, cont):
        I = s.I
        objs = s.items(cont)
        head = lambda o: {"type": s.fld(o, "type"), "oid": s.oid(o)}
        out = []
        for o in objs:
            d = head(o)
            if cont in ("loadSets", "constraintSets", "objectiveSets"):
                emb = {"loadSets": ("embedded", "embedded_loadsets"), "constraintSets": ("refs", "constraintSetReferences"), "objectiveSets": ("refs", "objectiveSetReferences")}[cont]
                d[emb[0]] = Lazy(lambda o=o: s.val(s.fld(o, emb[1])))
                q, g, pool = {"loadSets": ("vega::LoadSet", "getLoadings", "loadings"), "constraintSets": ("vega::ConstraintSet", "getConstraints", "constraints"),
                              "objectiveSets": ("vega::ObjectiveSet", "getObjectives", "objectives")}[cont]

                def members(o=o, q=q, g=g, pool=pool):
                    ps = s.items(pool)
                    ms = [pt(p) for p in s.seq(rv(I.callq(q + "::" + g, Cell(o))))]
                    return Bag([next((i for i, x in enumerate(ps) if x is y), -1) for y in ms])
                d["members"] = Lazy(members)
            elif cont == "materials":
                d["natures"] = Lazy(lambda o=o: [s.obj(pt(x)) for _, x in s.fld(o, "nature_by_type").ents])
            else:
                d.update(s.obj(o))
                if cont == "constraints":
                    d["sets"] = Lazy(lambda o=o: [[s.fld(x, "type"), s.oid(x)] for x in (pt(p) for p in s.seq(rv(I.callq(MODEL + "::getConstraintSetsByConstraint", Cell(s.m), [rv(I.callq("vega::Identifiable<vega::Constraint>::getReference", Cell(o)))]))))])
                if cont == "elementSets":
                    d["materials"] = Lazy(lambda o=o: s.val(s.fld(o, "materialRefs")))
                    d["modelName"] = Lazy(lambda o=o: s.fld(pt(s.fld(o, "modelType")), "name"))
                if cont == "analyses":
                    def prev(o=o):
                        p = s.fld(o, "previousAnalysis")
                        return "none" if p.c is None else s.oid(pt(p))
                    d["previous"] = Lazy(prev)
            out.append(d)
        return out

    def csid(s, pos):
        """user number of the coordinate system at a position: 0 for the global one, None for one without a number"""
        if pos == 0:
            return 0
        me = rv(s.mesh)
        m = rv(rv(me.f["vega::Mesh::coordinateSystemStorage"]).f["vega::CoordinateSystemStorage::refByPosition"])
        for k, v in m.ents:
            if rv(k) == pos:
                return s.oid(rv(v))
        return -1

    def mesh_list(s, what):
        I, me = s.I, s.mesh
        M_ = "vega::Mesh"
        st = rv(rv(me).f[M_ + "::nodes"])
        if what == "nodes":
            n = rv(I.callq(M_ + "::countNodes", me))
            out = []
            for p in range(n):
                nd = pt(I.callq(M_ + "::findNode", me, [p]))
                g = lambda k, nd=nd: rv(nd.f["vega::Node::" + k])
                out.append({"id": g("id"), "x": [g(k) for k in "xyz"], "l": [g("l" + k) for k in "xyz"], "dofs": s.fld(g("dofs"), "dofsCode"), "cp": s.csid(g("positionCS")), "cd": s.csid(g("displacementCS"))})
            return out
        if what == "cells":
            n = rv(I.callq(M_ + "::countCells", me, sig=[]))
            out = []
            for p in range(n):
                cl = pt(I.callq(M_ + "::findCell", me, [p]))
                g = lambda k, cl=cl: rv(cl.f["vega::Cell::" + k])
                d2 = rv(I.field(I.field(g("type"), "dimension"), "relativeMeshDimension"))

                def ori(g=g):
                    if not g("hasOrientation"):
                        return None
                    q = rv(I.callq(M_ + "::getCoordinateSystemByPosition", me, [g("cspos")]))
                    return s.obj(pt(q)) if q.c is not None else None
                out.append({"id": g("id"), "type": rv(I.field(g("type"), "description")), "nodes": s.val(g("nodeIds")), "virtual": g("isvirtual"), "el": g("elementId"), "off": g("offset") if d2 == -1 else Fraction(0), "cs": Lazy(lambda g=g: s.csid(g("cspos")) if g("hasOrientation") else 0), "orientation": Lazy(ori)})
            return out
        if what in ("nodeGroups", "cellGroups"):
            q = "NodeGroup" if what == "nodeGroups" else "CellGroup"
            out = []
            for p in s.seq(rv(I.callq(M_ + "::get%ss" % q, me))):
                g = pt(p)
                ids = "getNodeIds" if q == "NodeGroup" else "cellIds"
                cls = "vega::NodeContainer" if q == "NodeGroup" else "vega::CellGroup"
                out.append({"name": rv(I.callq("vega::Group::getName", Cell(g))), "oid": s.oid(g), "nodes" if q == "NodeGroup" else "cells": Lazy(lambda g=g, ids=ids, cls=cls: Bag([x for x in s.seq(rv(I.callq((cls if I.P.byq.get(cls + "::" + ids) else "vega::" + q) + "::" + ids, Cell(g))))]))})
            return out
        if what == "systems":
            cs = rv(rv(me).f[M_ + "::coordinateSystemStorage"])
            m = rv(cs.f["vega::CoordinateSystemStorage::coordinateSystemByRef"])
            out = []
            for k, v in m.ents:
                p = rv(v)
                if p.c is not None:
                    d = s.obj(pt(p))
                    d["ref"] = s.val(rv(k))
                    out.append(d)
            return out
        raise Unsupported(what)

    def top(s, key):
        if key in ("nodes", "cells", "nodeGroups", "cellGroups", "systems"):
            return s.mesh_list(key)
        if key == "parameters":
            return {str(rv(k)): rv(v) for k, v in rv(s.m.f[MODEL + "::parameters"]).ents}
        if key in ("onlyMesh", "title"):
            return rv(s.m.f[MODEL + "::" + key])
        return s.container(key)


class Lazy:
    def __init__(s, f):
        s.f = f

    def get(s):
        return s.f()


class Bag(list):
    """order does not matter"""


class Exact(dict):
    """a dictionary whose keys are all meant (an expectation with a key ... allows others)"""


class NoKey(Exception):
    pass


def match(e, g):
    """formula: the canonical content g satisfies what is expected"""
    if isinstance(g, Lazy):
        g = g.get()
    if callable(e):
        return e(g)
    if isinstance(e, dict):
        if not isinstance(g, dict):
            return False
        out = []
        if isinstance(g, Exact) and (set(e) - {...} != set(g) and not (... in e and set(e) - {...} <= set(g))):
            return False
        if "class" in e and e["class"] != g.get("class"):
            return False
        for k, x in e.items():
            if k is ...:
                continue
            if k not in g:
                raise Unsupported("no %s in %s" % (k, g.get("class")))
            out.append(match(x, g[k]))
        return AND(*out) if out else True
    if isinstance(e, (list, tuple)):
        if not isinstance(g, list) or len(e) != len(g):
            return False
        if isinstance(e, Bag) or isinstance(g, Bag):
            return bag(list(e), list(g))
        return AND(*[match(a, b) for a, b in zip(e, g)]) if e else True
    if e is None or g is None:
        return e is None and g is None or (e is None and isun(g)) or (g is None and isun(e))
    if isinstance(e, str) or isinstance(g, str):
        return e == g
    if isinstance(g, (dict, list)) or isinstance(g, (Obj,)):
        return False
    if isinstance(e, float):
        e = Fraction(e)
    return EQ(e, g)


def bag(e, g):
    if not e:
        return True
    alts = []
    for k in range(len(g)):
        h = match(e[0], g[k])
        if h is False:
            continue
        r = bag(e[1:], g[:k] + g[k + 1:])
        if r is False:
            continue
        f = AND(h, r)
        if f is True:
            return True
        alts.append(f)
    return z3.Or(*[toz(a) for a in alts]) if alts else False


def cdiff(e, g, path=""):
    """concrete comparison with a harness dump: None or the first disagreement"""
    if callable(e):
        return None if e(g) else "%s: %s not acceptable" % (path, g)
    if isinstance(e, dict):
        if not isinstance(g, dict):
            return "%s: expected %s, got %s" % (path, e, g)
        if isinstance(g, Exact) and (set(e) - {...} != set(g) and not (... in e and set(e) - {...} <= set(g))):
            return "%s: expected %s, got %s" % (path, str(e)[:400], str(g)[:400])
        for k, x in e.items():
            if k is ... or k not in g or g[k] == "?":
                continue            # not observable any more
            r = cdiff(x, g[k], path + "." + str(k))
            if r:
                return r
        return None
    if isinstance(e, (list, tuple)):
        if not isinstance(g, list) or len(e) != len(g):
            return "%s: expected %s, got %s" % (path, str(e)[:400], str(g)[:400])
        if isinstance(e, Bag):
            left = list(g)
            for x in e:
                k = next((i for i, y in enumerate(left) if cdiff(x, y) is None), None)
                if k is None:
                    return "%s: %s missing in %s" % (path, str(x)[:300], str(g)[:300])
                left.pop(k)
            return None
        for k, (a, b) in enumerate(zip(e, g)):
            r = cdiff(a, b, "%s[%d]" % (path, k))
            if r:
                return r
        return None
    if e is None or g is None:
        ok = (e is None and (g is None or g == UNAV)) or (g is None and (e is None or e == UNAV))
        return None if ok else "%s: expected %s, got %s" % (path, e, g)
    if isinstance(e, bool) or isinstance(e, str) or isinstance(g, str):
        return None if e == g else "%s: expected %s, got %s" % (path, e, g)
    return None if isinstance(g, (int, float)) and close(float(e), float(g)) else "%s: expected %s, got %s" % (path, e, g)


# ---------------------------------------------------------------- card specifications, evaluated symbolically and on random concrete values
REALS = [("0.", 0.0), ("1.", 1.0), ("-2.5", -2.5), (".125", 0.125), ("3.0", 3.0), ("1.5+2", 150.0), ("-7.-1", -0.7), ("2.1E+2", 210.0), ("4.D1", 40.0), ("-.75", -0.75), ("6.25e-1", 0.625), ("12345.6", 12345.6)]
POS = [("1.", 1.0), (".125", 0.125), ("3.0", 3.0), ("1.5+2", 150.0), ("2.1E+2", 210.0), ("4.D1", 40.0), (".75", 0.75), ("6.25e-1", 0.625)]


class Fld:
    """a field of a card: what is written (None when blank) and the value it stands for"""
    def __init__(s, kind, v, text=None, blank=False):
        s.kind, s.v, s.text, s.blank = kind, v, text, blank


class SymF:
    sym = True

    def __init__(s, I):
        s.I, s.n = I, 0

    def i(s, name, lo=1, hi=10 ** 7, ne=()):
        v = integer(s.I, name, lo, hi)
        for x in ne:
            s.I.c.assume(NOT(EQ(v, x.v)))
        return Fld("i", v)

    def d(s, name, nz=False, pos=False, ne=()):
        v = real(s.I, name)
        s.I.c.assume(AND(v > -10 ** 30, v < 10 ** 30))
        if nz:
            s.I.c.assume(z3.Or(v > Fraction(1, 1000), v < Fraction(-1, 1000)))
        if pos:
            s.I.c.assume(v > Fraction(1, 1000))
        for x in ne:
            s.I.c.assume(NOT(EQ(v, x)))
        return Fld("d", v)

    def blank(s, name):
        return s.rec(name, s.I.c.choose(2, name + "?")) == 1

    def pick(s, name, xs):
        k = s.rec(name, s.I.c.choose(len(xs), name))
        if isinstance(xs[k], (int, str)):
            s.I.c.picks["=" + name] = xs[k]
        return xs[k]

    def rec(s, name, k):
        if not hasattr(s.I.c, "picks"):
            s.I.c.picks = {}
        s.I.c.picks["?" + name] = k
        return k

    def assume(s, e):
        s.I.c.assume(e)

    def branch(s, e):
        return e if isinstance(e, bool) else s.I.c.branch(e)


class Reject(Exception):
    pass


class ConF:
    sym = False

    def __init__(s, rng):
        s.r = rng

    def i(s, name, lo=1, hi=10 ** 7, ne=()):
        while True:
            v = s.r.choice([s.r.randint(lo, min(hi, lo + 8)), s.r.randint(lo, hi)])
            if all(v != x.v for x in ne):
                return Fld("i", v, str(v))

    def d(s, name, nz=False, pos=False, ne=()):
        while True:
            t, v = s.r.choice(POS if pos else REALS)
            if not (nz and v == 0) and all(v != x for x in ne):
                return Fld("d", v, t)

    def blank(s, name):
        return s.r.random() < 0.35

    def pick(s, name, xs):
        return s.r.choice(xs)

    def assume(s, e):
        if not e:
            raise Reject()

    def branch(s, e):
        return bool(e)


class ModF:
    """fields taken from a counterexample of the verifier"""
    sym = False

    def __init__(s, m):
        s.m = m

    def i(s, name, lo=1, hi=10 ** 7, ne=()):
        v = int(num(s.m, name, lo))
        while name not in s.m and any(v == x.v for x in ne):
            v += 1
        return Fld("i", v, str(v))

    def d(s, name, nz=False, pos=False, ne=()):
        t = "%.9E" % float(num(s.m, name, 1))
        return Fld("d", float(t), t)

    def blank(s, name):
        return s.m.get("?" + name, 0) == 1

    def pick(s, name, xs):
        v = s.m.get("=" + name)
        if v is not None and v in [x for x in xs if isinstance(x, (int, str))]:
            return v
        return xs[s.m.get("?" + name, 0) % len(xs)]

    def assume(s, e):
        pass

    def branch(s, e):
        return bool(e)


def common_fields(F):
    """optional fields: blank or present"""
    class X:
        i, d, pick, assume, branch, sym = F.i, F.d, F.pick, F.assume, F.branch, F.sym

        @staticmethod
        def oi(name, default, **kw):
            return Fld(None, default, "", True) if F.blank(name) else F.i(name, **kw)

        @staticmethod
        def od(name, default, **kw):
            return Fld(None, default if default is None or isinstance(default, z3.ExprRef) else (Fraction(default) if F.sym else default), "", True) if F.blank(name) else F.d(name, **kw)

        @staticmethod
        def s(t):
            return Fld("s", t, t)

        @staticmethod
        def os(name, default, xs):
            k = F.pick(name, [None] + list(xs))
            return Fld(None, default, "", True) if k is None else Fld("s", k, k)

        @staticmethod
        def num(k):
            return Fld("i", k, str(k))

        @staticmethod
        def r(x):
            return Fld("d", Fraction(x) if F.sym else float(x), repr(float(x)))

        @staticmethod
        def mul(*xs):
            r = xs[0]
            for x in xs[1:]:
                r = arith("*", r, x) if F.sym else r * x
            return r

        @staticmethod
        def neg(x):
            return arith("*", Fraction(-1), x) if F.sym else -x

        @staticmethod
        def add(a, b):
            return arith("+", a, b) if F.sym else a + b

        @staticmethod
        def div(a, b):
            return toz(a) / toz(b) if F.sym else a / b

        @staticmethod
        def real(x):
            return (z3.ToReal(x) if isinstance(x, z3.ExprRef) else Fraction(x)) if F.sym else float(x)

        @staticmethod
        def c(x):
            return Fraction(x) if F.sym else float(x)
    X.F = F
    return X


def afield(f):
    """abstract field handed to the tokenizer contract"""
    if f is None or f.kind is None:
        return None
    return (f.kind, f.v)


def text_field(f):
    return "" if f is None or f.kind is None else f.text


def card_text(rng, kw, fields, fmt=None):
    """one card in free, short or long format, continuations where the card is longer than a line"""
    fs = [text_field(f) for f in fields]
    while fs and fs[-1] == "" and rng.random() < 0.5:
        fs.pop()
    fmt = fmt or rng.choice(["free", "short", "long", "short"])
    if fmt == "short" and any(len(x) > 8 for x in fs):
        fmt = "long"
    if fmt == "free":
        out = ""
        for k in range(0, max(1, len(fs)), 8):
            out += ("," if k else kw + ",") + ",".join(fs[k:k + 8]) + ("\n" if k + 8 >= len(fs) else ",+\n" if False else "\n")
        return out
    if fmt == "short":
        out = ""
        for k in range(0, max(1, len(fs)), 8):
            out += (kw if k == 0 else rng.choice(["+", ""] if fs[k - 1] else [""])).ljust(8)[:8] + "".join(x.rjust(8) if rng.random() < .5 else x.ljust(8) for x in fs[k:k + 8]) + "\n"
        return out
    out = ""
    for k in range(0, max(1, len(fs)), 4):
        out += (kw + "*" if k == 0 else "*").ljust(8) + "".join(x.ljust(16) for x in fs[k:k + 4]) + "\n"
    return out


EXEC = "SOL 101\nCEND\nBEGIN BULK\n"


def deck_text(rng, cards, fmt=None, head=EXEC):
    return head + "".join(card_text(rng, k, f, fmt) for k, f in cards) + "ENDDATA\n"


class RealTok:
    """the real tokenizer on a text whose numbers are symbolic (vc/text.py)"""
    def __init__(s, I, text):
        c = I.c
        ref = next(x for x in I.P.records[NT]["mrefs"] if x.get("k") == "ctor" and len(x["p"]) == 4)
        s.errors, s.warned = [], []
        c.contracts["vega::Tokenizer::getInputContext"] = lambda I2, this, args: Obj("vega::InputContext")
        for cl in ("vega::Parser", "vega::Tokenizer"):
            c.contracts[cl + "::handleParsingWarning"] = lambda I2, this, args: s.warned.append(rv(args[0]))
            c.contracts[cl + "::handleParsingError"] = lambda I2, this, args: s.refuse(rv(args[0]))
        s.obj = I.new_object(NT, ref, [Cell(TX.InS(text)), Cell(1), Cell("deck"), Cell(0)])

    def refuse(s, msg):
        s.errors.append(msg)
        raise CppThrow("skipCommand", "std::basic_string<char>")


def line_text(F, parts, I=None):
    """a line of the deck: literal text and numbers (symbolic ones as atoms)"""
    out = ""
    for x in parts if isinstance(parts, (list, tuple)) else [parts]:
        out += x if isinstance(x, str) else (TX.atom(I.c, x.v) if is_z(x.v) else str(x.v)) if I is not None else x.text
    return out


def case_unit(prop, name, spec, opts=None):
    """unit: the case control lines built by spec, read by the real tokenizer and the real executive section parser, give exactly the analyses expected"""
    def run(c):
        I = begin(c)
        F = common_fields(SymF(I))
        lines, exp = spec(F)
        m = model(I, cells=False)
        t = RealTok(I, "".join(line_text(F, x, I) + "\n" for x in lines) + "BEGIN BULK\n")
        ctx = Cell(MapV("map", "std::string", "std::string"))
        I.callq(NP + "::parseExecutiveSection", Cell(parser(I)), [Cell(t.obj), Cell(m), ctx])
        c.prove("%s.%s.accepted" % (prop, name), (len(t.errors) > 0) == (exp.get("errors", 0) > 0), info=str(t.errors)[:200])
        cn = Canon(I, m)
        for key in exp:
            if key != "errors":
                c.prove("%s.%s.%s" % (prop, name, key), match(exp[key], cn.top(key)))
        for key in ALL + ("loadSets", "constraintSets", "objectiveSets"):
            if key not in exp and key not in ("cells", "systems"):
                c.prove("%s.%s.nothing else" % (prop, name), len(cn.items(key)) == 0)
    return Unit(name, run, opts or {}, replay=lambda m: case_cases(prop, name, spec, random.Random(7), 1, fields=ModF(m)))


def case_cases(prop, name, spec, rng, n, fields=None):
    out = []
    for k in range(n):
        try:
            lines, exp = spec(common_fields(fields or ConF(rng)))
        except Reject:
            continue
        text = "".join(line_text(None, x) + "\n" for x in lines) + "BEGIN BULK\nENDDATA\n"

        def check(r, exp=exp, text=text, name=name):
            if not isinstance(r, dict) or "exc" in r:
                return "%s: %s for deck %r" % (name, r, text)
            for key in exp:
                if key != "errors":
                    d = cdiff(exp[key], r.get(key), key)
                    if d:
                        return "%s: %s; deck %r" % (name, d, text)
            for key in ALL + ("loadSets", "constraintSets", "objectiveSets"):
                if key not in exp and r.get(key):
                    return "%s: unexpected %s: %s; deck %r" % (name, key, str(r[key])[:300], text)
            return None
        out.append(Case("%s:%d" % (name, k), "deck best 0 aster " + esc(text), check))
    return out


MESHY = ("PLOTEL", "RBE2", "RBE3", "RBAR", "GENEL", "RROD", "SPOINT")
ALL = ("loadings", "constraints", "elementSets", "materials", "objectives", "values", "targets", "cells", "systems", "analyses")
SETS = {"loadings": "loadSets", "constraints": "constraintSets", "objectives": "objectiveSets"}


CSTYPE = {"SPC": 0, "MPC": 1}


def predeclare(I, m, ty, sid):
    """the set named by a case control command, as the case control reader registers it"""
    cls = "vega::ConstraintSet"
    ref = next(x for x in I.P.records[cls]["mrefs"] if x.get("k") == "ctor" and len(x["p"]) == 3)
    o = I.new_object(cls, ref, [Cell(m), Cell(CSTYPE[ty]), Cell(sid)])
    I.callq(MODEL + "::add", Cell(m), [Ptr(Cell(o))], sig=["std::shared_ptr<vega::ConstraintSet>"])


def card_unit(prop, name, spec, opts=None, finish=False, mode=0):
    """unit: the cards built by spec, parsed by the real parser into a real model, give exactly the objects expected"""
    def run(c):
        I = begin(c)
        F = common_fields(SymF(I))
        cards, exp = spec(F)
        m = model(I, cells=finish or any(k[0] == "C" and k[:4] != "CORD" or k in MESHY for k, _ in cards))
        for ty, f in exp.get("pre", ()):
            predeclare(I, m, ty, f.v)
        t = bulk(I, m, [(k, [afield(f) for f in fs]) for k, fs in cards])
        errs = exp.get("errors", 0)
        c.prove("%s.%s.accepted" % (prop, name), (len(t.errors) > 0) == (errs > 0), info=str(t.errors)[:200])
        if finish:
            I.callq(MODEL + "::finish", Cell(m))
        cn = Canon(I, m)
        for key in exp:
            if key not in ("errors", "pre"):
                c.prove("%s.%s.%s" % (prop, name, key), match(exp[key], cn.top(key)))
        for key in ALL:
            if key not in exp:
                c.prove("%s.%s.nothing else" % (prop, name), len(cn.items(key) if key not in ("cells", "systems") else cn.mesh_list(key)) == 0)
    return Unit(name, run, opts or {}, replay=lambda m: card_cases(prop, name, spec, random.Random(7), 1, fields=ModF(m)))


def card_cases(prop, name, spec, rng, n, fields=None):
    out = []
    for k in range(n):
        try:
            cards, exp = spec(common_fields(fields or ConF(rng)))
        except Reject:
            continue
        head = EXEC
        if exp.get("pre"):
            head = "SOL 101\nCEND\n" + "".join("%s = %s\n" % (ty, f.text) for ty, f in exp["pre"]) + "BEGIN BULK\n"
        text = deck_text(rng, cards, "free" if fields else None, head)

        def check(r, exp=exp, text=text, name=name):
            if not isinstance(r, dict) or "exc" in r:
                return "%s: %s for deck %r" % (name, r, text)
            if exp.get("errors", 0) == 0 and "keyword" not in exp and r.get("stderr", "").find("Error") >= 0 and False:
                return "%s refused: %s" % (name, r["stderr"])
            for key in exp:
                if key in ("errors", "pre"):
                    continue
                d = cdiff(exp[key], r.get(key), key)
                if d:
                    return "%s: %s; deck %r" % (name, d, text)
            for key in ALL:
                if key not in exp and key != "analyses" and r.get(key):
                    return "%s: unexpected %s: %s; deck %r" % (name, key, str(r[key])[:300], text)
            return None
        out.append(Case("%s:%d" % (name, k), "deck best 0 aster " + esc(text), check))
    return out

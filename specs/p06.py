"""P06  Faces of cells: tables, face from two nodes, two nodes from a face, corners."""
from common import *
import itertools

TUS = ["Abstract/MeshComponents.cpp", "Abstract/Mesh.cpp", "Abstract/Dof.cpp", "Abstract/CoordinateSystem.cpp", "Abstract/Value.cpp"]
CL, CT = "vega::Cell", "vega::CellType"

# reference elements: corner coordinates and, for quadratic ones, the edge carried by each further node (MED numbering, 0 based)
REF = {
    "TETRA": ([(0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, 1)], [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
    "PYRA": ([(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0), (.5, .5, -1)], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)]),
    "PENTA": ([(0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 0, -1), (0, 1, -1), (1, 0, -1)], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
    "HEXA": ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
             [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]),
}
TYPES = {"TETRA4": "TETRA", "TETRA10": "TETRA", "PYRA5": "PYRA", "PYRA13": "PYRA", "PENTA6": "PENTA", "PENTA15": "PENTA", "HEXA8": "HEXA", "HEXA20": "HEXA"}
FLAT = {"SEG2": 2, "SEG3": 2, "TRI3": 3, "TRI6": 3, "QUAD4": 4, "QUAD8": 4}
NN = {"SEG2": 2, "SEG3": 3, "TRI3": 3, "TRI6": 6, "QUAD4": 4, "QUAD8": 8}


def sub(a, b): return [x - y for x, y in zip(a, b)]
def crs(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dt(a, b): return sum(x * y for x, y in zip(a, b))


def cyc(f):
    k = f.index(min(f))
    return tuple(f[k:] + f[:k])


def faces(kind):
    """corner cycles of the faces, from the geometry alone: maximal coplanar corner sets with all other corners on one side"""
    pts, edges = REF[kind]
    nc = len(pts)
    E_ = [e for e in edges if max(e) < nc]
    out = {}
    for a, b, d in itertools.combinations(range(nc), 3):
        n = crs(sub(pts[b], pts[a]), sub(pts[d], pts[a]))
        side = [dt(n, sub(p, pts[a])) for p in pts]
        if all(s <= 1e-12 for s in side) or all(s >= -1e-12 for s in side):
            on = frozenset(k for k in range(nc) if abs(side[k]) < 1e-12)
            out[on] = None
    res = []
    for on in out:
        # walk the edges of the element inside the face
        nb = {k: [y for e in E_ for x, y in (e, e[::-1]) if x == k and y in on] for k in on}
        f = [min(on)]
        while True:
            nx = [y for y in nb[f[-1]] if y not in f]
            if not nx:
                break
            f.append(nx[0])
        assert len(f) == len(on)
        res.append(f)
    return res


def oriented(kind):
    """every face as the corner cycle whose normal has the sense of the face tables of the element's first face (1,2,3[,4])"""
    pts, _ = REF[kind]
    cen = [sum(p[k] for p in pts) / len(pts) for k in range(3)]

    def sgn(f):
        c = [sum(pts[k][t] for k in f) / len(f) for t in range(3)]
        return dt(crs(sub(pts[f[1]], pts[f[0]]), sub(pts[f[2]], pts[f[0]])), sub(cen, c))
    first = list(range(3)) if kind in ("TETRA", "PENTA") else list(range(4))
    s0 = sgn(first)
    return [f if sgn(f) * s0 > 0 else [f[0]] + f[:0:-1] for f in faces(kind)]


def full(kind, quad, f):
    """corner cycle followed by the middle nodes of its successive edges"""
    if not quad:
        return list(f)
    pts, edges = REF[kind]
    mid = {frozenset(e): len(pts) + i for i, e in enumerate(edges)}
    return list(f) + [mid[frozenset((f[i], f[(i + 1) % len(f)]))] for i in range(len(f))]


def is_face(kind, quad, nodes):
    """is this list of local nodes one face, right orientation, any starting corner?"""
    k = len(nodes) // 2 if quad else len(nodes)
    c = nodes[:k]
    for f in oriented(kind):
        for r in range(len(f)):
            g = f[r:] + f[:r]
            if g == c:
                return full(kind, quad, g) == nodes
    return False


def corner_set(kind, quad, nodes):
    return frozenset(nodes[:len(nodes) // 2 if quad else len(nodes)])


def designated(kind, i, j):
    """the face the pair of corners (i, j) designates by the Nastran rules, or None when they designate none"""
    F = faces(kind)
    if kind == "TETRA":
        return None if j is None or i == j else frozenset(k for k in range(4) if k != j)
    if kind == "HEXA":
        c = [f for f in F if i in f and j in f and abs(f.index(i) - f.index(j)) == 2] if j is not None else []
        return frozenset(c[0]) if c else None
    if kind == "PENTA":
        if j is None:
            return frozenset([f for f in F if len(f) == 3 and i in f][0])
        c = [f for f in F if len(f) == 4 and i in f and j in f and abs(f.index(i) - f.index(j)) == 2]
        return frozenset(c[0]) if c else None
    if j is None or i == 4 or j == 4 or i == j:
        return None
    if abs(i - j) == 2:
        return frozenset(range(4))
    return frozenset([i, j, 4])


def ctype(I, name):
    return I.global_of(CT + "::" + name)


def mkcell(I, name, n):
    c = I.c
    ids = [integer(I, "id%d" % k, -2 ** 31 + 1, 2 ** 31 - 2) for k in range(n)]
    c.assume(z3.Distinct(*[toz(x) for x in ids]) if n > 1 else True)
    o = Obj(CL)
    v = Seq([Cell(x) for x in ids], "vector", E.parse_type("int"))
    for f, x in (("id", 1), ("position", 0), ("nodeIds", v), ("type", I.copyval(ctype(I, name)))):
        o.f[CL + "::" + f] = Cell(x)
    return o, ids


def back(I, ids, vec_):
    """local numbers of returned node ids (each must be provably one of them)"""
    out = []
    for x in seqvals(vec_):
        k = next((k for k, y in enumerate(ids) if x is y or (is_z(x) and is_z(y) and x.eq(y))), None)
        if k is None:
            return None
        out.append(k)
    return out


def is_z(x):
    return isinstance(x, z3.ExprRef)


def seqvals(v):
    v = rv(v)
    return [rv(x) for x in v.cells]


def u_faces(c):
    I = begin(c)
    name = sorted(TYPES)[c.choose(len(TYPES), "type")]
    kind = TYPES[name]
    npt, ned = len(REF[kind][0]), len(REF[kind][1])
    quad = not name.endswith(str(npt))
    n = npt + (ned if quad else 0)
    cell, ids = mkcell(I, name, n)
    r = rv(I.callq(CL + "::nodeIdsByFaceNum", Cell(cell)))
    got = [(rv(k), back(I, ids, v)) for k, v in sorted(r.ents, key=lambda e: rv(e[0]))]
    want = {frozenset(f) for f in faces(kind)}
    c.prove("P06.faces.count", len(got) == len(want) and sorted(k for k, _ in got) == list(range(1, len(want) + 1)))
    c.prove("P06.faces.nodes", all(f is not None and is_face(kind, quad, f) for _, f in got))
    c.prove("P06.faces.all", {corner_set(kind, quad, f) for _, f in got if f} == want)
    c.prove("P06.faces.first", got[0][1] is not None and got[0][1][:3] == [0, 1, 2])
    corners = back(I, ids, I.callq(CL + "::cornerNodeIds", Cell(cell)))
    c.prove("P06.corners", corners == list(range(npt)))
    for num, f in got:
        p = rv(I.callq(CL + "::two_nodeids_from_facenum", Cell(cell), [num]))
        a, b = rv(p.first), rv(p.second)
        i = next((k for k, y in enumerate(ids) if a is y), None)
        j = None if b == INT_MIN else next((k for k, y in enumerate(ids) if b is y), -1)
        c.prove("P06.twonodes.designates", i is not None and j != -1 and f is not None and designated(kind, i, j) == corner_set(kind, quad, f))


def u_find(c):
    I = begin(c)
    name = sorted(TYPES)[c.choose(len(TYPES), "type")]
    kind = TYPES[name]
    npt, ned = len(REF[kind][0]), len(REF[kind][1])
    quad = not name.endswith(str(npt))
    i = c.choose(npt, "node1")
    j = c.choose(npt + 1, "node2")
    j = None if j == npt else j
    want = designated(kind, i, j)
    if want is None:
        return
    cell, ids = mkcell(I, name, npt + (ned if quad else 0))
    r = back(I, ids, I.callq(CL + "::faceids_from_two_nodes", Cell(cell), [ids[i], ids[j] if j is not None else INT_MIN]))
    c.prove("P06.find.face", r is not None and is_face(kind, quad, r) and corner_set(kind, quad, r) == want)


def u_flat(c):
    I = begin(c)
    name = sorted(FLAT)[c.choose(len(FLAT), "type")]
    cell, ids = mkcell(I, name, NN[name])
    c.prove("P06.corners.flat", back(I, ids, I.callq(CL + "::cornerNodeIds", Cell(cell))) == list(range(FLAT[name])))
    if name[0] in "TQ":
        i = c.choose(FLAT[name], "node1")
        r = back(I, ids, I.callq(CL + "::faceids_from_two_nodes", Cell(cell), [ids[i], INT_MIN]))
        c.prove("P06.find.shell", r == list(range(NN[name])))


def u_absent(c):
    """a node that is not in the cell designates nothing"""
    I = begin(c)
    name = ["HEXA8", "TETRA10", "PENTA6", "QUAD4"][c.choose(4, "type")]
    kind = TYPES.get(name)
    n = {"HEXA8": 8, "TETRA10": 10, "PENTA6": 6, "QUAD4": 4}[name]
    cell, ids = mkcell(I, name, n)
    x = integer(I, "x", -2 ** 31 + 1, 2 ** 31 - 2)
    c.assume(AND(*[NOT(EQ(x, y)) for y in ids]))
    try:
        I.callq(CL + "::faceids_from_two_nodes", Cell(cell), [x, ids[0]] if c.choose(2, "which") else [ids[0], x])
    except CppThrow:
        c.prove("P06.find.absent", True)
        return
    c.prove("P06.find.absent", False)


UNITS = [Unit("faces", u_faces), Unit("find", u_find), Unit("flat", u_flat), Unit("absent", u_absent)]


def suite(rng, tier):
    out = []
    for rep in range(4 if tier == "quick" else 60):
        for name in sorted(TYPES) + sorted(FLAT):
            kind = TYPES.get(name)
            if kind:
                npt, ned = len(REF[kind][0]), len(REF[kind][1])
                quad = not name.endswith(str(npt))
                n = npt + (ned if quad else 0)
            else:
                npt, n, quad = FLAT[name], NN[name], False
            ids = rng.sample(range(1, 1000), n)
            if rep == 1:
                ids = sorted(ids, reverse=True)
            pairs = [(i, j) for i in range(npt) for j in list(range(npt)) + [None] if not kind or designated(kind, i, j) is not None]
            pairs = pairs if kind else [(i, None) for i in range(npt)] if name[0] in "TQ" else []
            ops = "mesh_faces %s %d %s %d %s" % (name, n, " ".join(map(str, ids)), len(pairs) + 1, " ".join("%d %d" % (ids[i], -1 if j is None else ids[j]) for i, j in pairs) + " 5000 %d" % ids[0])

            def check(r, kind=kind, npt=npt, quad=quad, ids=ids, pairs=pairs, name=name, n=n):
                loc = {x: k for k, x in enumerate(ids)}
                if r["corners"] != ids[:npt]:
                    return "corners of %s %s: %s" % (name, ids, r["corners"])
                if not (isinstance(r["q"][-1]["f"], str) and r["q"][-1]["f"].startswith("exc")):
                    return "node outside the cell accepted: %s" % (r["q"][-1],)
                for (i, j), g in zip(pairs, r["q"]):
                    g = g["f"]
                    if not isinstance(g, list) or any(x not in loc for x in g):
                        return "%s %s: face of (%s,%s): %s" % (name, ids, i, j, g)
                    g = [loc[x] for x in g]
                    if not kind:
                        if g != list(range(n)):
                            return "%s: face of a shell: %s" % (name, g)
                    elif not is_face(kind, quad, g) or corner_set(kind, quad, g) != designated(kind, i, j):
                        return "%s: nodes (%s,%s) designate face %s, real code gave %s" % (name, i, j, sorted(designated(kind, i, j)), g)
                if kind:
                    F = {}
                    for k, f in r["faces"].items():
                        g = [loc[x] for x in f]
                        if not is_face(kind, quad, g):
                            return "%s: face %s is %s, not a face of the element" % (name, k, g)
                        F[k] = corner_set(kind, quad, g)
                    if len(set(F.values())) != len(F) or set(F.values()) != {frozenset(f) for f in faces(kind)} or sorted(F) != [str(k + 1) for k in range(len(F))]:
                        return "%s: faces %s" % (name, F)
                    for k, p in r["two"].items():
                        i, j = loc[p[0]], None if p[1] == INT_MIN else loc[p[1]]
                        if designated(kind, i, j) != F[k]:
                            return "%s: face %s named by nodes (%s,%s), which designate %s" % (name, k, i, j, designated(kind, i, j))
            out.append(Case("faces:%s:%s" % (name, ids), ops, check))
    return out

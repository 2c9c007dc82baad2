#include "ops.h"
using namespace vega;
static VectorialValue V(In &in) { double x = in.d(), y = in.d(), z = in.d(); return VectorialValue(x, y, z); }
static Raw VJ(const VectorialValue &v) { return Raw{JA(std::vector<double>{v.x(), v.y(), v.z()})}; }
OP(vec) { // a b f
  VectorialValue a = V(in), b = V(in); double f = in.d();
  VectorialValue s(a), c; s.scale(f); c = a;
  Ob o;
  o("add", VJ(a + b))("sub", VJ(a - b))("mul", VJ(f * a))("div", VJ(a / f))("dot", a.dot(b))("cross", VJ(a.cross(b)))("norm", a.norm())("normalized", VJ(a.normalized()))
   ("scaled", VJ(a.scaled(f)))("scale", VJ(s))("assign", VJ(c))("on", VJ(a.orthonormalized(b)))("eq", a == b)("ne", a != b)("zero", a.iszero());
  return o.end().s;
}
// nodes: n (id x y z cpid)*  systems: n (kind id rcs ...)* ; build all ; queries
// kinds: C/Y/S origin ex ey | N nO nZ nXZ | V nO nX vx vy vz | W nO nX nV
typedef Reference<CoordinateSystem> CR;
static CR ref(int id) { return id == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM : CR(CoordinateSystem::Type::ABSOLUTE, id); }
template <class F> static void attempt(Ob &o, const char *k, F f) {
  try { o(k, f()); } catch (const std::exception &e) { o(k, std::string("exc:") + e.what()); }
}
static void addsys(Mesh &mesh, In &in, bool order) {
  int n = in.i();
  for (int k = 0; k < n; k++) {
    std::string kind = in.s(); int id = in.i(), rcs = in.i();
    if (kind == "C") { VectorialValue o = V(in), x = V(in), y = V(in); CartesianCoordinateSystem c(mesh, o, x, y, ref(rcs), id); c.build(); mesh.add(c); }
    else if (kind == "Y") { VectorialValue o = V(in), x = V(in), y = V(in); CylindricalCoordinateSystem c(mesh, o, x, y, ref(rcs), id); c.build(); mesh.add(c); }
    else if (kind == "S") { VectorialValue o = V(in), x = V(in), y = V(in); SphericalCoordinateSystem c(mesh, o, x, y, ref(rcs), id); c.build(); mesh.add(c); }
    else if (kind == "N") { int a = in.i(), b = in.i(), d = in.i(); CartesianCoordinateSystem c(mesh, a, b, d, ref(rcs), id); mesh.add(c); }
    else if (kind == "V") { int a = in.i(), b = in.i(); VectorialValue v = V(in); OrientationCoordinateSystem c(mesh, a, b, v, ref(rcs), id); mesh.add(c); }
    else if (kind == "W") { int a = in.i(), b = in.i(), d = in.i(); OrientationCoordinateSystem c(mesh, a, b, d, ref(rcs), id); mesh.add(c); }
  }
}
OP(cs_eval) {
  Mesh mesh(LogLevel::INFO, "h");
  int nn = in.i();
  for (int k = 0; k < nn; k++) { int id = in.i(); double x = in.d(), y = in.d(), z = in.d(); int cp = in.i(); mesh.addNode(id, x, y, z, mesh.findOrReserveCoordinateSystem(ref(cp))); }
  addsys(mesh, in, false);
  for (auto &e : mesh.coordinateSystemStorage.coordinateSystemByRef) e.second->build();
  Ob o;
  std::vector<Raw> ns;
  for (const Node &n : mesh.nodes) ns.push_back(Raw{JA(std::vector<double>{(double)n.id, n.x, n.y, n.z, n.lx, n.ly, n.lz})});
  o("nodes", Raw{JA(ns)});
  int nq = in.i();
  std::vector<Raw> qs;
  for (int k = 0; k < nq; k++) {
    std::string kind = in.s(); int id = in.i(); VectorialValue v = V(in); int other = in.i();
    std::shared_ptr<CoordinateSystem> cs;
    for (auto &e : mesh.coordinateSystemStorage.coordinateSystemByRef) if (e.second->getOriginalId() == id) cs = e.second;
    Ob q;
    if (!cs) { q("missing", id); qs.push_back(q.end()); continue; }
    if (kind == "L") cs->updateLocalBase(v);
    q("o", VJ(cs->origin))("ex", VJ(cs->ex))("ey", VJ(cs->ey))("ez", VJ(cs->ez))("ct", (int)cs->coordType)("t", (int)cs->type);
    attempt(q, "pg", [&] { return VJ(cs->positionToGlobal(v)); });
    attempt(q, "vg", [&] { return VJ(cs->vectorToGlobal(v)); });
    attempt(q, "vl", [&] { return VJ(cs->vectorToLocal(v)); });
    std::shared_ptr<CoordinateSystem> oc;
    for (auto &e : mesh.coordinateSystemStorage.coordinateSystemByRef) if (other && e.second->getOriginalId() == other) oc = e.second;
    attempt(q, "eu", [&] { return VJ(cs->getEulerAnglesIntrinsicZYX(oc.get())); });
    if (auto y = std::dynamic_pointer_cast<CylindricalCoordinateSystem>(cs)) {
      q("ur", VJ(y->ur))("ut", VJ(y->utheta));
      attempt(q, "le", [&] { return VJ(y->getLocalEulerAnglesIntrinsicZYX(oc.get())); });
    }
    attempt(q, "cl", [&] { auto c = cs->clone(); return VJ(c->positionToGlobal(v)); });
    qs.push_back(q.end());
  }
  o("q", Raw{JA(qs)});
  return o.end().s;
}
// ops on the coordinate system storage: seq of  R id | A id | F id | P position-of id
OP(cs_store) {
  Mesh mesh(LogLevel::INFO, "h");
  std::vector<Raw> out; std::map<int, pos_t> seen;
  while (in.more()) {
    std::string k = in.s(); int id = in.i(); Ob o; o("k", k)("id", id);
    try {
      if (k == "R") { pos_t p = mesh.findOrReserveCoordinateSystem(ref(id)); o("p", p); seen[id] = p; }
      else if (k == "A") { CartesianCoordinateSystem c(mesh, VectorialValue(id, 0, 0), VectorialValue::X, VectorialValue::Y, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM, id); c.build(); mesh.add(c); pos_t p = mesh.coordinateSystemStorage.findPosition(ref(id)); o("p", p); }
      else if (k == "F") { auto c = mesh.findCoordinateSystem(ref(id)); o("o", c ? c->getOrigin().x() : -1.0)("null", c == nullptr); }
      else if (k == "P") { pos_t p = mesh.coordinateSystemStorage.findPosition(ref(id)); o("p", p); auto c = mesh.getCoordinateSystemByPosition(p); o("o", c ? c->getOrigin().x() : -1.0)("null", c == nullptr); }
    } catch (const std::exception &e) { o("exc", std::string(e.what())); }
    out.push_back(o.end());
  }
  return JA(out);
}
OP(ocs_store) { // n x (kind args) each: prints position and count
  Mesh mesh(LogLevel::INFO, "h"); std::vector<Raw> out; int n = in.i();
  for (int k = 0; k < n; k++) {
    std::string kind = in.s(); pos_t p;
    if (kind == "V") { int a = in.i(), b = in.i(); VectorialValue v = V(in); p = mesh.addOrFindOrientation(OrientationCoordinateSystem(mesh, a, b, v)); }
    else { int a = in.i(), b = in.i(), d = in.i(); p = mesh.addOrFindOrientation(OrientationCoordinateSystem(mesh, a, b, d)); }
    out.push_back(Raw{std::to_string(p)});
  }
  return JA(out);
}
// mesh registry: sequence of operations, then a dump
static const char *CT[] = {"POINT1","SEG2","SEG3","TRI3","TRI6","QUAD4","QUAD8","TETRA4","TETRA10","PENTA6","PENTA15","HEXA8","HEXA20","PYRA5","PYRA13"};
static const CellType &ct(const std::string &s) { for (auto &e : CellType::typeByCode) if (e.second->description == s) return *e.second; throw std::runtime_error("celltype " + s); }
static Raw cellj(const Cell &c) { return Ob()("id", c.id)("type", c.type.description)("n", Raw{JA(c.nodeIds)})("pos", c.position)("np", Raw{JA(c.nodePositions)})("cs", c.cspos)("el", c.elementId)("ctp", c.cellTypePosition)("off", c.type.dimension == SpaceDimension::DIMENSION_2D ? c.offset : 0.0).end(); }
template <class S> static Raw SJ(const S &s) { std::vector<long> v(s.begin(), s.end()); std::sort(v.begin(), v.end()); return Raw{JA(v)}; }
OP(mesh_seq) {
  Mesh mesh(LogLevel::INFO, "h");
  std::vector<Raw> out;
  while (in.more()) {
    std::string k = in.s(); Ob o; o("k", k);
    try {
      if (k == "N") { int id = in.i(); double x = in.d(), y = in.d(), z = in.d(); o("p", mesh.addNode(id, x, y, z)); }
      else if (k == "R") { o("p", mesh.findOrReserveNode(in.i())); }
      else if (k == "RP") { int id = in.i(), part = in.i(); o("p", mesh.findOrReserveNode(id, part)); }
      else if (k == "C") { int id = in.i(); std::string t = in.s(); int el = in.i(); double off = in.d(); int n = in.i(); std::vector<int> ids; for (int j = 0; j < n; j++) ids.push_back(in.i());
        o("p", mesh.addCell(id, ct(t), ids, false, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID, el, off)); }
      else if (k == "S") { int d = in.i(); int n = in.i(); std::vector<int> ids; for (int j = 0; j < n; j++) ids.push_back(in.i()); pos_t p = mesh.generateSkinCell(ids, d == 1 ? SpaceDimension::DIMENSION_1D : d == 2 ? SpaceDimension::DIMENSION_2D : SpaceDimension::DIMENSION_3D); o("cell", cellj(mesh.findCell(p))); }
      else if (k == "A") { int id = in.i(); int m = in.i(); pos_t p = mesh.findNodePosition(id); mesh.allowDOFS(p, DOFS((char)m)); }
      else if (k == "E") { int id = in.i(); int e = in.i(); mesh.assignElementId(mesh.findCellPosition(id), e); }
      else if (k == "GN") { std::string n = in.txt(); int id = in.i(); auto g = mesh.createNodeGroup(n, id == -1 ? Group::NO_ORIGINAL_ID : id); o("name", g->getName()); }
      else if (k == "GF") { std::string n = in.txt(); auto g = mesh.findOrCreateNodeGroup(n); o("name", g->getName())("null", g == nullptr); }
      else if (k == "GC") { std::string n = in.txt(); int id = in.i(); auto g = mesh.createCellGroup(n, id == -1 ? Group::NO_ORIGINAL_ID : id); o("name", g->getName()); }
      else if (k == "GNA") { std::string n = in.txt(); int id = in.i(); std::static_pointer_cast<NodeGroup>(mesh.findGroup(n))->addNodeId(id); }
      else if (k == "GNR") { std::string n = in.txt(); int id = in.i(); std::static_pointer_cast<NodeGroup>(mesh.findGroup(n))->removeNodeByPosition(mesh.findNodePosition(id)); }
      else if (k == "GCA") { std::string n = in.txt(); int id = in.i(); std::static_pointer_cast<CellGroup>(mesh.findGroup(n))->addCellId(id); }
      else if (k == "GCR") { std::string n = in.txt(); int id = in.i(); std::static_pointer_cast<CellGroup>(mesh.findGroup(n))->removeCellPosition(mesh.findCellPosition(id)); }
      else if (k == "GM") { std::string n = in.txt(), m = in.txt(); mesh.renameGroup(n, m, "c"); }
      else if (k == "GX") { mesh.removeGroup(in.txt()); }
      else if (k == "QG") { int id = in.i(); auto g = mesh.findGroup(id); o("has", mesh.hasGroup(id))("name", g ? g->getName() : std::string()); }
      else if (k == "QN") { int id = in.i(); pos_t p = mesh.findNodePosition(id); o("p", p); if (p != (pos_t)Node::UNAVAILABLE_NODE) { Node n = mesh.findNode(p); o("id", n.id)("x", Raw{JA(std::vector<double>{n.x, n.y, n.z})})("pos", n.position)("dofs", (int)(char)n.dofs)("fid", mesh.findNodeId(p))("part", n.nodepartId); } }
      else if (k == "QC") { int id = in.i(); pos_t p = mesh.findCellPosition(id); o("has", mesh.hasCell(id))("p", p); if (mesh.hasCell(id)) { o("cell", cellj(mesh.findCell(p)))("fid", mesh.findCellId(p)); } }
      else throw std::runtime_error("bad op " + k);
    } catch (const std::runtime_error &e) { throw; } catch (const std::exception &e) { o("exc", std::string(e.what())); }
    out.push_back(o.end());
  }
  Ob d;
  d("nn", mesh.countNodes())("nc", mesh.countCells())("offs", mesh.hasNonZeroOffset())("valid", mesh.validate());
  { std::vector<int> v; for (const Node &n : mesh.nodes) v.push_back(n.id); d("nodes", Raw{JA(v)}); }
  { Ob t; for (auto &e : CellType::typeByCode) { size_t n = mesh.countCells(*e.second); if (!n) continue; std::vector<int> v; for (auto it = mesh.cells.cells_begin(*e.second); it != mesh.cells.cells_end(*e.second); ++it) { Cell c = *it; v.push_back(c.id); } t(e.second->description.c_str(), Raw{JA(v)}); if (v.size() != n) t("mismatch", e.second->description); } d("types", t.end()); }
  { Ob g; for (auto &x : mesh.getNodeGroups()) g(x->getName().c_str(), SJ(x->getNodeIds())); d("ng", g.end()); }
  { Ob g; for (auto &x : mesh.getCellGroups()) g(x->getName().c_str(), SJ(x->cellIds())); d("cg", g.end()); }
  return Ob()("r", Raw{JA(out)})("d", d.end()).end().s;
}
OP(mesh_faces) { // type n ids m (n1 n2)* -> face tables of one cell
  Mesh mesh(LogLevel::INFO, "h");
  std::string t = in.s(); int n = in.i(); std::vector<int> ids; for (int j = 0; j < n; j++) ids.push_back(in.i());
  pos_t p = mesh.addCell(1, ct(t), ids); Cell c = mesh.findCell(p);
  Ob o; Ob f, s; std::map<int, std::vector<int>> fs; try { fs = c.nodeIdsByFaceNum(); } catch (std::exception &) {}
  for (auto &e : fs) { f(std::to_string(e.first).c_str(), Raw{JA(e.second)}); attempt(s, std::to_string(e.first).c_str(), [&] { auto q = c.two_nodeids_from_facenum(e.first); return Raw{JA(std::vector<int>{q.first, q.second})}; }); }
  o("faces", f.end())("two", s.end());
  attempt(o, "corners", [&] { return Raw{JA(c.cornerNodeIds())}; });
  int m = in.i(); std::vector<Raw> qs;
  for (int j = 0; j < m; j++) { int a = in.i(), b = in.i(); Ob q; attempt(q, "f", [&] { return Raw{JA(b == -1 ? c.faceids_from_two_nodes(a) : c.faceids_from_two_nodes(a, b))}; }); qs.push_back(q.end()); }
  o("q", Raw{JA(qs)});
  return o.end().s;
}
OP(celltypes) { std::vector<Raw> v; for (auto &e : CellType::typeByCode) v.push_back(Ob()("code", (int)e.first)("d", e.second->description)("n", e.second->numNodes)("dim", e.second->dimension.relativeMeshDimension).end()); return JA(v); }

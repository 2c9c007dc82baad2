#include "ops.h"
#define private public
#define protected public
#include "Abstract/Analysis.h"
#include "Abstract/Objective.h"
#include "Abstract/Target.h"
#include "Nastran/NastranParser.h"
#include "Nastran/NastranWriter.h"
#undef private
#undef protected
using namespace vega;
// ---- values
static const Mesh *gmesh = nullptr;
template <class T, class E = void> struct JV { static std::string f(const T &) { return "\"?\""; } };
template <class T> static std::string jv(const T &x) { return JV<typename std::remove_cv<T>::type>::f(x); }
template <class T> struct JV<T, typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value && !std::is_same<T, unsigned char>::value>::type> { static std::string f(const T &x) { return J(x); } };
template <> struct JV<char> { static std::string f(const char &x) { return J((int)x); } };
template <> struct JV<unsigned char> { static std::string f(const unsigned char &x) { return J((int)x); } };
template <> struct JV<bool> { static std::string f(const bool &x) { return J(x); } };
template <class T> struct JV<T, typename std::enable_if<std::is_enum<T>::value>::type> { static std::string f(const T &x) { return J((int)x); } };
template <> struct JV<std::string> { static std::string f(const std::string &x) { return J(x); } };
template <> struct JV<std::complex<double>> { static std::string f(const std::complex<double> &x) { return "[" + J(x.real()) + "," + J(x.imag()) + "]"; } };
template <> struct JV<VectorialValue> { static std::string f(const VectorialValue &v) { return "[" + J(v.x()) + "," + J(v.y()) + "," + J(v.z()) + "]"; } };
template <> struct JV<DOF> { static std::string f(const DOF &d) { return J((int)d.position); } };
template <> struct JV<DOFS> { static std::string f(const DOFS &d) { return J((int)(char)d); } };
template <> struct JV<DOFCoefs> { static std::string f(const DOFCoefs &d) { std::string r = "["; for (int i = 0; i < 6; i++) { double v = d.getValue(DOF::findByPosition(i)); r += (i ? "," : "") + (is_equal(v, Globals::UNAVAILABLE_DOUBLE) ? std::string("null") : J(v)); } return r + "]"; } };
template <> struct JV<DOFMatrix> { static std::string f(const DOFMatrix &m) { std::string r = "["; for (const DOF a : DOFS::ALL_DOFS) for (const DOF b : DOFS::ALL_DOFS) r += (r.size() > 1 ? "," : "") + J(m.findComponent(a, b)); return r + "]"; } };
static std::string oid(int id) { return id == INT_MIN ? std::string("null") : J(id); }
template <class T> struct JV<Reference<T>> { static std::string f(const Reference<T> &r) { return "[" + J((int)r.type) + "," + (r.original_id != Reference<T>::NO_ID ? J(r.original_id) : "null") + "]"; } };
template <> struct JV<ValueOrReference> { static std::string f(const ValueOrReference &v) { if (v.isReference()) return JV<Reference<NamedValue>>::f(v.getReference()); return is_equal(v.getValue(), Globals::UNAVAILABLE_DOUBLE) ? std::string("null") : J(v.getValue()); } };
template <class A, class B> struct JV<std::pair<A, B>> { static std::string f(const std::pair<A, B> &p) { return "[" + jv(p.first) + "," + jv(p.second) + "]"; } };
template <class C> static std::string seqj(const C &c) { std::string r = "["; bool f = true; for (const auto &x : c) { if (!f) r += ","; f = false; r += jv(x); } return r + "]"; }
template <class T> struct JV<std::vector<T>> { static std::string f(const std::vector<T> &c) { return seqj(c); } };
template <class T> struct JV<std::list<T>> { static std::string f(const std::list<T> &c) { return seqj(c); } };
template <class T, class X> struct JV<std::set<T, X>> { static std::string f(const std::set<T, X> &c) { return seqj(c); } };
template <class T, size_t N> struct JV<std::array<T, N>> { static std::string f(const std::array<T, N> &c) { return seqj(c); } };
template <class T, size_t N> struct JV<T[N]> { static std::string f(const T (&c)[N]) { return seqj(c); } };
template <class K, class T> struct JV<std::map<K, T>> { static std::string f(const std::map<K, T> &c) { return seqj(c); } };
template <class T, class E = void> struct JP { static std::string f(const T &) { return "\"?\""; } };
template <class T> struct JP<T, decltype((void)std::declval<T>().original_id)> { static std::string f(const T &x) { return "[" + J((int)x.type) + "," + oid(x.original_id) + "]"; } };
template <> struct JP<DOFMatrix> { static std::string f(const DOFMatrix &x) { return jv(x); } };
template <> struct JP<Reference<NamedValue>> { static std::string f(const Reference<NamedValue> &x) { return jv(x); } };
template <> struct JP<Reference<Analysis>> { static std::string f(const Reference<Analysis> &x) { return jv(x); } };
template <> struct JP<CompositeLayer> { static std::string f(const CompositeLayer &x) { return "[" + jv(x._materialRef) + "," + J(x._thickness) + "," + J(x._orientation) + "]"; } };
template <> struct JV<RecoveryPoint> { static std::string f(const RecoveryPoint &x) { return "[" + J(x.localCoords.x()) + "," + J(x.localCoords.y()) + "," + J(x.localCoords.z()) + "]"; } };
template <> struct JP<CellGroup> { static std::string f(const CellGroup &g) { std::vector<long> v; for (int i : const_cast<CellGroup &>(g).cellIds()) v.push_back(i); std::sort(v.begin(), v.end()); return seqj(v); } };
template <> struct JP<CellContainer> { static std::string f(const CellContainer &g) { std::vector<long> v; for (int i : g.getCellIdsIncludingGroups()) v.push_back(i); std::sort(v.begin(), v.end()); return seqj(v); } };
template <> struct JP<NodeGroup> { static std::string f(const NodeGroup &g) { std::vector<long> v; for (int i : g.getNodeIds()) v.push_back(i); std::sort(v.begin(), v.end()); return seqj(v); } };
template <class T> struct JV<std::shared_ptr<T>> { static std::string f(const std::shared_ptr<T> &p) { return p ? JP<T>::f(*p) : "null"; } };
template <class A, class B> struct JV<std::unordered_map<A, B>> { static std::string f(const std::unordered_map<A, B> &c) { return seqj(c); } };
// ---- positions become the numbers of the nodes/cells
static bool posname(const std::string &k) { return k.find("osition") != std::string::npos; }
static bool cellname(const std::string &k) { return k.find("ell") != std::string::npos; }
static std::string nid(pos_t p) { if (!gmesh || p >= gmesh->countNodes()) return "null"; return J(gmesh->findNodeId(p)); }
static std::string cid(pos_t p) { if (!gmesh || p >= gmesh->countCells()) return "null"; return J(gmesh->findCellId(p)); }
template <class T> static void put(Ob &o, const char *k, const T &v) { o(k, Raw{jv(v)}); }
static void put(Ob &o, const char *k, const unsigned &v) { o(k, Raw{posname(k) ? (cellname(k) ? cid(v) : nid(v)) : J(v)}); }
template <class T> static void put(Ob &o, const char *k, const std::map<pos_t, T> &m) { if (!posname(k)) { o(k, Raw{jv(m)}); return; } std::string r = "["; for (auto &e : m) r += (r.size() > 1 ? "," : "") + std::string("[") + nid(e.first) + "," + jv(e.second) + "]"; o(k, Raw{r + "]"}); }
template <class M> static void putpairs(Ob &o, const char *k, const M &m) { std::string r = "["; for (auto &e : m) r += (r.size() > 1 ? "," : "") + std::string("[") + nid(e.first) + "," + nid(e.second) + "]"; o(k, Raw{r + "]"}); }
static void put(Ob &o, const char *k, const std::map<pos_t, pos_t> &m) { putpairs(o, k, m); }
static void put(Ob &o, const char *k, const std::multimap<pos_t, pos_t> &m) { putpairs(o, k, m); }
static void put(Ob &o, const char *k, const std::map<pos_t, std::set<pos_t>> &m) { std::multimap<pos_t, pos_t> mm; for (auto &e : m) for (pos_t p : e.second) mm.insert({e.first, p}); putpairs(o, k, mm); }
template <class T> static void put(Ob &o, const char *k, const std::map<std::pair<pos_t, pos_t>, T> &m) { std::string r = "["; for (auto &e : m) r += (r.size() > 1 ? "," : "") + std::string("[") + nid(e.first.first) + "," + nid(e.first.second) + "," + jv(e.second) + "]"; o(k, Raw{r + "]"}); }
static void put(Ob &o, const char *k, const std::map<std::pair<DOF, DOF>, std::vector<pos_t>> &m) { std::string r = "["; for (auto &e : m) { std::string s; for (pos_t p : e.second) s += (s.empty() ? "" : ",") + cid(p); r += (r.size() > 1 ? "," : "") + std::string("[") + jv(e.first.first) + "," + jv(e.first.second) + ",[" + s + "]]"; } o(k, Raw{r + "]"}); }
static std::string sorted(std::vector<long> v) { std::sort(v.begin(), v.end()); return seqj(v); }
static void nodesOf(Ob &o, const NodeContainer &c, const Mesh &m) { std::vector<long> v; for (pos_t p : c.getNodePositionsIncludingGroups()) v.push_back(m.findNodeId(p)); o("nodes", Raw{sorted(v)}); }
static void cellsOf(Ob &o, const CellContainer &c, const Mesh &m) { std::vector<long> v; for (pos_t p : c.getCellPositionsIncludingGroups()) v.push_back(m.findCellId(p)); o("cells", Raw{sorted(v)}); }
template <class R> static void refval(Ob &o, const char *k, Model &m, const R &r) { auto p = std::dynamic_pointer_cast<DynaPhase>(m.find(r)); if (p && !r.has_original_id()) o(k, p->value); else o(k, Raw{"null"}); }
template <class P> static void valueAt(Ob &o, Model &m, const P &p) { int k = 0, r = -1; for (auto v : m.values) { if (static_cast<const Identifiable<NamedValue> *>(v.get()) == static_cast<const Identifiable<NamedValue> *>(p.get())) r = k; k++; } o("valueAt", r); }
#include "gen_dump.h"
template <class T> static std::string refs(const T &c) { return seqj(c); }
static Raw plus(const Raw &a, const std::string &extra) { std::string s = a.s; s.erase(s.size() - 1); return Raw{s + extra + "}"}; }
template <class T> static std::string head(const T &x) { return ",\"type\":" + J((int)x.type) + ",\"oid\":" + oid(x.original_id); }
static std::string csid(Model &m, pos_t p) { if (p == 0) return "0"; auto &r = m.mesh.coordinateSystemStorage.refByPosition; auto it = r.find(p); return it == r.end() ? std::string("-1") : oid(it->second.original_id); }
std::string dumpModel(Model &m, bool mesh) {
  gmesh = &m.mesh;
  Ob o;
  std::map<int, int> lidx, cidx, oidx; std::string r; int k;
  auto arr = [&](const char *n) { o(n, Raw{"[" + r + "]"}); r.clear(); };
  auto app = [&](const std::string &s) { r += (r.empty() ? "" : ",") + s; };
  k = 0; for (auto x : m.loadings) { lidx[x->getId()] = k++; app(plus(dumpObj(*x), head(*x)).s); } arr("loadings");
  for (auto x : m.loadSets) { std::vector<long> v; for (auto l : x->getLoadings()) v.push_back(lidx.count(l->getId()) ? lidx[l->getId()] : -1); app(Ob()("type", (int)x->type)("oid", Raw{oid(x->original_id)})("embedded", Raw{jv(x->embedded_loadsets)})("members", Raw{sorted(v)}).end().s); } arr("loadSets");
  k = 0; for (auto x : m.constraints) { cidx[x->getId()] = k++; std::string s; for (auto c : m.getConstraintSetsByConstraint(x->getReference())) s += (s.empty() ? "" : ",") + ("[" + J((int)c->type) + "," + oid(c->original_id) + "]"); app(plus(dumpObj(*x), head(*x) + ",\"sets\":[" + s + "]").s); } arr("constraints");
  for (auto x : m.constraintSets) { std::vector<long> v; for (auto l : x->getConstraints()) v.push_back(cidx.count(l->getId()) ? cidx[l->getId()] : -1); app(Ob()("type", (int)x->type)("oid", Raw{oid(x->original_id)})("refs", Raw{jv(x->constraintSetReferences)})("members", Raw{sorted(v)}).end().s); } arr("constraintSets");
  for (auto x : m.elementSets) { std::string mats = "["; for (auto &q : x->materialRefs) mats += (mats.size() > 1 ? "," : "") + jv(q); app(plus(dumpObj(*x), head(*x) + ",\"modelName\":" + J(x->modelType.name) + ",\"materials\":" + mats + "]").s); } arr("elementSets");
  for (auto x : m.materials) { std::string s; for (auto &n : x->nature_by_type) s += (s.empty() ? "" : ",") + dumpObj(*n.second).s; app(Ob()("type", (int)x->type)("oid", Raw{oid(x->original_id)})("natures", Raw{"[" + s + "]"}).end().s); } arr("materials");
  k = 0; for (auto x : m.objectives) { oidx[x->getId()] = k++; app(plus(dumpObj(*x), head(*x)).s); } arr("objectives");
  for (auto x : m.objectiveSets) { std::vector<long> v; for (auto l : x->getObjectives()) v.push_back(oidx.count(l->getId()) ? oidx[l->getId()] : -1); app(Ob()("type", (int)x->type)("oid", Raw{oid(x->original_id)})("refs", Raw{jv(x->objectiveSetReferences)})("members", Raw{sorted(v)}).end().s); } arr("objectiveSets");
  for (auto x : m.analyses) { std::string pv = x->previousAnalysis ? oid(x->previousAnalysis->original_id) : "\"none\""; app(plus(dumpObj(*x), head(*x) + ",\"previous\":" + pv).s); } arr("analyses");
  for (auto x : m.values) app(plus(dumpObj(*x), ",\"type\":" + J((int)x->type) + ",\"oid\":" + oid(x->original_id)).s); arr("values");
  for (auto x : m.targets) app(plus(dumpObj(*x), head(*x)).s); arr("targets");
  { Ob p; for (auto &e : m.parameters) p(std::to_string((int)e.first).c_str(), e.second); o("parameters", p.end()); }
  o("onlyMesh", m.onlyMesh)("title", m.title);
  if (mesh) {
    for (const Node &n : m.mesh.nodes) app(Ob()("id", n.id)("x", Raw{"[" + J(n.x) + "," + J(n.y) + "," + J(n.z) + "]"})("l", Raw{"[" + J(n.lx) + "," + J(n.ly) + "," + J(n.lz) + "]"})("dofs", (int)(char)n.dofs)("cp", Raw{csid(m, n.positionCS)})("cd", Raw{csid(m, n.displacementCS)}).end().s); arr("nodes");
    for (pos_t p = 0; p < m.mesh.countCells(); p++) { Cell c = m.mesh.findCell(p); std::string cs = "null"; if (c.hasOrientation) { auto q = m.mesh.getCoordinateSystemByPosition(c.cspos); if (q) cs = plus(dumpObj(*q), "").s; } app(Ob()("id", c.id)("type", c.type.description)("nodes", Raw{seqj(c.nodeIds)})("virtual", c.isvirtual)("el", c.elementId)("off", c.type.dimension == SpaceDimension::DIMENSION_2D ? c.offset : 0.0)("cs", Raw{c.hasOrientation ? csid(m, c.cspos) : std::string("0")})("orientation", Raw{cs}).end().s); } arr("cells");
    for (auto g : m.mesh.getNodeGroups()) app(Ob()("name", g->getName())("oid", Raw{oid(g->original_id)})("nodes", Raw{JP<NodeGroup>::f(*g)}).end().s); arr("nodeGroups");
    for (auto g : m.mesh.getCellGroups()) app(Ob()("name", g->getName())("oid", Raw{oid(g->original_id)})("cells", Raw{JP<CellGroup>::f(*g)}).end().s); arr("cellGroups");
    for (auto &e : m.mesh.coordinateSystemStorage.coordinateSystemByRef) { if (e.second) app(plus(dumpObj(*e.second), ",\"ref\":" + jv(e.first)).s); } arr("systems");
  }
  gmesh = nullptr;
  return o.end().s;
}
static int mode(const std::string &s) { return s == "strict" ? 2 : s == "mesh" ? 1 : 0; }
std::unique_ptr<Model> parseDeck(const std::string &text, const std::string &md, const std::string &solver, std::string *err) {
  std::string path = "deck.nas";
  { std::ofstream f(path); f << text; }
  ConfigurationParameters c(path, solver == "systus" ? Solver(SolverName::SYSTUS) : solver == "nastran" ? Solver(SolverName::NASTRAN) : Solver(SolverName::CODE_ASTER), "", "out", ".", LogLevel::ERROR, (ConfigurationParameters::TranslationMode)mode(md));
  nastran::NastranParser parser;
  std::ostringstream e; auto *oe = std::cerr.rdbuf(e.rdbuf()); std::ostringstream so; auto *oo = std::cout.rdbuf(so.rdbuf());
  try { auto m = parser.parse(c); std::cerr.rdbuf(oe); std::cout.rdbuf(oo); if (err) *err = e.str(); return m; } catch (...) { std::cerr.rdbuf(oe); std::cout.rdbuf(oo); if (err) *err = e.str(); throw; }
}
// deck <best|mesh|strict> <finish 0/1> <solver> <text> : parse a deck, dump the model
OP(deck) {
  std::string md = in.s(); bool fin = in.i(); std::string solver = in.s(); std::string text = in.txt(), err;
  std::unique_ptr<Model> m;
  try { m = parseDeck(text, md, solver, &err); } catch (const std::exception &e) { return Ob()("exc", std::string(e.what()))("stderr", err.substr(0, 600)).end().s; }
  if (fin) { std::ostringstream so; auto *oo = std::cout.rdbuf(so.rdbuf()); auto *oe = std::cerr.rdbuf(so.rdbuf()); std::string x; try { m->finish(); } catch (const std::exception &e) { x = e.what(); } catch (const std::string &e) { x = "string:" + e; } std::cout.rdbuf(oo); std::cerr.rdbuf(oe); if (!x.empty()) return Ob()("exc", x).end().s; }
  std::string d = dumpModel(*m, true);
  d.erase(d.size() - 1);
  return d + ",\"warnings\":" + J((int)std::count(err.begin(), err.end(), '\n')) + ",\"stderr\":" + J(err.substr(0, 600)) + "}";
}

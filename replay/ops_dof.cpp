#include "ops.h"
using namespace vega;
static DOF D(int p) { return DOF::findByPosition(p); }
static int B(const DOFS &d) { return (int)(char)d; }
OP(dofs_ops) { // a b p
  DOFS a((char)in.i()), b((char)in.i()); int p = in.i();
  DOFS c(a); c += b; DOFS e(a); e += D(p); DOFS g; g = D(p);
  std::vector<int> it; for (const DOF d : a) it.push_back(d.position);
  std::vector<int> contains; for (int k = 0; k < 6; k++) contains.push_back(a.contains(D(k)));
  Ob o;
  o("u", B(a + b))("d", B(a - b))("i", B(a & b))("inter", B(a.intersection(b)))("all", a.containsAll(b))("any", a.containsAnyOf(b))
   ("size", a.size())("empty", a.empty())("uf", B(a + D(p)))("df", B(a - D(p)))("pe", B(c))("pd", B(e))("as", B(g))("iter", Raw{JA(it)})("cont", Raw{JA(contains)})
   ("eq", a == b)("nc", a.nastranCode())("cmb", B(DOFS(bool(a.contains(D(0))), a.contains(D(1)), a.contains(D(2)), a.contains(D(3)), a.contains(D(4)), a.contains(D(5)))));
  VectorialValue t = a.getTranslations(), r = a.getRotations();
  o("tr", Raw{JA(std::vector<double>{t.x(), t.y(), t.z(), r.x(), r.y(), r.z()})});
  std::ostringstream os; os << a; o("str", os.str());
  return o.end().s;
}
OP(dofs_code) { int c = in.i(); DOFS d = DOFS::nastranCodeToDOFS(c); return Ob()("dofs", B(d))("back", d.nastranCode()).end().s; }
OP(dof_pos) { DOF d = D(in.i()); return Ob()("code", (int)d.code)("pos", (int)d.position)("label", d.label)("t", d.isTranslation)("r", d.isRotation).end().s; }
// matrix: type n (i j v)* : then dump
static DOFMatrix M(In &in) {
  DOFMatrix m((MatrixType)in.i()); int n = in.i();
  for (int k = 0; k < n; k++) { int i = in.i(), j = in.i(); double v = in.d(); m.addComponent(D(i), D(j), v); }
  return m;
}
static std::string dump(const DOFMatrix &m) {
  std::vector<double> f; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) f.push_back(m.findComponent(D(i), D(j)));
  Ob o; o("f", Raw{JA(f)})("hasT", m.hasTranslations())("hasR", m.hasRotations())("diag", m.isDiagonal())("sym", m.isSymmetric())("maxd", m.isMaxDiagonal())("empty", m.isEmpty())("zero", m.isZero());
  for (int a = 0; a < 2; a++) {
    o(a ? "dg1" : "dg0", Raw{JA(m.diagonal(a))})(a ? "ut1" : "ut0", Raw{JA(m.asUpperTriangularColumnsVector(a))})(a ? "cv1" : "cv0", Raw{JA(m.asColumnsVector(a))});
  }
  return o.end().s;
}
OP(dofmatrix) { DOFMatrix m = M(in); return dump(m); }
OP(dofmatrix_tr) { DOFMatrix m = M(in); return dump(m.transposed()); }
OP(dofmatrix_zero) { DOFMatrix m = M(in); m.setAllZero(); return dump(m); }
OP(dofmatrix_eq) { DOFMatrix a = M(in), b = M(in); return Ob()("eq", a.isEqual(b)).end().s; }
static DOFCoefs C(In &in) { double v[6]; for (double &x : v) x = in.d(); return DOFCoefs(v[0], v[1], v[2], v[3], v[4], v[5]); }
OP(dofcoefs) { // 6 values, 6 values, factor, pos, val, mask
  DOFCoefs a = C(in), b = C(in); double f = in.d(); int p = in.i(); double v = in.d(); int mask = in.i();
  auto vals = [](DOFCoefs &c) { std::vector<double> r; for (int k = 0; k < 6; k++) r.push_back(c[k]); return r; };
  auto gets = [](const DOFCoefs &c) { std::vector<double> r; for (int k = 0; k < 6; k++) r.push_back(c.getValue(D(k))); return r; };
  DOFCoefs s(a); s += b; DOFCoefs m(a); m *= f; DOFCoefs w(a); w.setValue(D(p), v); DOFCoefs k(DOFS((char)mask), v), k1(D(p), v);
  return Ob()("a", Raw{JA(gets(a))})("ai", Raw{JA(vals(a))})("s", Raw{JA(gets(s))})("m", Raw{JA(gets(m))})("w", Raw{JA(gets(w))})("k", Raw{JA(gets(k))})("k1", Raw{JA(gets(k1))})
    ("dofs", B(a.getDOFS()))("empty", a.isEmpty())("eq", a == b)("lt", a < b)("gt", b < a).end().s;
}

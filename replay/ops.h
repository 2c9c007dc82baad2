// Replay harness: executes operations of the real code on concrete inputs (no oracle here; the oracle is in Python).
#ifndef VEGA_OPS_H
#define VEGA_OPS_H
#include <bits/stdc++.h>
#include <boost/bimap.hpp>
#include <boost/assign.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/io.hpp>
#include <boost/numeric/ublas/lu.hpp>
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/geometries.hpp>
#include <boost/geometry/index/rtree.hpp>
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graphviz.hpp>
#include <boost/program_options.hpp>
#include <boost/algorithm/string.hpp>
#include <boost/variant.hpp>
#include <boost/tokenizer.hpp>
#include <boost/format.hpp>
#define private public
#define protected public
#include "Abstract/Model.h"
#include "Abstract/Dof.h"
#include "Abstract/Mesh.h"
#include "Abstract/CoordinateSystem.h"
#include "Abstract/Loading.h"
#include "Abstract/Constraint.h"
#include "Abstract/Element.h"
#include "Abstract/Material.h"
#include "Abstract/Value.h"
#include "Abstract/Utility.h"
#undef private
#undef protected
struct In {
  std::vector<std::string> t; size_t k = 0;
  explicit In(const std::string &l) { std::istringstream s(l); std::string x; while (s >> x) t.push_back(x); }
  bool more() const { return k < t.size(); }
  std::string s() { if (k >= t.size()) throw std::runtime_error("harness: missing token"); return t[k++]; }
  // %XX escaped text
  std::string txt() { std::string x = s(), r; if (x == "%") return ""; for (size_t i = 0; i < x.size(); i++) { if (x[i] == '%') { r += (char)strtol(x.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += x[i]; } return r; }
  long i() { return strtol(s().c_str(), nullptr, 10); }
  double d() { return strtod(s().c_str(), nullptr); }
};
// JSON output
struct Js {
  std::string o;
  static std::string esc(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
  static std::string num(double v) { if (std::isnan(v)) return "\"nan\""; if (std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\""; char b[64]; snprintf(b, 64, "%.17g", v); return b; }
};
inline std::string J(double v) { return Js::num(v); }
inline std::string J(int v) { return std::to_string(v); }
inline std::string J(long v) { return std::to_string(v); }
inline std::string J(unsigned v) { return std::to_string(v); }
inline std::string J(size_t v) { return std::to_string(v); }
inline std::string J(bool v) { return v ? "true" : "false"; }
inline std::string J(const std::string &v) { return Js::esc(v); }
inline std::string J(const char *v) { return Js::esc(v); }
struct Raw { std::string s; };
inline std::string J(const Raw &r) { return r.s; }
template <class C> std::string JA(const C &c) { std::string r = "["; bool f = true; for (const auto &x : c) { if (!f) r += ","; f = false; r += J(x); } return r + "]"; }
struct Ob {
  std::string r = "{"; bool f = true;
  template <class T> Ob &operator()(const char *k, const T &v) { if (!f) r += ","; f = false; r += Js::esc(k) + ":" + J(v); return *this; }
  Raw end() const { return Raw{r + "}"}; }
};
typedef std::function<std::string(In &)> OpFn;
std::map<std::string, OpFn> &ops();
struct Reg { Reg(const char *n, OpFn f) { ops()[n] = f; } };
#define OP(name) static std::string op_##name(In &in); static Reg reg_##name(#name, op_##name); static std::string op_##name(In &in)
#endif

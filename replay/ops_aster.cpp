#include "ops.h"
#include <fstream>
#include <sstream>
#include "Abstract/Model.h"
#include "Abstract/ConfigurationParameters.h"
#include "Aster/AsterWriter.h"
using namespace vega;
std::string dumpModel(Model &m, bool mesh);
std::unique_ptr<Model> parseDeck(const std::string &text, const std::string &md, const std::string &solver, std::string *err);
// comm <best|mesh|strict> <text> : translate a deck for code_aster (in the scratch directory); the finished model and the command file
OP(comm) {
  std::string md = in.s(); std::string text = in.txt(), err;
  std::unique_ptr<Model> m;
  try { m = parseDeck(text, md, "aster", &err); } catch (const std::exception &e) { return Ob()("exc", std::string(e.what()))("stderr", err.substr(0, 600)).end().s; }
  std::string x, d, comm;
  { std::ostringstream so; auto *oo = std::cout.rdbuf(so.rdbuf()); auto *oe = std::cerr.rdbuf(so.rdbuf());
    try {
      m->finish(); d = dumpModel(*m, true);
      ConfigurationParameters c("deck.nas", Solver(SolverName::CODE_ASTER), "", "out", ".", LogLevel::ERROR, (ConfigurationParameters::TranslationMode)(md == "strict" ? 2 : md == "mesh" ? 1 : 0));
      aster::AsterWriter w; std::string exp = w.writeModel(*m, c);
      std::ifstream f(exp.substr(0, exp.rfind('.')) + ".comm"); std::stringstream b; b << f.rdbuf(); comm = b.str();
    } catch (const std::exception &e) { x = std::string("exception ") + e.what(); } catch (const std::string &e) { x = "string:" + e; }
    std::cout.rdbuf(oo); std::cerr.rdbuf(oe); err += so.str(); }
  if (!x.empty()) return Ob()("exc", x)("stderr", err.substr(0, 600)).end().s;
  d.erase(d.size() - 1);
  return d + ",\"comm\":" + J(comm) + ",\"stderr\":" + J(err.substr(0, 600)) + "}";
}

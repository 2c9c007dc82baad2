#include "ops.h"
#define private public
#define protected public
#include "Nastran/NastranTokenizer.h"
#undef private
#undef protected
using namespace vega;
using namespace vega::nastran;
// tok <best|mesh> <bulk 0/1> <text> <steps...> : answers of the tokenizer to a sequence of calls
OP(tok) {
  std::string md = in.s(); long bulk = in.i(); std::istringstream is(in.txt());
  std::ostringstream so; auto *oe = std::cerr.rdbuf(so.rdbuf());
  NastranTokenizer t(is, LogLevel::ERROR, "deck", (ConfigurationParameters::TranslationMode)(md == "mesh" ? 1 : 0));
  if (bulk) t.bulkSection(); else t.executiveControlSection();
  std::string r = "[";
  while (in.more()) {
    std::string x = in.s(), a; int n = x.size() > 2 ? atoi(x.c_str() + 2) : 1;
    try {
      if (x == "L") { t.nextLine(); a = "null"; }
      else if (x == "K") a = J((int)t.nextSymbolType);
      else if (x == "V") a = JA(t.currentDataLine());
      else if (x == "i") a = J(t.nextInt());
      else if (x == "I") a = J(t.nextInt(true, -7));
      else if (x == "d") a = J(t.nextDouble());
      else if (x == "D") a = J(t.nextDouble(true, -7.5));
      else if (x == "s") a = J(t.nextString());
      else if (x == "S") a = J(t.nextString(true, "DFLT"));
      else if (x == "is") a = JA(t.nextInts());
      else if (x == "ds") a = JA(t.nextDoubles());
      else if (x == "?i") a = J(t.isNextInt());
      else if (x == "?d") a = J(t.isNextDouble());
      else if (x == "?t") a = J(t.isNextTHRU());
      else if (x == "?b") a = J(t.isNextBY());
      else if (x.substr(0, 2) == "?e") a = J(t.isNextEmpty(n));
      else if (x == "?u") a = J(t.isEmptyUntilNextKeyword());
      else if (x.substr(0, 2) == "x_") { t.skip(n); a = "null"; }
      else if (x == "xe") { t.skipToNotEmpty(); a = "null"; }
      else if (x == "xk") { t.skipToNextKeyword(); a = "null"; }
      else if (x == "t") a = J(t.remainingTextUntilNextKeyword());
      else if (x == "H") { a = "["; for (const auto &e : t.labelByCommentTypeAndId) a += (a.size() > 1 ? ",[" : "[") + J((int)e.first.first) + "," + J(e.first.second) + "," + J(e.second) + "]"; a += "]"; }
      else a = J("noop " + x);
    } catch (const std::string &e) { a = e == "skipCommand" ? "{\"refused\":1}" : "{\"thrown\":" + J(e) + "}"; } catch (const std::exception &e) { a = std::string("{\"thrown\":") + J(e.what()) + "}"; }
    catch (const char *) { a = "{\"thrown\":\"text\"}"; }
    r += (r.size() > 1 ? "," : "") + a;
  }
  std::cerr.rdbuf(oe);
  return r + "]";
}

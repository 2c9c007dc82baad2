#include "ops.h"
#include <cxxabi.h>
std::map<std::string, OpFn> &ops() { static std::map<std::string, OpFn> m; return m; }
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    In in(line); std::string r;
    try {
      std::string o = in.s();
      auto it = ops().find(o);
      if (it == ops().end()) r = "{\"noop\":" + Js::esc(o) + "}";
      else r = it->second(in);
    } catch (const std::exception &e) {
      int st; char *n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      r = "{\"exc\":" + Js::esc(n ? n : "?") + ",\"what\":" + Js::esc(e.what()) + "}";
      free(n);
    } catch (...) { r = "{\"exc\":\"unknown\",\"what\":\"\"}"; }
    std::cout << "\n@@R " << r << std::endl;
  }
  return 0;
}

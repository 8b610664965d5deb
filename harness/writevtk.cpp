// W file nd dims.. lo.. hi.. field..   calls writeVTK
#include "writeVTK.h"
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
#include "heapmark.h"
int main() {
  std::ostream out(std::cout.rdbuf()); std::string op; long sc = 0;
  while (std::cin >> op) {
    if (op == "S") { std::cin >> sc; HEAP_SC(sc); out << "{\"sc\":" << sc << ",\"e\":\"start\"}" << std::endl; continue; }
    if (op == ".") { HEAP_END(out); continue; }
    if (op == "L") { HEAP_MARK(); continue; }
    std::string f; int nd; std::cin >> f >> nd; std::vector<size_t> d(nd); size_t n = 1; for (auto& x : d) { std::cin >> x; n *= x; }
    auto rd = [](std::vector<double>& v) { for (auto& x : v) { std::string s; std::cin >> s; x = strtod(s.c_str(), 0); } };
    std::vector<double> lo(nd), hi(nd), F(n); rd(lo); rd(hi); rd(F);
    writeVTK(f, d, lo, hi, F, "fld");
    out << "{\"sc\":" << sc << ",\"e\":\"vtk\",\"f\":\"" << f << "\"}" << std::endl;
  }
}

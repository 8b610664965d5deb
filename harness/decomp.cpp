// Drives CubeDecomp. Scenario: "S id", then "B p nd dims.." (build), ".".
// After every successful build all the sub-domains and, for every direction, all the neighbours are recorded.
#include "CubeDecomp.h"
#include <iostream>
#include <string>
#include <vector>
#include "heapmark.h"
template <class T> static void pv(const std::vector<T>& v) { std::cout << '['; for (size_t i = 0; i < v.size(); ++i) std::cout << (i ? "," : "") << v[i]; std::cout << ']'; }
int main() {
  std::string op; long sc = 0; CubeDecomp* d = 0; bool first = true;
  while (std::cin >> op) {
    if (op == "S") { std::cin >> sc; HEAP_SC(sc); delete d; d = 0; first = true; std::cout << "{\"sc\":" << sc << ",\"e\":\"start\"}" << std::endl; continue; }
    if (op == "L") { HEAP_MARK(); continue; }
    if (op == ".") { HEAP_END(std::cout); std::cout.flush(); continue; }
    int p; size_t nd; std::cin >> p >> nd; std::vector<size_t> dims(nd); for (auto& x : dims) std::cin >> x;
    bool ok;
    if (op == "C") { delete d; d = new CubeDecomp(p, dims); ok = d->getDecomp().size() != 0; }
    else { if (!d) d = new CubeDecomp(); ok = d->build(p, dims); }
    std::vector<size_t> dec = d->getDecomp();
    std::cout << "{\"sc\":" << sc << ",\"e\":\"build\",\"p\":" << p << ",\"dims\":"; pv(dims);
    std::cout << ",\"ok\":" << (ok ? "true" : "false") << ",\"dec\":"; pv(dec); std::cout << ",\"w\":5}" << std::endl;
    if (!ok || dec.size() != nd) continue;
    std::vector<std::vector<size_t>> lo, hi;
    for (int r = 0; r < p; ++r) { lo.push_back(d->getBegIndices(r)); hi.push_back(d->getEndIndices(r)); }
    std::cout << "{\"sc\":" << sc << ",\"e\":\"boxes\",\"lo\":[";
    for (int r = 0; r < p; ++r) { if (r) std::cout << ','; pv(lo[r]); }
    std::cout << "],\"hi\":[";
    for (int r = 0; r < p; ++r) { if (r) std::cout << ','; pv(hi[r]); }
    std::cout << "],\"w\":" << p << "}\n";
    int nt = 1; for (size_t i = 0; i < nd; ++i) nt *= 3;
    for (int k = 0; k < nt; ++k) {
      std::vector<int> dir(nd); int q = k; for (size_t i = 0; i < nd; ++i) { dir[i] = q % 3 - 1; q /= 3; }
      std::vector<int> to; for (int r = 0; r < p; ++r) to.push_back(d->getNeighborRank(r, dir));
      std::cout << "{\"sc\":" << sc << ",\"e\":\"neigh\",\"dir\":"; pv(dir); std::cout << ",\"to\":"; pv(to); std::cout << ",\"w\":" << p << "}\n";
    }
  }
  delete d;
}

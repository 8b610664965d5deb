// Drives MultiArrayIter through histories read from stdin and records what it shows after each call.
// scenario: "S <id>" then lines: B nd rm lo.. hi.. | b | n | m p | w | e, closed by "."
#include "MultiArrayIter.h"
#include "heapmark.h"
#include <iostream>
#include <string>
#include <vector>
typedef std::vector<size_t> V;
static V limbs(unsigned long long x) { V r; for (; x; x /= 10000) r.push_back(x % 10000); return r; }
static void pv(const V& v) { std::cout << '['; for (size_t i = 0; i < v.size(); ++i) std::cout << (i ? "," : "") << v[i]; std::cout << ']'; }
int main() {
  std::string op; long sc = 0; MultiArrayIter* it = 0;
  while (std::cin >> op) {
    if (op == "S") { std::cin >> sc; HEAP_SC(sc); delete it; it = new MultiArrayIter(); std::cout << "{\"sc\":" << sc << ",\"e\":\"start\"}\n"; continue; }
    if (op == "L") { HEAP_MARK(); continue; }
    if (op == ".") { HEAP_END(std::cout); std::cout.flush(); continue; }
    std::cout << "{\"sc\":" << sc;
    if (op == "G") { // build a large box, and visit positions: nd rm lo.. hi.. count (p nexts)..
      size_t nd, k; int rm; std::cin >> nd >> rm; V lo(nd), hi(nd);
      for (auto& x : lo) std::cin >> x; for (auto& x : hi) std::cin >> x;
      it->build(lo, hi, rm != 0);
      std::cout << ",\"e\":\"far\",\"w\":20,\"rm\":" << (rm ? "true" : "false") << ",\"lo\":"; pv(lo); std::cout << ",\"hi\":"; pv(hi);
      std::cout << ",\"n\":"; pv(limbs(it->getNumberOfTerms())); std::cout << ",\"at\":["; std::cin >> k;
      for (size_t j = 0; j < k; ++j) {
        unsigned long long p, n; std::cin >> p >> n; it->move(p); for (unsigned long long q = 0; q < n; ++q) it->next();
        V ix = it->getIndices(); std::cout << (j ? "," : "") << "{\"p\":"; pv(limbs(p + n)); std::cout << ",\"ix\":"; pv(ix);
        std::cout << ",\"flat\":"; pv(limbs(it->computeBigIndex(ix))); std::cout << "}";
      }
      std::cout << "]}\n"; continue;
    }
    if (op == "B" || op == "C") {
      size_t nd; int rm; std::cin >> nd >> rm; V lo(nd), hi(nd);
      for (auto& x : lo) std::cin >> x; for (auto& x : hi) std::cin >> x;
      if (op == "B") it->build(lo, hi, rm != 0);
      else { delete it; it = new MultiArrayIter(lo, hi, rm != 0); }
      std::cout << ",\"e\":\"build\",\"rm\":" << (rm ? "true" : "false") << ",\"lo\":"; pv(lo); std::cout << ",\"hi\":"; pv(hi);
    } else if (op == "b") { it->begin(); std::cout << ",\"e\":\"begin\""; }
    else if (op == "n") { it->next(); std::cout << ",\"e\":\"next\""; }
    else if (op == "m") { size_t p; std::cin >> p; it->move(p); std::cout << ",\"e\":\"move\",\"p\":" << p; }
    else if (op == "e") { std::cout << ",\"e\":\"ends\",\"lo\":"; pv(it->getLBegIndices()); std::cout << ",\"hi\":"; pv(it->getEndIndices()); std::cout << "}\n"; continue; }
    else if (op == "w") {
      size_t n = it->getNumberOfTerms(); if (n > 100000) n = 100000;
      std::vector<V> seq; std::vector<size_t> fl;
      it->begin();
      for (size_t i = 0; i < n; ++i) { V ix = it->getIndices(); seq.push_back(ix); fl.push_back(it->computeBigIndex(ix)); it->next(); }
      std::cout << ",\"e\":\"walk\",\"w\":" << n << ",\"seq\":[";
      for (size_t i = 0; i < seq.size(); ++i) { if (i) std::cout << ','; pv(seq[i]); }
      std::cout << "],\"flats\":"; pv(fl); std::cout << "}\n"; continue;
    }
    V ix = it->getIndices(); std::vector<int> ixi(ix.begin(), ix.end());
    std::cout << ",\"n\":" << it->getNumberOfTerms() << ",\"ix\":"; pv(ix);
    std::cout << ",\"flat\":" << (long)it->computeBigIndex(ix) << ",\"flati\":" << (long)it->computeBigIndex(ixi) << "}\n";
  }
  delete it;
}

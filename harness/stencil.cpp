// Drives the distributed Filter. With -DMOCK under the stand-in MPI (any number of worlds per run), otherwise
// under a real MPI: "stencil <scenario file>", every rank reads the file and prints lines to <file>.<rank>.
// Scenario: "S id", "W np seed policy weak expose nscript s..", then operations, ".".
//   N k nd dims xmin xmax ns (offset weight)*   new filter      D k     destroy
//   I k F..    set input by index     P k F..   set input by position    A k  apply    C k  copy output to input
//   S k        check sums             V k path  save VTK
//   Q k n      the values set from now on, and those reported, are in units of 2^n
// A value or weight a:b is a + b 2^-30; fields (reported by each rank for its own cells) are split in the same way.
#include "Filter.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#ifdef MOCK
#include "mockmpi.h"
#include "heapmark.h"
static void put(const std::string& s) { mockLog(s); }
#else
static std::ofstream OUT; static std::string PFX; static int MYRANK = 0;
static void put(const std::string& s) { OUT << PFX << s << ",\"r\":" << MYRANK << "}\n" << std::flush; }
#endif
typedef std::vector<std::string> Ops;
static Ops ops;
static std::string I(long x) { return std::to_string(x); }
static double unit = 1, fine = std::ldexp(1.0, -30);
static void split(double v, std::string& a, std::string& b) {
  v /= unit; b = "0"; if (!(std::fabs(v) < 1e9)) { a = "-2000000000"; return; }
  double q = std::nearbyint(v), r = (v - q) / fine, y = std::nearbyint(r); if (std::fabs(r - y) > 1e-3 * (1 + std::fabs(v))) { a = "-2000000000"; return; }
  a = I((long) q); b = I((long) y);
}
static double value(const std::string& t) { size_t p = t.find(':'); return std::strtod(t.c_str(), 0) + (p == std::string::npos ? 0 : std::strtod(t.c_str() + p + 1, 0) * fine); }
static std::vector<size_t> DIMS; static std::vector<double> LO, HI, FV; static long off;
static double byInds(const std::vector<size_t>& ix) { if (ix.size() != DIMS.size()) { ++off; return 0; } size_t f = 0; for (size_t j = 0; j < DIMS.size(); ++j) { if (ix[j] >= DIMS[j]) { ++off; return 0; } f = f * DIMS[j] + ix[j]; } return FV[f]; }
static double byPos(const std::vector<double>& p) {
  std::vector<size_t> ix;
  if (p.size() != DIMS.size()) { ++off; return 0; }
  for (size_t j = 0; j < DIMS.size(); ++j) { double u = (p[j] - LO[j]) / ((HI[j] - LO[j]) / DIMS[j]) - 0.5, q = std::nearbyint(u); if (!(std::fabs(u - q) < 1e-6) || q < 0 || q >= DIMS[j]) { ++off; return 0; } ix.push_back((size_t) q); }
  return byInds(ix);
}
// what printInData or printOutData shows: flat cell numbers and values
static void shown(const std::string& t, std::string& cells, std::string& vals, std::string& vals2) {
  std::istringstream in(t); std::string line; bool first = true;
  while (std::getline(in, line)) {
    size_t p = line.find("inds = "); if (p == std::string::npos) continue;
    std::istringstream l(line.substr(p + 7)); size_t f = 0, x = 0; for (size_t j = 0; j < DIMS.size(); ++j) { l >> x; f = f * DIMS[j] + x; }
    std::string w, v; l >> w >> w >> v; size_t q = line.rfind("= "); v = q == std::string::npos ? "" : line.substr(q + 2);
    std::string g, h; split(v.empty() ? std::nan("") : std::strtod(v.c_str(), 0), g, h);
    cells += (first ? "" : ",") + I((long) f); vals += (first ? "" : ",") + g; vals2 += (first ? "" : ",") + h; first = false;
  }
}
static void fields(Filter* f, const std::string& e, int k) {
  std::ostringstream a, b; a.precision(17); b.precision(17); std::streambuf* sv = std::cerr.rdbuf();
  std::streamsize pr = std::cerr.precision(17); std::cerr.rdbuf(a.rdbuf()); f->printInData(); std::cerr.rdbuf(b.rdbuf()); f->printOutData(); std::cerr.rdbuf(sv); std::cerr.precision(pr);
  std::string c1, c2, v1, v2, u1, u2; shown(a.str(), c1, v1, u1); shown(b.str(), c2, v2, u2);
  put("\"e\":\"" + e + "\",\"k\":" + I(k) + ",\"off\":" + I(off) + ",\"c\":[" + c1 + "],\"in\":[" + v1 + "],\"oc\":[" + c2 + "],\"out\":[" + v2 + "],\"in2\":[" + u1 + "],\"out2\":[" + u2 + "]");
}
static int body(int rank, int np) {
  struct Slot { Filter* f; std::vector<size_t> dims; std::vector<double> lo, hi; double unit = 1; };
  std::map<int, Slot> F; off = 0;
  for (auto& line : ops) {
    std::istringstream s(line); std::string op; int k; s >> op >> k;
#ifdef MOCK
    if (op == "L") { HEAP_MARK(); continue; }
#endif
    if (op == "N") {
      size_t nd, ns; s >> nd; Slot t; t.dims.resize(nd); t.lo.resize(nd); t.hi.resize(nd); for (auto& x : t.dims) s >> x; for (auto& x : t.lo) s >> x; for (auto& x : t.hi) s >> x; s >> ns;
      std::map<std::vector<int>, double> st; for (size_t i = 0; i < ns; ++i) { std::vector<int> o(nd); std::string w; for (auto& x : o) s >> x; s >> w; st[o] = value(w); }
      put("\"e\":\"begin\",\"o\":\"N\",\"k\":" + I(k));
      t.f = new Filter(t.dims, t.lo, t.hi, st);
      bool ok = t.f->isDecompValid(); put("\"e\":\"new\",\"k\":" + I(k) + ",\"ok\":" + (ok ? "true" : "false") + ",\"me\":" + I(t.f->getRank()) + ",\"np\":" + I(t.f->getNumProcs()));
      if (ok) { if (F.count(k)) delete F[k].f; F[k] = t; } else { put("\"e\":\"begin\",\"o\":\"D\",\"k\":" + I(k)); delete t.f; put("\"e\":\"del\",\"k\":" + I(k)); }
      continue;
    }
    if (!F.count(k)) continue;
    Slot& t = F[k]; DIMS = t.dims; LO = t.lo; HI = t.hi; off = 0; unit = t.unit;
    if (op == "Q") { int n; s >> n; t.unit = std::ldexp(1.0, n); continue; }
    put("\"e\":\"begin\",\"o\":\"" + op + "\",\"k\":" + I(k));
    if (op == "D") { delete t.f; F.erase(k); put("\"e\":\"del\",\"k\":" + I(k)); }
    else if (op == "I" || op == "P") { FV.clear(); std::string v; while (s >> v) FV.push_back(value(v) * unit); if (op == "I") t.f->setInDataByIndices(byInds); else t.f->setInData(byPos); fields(t.f, "set", k); }
    else if (op == "A") { t.f->applyFilter(); fields(t.f, "apply", k); }
    else if (op == "C") { t.f->copyOutToIn(); fields(t.f, "copy", k); }
    else if (op == "S") { double a = t.f->computeCheckSum("input"), b = t.f->computeCheckSum("output"); if (rank == 0) { std::string a1, a2, b1, b2; split(a, a1, a2); split(b, b1, b2); put("\"e\":\"sums\",\"k\":" + I(k) + ",\"in\":" + a1 + ",\"out\":" + b1 + ",\"in2\":" + a2 + ",\"out2\":" + b2); } }
    else if (op == "V") { std::string p; s >> p; t.f->saveVTK(p); put("\"e\":\"vtk\",\"k\":" + I(k)); }
  }
  for (auto& x : F) { put("\"e\":\"begin\",\"o\":\"D\",\"k\":" + I(x.first)); delete x.second.f; put("\"e\":\"del\",\"k\":" + I(x.first)); }
#ifdef MOCK
  if (vf_heap) { static char t[1 << 20]; put(std::string(t, vf_heap(t, sizeof t))); }
#endif
  return 0;
}
static void readScenario(std::istream& in, std::string& w) { std::string l; ops.clear(); std::getline(in, w); while (std::getline(in, l)) { if (l == ".") break; ops.push_back(l); } }
#ifdef MOCK
static int rankMain(int r, int np) {
  std::ofstream nul("/dev/null"); std::streambuf* cb = std::cout.rdbuf(nul.rdbuf()); std::streambuf* eb = std::cerr.rdbuf(nul.rdbuf());
  int a = 0; char** v = 0; MPI_Init(&a, &v); int rc = body(r, np); MPI_Finalize(); std::cout.rdbuf(cb); std::cerr.rdbuf(eb); return rc;
}
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    if (l.substr(0, 2) != "S ") continue;
    std::string id = l.substr(2), w; readScenario(std::cin, w);
    std::istringstream s(w); std::string x; MockOptions o; size_t n = 0; int weak, ex; s >> x >> o.np >> o.seed >> o.policy >> weak >> ex >> n; o.weak = weak; o.expose = ex; o.script.resize(n); for (auto& y : o.script) s >> y;
    o.prefix = "{\"sc\":" + id + ",";
    std::cout << o.prefix << "\"e\":\"start\",\"np\":" << o.np << "}" << std::endl;
    mockWorld(o, rankMain);
  }
}
#else
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv); MPI_Comm_rank(MPI_COMM_WORLD, &MYRANK); int np; MPI_Comm_size(MPI_COMM_WORLD, &np);
  std::ifstream in(argv[1]); OUT.open(std::string(argv[1]) + "." + std::to_string(MYRANK));
  std::ofstream nul("/dev/null"); std::streambuf* cb = std::cout.rdbuf(nul.rdbuf()); std::streambuf* eb = std::cerr.rdbuf(nul.rdbuf());
  std::string l;
  while (std::getline(in, l)) { if (l.substr(0, 2) != "S ") continue; std::string w; PFX = "{\"sc\":" + l.substr(2) + ","; readScenario(in, w); if (MYRANK == 0) OUT << PFX << "\"e\":\"start\",\"np\":" << np << "}\n"; body(MYRANK, np); }
  std::cout.rdbuf(cb); std::cerr.rdbuf(eb); MPI_Finalize();
}
#endif

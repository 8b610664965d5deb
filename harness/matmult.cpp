// I n m el: initialise; F n m el a.. b..: fill; M which: product (0 naive, 1 concurrent)
#include "upwind_core.h"
extern "C" { void mm_init(int, int, int, double*, double*); void mm_mul(int, int, int, int, double*, double*, double*); }
static void pm(std::ostream& o, const std::vector<double>& v, int rows, int cols, Rep& rp) {
  o << '['; for (int j = 0; j < cols; ++j) { o << (j ? ",[" : "["); for (int i = 0; i < rows; ++i) o << (i ? "," : "") << rp.q(v[j * rows + i]); o << ']'; } o << ']';
}
int main() {
  std::string op; long sc = 0; int n = 0, m = 0, el = 0; std::vector<double> a, b;
  while (std::cin >> op) {
    if (op == "S") { std::cin >> sc; HEAP_SC(sc); std::cout << "{\"sc\":" << sc << ",\"e\":\"start\"}" << std::endl; continue; }
    if (op == ".") { HEAP_END(std::cout); continue; }
    if (op == "L") { HEAP_MARK(); continue; }
    std::ostringstream o; Rep rp; o << "{\"sc\":" << sc;
    if (op == "I" || op == "F") {
      std::cin >> n >> m >> el; a.assign(n * m, -7e300); b.assign(m * el, -7e300);
      if (op == "I") mm_init(n, m, el, a.data(), b.data()); else { for (auto& x : a) std::cin >> x; for (auto& x : b) std::cin >> x; }
      o << ",\"e\":\"" << (op == "I" ? "init" : "fill") << "\",\"n\":" << n << ",\"m\":" << m << ",\"el\":" << el << ",\"a\":"; pm(o, a, n, m, rp); o << ",\"b\":"; pm(o, b, m, el, rp);
      o << ",\"r\":" << rp.res() << ",\"w\":" << 1 + (n * m + m * el) / 20 << "}";
    } else {
      int w; std::cin >> w; std::vector<double> c(n * el, -7e300);
      mm_mul(w, n, m, el, a.data(), b.data(), c.data());
      o << ",\"e\":\"mul\",\"which\":" << w << ",\"c\":"; pm(o, c, n, el, rp); o << ",\"a\":"; pm(o, a, n, m, rp); o << ",\"b\":"; pm(o, b, m, el, rp);
      o << ",\"r\":" << rp.res() << ",\"w\":" << 1 + n * m * el / 20 << "}";
    }
    std::cout << o.str() << std::endl;
  }
}

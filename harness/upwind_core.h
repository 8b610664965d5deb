// Scenario driver shared by the harnesses of the solvers.
//   N nd dims.. v.. lengths..    new solver        Z ..   the same, and only cells that are not zero are reported from now on
//   A n dt D c1..cnd             n steps of dt; c_j/D are the Courant numbers, used for the scale of the report only
//   B n dt                       n steps of dt, not reported
//   E n dt c1..cnd               n steps of dt, Courant numbers c_j/10; nine digits of every value are reported
//   U                            range of the field and spread, in units of 10^-9 of the largest value
//   K                            check sum        T   spread        V file   VTK file
// The solver is given by: void sv_new(nd, dims, v, lengths), void sv_advance(n, dt), std::vector<double> sv_field(),
// bool sv_sum(double&), bool sv_std(double&), bool sv_vtk(file).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "heapmark.h"

struct Rep { // integers over a scale, with the largest residual in thousandths
  double r = 0;
  long q(double x) {
    if (!(std::fabs(x) < 2.0e9)) { r = 9999; return 0; }
    double y = std::nearbyint(x), d = std::fabs(x - y) * 1000;
    if (d > r) r = d;
    return (long)y;
  }
  int res() const { return r > 9999 ? 9999 : (int)std::floor(r); }
};
template <class T> static void pv(std::ostream& o, const std::vector<T>& v) { o << '['; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << ']'; }

void sv_new(int nd, const std::vector<long>& dims, const std::vector<double>& v, const std::vector<double>& len);
void sv_advance(int n, double dt);
std::vector<double> sv_field();
bool sv_sum(double& x);
bool sv_std(double& x);
bool sv_vtk(const std::string& f);

// the recording OpenMP runtime, where the harness is linked with it (omprt.cpp)
void vf_omp(int, long, int, int, int, int) __attribute__((weak));

static bool sparse = false;
// the field at scale S: all of it, or the positions (from 0) and contents of the cells that are not zero, at most 3000 of them
static inline void pf(std::ostream& o, double S) {
  std::vector<double> f = sv_field(); Rep rp; std::vector<long> F, I;
  if (!sparse) { for (double x : f) F.push_back(rp.q(x * S)); }
  else {
    for (size_t i = 0; i < f.size(); ++i) if (!(f[i] == 0)) { if (F.size() < 3000) { I.push_back((long)i); F.push_back(rp.q(f[i] * S)); } else rp.r = 9999; }
    o << ",\"len\":" << f.size() << ",\"I\":"; pv(o, I); o << ",\"w\":" << 20 + 4 * F.size();
  }
  o << ",\"F\":"; pv(o, F); o << ",\"r\":" << rp.res();
}

static std::ostream* OUT = 0;
static inline int core_main() {
  std::ostream out(std::cout.rdbuf());   // the solver may print to cout through a redirected buffer
  OUT = &out;
  std::string op, line; long sc = 0; double S = 1; long ntot = 1; std::vector<long> dims;
  auto num = [](std::istream& is) { std::string s; is >> s; return strtod(s.c_str(), 0); };
  while (std::cin >> op) {
    if (op == "S") { std::cin >> sc; HEAP_SC(sc); out << "{\"sc\":" << sc << ",\"e\":\"start\"}" << std::endl; continue; }
    if (op == ".") { if (vf_hb) vf_hb(out); out.flush(); continue; }
    if (op == "L") { HEAP_MARK(); continue; }
    if (op == "O") { int t, p, q, st, tm; long sd; std::cin >> t >> sd >> p >> q >> st >> tm; if (vf_omp) { vf_sc = sc; vf_omp(t, sd, p, q, st, tm); } continue; }
    std::ostringstream o;
    o << "{\"sc\":" << sc;
    if (op == "N" || op == "Z") {
      sparse = op == "Z";
      int nd; std::cin >> nd; dims.assign(nd, 0); ntot = 1;
      for (auto& x : dims) { std::cin >> x; ntot *= x; }
      std::vector<double> v(nd), len(nd);
      for (auto& x : v) x = num(std::cin);
      for (auto& x : len) x = num(std::cin);
      sv_new(nd, dims, v, len); S = 1;
      o << ",\"e\":\"new\",\"dims\":"; pv(o, dims); pf(o, 1); o << "}";
    } else if (op == "A") {
      int n; long D; std::cin >> n; double dt = num(std::cin); std::cin >> D; std::vector<long> c(dims.size()); for (auto& x : c) std::cin >> x;
      sv_advance(n, dt); for (int i = 0; i < n; ++i) S *= D;
      o << ",\"e\":\"adv\",\"n\":" << n << ",\"D\":" << D << ",\"c\":"; pv(o, c); o << ",\"S\":" << (long)S; pf(o, S);
      if (!sparse) o << ",\"w\":" << 1 + n * ntot / 8;
      o << "}";
    } else if (op == "K") {
      double x; if (!sv_sum(x)) continue; Rep rp; long v = rp.q(x * S);
      o << ",\"e\":\"sum\",\"v\":" << v << ",\"r\":" << rp.res() << "}";
    } else if (op == "T") {
      double x; if (!sv_std(x)) continue; Rep rp; long v = rp.q(x * x * S * S * ntot * ntot);
      o << ",\"e\":\"std\",\"v\":" << v << ",\"r\":" << rp.res() << "}";
    } else if (op == "B") {
      int n; std::cin >> n; double dt = num(std::cin); sv_advance(n, dt); continue;
    } else if (op == "E") {
      int n; std::cin >> n; double dt = num(std::cin); std::vector<long> c(dims.size()), m, x; for (auto& y : c) std::cin >> y;
      sv_advance(n, dt);
      for (double y : sv_field()) {   // y = m 10^(x-9)
        char b[64]; std::snprintf(b, sizeof b, "%.8e", y); std::string t(b); size_t e = t.find('e');
        if (e == std::string::npos) { m.push_back(-1); x.push_back(0); continue; }   // not a number
        long k = std::atol(t.c_str() + e + 1) + 1; t = t.substr(0, e); t.erase(std::remove(t.begin(), t.end(), '.'), t.end());
        m.push_back(std::atol(t.c_str())); x.push_back(m.back() ? k : 0);
      }
      o << ",\"e\":\"lead\",\"n\":" << n << ",\"c\":"; pv(o, c); o << ",\"m\":"; pv(o, m); o << ",\"x\":"; pv(o, x); o << ",\"w\":" << 1 + n * ntot * (1 + n / 20) / 4 << "}";
    } else if (op == "U") {
      double x; if (!sv_std(x)) continue;
      std::vector<double> f = sv_field(); double lo = INFINITY, hi = -INFINITY, big = 0;
      for (double y : f) { lo = std::fmin(lo, y); hi = std::fmax(hi, y); big = std::fmax(big, std::fabs(y)); }
      Rep rp; long g = rp.q((hi - lo) / big * 1e9), d = rp.q(x / big * 1e9);
      o << ",\"e\":\"spread\",\"range\":" << g << ",\"std\":" << (rp.r >= 9999 ? -9 : d) << "}";
    } else if (op == "V") {
      std::string f; std::cin >> f; bool ok = sv_vtk(f);
      o << ",\"e\":\"vtk\",\"ok\":" << (ok ? "true" : "false") << ",\"S\":" << (long)S << "}";
    }
    out << o.str() << std::endl;
  }
  return 0;
}

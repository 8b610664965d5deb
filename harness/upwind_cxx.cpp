// A solver class Upwind<NDIMS> of one of the C++ programs (SOLVER), driven through its public interface.
#include <vector>
#include <array>
#include <functional>
#include <algorithm>
#include <numeric>
#include <string>
#include <fstream>
#include <limits>
#include <iostream>
#include <sstream>
#include <cstring>
#include <cmath>
#include <memory>
#include <type_traits>
#include "CmdLineArgParser.h"
#define main solver_main
#include SOLVER
#undef main
#include "upwind_core.h"
#ifndef MIND
#define MIND 3
#define MAXD 3
#endif

struct Any {
  virtual ~Any() {}
  virtual void adv(int, double) = 0;
  virtual std::vector<double> field() = 0;
  virtual bool sum(double&) = 0;
  virtual bool sd(double&) = 0;
  virtual bool vtk(const std::string&) = 0;
};
template <class U> static auto doadv(U& u, int n, double dt, int) -> decltype(u.advect(n, dt), void()) { u.advect(n, dt); }
template <class U> static void doadv(U& u, int n, double dt, long) { for (int i = 0; i < n; ++i) u.advect(dt); }
template <class U> static auto dostd(U& u, double& x, int) -> decltype(u.std(), true) { x = u.std(); return true; }
template <class U> static bool dostd(U& u, double& x, long) { return false; }
template <size_t N> struct Box : Any {
  typedef Upwind<N> U;
  std::unique_ptr<U> u;
  Box(const std::vector<long>& d, const std::vector<double>& v, const std::vector<double>& l) {
    typedef typename std::conditional<std::is_constructible<U, std::vector<double>, std::vector<double>, std::vector<size_t>>::value, size_t, int>::type I;
    std::vector<I> dd(d.begin(), d.end());
    u.reset(new U(v, l, dd));
  }
  void adv(int n, double dt) { doadv(*u, n, dt, 0); }
  std::vector<double> field() {
    std::ostringstream o; o.precision(17);
    std::streambuf* b = std::cout.rdbuf(o.rdbuf());
    std::streamsize p = std::cout.precision(17);
    u->print();
    std::cout.rdbuf(b); std::cout.precision(p);
    std::istringstream is(o.str()); std::string a, c; std::vector<double> f;
    while (is >> a >> c) { size_t i = strtoul(a.c_str(), 0, 10); if (i >= f.size()) f.resize(i + 1, NAN); f[i] = strtod(c.c_str(), 0); }
    return f;
  }
  bool sum(double& x) { x = u->checksum(); return true; }
  bool sd(double& x) { return dostd(*u, x, 0); }
  bool vtk(const std::string& f) { u->saveVTK(f); return true; }
};
static std::unique_ptr<Any> A;
template <size_t N> static bool mk(size_t nd, const std::vector<long>& d, const std::vector<double>& v, const std::vector<double>& l) {
  if (nd == N) { A.reset(new Box<N>(d, v, l)); return true; }
  if constexpr (N < MAXD) return mk<N + 1>(nd, d, v, l);
  return false;
}
void sv_new(int nd, const std::vector<long>& d, const std::vector<double>& v, const std::vector<double>& l) { if (!mk<MIND>(nd, d, v, l)) exit(9); }
void sv_advance(int n, double dt) { A->adv(n, dt); }
std::vector<double> sv_field() { return A->field(); }
bool sv_sum(double& x) { return A->sum(x); }
bool sv_std(double& x) { return A->sd(x); }
bool sv_vtk(const std::string& f) { return A->vtk(f); }
int main() { return core_main(); }

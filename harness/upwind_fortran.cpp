#include "upwind_core.h"
extern "C" { void fu_new(int, const int*, const double*, const double*); void fu_advect(double); void fu_get(int, double*); int fu_size(); void fu_vtk(int, const char*); }
void sv_new(int nd, const std::vector<long>& d, const std::vector<double>& v, const std::vector<double>& l) { std::vector<int> i(d.begin(), d.end()); fu_new(nd, i.data(), v.data(), l.data()); }
void sv_advance(int n, double dt) { for (int i = 0; i < n; ++i) fu_advect(dt); }
std::vector<double> sv_field() { std::vector<double> f(fu_size()); fu_get((int)f.size(), f.data()); return f; }
bool sv_sum(double&) { return false; }
bool sv_std(double&) { return false; }
bool sv_vtk(const std::string& f) { fu_vtk((int)f.size(), f.c_str()); return true; }
int main() { return core_main(); }

// Runs the main of an MPI program (renamed to prog_main in its object) under the stand-in MPI.
// Scenario: "S id", "W np seed policy weak expose nscript s.. [clock aside base cost base cost ..]", "X directory arguments..", ".".
// What rank r prints goes to <directory>/out.r and err.r; the program runs in that directory.
#include "mockmpi.h"
#include "heapmark.h"
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
extern "C" int prog_main(int, char**);
static std::string dir; static std::vector<std::string> args;
static bool said = false;
static void report() { if (said || !vf_heap) return; said = true; static char t[1 << 20]; mockLog(std::string(t, vf_heap(t, sizeof t))); }
static int rankMain(int r, int np) {
  if (chdir(dir.c_str())) _exit(95);
  int a = open(("out." + std::to_string(r)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644), b = open(("err." + std::to_string(r)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  dup2(a, 1); dup2(b, 2);
  static std::vector<char*> v; v.push_back(strdup("program")); for (auto& x : args) v.push_back(strdup(x.c_str())); v.push_back(0);
  if (vf_heap) atexit(report);
  int rc = prog_main((int) v.size() - 1, v.data()); report(); return rc;
}
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    if (l.substr(0, 2) != "S ") continue;
    std::string id = l.substr(2), x; MockOptions o; size_t n = 0; int weak, ex;
    std::getline(std::cin, l); std::istringstream s(l); s >> x >> o.np >> o.seed >> o.policy >> weak >> ex >> n; o.weak = weak; o.expose = ex; o.script.resize(n); for (auto& y : o.script) s >> y;
    if (s >> x && x == "clock") { double y; s >> o.aside; while (s >> y) o.clock.push_back(y); }
    std::getline(std::cin, l); std::istringstream t(l); args.clear(); t >> x >> dir; while (t >> x) args.push_back(x);
    mkdir(dir.c_str(), 0755);
    std::getline(std::cin, l);
    o.prefix = "{\"sc\":" + id + ",";
    std::cout << o.prefix << "\"e\":\"start\",\"np\":" << o.np << "}" << std::endl;
    mockWorld(o, rankMain);
  }
}

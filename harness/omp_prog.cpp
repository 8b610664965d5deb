// Runs the main of a program under the recording OpenMP runtime, each scenario in a process of its own.
// Scenario: "S id", "O threads seed policy preempt starve teams", "X directory arguments..", ".".
#include "omprt.h"
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern "C" int PROG(int, char**);
static int fd3 = -1; static pid_t me;
static void report() {
  if (getpid() != me) return;
  std::cout.flush(); fflush(0);
  std::ostringstream o; vf_hb(o);
  std::string s = o.str(); size_t p = 0; while (p < s.size()) { ssize_t k = write(fd3, s.data() + p, s.size() - p); if (k <= 0) break; p += k; }
}
int main() {
  std::string l, x, dir; long id; int st;
  while (std::getline(std::cin, l)) {
    if (l.substr(0, 2) != "S ") continue;
    id = atol(l.c_str() + 2);
    int t, p, q, sv, tm; long sd;
    std::getline(std::cin, l); { std::istringstream s(l); s >> x >> t >> sd >> p >> q >> sv >> tm; }
    std::getline(std::cin, l); std::vector<std::string> a; { std::istringstream s(l); s >> x >> dir; while (s >> x) a.push_back(x); }
    std::cout << "{\"sc\":" << id << ",\"e\":\"start\"}" << std::endl;
    pid_t k = fork();
    if (!k) {
      me = getpid(); fd3 = dup(1);
      if (chdir(dir.c_str())) _exit(95);
      int o = open("out.0", O_CREAT | O_WRONLY | O_TRUNC, 0644), e = open("err.0", O_CREAT | O_WRONLY | O_TRUNC, 0644);
      dup2(o, 1); dup2(e, 2);
      vf_sc = id; vf_omp(t, sd, p, q, sv, tm);
      atexit(report);
      std::vector<char*> v; v.push_back(strdup("program")); for (auto& y : a) v.push_back(strdup(y.c_str())); v.push_back(0);
      exit(PROG((int)v.size() - 1, v.data()));
    }
    waitpid(k, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (rc == 77) return 77;
    std::cout << "{\"sc\":" << id << ",\"e\":\"end\",\"rc\":" << rc << "}" << std::endl;
  }
}

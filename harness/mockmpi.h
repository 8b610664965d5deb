// A stand-in MPI. Ranks are processes; the coordinator (this process) decides which one runs and when the
// one-sided transfers take place, within what MPI guarantees, and records every call as one line of ndjson.
#ifndef MOCKMPI_H
#define MOCKMPI_H
#include <cstdio>
#include <string>
#include <vector>
struct MockOptions {
  int np = 1;
  unsigned seed = 1;
  std::string policy = "eager";   // eager, lazy, rand, prio, script
  bool weak = true;               // fences that end no epoch, and non-roots of reductions, do not wait
  bool expose = false;            // record what the windows hold when an epoch opens
  std::vector<int> script;        // policy script: rank r to go on, or -1-r: a transfer of origin r takes place
  double timeout = 20;
  long maxEvents = 200000;
  std::vector<double> clock;      // per rank: what its clock shows at first, and the seconds a transfer takes
  double aside = 0;               // the seconds every allocation and gather takes, on top
  std::string prefix;             // put in front of every line
};
// Runs a world. rankMain(rank, np) runs in a process of its own. Returns the number of abnormal ends.
int mockWorld(const MockOptions& o, int (*rankMain)(int, int));
// In a rank: add a line to the record (the braces and the scenario are added).
void mockLog(const std::string& line);
int mockRank();
#endif

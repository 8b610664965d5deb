#pragma once
#include <ostream>
extern long vf_sc;                                                                   // number of the scenario
void vf_omp(int threads, long seed, int policy, int preempt, int starve, int teams);  // before each scenario
void vf_hb(std::ostream& o);                                                          // prints the record of the scenario

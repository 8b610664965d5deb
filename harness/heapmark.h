#pragma once
#include <ostream>
// the recording allocator, where the harness is linked with it (heaprt.cpp)
extern long vf_sc __attribute__((weak));                      // number of the scenario
void vf_hb(std::ostream&) __attribute__((weak));              // prints the record of the scenario
void vf_mark() __attribute__((weak));                         // notes how much memory is held
void vf_given(void*) __attribute__((weak));                   // memory given back to the stand-in MPI
int vf_heap(char*, int) __attribute__((weak));                // the record of the scenario, as text
#define HEAP_SC(id) do { if (&vf_sc) vf_sc = (id); } while (0)
#define HEAP_END(o) do { if (vf_hb) vf_hb(o); } while (0)
#define HEAP_MARK() do { if (vf_mark) vf_mark(); } while (0)

// Control of threads for one case: deterministic generated schedules ("sched" build) or real threads ("asan" build)
#pragma once
#include "vf.hpp"
namespace rt {
struct Policy {
	int nthreads = 1;
	int gap = 0;        ///< mean number of memory accesses between preemptions; 0: none
	bool chunks = false;///< scheduling decision at every loop chunk request
	int lag = -1;       ///< bound on how many loop instances a thread may run ahead; -1: unbounded
	int starve = -1;    ///< a thread that rarely gets to run, or -1
};
void reset();                     ///< one thread, no preemption
void set(const Policy& p);        ///< for the parallel regions that follow
/// Random policy; lag < 0 means unbounded
Policy gen(vf::Src& s, int maxthreads, int lag = -1);
bool deterministic();             ///< whether schedules are generated
long long preemptions();          ///< number of context switches forced since set()
long long regions();              ///< number of multi-threaded parallel regions entered since set()
bool lagEnforced(int n, int loops); ///< whether since set() the bounded delay applied to n series of so many loops each (or only one thread is used)
std::string describe(const Policy& p);
}

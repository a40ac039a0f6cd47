// Real threads (libgomp); used with AddressSanitizer
#include "rt.hpp"
#include <omp.h>
namespace rt {
static Policy P;
void reset() { omp_set_num_threads(1); }
void set(const Policy& p) { P = p; omp_set_num_threads(p.nthreads); }
bool deterministic() { return false; }
long long preemptions() { return 0; }
long long regions() { return 0; }
bool lagEnforced(int, int) { return false; }
}

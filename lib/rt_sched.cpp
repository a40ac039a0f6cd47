// Deterministic OpenMP runtime: virtual threads are coroutines; gcc's -fsanitize=thread instrumentation
// calls us at every memory access, where the generated schedule may preempt. No libgomp, no libtsan.
#include "rt.hpp"
#include <sys/mman.h>
#include <string.h>
#include <time.h>
#include <map>
#include <pthread.h>
#include <cstring>

#define EXPORT extern "C" __attribute__((visibility("default"), noinline))

asm(R"(
.text
.globl vf_switch
.type vf_switch,@function
vf_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size vf_switch,.-vf_switch
.globl vf_tramp
vf_tramp:
	movq %r12, %rdi
	call vf_thread_main
	ud2
)");
extern "C" void vf_switch(void** save, void* to);
extern "C" void vf_tramp();

namespace {
const int MAXT = 72; const size_t STK = 512*1024;

struct WS { // one work-share instance of a team
	long start=0, end=0, incr=1, chunk=1, next=0; bool init=false; bool single=false; bool taken=false; bool dynamic=false;
	int outstanding=0; int arrived=0; // chunks being processed; threads having met the instance
	bool exhausted() const { return incr > 0 ? next >= end : next <= end; }
};
struct Thread {
	void* sp = nullptr; char* stack = nullptr; bool done = true; int blocked = 0; // 0 runnable, 1 barrier, 2 lock, 3 lag
	int tid = 0; int ws = 0; int curws = -1; bool inchunk = false; const void* lock = nullptr; int waitws = 0;
	int nest = 0;  // depth of serialised nested regions
};
struct Team {
	int n = 0; void (*fn)(void*) = nullptr; void* data = nullptr; Thread th[MAXT]; std::vector<WS> ws;
	int barrierCount = 0; bool presetLoop = false; WS preset;
};
Team T; bool g_team = false; int g_cur = -1; void* g_mainsp = nullptr;
rt::Policy P; long g_left = 0; // accesses left to the next preemption (<=0: none pending)
long long n_pre = 0, n_reg = 0, n_loops = 0;
int serLoops = 0; // loops met outside of parallel regions
std::vector<int> regLoops; // number of loops of each region which used schedulable ones
char* g_stacks[MAXT];
std::map<const void*, int> locks; // lock -> owner tid
int serialWs = 0; std::vector<WS> sws; int serialDepth = 0;
bool draining = false;

long drawGap() {
	if(P.gap <= 0) return 0;
	uint64_t v = vf::sched_draw(2*P.gap+1);
	return (long)v; // 0: no preemption till the next scheduling point
}
inline void toMain() { vf_switch(&T.th[g_cur].sp, g_mainsp); }
inline void hook() {
	if(g_left > 0 && --g_left == 0) { n_pre++; toMain(); }
}
bool lagOk(int k) { // may a thread start a chunk of instance k?
	if(P.lag < 0) return true;
	for(int j = 0; j < k - P.lag && j < (int)T.ws.size(); j++) {
		if(T.ws[j].single || !T.ws[j].init) continue;
		if(!T.ws[j].exhausted() || T.ws[j].outstanding > 0) return false;
	}
	return true;
}
bool runnable(int t) {
	Thread& h = T.th[t];
	if(h.done) return false;
	if(h.blocked == 1) return false;
	if(h.blocked == 2) { if(locks.count(h.lock)) return false; return true; }
	if(h.blocked == 3) return lagOk(h.waitws);
	return true;
}
void schedule() {
	int last = 0;
	while(true) {
		int cand[MAXT], nc = 0; bool alive = false; int lastpos = -1;
		for(int t = 0; t < T.n; t++) { if(!T.th[t].done) alive = true; if(runnable(t)) { if(t == last) lastpos = nc; cand[nc++] = t; } }
		if(!alive) break;
		if(nc == 0) vf::fail("deadlock: no thread of the parallel region can proceed");
		// the choice 0 keeps the same thread
		if(lastpos > 0) std::swap(cand[0], cand[lastpos]);
		int pick;
		if(nc == 1) pick = cand[0];
		else {
			pick = cand[vf::sched_draw(nc)];
			if(pick == P.starve && vf::sched_draw(24) != 0) { for(int k = 0; k < nc; k++) if(cand[k] != P.starve) { pick = cand[k]; break; } }
		}
		last = pick; g_cur = pick; T.th[pick].blocked = 0; g_left = drawGap();
		vf_switch(&g_mainsp, T.th[pick].sp);
		g_left = 0; g_cur = -1;
	}
}
void startThread(int t) {
	Thread& h = T.th[t];
	if(!g_stacks[t]) {
		char* m = (char*)mmap(0, STK+4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
		mprotect(m, 4096, PROT_NONE); g_stacks[t] = m+4096;
	}
	h = Thread(); h.tid = t; h.done = false; h.stack = g_stacks[t];
	uintptr_t top = ((uintptr_t)h.stack + STK) & ~(uintptr_t)63;
	void** sp = (void**)top;
	*--sp = 0; *--sp = 0; // alignment
	*--sp = (void*)vf_tramp;
	*--sp = 0;                 // rbp
	*--sp = 0;                 // rbx
	*--sp = (void*)(intptr_t)t;// r12
	*--sp = 0; *--sp = 0; *--sp = 0;
	h.sp = sp;
}
bool inTeam() { return g_team && g_cur >= 0; }
bool nested() { return serialDepth > 0 || (inTeam() && T.th[g_cur].nest > 0); }
void yieldChunk() { if(P.chunks) { toMain(); } else hook(); }

// work-sharing
WS& wsOf(int k) { if((int)T.ws.size() <= k) T.ws.resize(k+1); return T.ws[k]; }
bool nextChunk(int k, long* a, long* b);
bool loopStart(long start, long end, long incr, long chunk, int kind, long* a, long* b) {
	// kind: 0 static, 1 dynamic, 2 guided
	if(!inTeam() || T.th[g_cur].nest > 0) { // serial: whole range at once, by chunks to look alike
		if(!inTeam()) serLoops++;
		if(incr > 0 ? start < end : start > end) { *a = start; *b = end; sws.push_back(WS()); return true; }
		sws.push_back(WS()); return false;
	}
	Thread& h = T.th[g_cur]; int k = h.ws++; h.curws = k;
	yieldChunk();
	WS& w = wsOf(k);
	if(!w.init) { w.init = true; w.start = w.next = start; w.end = end; w.incr = incr; w.chunk = chunk <= 0 ? 1 : chunk; w.dynamic = true;
		if(kind == 0 && chunk <= 0) { long n = (end-start)/incr; w.chunk = (n+T.n-1)/T.n; if(w.chunk < 1) w.chunk = 1; } }
	return nextChunk(k, a, b);
}
bool nextChunk(int k, long* a, long* b) {
	Thread& h = T.th[g_cur];
	if(h.inchunk) { T.ws[k].outstanding--; h.inchunk = false; }
	while(!lagOk(k) && !wsOf(k).exhausted()) { h.blocked = 3; h.waitws = k; toMain(); }
	WS& w = wsOf(k);
	if(w.exhausted()) return false;
	long n = w.next + w.chunk*w.incr;
	if(w.incr > 0 ? n > w.end : n < w.end) n = w.end;
	*a = w.next; *b = n; w.next = n; w.outstanding++; h.inchunk = true;
	return true;
}
void loopEnd() {
	if(!inTeam() || T.th[g_cur].nest > 0) { if(!sws.empty()) sws.pop_back(); return; }
	Thread& h = T.th[g_cur];
	if(h.inchunk) { T.ws[h.curws].outstanding--; h.inchunk = false; }
}
void barrier() {
	if(!inTeam() || T.th[g_cur].nest > 0) return;
	T.barrierCount++;
	int live = 0; for(int t = 0; t < T.n; t++) if(!T.th[t].done) live++;
	if(T.barrierCount >= live) {
		T.barrierCount = 0; for(int t = 0; t < T.n; t++) if(T.th[t].blocked == 1) T.th[t].blocked = 0;
		toMain();
	} else { T.th[g_cur].blocked = 1; toMain(); }
}
void runTeam(void (*fn)(void*), void* data, unsigned nthr, WS* preset) {
	int n = nthr ? (int)nthr : P.nthreads;
	if(n > MAXT) n = MAXT;
	if(inTeam()) { // nested: serialised
		Thread& h = T.th[g_cur]; h.nest++; 
		fn(data); T.th[g_cur].nest--; return;
	}
	if(n <= 1 || serialDepth > 0) { serialDepth++; fn(data); serialDepth--; return; }
	T.n = n; T.fn = fn; T.data = data; T.ws.clear(); T.barrierCount = 0; T.presetLoop = preset != nullptr;
	if(preset) { T.ws.push_back(*preset); T.ws[0].init = true; T.ws[0].dynamic = true; }
	locks.clear();
	for(int t = 0; t < n; t++) { startThread(t); if(preset) { T.th[t].ws = 1; T.th[t].curws = 0; } }
	g_team = true; n_reg++;
	schedule();
	if(serLoops) { regLoops.push_back(serLoops); n_loops += serLoops; serLoops = 0; }
	int nl = 0; for(const WS& w : T.ws) if(w.init && !w.single) nl++;
	if(nl) { regLoops.push_back(nl); n_loops += nl; }
	g_team = false;
}
} // namespace

extern "C" void vf_thread_main(long t) {
	T.fn(T.data);
	g_left = 0;
	Thread& h = T.th[t];
	if(h.inchunk) { T.ws[h.curws].outstanding--; h.inchunk = false; }
	h.done = true;
	// threads waiting at a barrier must not wait for a finished one
	int live = 0; for(int k = 0; k < T.n; k++) if(!T.th[k].done) live++;
	if(live > 0 && T.barrierCount >= live) { T.barrierCount = 0; for(int k = 0; k < T.n; k++) if(T.th[k].blocked == 1) T.th[k].blocked = 0; }
	toMain();
}

namespace rt {
void reset() { P = Policy(); n_pre = n_reg = n_loops = 0; regLoops.clear(); serLoops = 0; g_left = 0; sws.clear(); serialDepth = 0; }
void set(const Policy& p) { P = p; n_pre = n_reg = n_loops = 0; regLoops.clear(); serLoops = 0; }
bool deterministic() { return true; }
long long preemptions() { return n_pre; }
long long regions() { return n_reg; }
bool lagEnforced(int n, int loops) {
	// Loops with a static schedule are compiled without calls, and nothing can hold back a thread in them. Other loops (norms)
	// do not count: a series is within one region, or there are more than enough regions.
	if(P.nthreads <= 1 || n_loops >= (long long)n*loops+2) return true;
	int series = serLoops/loops; for(int k : regLoops) series += k/loops;
	return series >= n;
}
}

// ---- libgomp interface
typedef void (*fn_t)(void*);
static WS mk(long s, long e, long i, long c) { WS w; w.start = w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; w.init = true; return w; }
EXPORT void GOMP_parallel(fn_t fn, void* d, unsigned nt, unsigned) { runTeam(fn, d, nt, nullptr); }
EXPORT unsigned GOMP_parallel_reductions(fn_t fn, void* d, unsigned nt, unsigned) { runTeam(fn, d, nt, nullptr); return nt ? nt : P.nthreads; }
static void parLoop(fn_t fn, void* d, unsigned nt, long s, long e, long i, long c) {
	int n = nt ? nt : P.nthreads;
	if(inTeam() || n <= 1 || serialDepth > 0) {
		// body calls GOMP_loop_*_next first: hand out the whole range once
		sws.push_back(mk(s,e,i,c)); sws.back().taken = false; sws.back().single = true;
		runTeam(fn, d, 1, nullptr);
		return;
	}
	WS w = mk(s,e,i,c); runTeam(fn, d, nt, &w);
}
#define PARLOOP(name) EXPORT void GOMP_parallel_loop_##name(fn_t fn, void* d, unsigned nt, long s, long e, long i, long c, unsigned) { parLoop(fn,d,nt,s,e,i,c); }
#define PARLOOPR(name) EXPORT void GOMP_parallel_loop_##name(fn_t fn, void* d, unsigned nt, long s, long e, long i, unsigned) { parLoop(fn,d,nt,s,e,i,1); }
PARLOOP(static) PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided)
PARLOOPR(runtime) PARLOOPR(nonmonotonic_runtime) PARLOOPR(maybe_nonmonotonic_runtime)
static bool doNext(long* a, long* b) {
	if(!inTeam() || T.th[g_cur].nest > 0) {
		if(!sws.empty() && sws.back().single && !sws.back().taken) { WS& w = sws.back(); w.taken = true; if(w.exhausted()) return false; *a = w.start; *b = w.end; return true; }
		return false;
	}
	Thread& h = T.th[g_cur];
	if(h.inchunk) { T.ws[h.curws].outstanding--; h.inchunk = false; }
	yieldChunk();
	return nextChunk(T.th[g_cur].curws, a, b);
}
#define LOOP(name,kind) \
	EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s,e,i,c,kind,a,b); } \
	EXPORT bool GOMP_loop_##name##_next(long* a, long* b) { return doNext(a,b); }
#define LOOPR(name) \
	EXPORT bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loopStart(s,e,i,1,1,a,b); } \
	EXPORT bool GOMP_loop_##name##_next(long* a, long* b) { return doNext(a,b); }
LOOP(static,0) LOOP(dynamic,1) LOOP(guided,2) LOOP(nonmonotonic_dynamic,1) LOOP(nonmonotonic_guided,2)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
#define LOOPU(name,kind) \
	EXPORT bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return loopStart((long)s,(long)e,(long)i,(long)c,kind,(long*)a,(long*)b); } \
	EXPORT bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return doNext((long*)a,(long*)b); }
LOOPU(static,0) LOOPU(dynamic,1) LOOPU(guided,2) LOOPU(nonmonotonic_dynamic,1) LOOPU(nonmonotonic_guided,2)
#define LOOPUR(name) \
	EXPORT bool GOMP_loop_ull_##name##_start(bool, ull s, ull e, ull i, ull* a, ull* b) { return loopStart((long)s,(long)e,(long)i,1,1,(long*)a,(long*)b); } \
	EXPORT bool GOMP_loop_ull_##name##_next(ull* a, ull* b) { return doNext((long*)a,(long*)b); }
LOOPUR(runtime) LOOPUR(nonmonotonic_runtime) LOOPUR(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end_nowait() { loopEnd(); }
EXPORT void GOMP_loop_end() { loopEnd(); barrier(); }
EXPORT bool GOMP_loop_end_cancel() { loopEnd(); barrier(); return false; }
EXPORT void GOMP_barrier() { barrier(); }
EXPORT bool GOMP_barrier_cancel() { barrier(); return false; }
EXPORT bool GOMP_single_start() {
	if(!inTeam() || T.th[g_cur].nest > 0) return true;
	int k = T.th[g_cur].ws++; WS& w = wsOf(k); w.single = true;
	if(w.taken) return false;
	w.taken = true; return true;
}
/// single with copyprivate: the others wait for the data of the one that executes it
struct Copy { void* data = nullptr; bool done = false; };
static std::map<int,Copy> copies;
EXPORT void* GOMP_single_copy_start() {
	if(!inTeam() || T.th[g_cur].nest > 0) return nullptr;
	int k = T.th[g_cur].ws++; WS& w = wsOf(k); w.single = true;
	if(!w.taken) { w.taken = true; copies[k] = Copy(); return nullptr; }
	barrier(); return copies[k].data;
}
EXPORT void GOMP_single_copy_end(void* d) {
	if(!inTeam() || T.th[g_cur].nest > 0) return;
	copies[T.th[g_cur].ws-1].data = d; barrier();
}
EXPORT unsigned GOMP_sections_start(unsigned n) { long a, b; if(loopStart(1, (long)n+1, 1, 1, 1, &a, &b)) { if(!inTeam()) { sws.back() = mk(2,(long)n+1,1,1); return 1; } return (unsigned)a; } return 0; }
EXPORT unsigned GOMP_sections_next() { long a, b; if(!inTeam()) { WS& w = sws.back(); if(w.next >= w.end) return 0; return (unsigned)w.next++; } return doNext(&a,&b) ? (unsigned)a : 0; }
EXPORT void GOMP_sections_end() { loopEnd(); barrier(); }
EXPORT void GOMP_sections_end_nowait() { loopEnd(); }
EXPORT void GOMP_parallel_sections(fn_t fn, void* d, unsigned nt, unsigned cnt, unsigned) { parLoop(fn,d,nt,1,(long)cnt+1,1,1); }
static void lockIt(const void* l) {
	if(!inTeam()) return;
	if(g_left > 0) hook();
	while(locks.count(l)) { T.th[g_cur].blocked = 2; T.th[g_cur].lock = l; toMain(); }
	locks[l] = g_cur;
}
static void unlockIt(const void* l) { if(!inTeam()) return; locks.erase(l); hook(); }
static char critLock, atomicLock;
EXPORT void GOMP_critical_start() { lockIt(&critLock); }
EXPORT void GOMP_critical_end() { unlockIt(&critLock); }
EXPORT void GOMP_critical_name_start(void** p) { lockIt(p); }
EXPORT void GOMP_critical_name_end(void** p) { unlockIt(p); }
EXPORT void GOMP_atomic_start() { lockIt(&atomicLock); }
EXPORT void GOMP_atomic_end() { unlockIt(&atomicLock); }
EXPORT void GOMP_task(fn_t fn, void* data, void (*cpyfn)(void*,void*), long argsz, long argal, bool, unsigned, void**, int, void*) {
	if(cpyfn) { std::vector<char> buf(argsz+argal); char* p = (char*)(((uintptr_t)buf.data()+argal-1)/argal*argal); cpyfn(p, data); fn(p); }
	else fn(data);
}
EXPORT void GOMP_taskwait() { }
EXPORT void GOMP_taskgroup_start() { }
EXPORT void GOMP_taskgroup_end() { }
EXPORT void GOMP_taskyield() { }
EXPORT void GOMP_ordered_start() { }
EXPORT void GOMP_ordered_end() { }
EXPORT int omp_get_thread_num() { return inTeam() && T.th[g_cur].nest == 0 ? g_cur : 0; }
EXPORT int omp_get_num_threads() { return inTeam() && T.th[g_cur].nest == 0 ? T.n : 1; }
EXPORT int omp_get_max_threads() { return P.nthreads; }
EXPORT int omp_get_num_procs() { return 8; }
EXPORT int omp_in_parallel() { return inTeam(); }
EXPORT void omp_set_num_threads(int n) { if(n > 0) P.nthreads = n; }
EXPORT int omp_get_thread_limit() { return MAXT; }
EXPORT int omp_get_level() { return inTeam() ? 1 : 0; }
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_dynamic(int) { }
EXPORT void omp_set_nested(int) { }
EXPORT int omp_get_nested() { return 0; }
EXPORT void omp_set_schedule(int, int) { }
EXPORT double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT int omp_get_active_level() { return inTeam() ? 1 : 0; }
EXPORT int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : l == omp_get_level() ? omp_get_thread_num() : -1; }
EXPORT int omp_get_team_size(int l) { return l == 0 ? 1 : l == omp_get_level() ? omp_get_num_threads() : -1; }
EXPORT int omp_get_max_active_levels() { return 1; }
EXPORT void omp_set_max_active_levels(int) { }
EXPORT int omp_get_cancellation() { return 0; }
EXPORT int omp_get_default_device() { return 0; }
EXPORT int omp_get_num_devices() { return 0; }
EXPORT int omp_is_initial_device() { return 1; }
EXPORT int omp_get_num_teams() { return 1; }
EXPORT int omp_get_team_num() { return 0; }
EXPORT int omp_get_num_places() { return 0; }
EXPORT int omp_get_proc_bind() { return 0; }
EXPORT int omp_in_final() { return 0; }
EXPORT void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
EXPORT int omp_test_lock(void** l) { if(!inTeam()) return 1; hook(); if(locks.count(l)) return 0; locks[l] = g_cur; return 1; }
EXPORT void omp_init_nest_lock(void**) { }
EXPORT void omp_destroy_nest_lock(void**) { }
static std::map<const void*,int> nestCount;
EXPORT void omp_set_nest_lock(void** l) { if(!inTeam()) return; auto it = locks.find(l); if(it == locks.end() || it->second != g_cur) lockIt(l); nestCount[l]++; }
EXPORT void omp_unset_nest_lock(void** l) { if(!inTeam()) return; if(--nestCount[l] == 0) unlockIt(l); }
EXPORT void GOMP_taskloop(fn_t fn, void* data, void (*cpyfn)(void*,void*), long argsz, long argal, unsigned, unsigned long, int, long start, long end, long) {
	std::vector<char> buf(argsz+argal); char* p = (char*)(((uintptr_t)buf.data()+argal-1)/argal*argal); if(cpyfn) cpyfn(p, data); else memcpy(p, data, argsz);
	((long*)p)[0] = start; ((long*)p)[1] = end; fn(p);
}
// Initialisation of local static variables: no preemption in the course of it
EXPORT int __cxa_guard_acquire(uint64_t* g) { if(*(char*)g) return 0; g_left = 0; return 1; }
EXPORT void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
EXPORT void __cxa_guard_abort(uint64_t*) { }
// Mutexes: threads of the team are not threads of the system
EXPORT int pthread_mutex_lock(pthread_mutex_t* l) { lockIt(l); return 0; }
EXPORT int pthread_mutex_trylock(pthread_mutex_t* l) { if(!inTeam()) return 0; hook(); if(locks.count(l)) return 16; locks[l] = g_cur; return 0; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* l) { unlockIt(l); return 0; }
EXPORT void omp_init_lock(void**) { }
EXPORT void omp_destroy_lock(void**) { }
EXPORT void omp_set_lock(void** l) { lockIt(l); }
EXPORT void omp_unset_lock(void** l) { unlockIt(l); }

// ---- instrumentation interface
#define ACC(sz) \
	EXPORT void __tsan_read##sz(void*) { hook(); } EXPORT void __tsan_write##sz(void*) { hook(); } \
	EXPORT void __tsan_unaligned_read##sz(void*) { hook(); } EXPORT void __tsan_unaligned_write##sz(void*) { hook(); } \
	EXPORT void __tsan_volatile_read##sz(void*) { hook(); } EXPORT void __tsan_volatile_write##sz(void*) { hook(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void*, unsigned long) { hook(); }
EXPORT void __tsan_write_range(void*, unsigned long) { hook(); }
EXPORT void __tsan_init() { }
EXPORT void __tsan_func_entry(void*) { }
EXPORT void __tsan_func_exit(void*) { }
EXPORT void __tsan_vptr_update(void*, void*) { }
EXPORT void __tsan_vptr_read(void*) { }
#define ATOM(bits, type) \
	EXPORT type __tsan_atomic##bits##_load(const volatile type* p, int) { hook(); return *p; } \
	EXPORT void __tsan_atomic##bits##_store(volatile type* p, type v, int) { hook(); *p = v; } \
	EXPORT type __tsan_atomic##bits##_exchange(volatile type* p, type v, int) { hook(); type o = *p; *p = v; return o; } \
	EXPORT type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int) { hook(); type o = *p; *p = o+v; return o; } \
	EXPORT type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int) { hook(); type o = *p; *p = o-v; return o; } \
	EXPORT type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int) { hook(); type o = *p; *p = o&v; return o; } \
	EXPORT type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int) { hook(); type o = *p; *p = o|v; return o; } \
	EXPORT type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int) { hook(); type o = *p; *p = o^v; return o; } \
	EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* c, type v, int, int) { hook(); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* c, type v, int, int) { hook(); if(*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	EXPORT type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type c, type v, int, int) { hook(); type o = *p; if(o == c) *p = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
EXPORT void __tsan_atomic_thread_fence(int) { }
EXPORT void __tsan_atomic_signal_fence(int) { }

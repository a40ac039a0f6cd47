// Small property-based testing engine: recorded choices, forked workers, integrated shrinking.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <set>
#include <exception>
#include <algorithm>
#include <initializer_list>
#include <stdexcept>
#include <limits>

namespace vf {

typedef long double ld;

/// Stream of bounded choices, either pseudo-random or replayed; always recorded
class Src {
public:
	void seed(uint64_t s);                       ///< random mode
	void replay(const std::vector<uint64_t>& v); ///< replay mode
	uint64_t draw(uint64_t n);                   ///< uniform in [0,n); 0 is the simplest
	int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi-lo+1)); }
	bool chance(int num, int den) { return draw((uint64_t)den) >= (uint64_t)(den-num); } ///< 0 -> false
	bool flip() { return draw(2) == 1; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin()+draw(l.size())); }
	template <class T> const T& pick(const std::vector<T>& l) { return l[draw(l.size())]; }
	double unit() { return (double)draw(1ull<<52) / (double)(1ull<<52); } ///< [0,1)
	/// Random permutation of 0..n-1, identity is the simplest
	std::vector<int> perm(int n) {
		std::vector<int> p(n); for(int i = 0; i < n; i++) p[i] = i;
		for(int i = n-1; i > 0; i--) { int j = i - (int)draw((uint64_t)i+1); std::swap(p[i], p[j]); }
		return p;
	}
	void reserve(size_t n) { rec.reserve(n); }   ///< so that later draws do not allocate
	size_t held() const { return rec.capacity()*sizeof(uint64_t); } ///< bytes of memory of the record
	const std::vector<uint64_t>& choices() const { return rec; }
	uint64_t hash() const { return h; }
private:
	bool replaying = false; size_t pos = 0;
	uint64_t st[2] = {1,2}; uint64_t h = 0;
	std::vector<uint64_t> in, rec;
};

/// One generated case
class Case {
public:
	explicit Case(Src& src) : s(src) { }
	Src& s;
	bool verbose = false;                ///< whether descriptions are wanted
	bool thorough = false;
	bool nontriv = false;
	std::string desc;
	void note(const char* fmt, ...) __attribute__((format(printf,2,3)));
	void nontrivial(bool b = true) { nontriv = nontriv || b; }
};

/// Ends the case as a violation (does not return)
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf,1,2)));
#define VF_CHECK(cond, ...) do { if(!(cond)) ::vf::fail(__VA_ARGS__); } while(0)

typedef void (*PropFn)(Case&);
/// Registers a sub-property: share of the cases, name, non-triviality rule
struct Reg { Reg(const char* name, int quick, int thorough, const char* rule, PropFn fn); };
#define VF_PROP(fn, quick, thorough, rule) \
	static void fn(::vf::Case& c); \
	static ::vf::Reg vfreg_##fn(#fn, quick, thorough, rule, fn); \
	static void fn(::vf::Case& c)

/// Draws used by the OpenMP runtime
uint64_t sched_draw(uint64_t n);
/// Remember the schedule generated from here on / use the remembered one again / generate as usual (the state at the start of a case)
void schedRecord(); void schedReplay(); void schedPlain();

} // namespace vf

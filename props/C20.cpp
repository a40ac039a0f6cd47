// VF: exclude=coomatrix.cpp,solverfactory.cpp,solverops_ilu0.cpp,solverops_levels_ilu0.cpp,solverops_levels_sgs.cpp,solverops_sgs.cpp,solverops_jacobi.cpp,relaxation_chaotic.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,reorderingscaling.cpp,sai.cpp,solverops_sai.cpp,solverops_base.cpp,bsrmatrix.cpp,csrmatrix.cpp,matrix_properties.cpp,levelschedule.cpp,ilu_pattern.cpp,adjacency.cpp,scmatrix.cpp,rawsrmatrixutils.cpp,matvecs.cpp
// VF: scale_asan=0.05
// C20: prefix sums, scans, sorting, searching and norms against their definitions
#include "gen.hpp"
#ifndef VF_PUBLIC_ONLY
#include "helper_algorithms.hpp"
#include "blas/blas1.hpp"
#endif
#include <utils/prefix_sum.hpp>
using namespace vf;
using namespace blasted;

static IV genCounts(Src& s, int n) {
	IV v(n); const int k = (int)s.draw(5);
	if(n > 500) { // long: from a single choice
		uint64_t z = 88172645463325252ull + s.draw(1u<<20); auto rnd = [&](int m) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return (int)((z >> 11)%m); };
		for(int i = 0; i < n; i++) v[i] = k == 0 ? 1 : k == 1 ? i+1 : k == 2 ? rnd(10) : k == 3 ? rnd(2001)-1000 : rnd(100000);
		return v;
	}
	for(int i = 0; i < n; i++) v[i] = k == 0 ? 1 : k == 1 ? i+1 : k == 2 ? (int)s.draw(10) : k == 3 ? s.range(-1000,1000) : s.range(0,100000);
	return v;
}
static std::string istr(const IV& v, size_t lim = 300) { std::string o = "["; for(int x : v) { if(o.size() > lim) { o += "..."; break; } o += std::to_string(x)+" "; } return o+"]"; }
static int genLen(Src& s, int nt) { // lengths around multiples of the number of threads, and around powers of two
	if(s.chance(1,400)) return (int)s.draw(20000);
	switch(s.draw(5)) { case 0: return (int)s.draw(2*nt+2); case 1: return std::max(0, nt*(1+(int)s.draw(6))+s.range(-2,2)); case 2: return std::max(0, (1<<s.draw(8))+s.range(-1,1)); case 3: return (int)s.draw(400); default: return (int)s.draw(20); }
}

VF_PROP(prefix_sum, 800000, 5000000, "more than one thread and more than two entries")
{
	Src& s = c.s; rt::Policy p = rt::gen(s, s.chance(1,20) ? 70 : 17); const int n = genLen(s, p.nthreads); IV v = genCounts(s, n); rt::set(p);
	Arr<int> a(v); IV want(n); { int acc = 0; for(int i = 0; i < n; i++) { want[i] = acc; if(i < n-1) acc += v[i]; } }
	// the last entry is not used, whatever it holds
	if(n > 0 && s.flip()) a[n-1] = s.pick({2000000000, -2000000000, 0})/(n > 500 ? 4 : 1); // sums are to stay within range with it
	c.note("prefix sum of %d entries %s; %s", n, istr(v).c_str(), rt::describe(p).c_str()); c.nontrivial(p.nthreads > 1 && n > 2);
	blasted::prefix_sum<int>(a.data(), n);
	for(int i = 0; i < n; i++) VF_CHECK(a[i] == want[i], "entry %d of %d is %d, expected %d", i, n, a[i], want[i]);
	a.intact("the counts");
	if(s.chance(1,4)) { // again, with another number of threads
		rt::Policy q = rt::gen(s, 17); rt::set(q); Arr<int> b(v); blasted::prefix_sum<int>(b.data(), n);
		for(int i = 0; i < n; i++) VF_CHECK(b[i] == want[i], "with %d threads, entry %d of %d is %d, expected %d", q.nthreads, i, n, b[i], want[i]);
		b.intact("the counts");
	}
}

#ifndef VF_PUBLIC_ONLY
template <int bs> static void sorting(Case& c)
{
	Src& s = c.s; const int n = (int)s.draw(s.chance(1,10) ? s.chance(1,20) ? 1200/bs : 40 : 9); const bool dup = s.chance(1,5); IV ix(n); DV v((size_t)n*bs*bs);
	{ IV p = s.perm(n); for(int i = 0; i < n; i++) ix[i] = dup ? s.range(0,3) : p[i]+5; }
	if(!dup && n > 0 && s.flip()) { int off = s.range(-20, 1000); for(auto& x : ix) x = x*3+off; } // not contiguous, negative too
	for(size_t k = 0; k < v.size(); k++) v[k] = (double)k+0.5;
	Arr<int> a(ix); Arr<double> b(v); rt::reset(); c.note("sort %s with blocks of %d", istr(ix).c_str(), bs); c.nontrivial(n > 2 && !std::is_sorted(ix.begin(), ix.end()));
	internal::sortBlockInnerDimension<double,int,bs>(n, a.data(), b.data());
	IV sorted(ix); std::sort(sorted.begin(), sorted.end()); std::vector<char> used(n, 0);
	for(int i = 0; i < n; i++) {
		VF_CHECK(a[i] == sorted[i], "position %d holds index %d, expected %d", i, a[i], sorted[i]);
		const int src = (int)((b[(size_t)i*bs*bs]-0.5)/(bs*bs));
		VF_CHECK(src >= 0 && src < n && !used[src] && ix[src] == a[i], "the block at position %d does not belong to its index %d", i, a[i]); used[src] = 1;
		for(int q = 0; q < bs*bs; q++) VF_CHECK(b[(size_t)i*bs*bs+q] == v[(size_t)src*bs*bs+q], "entry %d of the block at position %d is wrong", q, i);
	}
	a.intact("the indices"); b.intact("the blocks");
}
VF_PROP(sort, 100000, 3000000, "more than two indices, not in order")
{
	switch(c.s.draw(5)) { case 0: sorting<1>(c); break; case 1: sorting<2>(c); break; case 2: sorting<4>(c); break; case 3: sorting<5>(c); break; default: sorting<7>(c); }
}
VF_PROP(scan_search, 100000, 3000000, "more than two entries")
{
	Src& s = c.s; const int n = (int)s.draw(s.chance(1,10) ? s.chance(1,20) ? 20000 : 200 : 12); IV v = genCounts(s, n); rt::reset(); c.note("scan and search in %s", istr(v).c_str()); c.nontrivial(n > 2);
	IV want(n); { int acc = 0; for(int i = 0; i < n; i++) want[i] = acc += v[i]; }
	IV a(v); internal::inclusive_scan(a); VF_CHECK(a == want, "scan in place: %s", istr(a).c_str());
	device_vector<int> d(v.begin(), v.end()); internal::inclusive_scan(d); VF_CHECK(d.size() == v.size() && std::equal(d.begin(), d.end(), want.begin()), "scan of an aligned vector: %s", istr(IV(d.begin(), d.end())).c_str());
	const IV cv(v); IV r = internal::inclusive_scan(cv); VF_CHECK(r == want && cv == v, "scan into a new vector: %s", istr(r).c_str());
	// Search between two positions
	Arr<int> arr(v); const int lo = (int)s.draw(n+1), hi = lo+(int)s.draw(n-lo+1), x = n > 0 && s.chance(3,4) ? v[s.draw(n)] : s.range(-5,12);
	bool there = false; for(int j = lo; j < hi; j++) if(v[j] == x) there = true;
	int pos = -77; internal::inner_search<int>(arr.data(), lo, hi, x, &pos);
	VF_CHECK(there ? pos >= lo && pos < hi && v[pos] == x : pos == -77, "searching %d between %d and %d finds position %d", x, lo, hi, pos); arr.intact("the indices");
}
VF_PROP(maxnorm, 300000, 3000000, "more than two entries and more than one thread")
{
	Src& s = c.s; rt::Policy p = rt::gen(s, 9); const int n = genLen(s, p.nthreads); const int kind = (int)s.draw(6);
	device_vector<double> v(n); if(n > 500) { const uint64_t z = s.draw(1u<<20); for(int i = 0; i < n; i++) v[i] = ((i*(2*z+1))%8191)/4096.0-1; }
	else for(auto& x : v) x = kind == 0 ? 0.0 : kind == 1 ? -s.unit() : kind == 2 ? std::ldexp(s.unit()*2-1, s.range(-1080,1020)) : kind == 3 ? std::ldexp(s.unit()-0.5, -1060) : genVal(s);
	if(n > 0 && s.chance(1,3)) v[s.draw(n)] = (s.flip() ? -1 : 1)*s.pick({1e300, 5e-324, 1.0, std::numeric_limits<double>::infinity(), -0.0});
	double want = 0; for(double x : v) want = std::max(want, std::fabs(x));
	device_vector<double> v0(v); rt::set(p); c.note("norm of %s; %s", vstr(DV(v.begin(), v.end())).c_str(), rt::describe(p).c_str()); c.nontrivial(n > 2 && p.nthreads > 1);
	const double got = maxnorm(v); VF_CHECK(got == want, "the norm is %.17g, the largest absolute value %.17g", got, want); VF_CHECK(v == v0, "the vector was changed");
}
#endif

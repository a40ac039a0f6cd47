// VF: exclude=coomatrix.cpp,solverfactory.cpp,solverops_ilu0.cpp,solverops_levels_ilu0.cpp,solverops_levels_sgs.cpp,solverops_sgs.cpp,solverops_jacobi.cpp,relaxation_chaotic.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,reorderingscaling.cpp,sai.cpp,solverops_sai.cpp,solverops_base.cpp
// VF: scale_asan=0.4
// C19: triangular views and column adjacency
#include "gen.hpp"
#ifndef VF_PUBLIC_ONLY
#include "adjacency.hpp"
#include "matrix_properties.hpp"
#endif
#include <blockmatrices.hpp>
#include <map>
#include <boost/align/aligned_alloc.hpp>
#ifdef VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heldBytes() { return __sanitizer_get_current_allocated_bytes(); }
static void warm(vf::Case& c) { c.s.reserve(1<<16); static bool done = false; if(!done) { done = true; static char buf[4096]; setvbuf(stdout, buf, _IOFBF, sizeof buf); volatile int x = 0;
#pragma omp parallel for num_threads(1)
	for(int i = 0; i < 4; i++) x += i; std::cout << ""; } }
#else
static size_t heldBytes() { return 0; }
static void warm(vf::Case&) { }
#endif
using namespace vf;
using namespace blasted;
typedef SRMatrixStorage<const double,const int> CStore;
typedef CRawBSRMatrix<double,int> CRaw;

/// The entries (row, column, position) a view should have: side -1 lower, 1 upper, 0 diagonal only
static std::vector<std::array<int,3>> entries(const Mat& m, bool lower, bool upper) {
	std::vector<std::array<int,3>> e;
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if((m.ci[k] <= i || !lower) && (m.ci[k] >= i || !upper)) e.push_back({i, m.ci[k], k});
	return e;
}
/// What a view says
template <class B, class E, class C> static std::vector<std::array<int,3>> listed(int n, int stored, const B& b, const E& e, const C& ci) {
	std::vector<std::array<int,3>> r;
	for(int i = 0; i < n; i++) { VF_CHECK(b[i] >= 0 && b[i] <= e[i] && e[i] <= stored, "row %d lies between positions %d and %d of %d", i, b[i], e[i], stored); for(int k = b[i]; k < e[i]; k++) r.push_back({i, ci[k], k}); }
	return r;
}
static void same(const char* what, const std::vector<std::array<int,3>>& got, const std::vector<std::array<int,3>>& want) {
	for(size_t q = 0; q < got.size() && q < want.size(); q++) VF_CHECK(got[q] == want[q], "%s: entry %zu is (%d,%d) at %d, expected (%d,%d) at %d", what, q, got[q][0], got[q][1], got[q][2], want[q][0], want[q][1], want[q][2]);
	VF_CHECK(got.size() == want.size(), "%s: %zu entries, expected %zu", what, got.size(), want.size());
}
static CRaw rawView(const CRaw& a, bool lower) { return lower ? getLowerTriangularView(a) : getUpperTriangularView(a); }
static void destroy(CRaw& v) { RawBSRMatrix<double,int>& r = *reinterpret_cast<RawBSRMatrix<double,int>*>(&v); alignedDestroyRawBSRMatrixTriangularView(r); }
static const char* wn[] = {"lower", "upper"};

VF_PROP(views, 150000, 4000000, "at least 3 rows and entries on both sides of the diagonal")
{
	Src& s = c.s; const int bs = (int)s.pick({1,1,2,4,5}); MatOpt mo; mo.huge = 12000; mo.vals = ARBITRARY; mo.nmax = s.chance(1,30) ? 60 : 9; mo.sym = s.chance(1,4); Mat m = genMat(s, bs, mo); Raw A(m, s.flip()), A0(A);
	const int nops = 1+(int)s.draw(6); c.note("%d operations on %s", nops, m.str(600).c_str());
	c.nontrivial(m.n > 2 && entries(m,true,false).size() > (size_t)m.n && entries(m,false,true).size() > (size_t)m.n);
	rt::reset(); warm(c); const size_t before = heldBytes() - c.s.held();
	{
		struct Node { CRaw raw; std::unique_ptr<CStore> st; bool lower, upper, owned; int deps; }; // a pool of views, possibly of views
		std::vector<Node> pool; pool.reserve(8);
		pool.push_back(Node{A.craw(), std::unique_ptr<CStore>(new CStore(A.storage())), false, false, false, 0});
		auto check = [&](const Node& v, const char* what) {
			auto want = entries(m, v.lower, v.upper);
			same(what, listed(m.n, m.nnz(), v.raw.browptr, v.raw.browendptr, v.raw.bcolind), want);
			VF_CHECK(v.raw.nbrows == m.n && v.raw.nnzb == (int)want.size() && v.raw.nbstored == m.nnz(), "%s: %d rows, %d entries, %d stored; expected %d, %zu, %d", what, v.raw.nbrows, v.raw.nnzb, v.raw.nbstored, m.n, want.size(), m.nnz());
			VF_CHECK(v.raw.vals == A.v.data(), "%s does not share the values", what);
			for(int i = 0; i < m.n; i++) VF_CHECK(v.raw.diagind[i] == m.di[i], "%s: wrong position of diagonal %d", what, i);
			same(what, listed(m.n, m.nnz(), v.st->browptr, v.st->browendptr, v.st->bcolind), want);
			VF_CHECK(v.st->nbrows == m.n && v.st->nnzb == (int)want.size() && v.st->nbstored == m.nnz(), "%s (storage): %d rows, %d entries, %d stored; expected %d, %zu, %d", what, v.st->nbrows, v.st->nnzb, v.st->nbstored, m.n, want.size(), m.nnz());
			VF_CHECK(&v.st->vals[0] == A.v.data() && v.st->vals.size() == (int)A.v.size() && v.st->bcolind.size() == m.nnz(), "%s does not share the values", what);
			for(int i = 0; i < m.n; i++) VF_CHECK(v.st->diagind[i] == m.di[i], "%s (storage): wrong position of diagonal %d", what, i);
		};
		for(int op = 0; op < nops; op++) {
			if(pool.size() > 1 && s.chance(1,4)) { // release one view
				size_t q = 1+s.draw(pool.size()-1); c.note("; release view %zu", q); destroy(pool[q].raw); pool.erase(pool.begin()+q);
			} else if(pool.size() < 7) {
				size_t q = s.draw(pool.size()); const bool lower = s.flip(); Node& src = pool[q];
				c.note("; %s view of %zu", wn[!lower], q);
				Node v; v.raw = rawView(src.raw, lower);
				v.st.reset(new CStore(lower ? getLowerTriangularView(std::move(*src.st)) : getUpperTriangularView(std::move(*src.st))));
				v.lower = src.lower || lower; v.upper = src.upper || !lower; v.owned = true;
				pool.push_back(std::move(v));
				// A raw view of the storage view is the same view
				const Node& w = pool.back(); CRaw rv = createRawView(CStore(w.st->browptr.size() ? &w.st->browptr[0] : nullptr, &w.st->bcolind[0], &w.st->vals[0], &w.st->diagind[0], &w.st->browendptr[0], m.n, w.st->nnzb, m.nnz(), bs));
				VF_CHECK(rv.browptr == &w.st->browptr[0] && rv.browendptr == &w.st->browendptr[0] && rv.nnzb == w.st->nnzb, "raw view of a view differs from it");
			}
			for(size_t q = 0; q < pool.size(); q++) { char b[80]; snprintf(b, 80, "view %zu (%s%s)", q, pool[q].lower ? "lower" : "", pool[q].upper ? "upper" : ""); check(pool[q], b); }
		}
		for(size_t q = 1; q < pool.size(); q++) destroy(pool[q].raw);
	}
	VF_CHECK(A.same(A0), "the viewed matrix was changed"); A.intact();
#ifdef VF_ASAN
	if(!c.verbose) { size_t after = heldBytes() - c.s.held(); VF_CHECK(after <= before, "%zu bytes are still allocated after all views are gone", after-before); }
#else
	(void)before;
#endif
}

// The lower plus the upper part less the diagonal act as the whole matrix, and transposing exchanges them
VF_PROP(decomposition, 60000, 1500000, "at least 3 rows and entries on both sides of the diagonal")
{
	Src& s = c.s; MatOpt mo; mo.huge = 12000; mo.vals = ARBITRARY; mo.nmax = 12; Mat m = genMat(s, 1, mo); Raw A(m, false); DV x = genVec(s, m.n); rt::reset();
	Mat t = m; { t.rp.assign(1,0); t.ci.clear(); t.v.clear(); std::vector<std::vector<std::pair<int,double>>> cols(m.n); for(int j = 0; j < m.n; j++) for(int k = m.rp[j]; k < m.rp[j+1]; k++) cols[m.ci[k]].push_back({j, m.v[k]});
		for(auto& q : cols) { for(auto& e : q) { t.ci.push_back(e.first); t.v.push_back(e.second); } t.rp.push_back((int)t.ci.size()); } setDiag(t); }
	Raw T(t, false); c.note("%s", m.str(600).c_str()); c.nontrivial(m.n > 2 && entries(m,true,false).size() > (size_t)m.n && entries(m,false,true).size() > (size_t)m.n);
	CRaw a = A.craw(), tr = T.craw(); CRaw L = rawView(a, true), U = rawView(a, false), TL = rawView(tr, true), TU = rawView(tr, false);
	VF_CHECK(L.nnzb+U.nnzb == a.nnzb+m.n, "the parts have %d and %d of %d entries, counting the %d diagonal ones twice", L.nnzb, U.nnzb, a.nnzb, m.n);
	VF_CHECK(L.nnzb == TU.nnzb && U.nnzb == TL.nnzb, "the parts of the transpose have %d and %d entries, those of the matrix %d and %d", TL.nnzb, TU.nnzb, L.nnzb, U.nnzb);
	auto trip = [](const CRaw& v, bool tp) { std::vector<std::pair<std::pair<int,int>,double>> e; for(int i = 0; i < v.nbrows; i++) for(int k = v.browptr[i]; k < v.browendptr[i]; k++) e.push_back({tp ? std::make_pair(v.bcolind[k], i) : std::make_pair(i, v.bcolind[k]), v.vals[k]}); std::sort(e.begin(), e.end()); return e; };
	VF_CHECK(trip(L,false) == trip(TU,true) && trip(U,false) == trip(TL,true), "the parts of the transpose are not the transposed parts");
	for(int i = 0; i < m.n; i++) { ld whole = 0, parts = -(ld)m.v[m.di[i]]*x[i], mag = 0;
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) { whole += (ld)m.v[k]*x[m.ci[k]]; mag += fabsl((ld)m.v[k]*x[m.ci[k]]); }
		for(int k = L.browptr[i]; k < L.browendptr[i]; k++) parts += (ld)L.vals[k]*x[L.bcolind[k]];
		for(int k = U.browptr[i]; k < U.browendptr[i]; k++) parts += (ld)U.vals[k]*x[U.bcolind[k]];
		VF_CHECK(fabsl(whole-parts) <= 1e-15L*mag*m.n, "row %d: the parts act as %.17Lg, the matrix as %.17Lg", i, parts, whole); }
	destroy(L); destroy(U); destroy(TL); destroy(TU);
}

#ifndef VF_PUBLIC_ONLY
VF_PROP(adjacency, 150000, 4000000, "at least 3 rows and a non-symmetric pattern")
{
	Src& s = c.s; const int bs = (int)s.pick({1,1,3,4}); MatOpt mo; mo.huge = 12000; mo.vals = ARBITRARY; mo.nmax = s.chance(1,30) ? 80 : 11; mo.fulldiag = s.flip(); Mat m = genMat(s, bs, mo);
	const bool shuffle = s.chance(1,4); // columns in any order
	if(shuffle) for(int i = 0; i < m.n; i++) for(int k = m.rp[i+1]-1; k > m.rp[i]; k--) { int q = m.rp[i]+(int)s.draw(k-m.rp[i]+1); std::swap(m.ci[k], m.ci[q]); }
	if(m.nnz() == 0) { m.ci.push_back(0); for(int i = 1; i <= m.n; i++) m.rp[i] = 1; m.v.assign(bs*bs, 1.0); }
	Raw A(m, false), A0(A); SRMatrixStorage<double,int> st(A.rp.data(), A.ci.data(), A.v.data(), A.di.data(), A.rp.data()+1, m.n, m.nnz(), m.nnz(), bs);
	bool sym = m.n < 200; if(sym) for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.find(m.ci[k], i) < 0) sym = false;
	c.note("columns of %s", m.str(600).c_str()); c.nontrivial(m.n > 2 && !sym); rt::reset();
	ColumnAdjacency<double,int> ca(st);
	auto& ptr = ca.col_pointers(); auto& rows = ca.col_nonzero_rows(); auto& loc = ca.col_nonzero_locations();
	VF_CHECK((int)ptr.size() == m.n+1 && ptr[0] == 0 && ptr[m.n] == m.nnz() && (int)rows.size() == m.nnz() && (int)loc.size() == m.nnz(), "%zu pointers to %zu rows and %zu positions", ptr.size(), rows.size(), loc.size());
	std::vector<std::map<int,int>> want(m.n); for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) want[m.ci[k]][i] = k;
	for(int j = 0; j < m.n; j++) {
		VF_CHECK(ptr[j] <= ptr[j+1] && ptr[j+1] <= m.nnz(), "column %d lies between %d and %d", j, ptr[j], ptr[j+1]);
		std::map<int,int> got; for(int q = ptr[j]; q < ptr[j+1]; q++) { VF_CHECK(got.insert({rows[q], loc[q]}).second, "column %d lists row %d twice", j, rows[q]); }
		for(auto& w : want[j]) { auto it = got.find(w.first); VF_CHECK(it != got.end(), "column %d does not list row %d", j, w.first); VF_CHECK(it->second == w.second, "column %d: the entry of row %d is said to be at %d, it is at %d", j, w.first, it->second, w.second); }
		for(auto& g : got) VF_CHECK(want[j].count(g.first), "column %d wrongly lists row %d", j, g.first);
	}
	VF_CHECK(A.same(A0), "the matrix was changed"); A.intact();
}
#endif

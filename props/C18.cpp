// VF: exclude=coomatrix.cpp,solverfactory.cpp,solverops_ilu0.cpp,solverops_levels_ilu0.cpp,solverops_levels_sgs.cpp,solverops_sgs.cpp,solverops_jacobi.cpp,relaxation_chaotic.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,reorderingscaling.cpp
// VF: scale_asan=0.15
// C18: patterns and values of sparse approximate inverses
#include "gen.hpp"
#include <set>
#include "sai.hpp"
using namespace vf;
using namespace blasted;

/// A (triangular view of a) matrix: which stored positions each row has
struct View { IV b, e; int nnz = 0; };
static View whole(const Mat& m) { View v; for(int i = 0; i < m.n; i++) { v.b.push_back(m.rp[i]); v.e.push_back(m.rp[i+1]); } v.nnz = m.nnz(); return v; }
static View tri(const Mat& m, bool lower) { View v = whole(m); v.nnz = 0; for(int i = 0; i < m.n; i++) { if(lower) v.e[i] = m.di[i]+1; else v.b[i] = m.di[i]; v.nnz += v.e[i]-v.b[i]; } return v; }
struct Stored { // arrays of a view with guards
	Raw A; Arr<int> b, e; int nnz;
	Stored(const Mat& m, const View& v) : A(m, false), b(v.b), e(v.e), nnz(v.nnz) { }
	SRMatrixStorage<const double,const int> get() const { return SRMatrixStorage<const double,const int>(b.data(), A.ci.data(), A.v.data(), A.di.data(), e.data(), A.n, nnz, (int)A.ci.size(), A.bs); }
	bool same(const Stored& o) const { return A.same(o.A) && b.same(o.b) && e.same(o.e); }
	void intact() const { A.intact(); b.intact("row starts"); e.intact("row ends"); }
};
static void checkPattern(const Mat& m, const View& v, bool full, const LeftSAIPattern<int>& sp)
{
	VF_CHECK((int)sp.sairowptr.size() == m.n+1 && (int)sp.nVars.size() == m.n && (int)sp.nEqns.size() == m.n && (int)sp.localCentralRow.size() == m.n, "wrong array lengths for %d rows", m.n);
	VF_CHECK(sp.sairowptr[0] == 0, "the first row starts at %d", sp.sairowptr[0]); int total = 0;
	for(int i = 0; i < m.n; i++) {
		const int nv = v.e[i]-v.b[i]; VF_CHECK(sp.nVars[i] == nv && sp.sairowptr[i+1]-sp.sairowptr[i] == nv, "row %d: %d unknowns in %d columns, expected %d", i, sp.nVars[i], sp.sairowptr[i+1]-sp.sairowptr[i], nv);
		std::vector<int> eq; { std::set<int> q; if(full) for(int j = v.b[i]; j < v.e[i]; j++) { const int r = m.ci[j]; for(int k = v.b[r]; k < v.e[r]; k++) q.insert(m.ci[k]); } else for(int j = v.b[i]; j < v.e[i]; j++) q.insert(m.ci[j]); eq.assign(q.begin(), q.end()); }
		VF_CHECK(sp.nEqns[i] == (int)eq.size(), "row %d: %d equations, expected %zu", i, sp.nEqns[i], eq.size());
		const int ctr = sp.localCentralRow[i]; VF_CHECK(ctr >= 0 && ctr < (int)eq.size() && eq[ctr] == i, "row %d: the equation of the diagonal is said to be %d", i, ctr);
		for(int l = 0; l < nv; l++) {
			const int c = sp.sairowptr[i]+l, r = m.ci[v.b[i]+l]; VF_CHECK(c+1 < (int)sp.bcolptr.size(), "row %d column %d: no end pointer", i, l);
			std::set<std::pair<int,int>> want, got; for(int k = v.b[r]; k < v.e[r]; k++) { auto it = std::lower_bound(eq.begin(), eq.end(), m.ci[k]); if(it != eq.end() && *it == m.ci[k]) want.insert({k, (int)(it-eq.begin())}); }
			VF_CHECK(sp.bcolptr[c] == total, "row %d column %d starts at %d, expected %d", i, l, sp.bcolptr[c], total); total += (int)want.size();
			VF_CHECK(sp.bcolptr[c+1] == total, "row %d column %d ends at %d, expected %d", i, l, sp.bcolptr[c+1], total);
			VF_CHECK(total <= (int)sp.bpos.size() && total <= (int)sp.browind.size(), "row %d column %d: only %zu entries are kept", i, l, sp.bpos.size());
			for(int q = sp.bcolptr[c]; q < sp.bcolptr[c+1]; q++) got.insert({sp.bpos[q], sp.browind[q]});
			VF_CHECK(got == want, "row %d column %d (row %d of the matrix): wrong positions or equations", i, l, r);
		}
	}
	VF_CHECK((int)sp.bcolptr.size() == sp.sairowptr[m.n]+1 && (int)sp.bpos.size() == total && (int)sp.browind.size() == total, "%zu columns and %zu entries, expected %d and %d", sp.bcolptr.size()-1, sp.bpos.size(), sp.sairowptr[m.n], total);
}
static View genView(Case& c, const Mat& m, int& kind) { kind = (int)c.s.draw(4); return kind == 1 ? tri(m, true) : kind == 2 ? tri(m, false) : whole(m); }
static const char* kname[] = {"all of", "lower part of", "upper part of", "all of"};

VF_PROP(patterns, 120000, 3000000, "at least 3 rows, off-diagonal entries, not structurally full")
{
	Src& s = c.s; MatOpt o; o.hub = false; o.sym = s.chance(1,3); o.nmax = s.chance(1,20) ? 40 : 10; Mat m = genMat(s, 1, o); const bool full = s.flip(); int kind; View v = genView(c, m, kind); Stored S(m, v), S0(S);
	rt::reset(); c.note("%s pattern of %s %s", full ? "full" : "incomplete", kname[kind], m.str(700).c_str()); c.nontrivial(m.n > 2 && v.nnz > m.n && v.nnz < m.n*m.n);
	auto st = S.get(); LeftSAIPattern<int> sp = full ? left_SAI_pattern<double,int>(std::move(st)) : left_incomplete_SAI_pattern<double,int>(std::move(st));
	checkPattern(m, v, full, sp); VF_CHECK(S.same(S0), "the matrix was changed"); S.intact();
}
/// Values for which the small problems are indefinite, symmetric, singular or nearly so
static void twist(Src& s, Mat& m, bool full) {
	const int bs = m.bs, kind = (int)s.draw(full ? 6 : 4); auto el = [&](int k, int r, int t) -> double& { return m.v[(size_t)k*bs*bs+r*bs+t]; };
	switch(kind) {
	case 0: case 1: break;
	case 2: for(int i = 0; i < m.n; i++) if(s.flip()) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int q = 0; q < bs*bs; q++) m.v[(size_t)k*bs*bs+q] *= -1; break; // rows change their signs
	case 3: { // symmetric where the structure is, diagonals of either sign
		for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int l = m.rp[m.ci[k]]; l < m.rp[m.ci[k]+1]; l++) if(m.ci[l] == i && m.ci[k] >= i) for(int r = 0; r < bs; r++) for(int t = 0; t < bs; t++) if(k != l || r <= t) el(l,t,r) = el(k,r,t);
		for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) { double sum = 1; for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int t = 0; t < bs; t++) if(k != m.di[i] || t != r) sum += std::fabs(el(k,r,t)); el(m.di[i],r,r) = s.flip() ? sum : -sum; }
		} break;
	case 4: genVals(s, m, ARBITRARY); break;
	default: { const int e = 8+(int)s.draw(20); for(double& x : m.v) x = 1+(s.flip() ? std::ldexp((double)s.draw(9)-4, -e) : 0); } // rows that are nearly parallel
	}
}
/// The smallest distance from the unit vector to the span of some rows (false: the rank is in doubt)
static bool bestResidual(std::vector<LV> a, int unit, int N, ld& best) {
	LV e(N, 0); e[unit] = 1; std::vector<ld> n0(a.size()); std::vector<bool> used(a.size(), false); auto dot = [&](const LV& x, const LV& y) { ld d = 0; for(int i = 0; i < N; i++) d += x[i]*y[i]; return d; };
	ld mx = 0; for(size_t j = 0; j < a.size(); j++) { n0[j] = sqrtl(dot(a[j], a[j])); mx = std::max(mx, n0[j]); }
	for(size_t step = 0; step < a.size(); step++) {
		size_t p = a.size(); ld pn = -1; for(size_t j = 0; j < a.size(); j++) if(!used[j]) { const ld q = sqrtl(dot(a[j], a[j])); if(q > pn) pn = q, p = j; }
		used[p] = true; if(pn <= 1e-16L*mx) break; if(pn < 1e-11L*mx) return false;
		LV q = a[p]; for(ld& x : q) x /= pn;
		for(int rep = 0; rep < 2; rep++) { for(size_t j = 0; j < a.size(); j++) if(!used[j]) { const ld d = dot(q, a[j]); for(int i = 0; i < N; i++) a[j][i] -= d*q[i]; } const ld d = dot(q, e); for(int i = 0; i < N; i++) e[i] -= d*q[i]; }
	}
	best = sqrtl(dot(e, e)); return true;
}
template <int bs> static void values(Case& c)
{
	Src& s = c.s; MatOpt o; o.hub = false; o.sym = s.chance(1,3); o.vals = s.flip() ? HMATRIX : DOMINANT; o.nmax = bs == 1 ? 9 : 4; Mat m = genMat(s, bs, o); const bool full = s.flip(); twist(s, m, full); int kind; View v = genView(c, m, kind); Stored S(m, v), S0(S), I(m, v);
	rt::Policy pol = rt::gen(s, 6); rt::set(pol); const int chunk = 1+(int)s.draw(4);
	c.note("%s inverse of %s %s chunk=%d %s", full ? "full" : "incomplete", kname[kind], m.str(600).c_str(), chunk, rt::describe(pol).c_str()); c.nontrivial(m.n > 2 && v.nnz > m.n);
	auto st = S.get(); LeftSAIPattern<int> sp = full ? left_SAI_pattern<double,int>(std::move(st)) : left_incomplete_SAI_pattern<double,int>(std::move(st));
	const double stale = s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN()}); for(auto k = 0; k < (int)I.A.v.size(); k++) I.A.v[k] = stale;
	Stored I0(I); SRMatrixStorage<double,int> sai(I.b.data(), I.A.ci.data(), I.A.v.data(), I.A.di.data(), I.e.data(), m.n, v.nnz, m.nnz(), bs); auto mt = S.get();
	compute_SAI<double,int,bs,ColMajor>(mt, sp, chunk, full, sai);
	VF_CHECK(S.same(S0), "the matrix was changed"); S.intact(); I.intact(); VF_CHECK(I.A.ci.same(I0.A.ci) && I.b.same(I0.b) && I.e.same(I0.e) && I.A.di.same(I0.A.di), "the structure of the approximate inverse was changed");
	const int N = m.N();
	for(int i = 0; i < m.n; i++) {
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(k < v.b[i] || k >= v.e[i]) for(int q = 0; q < bs*bs; q++) { const double x = I.A.v[(size_t)k*bs*bs+q]; VF_CHECK(memcmp(&x, &stale, 8) == 0, "an entry outside the view was written"); }
		for(int r = 0; r < bs; r++) {
			// residual of row i*bs+r of I - M A
			LV res(N, 0); res[i*bs+r] = 1; ld mn = 0, an = 0;
			for(int k = v.b[i]; k < v.e[i]; k++) for(int q = 0; q < bs; q++) { const ld x = I.A.v[(size_t)k*bs*bs+q*bs+r]; VF_CHECK(std::isfinite((double)x), "row %d column %d is not finite", i, m.ci[k]); mn = std::max(mn, fabsl(x)); const int j = m.ci[k];
				for(int l = v.b[j]; l < v.e[j]; l++) for(int t = 0; t < bs; t++) { const ld a = m.at(l,q,t); an = std::max(an, fabsl(a)); res[m.ci[l]*bs+t] -= x*a; } }
			const ld tol = 1e-11L*N*(1+mn*an);
			if(full) for(int k = v.b[i]; k < v.e[i]; k++) for(int q = 0; q < bs; q++) { ld g = 0; const int j = m.ci[k]; for(int l = v.b[j]; l < v.e[j]; l++) for(int t = 0; t < bs; t++) g += m.at(l,q,t)*res[m.ci[l]*bs+t];
				VF_CHECK(fabsl(g) <= tol*an*N, "row %d: changing the entry in column %d would reduce the residual (gradient %.3Lg)", i*bs+r, j*bs+q, g); }
			if(full && N <= 60) { std::vector<LV> a; for(int k = v.b[i]; k < v.e[i]; k++) for(int q = 0; q < bs; q++) { const int j = m.ci[k]; a.emplace_back(N, 0); for(int l = v.b[j]; l < v.e[j]; l++) for(int t = 0; t < bs; t++) a.back()[m.ci[l]*bs+t] += m.at(l,q,t); }
				ld best, norm = 0; for(ld x : res) norm += x*x; norm = sqrtl(norm); if(bestResidual(a, i*bs+r, N, best)) VF_CHECK(norm <= best+tol, "row %d: the residual is %.12Lg, but %.12Lg is possible (tolerance %.3Lg)", i*bs+r, norm, best, tol); }
			if(!full) for(int k = v.b[i]; k < v.e[i]; k++) for(int t = 0; t < bs; t++) VF_CHECK(fabsl(res[m.ci[k]*bs+t]) <= tol, "row %d column %d: M A differs from the identity by %.3Lg", i*bs+r, m.ci[k]*bs+t, res[m.ci[k]*bs+t]);
		}
	}
}
VF_PROP(values, 100000, 2500000, "at least 3 rows and off-diagonal entries")
{
	if(c.s.chance(1,3)) values<4>(c); else values<1>(c);
}

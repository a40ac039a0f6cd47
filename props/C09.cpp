// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.1
// C09: asynchronous incomplete LU under bounded-delay schedules
#include "prec.hpp"
#include <solverops_ilu0.hpp>
using namespace vf;
using namespace blasted;

/** Sweeps needed with a lag of s for a chain of dependency levels 0..last: level l is read by correct computations
 * only from sweep M_l = l(2s+1) on, whose results can be overwritten by older ones up to s sweeps later. */
static int sweepsFor(int last, int s) { return last*(2*s+1) + s + 1; }
/// Depth of the dependency chains of the factor entries
static int factorDepth(const Mat& m) {
	IV lev(m.nnz(), -1); int mx = 0;
	// in row-major order every dependency of an entry comes before it
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) {
		int l = 0; const int j = m.ci[k];
		for(int a = m.rp[i]; a < k && m.ci[a] < i; a++) { if(m.ci[a] >= j) break; const int u = m.find(m.ci[a], j); if(u >= 0) l = std::max(l, 1+std::max(lev[a], lev[u])); }
		if(j < i) l = std::max(l, 1+lev[m.di[j]]);
		lev[k] = l; mx = std::max(mx, l);
	}
	return mx;
}
static int solveDepth(const Mat& m, bool lower) {
	IV lev(m.n, 0); int mx = 0;
	for(int q = 0; q < m.n; q++) { const int i = lower ? q : m.n-1-q;
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(lower ? m.ci[k] < i : m.ci[k] > i) lev[i] = std::max(lev[i], lev[m.ci[k]]+1);
		mx = std::max(mx, lev[i]); }
	return mx;
}
static rt::Policy genPol(Src& s, int lag) { rt::Policy p = rt::gen(s, 6, lag); if(p.nthreads == 1 && !s.chance(1,8)) p.nthreads = 2; if(p.gap == 0 && !s.chance(1,8)) p.gap = 1+(int)s.draw(4); return p; }

VF_PROP(exact_after_enough_sweeps, 120000, 3000000, "several threads, bounded delay enforced, a factor dependency chain of at least 2 or solve chain of at least 2 and preempted regions")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); const bool level = s.chance(1,6);
	MatOpt o; o.vals = HMATRIX; o.sym = level || s.flip(); o.nmax = cfg.bs == 1 ? (s.chance(1,40) ? 24 : 8) : (s.chance(1,40) ? 10 : 5); o.grow = false;
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A);
	const int lag = (int)s.draw(3);
	const int fd = factorDepth(m), ld_ = solveDepth(m, true), ud = solveDepth(m, false);
	Opt op; op.type = level ? BLASTED_ASYNC_LEVEL_ILU0 : s.pick({BLASTED_ILU0, BLASTED_ILU0, BLASTED_SFILU0, BLASTED_SAPILU0});
	op.chunk = 1+(int)s.draw(s.flip() ? 2 : 5); op.scale = s.flip(); op.info = s.chance(1,8);
	const int extra = s.chance(1,3) ? (int)s.draw(4) : 0;
	op.nb = (op.type == BLASTED_SFILU0 ? 1 : sweepsFor(fd, lag)) + extra; op.na = (op.type == BLASTED_SAPILU0 || level ? 1 : sweepsFor(std::max(ld_,ud), lag)) + extra;
	op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	PrecP p = makePrec(A, op);
	const int rounds = 1+(int)s.draw(2);
	for(int r = 0; r < rounds; r++) {
		if(r) { changeVals(s, m, HMATRIX); A.setVals(m); A0.setVals(m); }
		rt::Policy pol = genPol(s, lag); rt::set(pol);
		c.note("compute: %s row=%d depth=%d %s %s", ostr(op).c_str(), cfg.row, fd, rt::describe(pol).c_str(), m.str(400).c_str());
		p->compute();
		if(op.type != BLASTED_SFILU0 && !rt::lagEnforced(1, op.nb)) return;
		const bool pre = rt::preemptions() > 0;
		VF_CHECK(A.same(A0), "computing changed the matrix"); A.intact();
		LMat f = refILU(m, op.scale);
		rt::Policy pol2 = genPol(s, level || op.type == BLASTED_SAPILU0 ? -1 : lag); rt::set(pol2);
		Arr<double> rv(genVec(s, m.N())), rv0(rv), z(m.N(), s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN()}));
		c.note("apply: depths %d, %d %s", ld_, ud, rt::describe(pol2).c_str());
		p->apply(rv.data(), z.data());
		if(op.type != BLASTED_SAPILU0 && !level && !rt::lagEnforced(2, op.na)) return;
		VF_CHECK(rv.same(rv0), "applying changed the input vector"); z.intact("the output vector");
		c.nontrivial((pre || rt::preemptions() > 0) && (fd >= 2 || std::max(ld_,ud) >= 2));
		cmpVec(z.data(), refILUApply(m, f, op.scale, rv0.vec()), 1e-9L, "asynchronous incomplete LU");
	}
}

/// Exact factors are a fixed point of sweeps under any schedule, even of unbounded delay
VF_PROP(exact_factors_stay_exact, 120000, 2500000, "several threads, preempted, a position receiving elimination products")
{
	Src& s = c.s; MatOpt o; o.vals = HMATRIX; o.nmax = s.chance(1,40) ? 24 : 9; o.grow = false; Mat m = genMat(s, 1, o); Raw A(m, false);
	Opt op; op.type = BLASTED_SAPILU0; op.fi = INIT_F_NONE; op.chunk = 1+(int)s.draw(4); op.scale = s.flip(); op.nb = 1+(int)s.draw(4);
	op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	PrecP p = makePrec(A, op); rt::reset(); p->compute(); // one thread: exact
	const int rounds = 1+(int)s.draw(2); LMat f = refILU(m, op.scale);
	bool fill = factorDepth(m) >= 2;
	for(int r = 0; r < rounds; r++) {
		rt::Policy pol = genPol(s, -1); rt::set(pol); c.note("%s %s %s", ostr(op).c_str(), rt::describe(pol).c_str(), m.str(400).c_str());
		p->compute(); c.nontrivial(fill && rt::preemptions() > 0);
	}
	rt::reset(); Arr<double> rv(genVec(s, m.N())), z(m.N());
	p->apply(rv.data(), z.data());
	cmpVec(z.data(), refILUApply(m, f, op.scale, rv.vec()), 1e-10L, "factors after further asynchronous sweeps");
}

/** Whatever the schedule, when every dependency of a component is exact before the sweep, so is the component:
 * matrices of elimination depth one whose first level needs no computation. */
VF_PROP(one_sweep_from_settled_values, 100000, 2000000, "several threads, preempted, at least two coupled rows")
{
	// block arrow: rows 0..k-1 uncoupled among themselves, each later row coupled to some of them
	Src& s = c.s; const Cfg cfg = genCfg(s); Mat m; m.bs = cfg.bs; m.n = 2+(int)s.draw(cfg.bs == 1 ? 9 : 5); const int k = 1+(int)s.draw(m.n-1);
	m.rp.push_back(0);
	for(int i = 0; i < m.n; i++) { for(int j = 0; j < m.n; j++) { bool in = i == j || (i >= k && j < k && !s.chance(1,4)); if(in) m.ci.push_back(j); } m.rp.push_back((int)m.ci.size()); }
	setDiag(m); genVals(s, m, HMATRIX); Raw A(m, cfg.row);
	Opt op; op.type = BLASTED_ILU0; op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_SGS}); op.ai = INIT_A_JACOBI; op.scale = s.flip(); op.chunk = 1+(int)s.draw(3);
	op.nb = 1+(int)s.draw(3); op.na = 2+(int)s.draw(3);
	PrecP p = makePrec(A, op); rt::Policy pol = genPol(s, 0); rt::set(pol);
	c.note("%s %s %s", ostr(op).c_str(), rt::describe(pol).c_str(), m.str(400).c_str());
	// diagonal blocks are final from the start, so one sweep under any schedule gives the exact factors
	rt::Policy any = pol; any.lag = -1; rt::set(any); p->compute(); const bool pre = rt::preemptions() > 0;
	rt::set(pol); Arr<double> rv(genVec(s, m.N())), z(m.N(), 7.0); p->apply(rv.data(), z.data());
	if(!rt::lagEnforced(2, op.na)) return; // solve chains of one step: two sweeps with no lag
	c.nontrivial(pre && m.nnz() > m.n);
	cmpVec(z.data(), refILUApply(m, refILU(m, op.scale), op.scale, rv.vec()), 1e-10L, "incomplete LU of a block triangular matrix");
}

// ---------- every computed component is a function of values that other components held
/// Set of values something can have held, as an interval
struct Itv { ld lo, hi;
	Itv(ld x = 0) : lo(x), hi(x) { } Itv(ld a, ld b) : lo(a), hi(b) { }
	ld mag() const { return std::max(fabsl(lo), fabsl(hi)); }
};
static Itv hull(const Itv& a, const Itv& b) { return Itv(std::min(a.lo,b.lo), std::max(a.hi,b.hi)); }
static Itv operator*(const Itv& a, const Itv& b) { const ld p[] = {a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi}; return Itv(*std::min_element(p,p+4), *std::max_element(p,p+4)); }
static Itv operator+(const Itv& a, const Itv& b) { return Itv(a.lo+b.lo, a.hi+b.hi); }
static Itv operator-(const Itv& a, const Itv& b) { return Itv(a.lo-b.hi, a.hi-b.lo); }
static Itv wider(const Itv& a, ld e) { return Itv(a.lo-e, a.hi+e); }
static bool holdsZero(const Itv& a) { return a.lo <= 0 && a.hi >= 0; }

/** Triangular solves with exact factors under any schedule and any number of sweeps: the intervals follow from the
 * initial values named by the option, in the order of dependency. */
VF_PROP(reachable_solutions, 120000, 2500000, "several threads, preempted, with coupled rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); const int bs = cfg.bs; MatOpt o; o.vals = HMATRIX; o.nmax = bs == 1 ? 9 : 5; o.grow = false;
	Mat m;
	if(s.chance(1,3)) { // shallow lower, deep upper triangle: few sweeps make y exact, but not z
		m.bs = bs; m.n = 3+(int)s.draw(5); m.rp.push_back(0); const int dens = 1+(int)s.draw(4);
		for(int i = 0; i < m.n; i++) { for(int j = 0; j < m.n; j++) if(i == j || (j == 0 && !s.chance(1,4)) || j == i+1 || (j > i && s.chance(1,dens))) m.ci.push_back(j); m.rp.push_back((int)m.ci.size()); }
		setDiag(m); genVals(s, m, HMATRIX);
	} else m = genMat(s, bs, o);
	Raw A(m, cfg.row);
	Opt op; op.type = BLASTED_SFILU0; op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI}); op.scale = s.flip(); op.chunk = 1+(int)s.draw(3); op.na = 1+(int)s.draw(3);
	PrecP p = makePrec(A, op); rt::reset(); p->compute();
	const int lag = s.flip() ? -1 : (int)s.draw(2); if(lag >= 0) op.na = sweepsFor(solveDepth(m, true), lag);
	if(lag >= 0) { p = makePrec(A, op); p->compute(); }
	rt::Policy pol = genPol(s, lag); rt::set(pol); Arr<double> rv(genVec(s, m.N())), z(m.N(), 3.0);
	if(s.chance(1,3)) { Arr<double> z0(m.N()), r0(genVec(s, m.N())); p->apply(r0.data(), z0.data()); rt::set(pol); }
	c.note("%s %s %s b=%s", ostr(op).c_str(), rt::describe(pol).c_str(), m.str(400).c_str(), vstr(rv.vec()).c_str());
	p->apply(rv.data(), z.data()); c.nontrivial(rt::preemptions() > 0 && m.nnz() > m.n && pol.nthreads > 1);
	const bool exactY = lag >= 0 && rt::lagEnforced(2, op.na); // enough sweeps for the lower triangular solve, so that the upper one starts from known values
	const LMat f = refILU(m, op.scale); const LV sc = scaleVec(m, op.scale); const ld tol = bs == 1 ? 1e-13L : 1e-10L;
	// magnitudes that went into each block of the factors
	LV w(m.nnz()), di(m.n);
	for(int i = 0; i < m.n; i++) { LV inv(bs*bs); if(!invert(f.blk(m.di[i]), inv.data(), bs)) return; di[i] = maxabs(inv);
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) { const int j = m.ci[k]; ld v = 0; for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) v = std::max(v, fabsl(sc[i*bs+r]*m.at(k,r,q)*sc[j*bs+q]));
			for(int l = m.rp[i]; l < k && m.ci[l] < i && m.ci[l] < j; l++) { const int u = m.find(m.ci[l], j); if(u >= 0) v += bs*w[l]*w[u]; }
			if(j < i) v *= bs*di[j];
			w[k] = v; } }
	std::vector<Itv> y(m.N()), h(m.N()), x(m.N());
	for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) {
		const int a = i*bs+r; Itv v((ld)rv[a]*sc[a]); ld mg = v.mag();
		for(int k = m.rp[i]; k < m.rp[i+1] && m.ci[k] < i; k++) for(int q = 0; q < bs; q++) { v = v-Itv(f.blk(k)[r*bs+q])*h[m.ci[k]*bs+q]; mg += w[k]*h[m.ci[k]*bs+q].mag(); }
		y[a] = wider(v, tol*mg); h[a] = exactY ? y[a] : hull(y[a], 0);
	}
	for(int i = m.n-1; i >= 0; i--) {
		std::vector<Itv> t(bs); LV mg(bs); LV inv(bs*bs); if(!invert(f.blk(m.di[i]), inv.data(), bs)) return;
		for(int r = 0; r < bs; r++) { t[r] = y[i*bs+r]; mg[r] = t[r].mag();
			for(int k = m.di[i]+1; k < m.rp[i+1]; k++) for(int q = 0; q < bs; q++) { t[r] = t[r]-Itv(f.blk(k)[r*bs+q])*h[m.ci[k]*bs+q]; mg[r] += w[k]*h[m.ci[k]*bs+q].mag(); } }
		for(int r = 0; r < bs; r++) { Itv v(0); ld e = 0; for(int q = 0; q < bs; q++) { v = v + Itv(inv[r*bs+q])*t[q]; e += bs == 1 ? inv[0]*inv[0]*w[m.di[i]]*mg[0] : di[i]*mg[q]; }
			const int a = i*bs+r; x[a] = wider(v, tol*e); }
		for(int r = 0; r < bs; r++) { const int a = i*bs+r; h[a] = hull(x[a], op.ai == INIT_A_ZERO ? Itv(0) : y[a]); }
	}
	for(int a = 0; a < m.N(); a++) { const ld lo = x[a].lo*sc[a]-1e-290L, hi = x[a].hi*sc[a]+1e-290L;
		VF_CHECK(z[a] >= lo && z[a] <= hi, "component %d of the solution is %.17g, not computable from values that the others held: [%.17Lg, %.17Lg]", a, z[a], lo, hi); }
}

template <class Base> struct Open : public Base { using Base::Base; const double* vals() const { return this->iluvals; } };
/// Factor entries of a point matrix after any number of sweeps under any schedule
VF_PROP(reachable_factors, 120000, 2500000, "several threads, preempted, a position receiving elimination products")
{
	Src& s = c.s; MatOpt o; o.vals = s.flip() ? HMATRIX : DOMINANT; o.nmax = 9; o.grow = false; Mat m = genMat(s, 1, o); Raw A(m, false);
	const bool scale = s.flip(); const int nb = 1+(int)s.draw(3); const FactInit fi = s.pick({INIT_F_ORIGINAL, INIT_F_SGS, INIT_F_ZERO}); const int chunk = 1+(int)s.draw(3);
	Open<AsyncILU0_SRPreconditioner<double,int>> p(A.storage(), nb, 1, scale, chunk, fi, INIT_A_ZERO, false, true, false);
	if(s.chance(1,3)) { rt::reset(); Mat old = m; genVals(s, old, HMATRIX); A.setVals(old); p.compute(); A.setVals(m); } // values of an earlier factorisation
	rt::Policy pol = genPol(s, -1); rt::set(pol); c.note("scale=%d sweeps=%d finit=%d chunk=%d %s %s", scale, nb, (int)fi, chunk, rt::describe(pol).c_str(), m.str(400).c_str());
	p.compute(); const bool pre = rt::preemptions() > 0; c.nontrivial(pre && factorDepth(m) >= 1);
	const LV sc = scaleVec(m, scale); std::vector<Itv> x(m.nnz()), h(m.nnz());
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) {
		const int j = m.ci[k]; const ld a = sc[i]*(ld)m.v[k]*sc[j]; Itv v(a); ld mg = fabsl(a);
		for(int l = m.rp[i]; l < k && m.ci[l] < i && m.ci[l] < j; l++) { const int u = m.find(m.ci[l], j); if(u < 0) continue; const Itv t = h[l]*h[u]; v = v-t; mg += t.mag(); }
		v = wider(v, 1e-14L*mg);
		if(j < i) { const Itv d = h[m.di[j]]; if(holdsZero(d)) return; v = v*Itv(1/d.hi, 1/d.lo); v = wider(v, 1e-14L*v.mag()); }
		x[k] = v; ld init = a; if(fi == INIT_F_SGS && j < i) init /= sc[j]*(ld)m.v[m.di[j]]*sc[j];
		h[k] = hull(v, wider(Itv(init), 1e-14L*fabsl(init)));
		if(fi == INIT_F_ZERO) h[k] = hull(h[k], 0); // (zeros or the original values)
		VF_CHECK(p.vals()[k] >= v.lo-1e-290L && p.vals()[k] <= v.hi+1e-290L, "factor entry (%d,%d) is %.17g, not computable from values that the others held: [%.17Lg, %.17Lg]", i, j, p.vals()[k], v.lo, v.hi);
	}
}

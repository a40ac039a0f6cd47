// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.2
// C12: asynchronous relaxation of dominant matrices
#include "relax.hpp"
using namespace vf;
using namespace blasted;

/** Contraction factor of a chaotic step in the maximum norm. The magnitudes of inverse diagonal block and coupling blocks
 * are multiplied separately because the rows of a block may read different values of the same component. */
static ld contraction(const Ref& R) {
	const Mat& m = R.m; const int bs = m.bs; ld alpha = 0;
	for(int i = 0; i < m.n; i++) {
		LV off(bs, 0); for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] != i) for(int q = 0; q < bs; q++) for(int b = 0; b < bs; b++) off[q] += fabsl((ld)m.at(k,q,b));
		for(int a = 0; a < bs; a++) { ld sum = 0; for(int q = 0; q < bs; q++) sum += fabsl(R.dinv[((size_t)i*bs+a)*bs+q])*off[q]; alpha = std::max(alpha, sum); }
	}
	return alpha;
}
static void contract(Case& c, bool bounded)
{
	Src& s = c.s; const Cfg cfg = genCfg(s); MatOpt o; o.vals = DOMINANT; o.nmin = s.chance(1,8) ? 1 : 2; o.nmax = cfg.bs == 1 ? (s.chance(1,20) ? 30 : 10) : 6;
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A); Ref R(m); const int N = m.N();
	const ld alpha = contraction(R); if(!(alpha < 1)) fail("internal: generated matrix is not dominant");
	Opt op; op.type = s.flip() ? BLASTED_SGS : BLASTED_GS; const bool apply = op.type == BLASTED_GS && s.chance(1,3); op.relax = !apply;
	op.chunk = 1+(int)s.draw(s.flip() ? 2 : 6); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	const int lag = bounded ? (int)s.draw(3) : -1; const int steps = 1+(int)s.draw(bounded ? 12 : 4); op.na = apply ? steps : 1+(int)s.draw(4);
	const int sweeps = steps*(op.type == BLASTED_SGS ? 2 : 1);
	PrecP p = makePrec(A, op); rt::Policy pol = rt::gen(s, 6); rt::set(pol); p->compute();
	SolveParams<double> sp; sp.maxits = steps; sp.ctol = s.flip(); sp.atol = sp.rtol = sp.ctol ? 0.5 : 1e-8; sp.dtol = 1e3; p->setApplyParams(sp);
	// solution and initial error
	DV xs(N), e(N), x0(N), b(N); const double mag = s.pick({1.0, 8.0}); const int ek = (int)s.draw(4);
	for(int i = 0; i < N; i++) { xs[i] = (double)s.range(-4,4); e[i] = ek == 0 ? mag : ek == 1 ? (s.flip() ? mag : -mag) : ek == 2 ? mag*(2*s.unit()-1) : 0.0; x0[i] = apply ? 0.0 : xs[i]+e[i]; }
	LV t = mulMat(m, toLV(xs)); for(int i = 0; i < N; i++) b[i] = (double)t[i];
	ld E0 = 0, xm = 1; for(int i = 0; i < N; i++) { E0 = std::max(E0, fabsl((ld)x0[i]-xs[i])); xm = std::max(xm, (ld)std::fabs(xs[i])); }
	Arr<double> bv(b), bv0(bv), x(apply ? DV(N, s.pick({0.0, 1e30, std::numeric_limits<double>::quiet_NaN()})) : x0);
	pol = rt::gen(s, 6, lag); if(pol.nthreads == 1) pol.nthreads += (int)s.draw(3); if(pol.gap == 0 && s.flip()) pol.gap = 1+(int)s.draw(3); rt::set(pol);
	c.note("%s %s row=%d steps=%d factor=%.4Lg initial error=%.4Lg %s %s", ostr(op).c_str(), apply ? "preconditioner" : "relaxation", cfg.row, steps, alpha, E0, rt::describe(pol).c_str(), m.str(400).c_str());
	if(apply) p->apply(bv.data(), x.data()); else p->apply_relax(bv.data(), x.data());
	VF_CHECK(bv.same(bv0), "the right hand side was changed"); x.intact("the solution vector"); VF_CHECK(A.same(A0), "the matrix was changed");
	int power = 1;
	if(bounded) { if(!rt::lagEnforced(1, sweeps)) return; const int l = (sweeps-lag-1)/(2*lag+1); power = 1 + (sweeps > lag ? l : 0); }
	c.nontrivial(pol.nthreads > 1 && m.n > 2 && m.nnz() > m.n && E0 > 0 && alpha > 0 && (!rt::deterministic() || pol.gap || pol.chunks));
	ld bound = E0; for(int k = 0; k < power; k++) bound *= alpha;
	const ld round = 1e-13L*R.kappa*(xm+E0)/(1-alpha);
	for(int i = 0; i < N; i++) { const ld err = fabsl((ld)x[i]-xs[i]); VF_CHECK(err <= bound*(1+1e-12L)+round, "component %d: error %.6Lg exceeds %.6Lg = factor^%d times the initial error %.6Lg", i, err, bound, power, E0); }
}
VF_PROP(any_schedule, 200000, 5000000, "several threads and scheduling decisions, coupled rows, initial error above 0")
{
	contract(c, false);
}
VF_PROP(bounded_delay, 160000, 4000000, "several threads and scheduling decisions, coupled rows, initial error above 0")
{
	contract(c, true);
}

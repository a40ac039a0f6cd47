// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.25
// C10: Jacobi and Gauss-Seidel preconditioners
#include "relax.hpp"
using namespace vf;
using namespace blasted;

static double junk(Src& s) { return s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()}); }
static VM reference(const Ref& R, BlastedSolverType t, int na, const VM& r) {
	switch(t) {
	case BLASTED_JACOBI: return rJacobi(R, r);
	case BLASTED_SGS: case BLASTED_LEVEL_SGS: return rSGS(R, r);
	case BLASTED_GS: { VM x(r.x.size()); for(int k = 0; k < na; k++) rGSStep(R, r, x, false); return x; }
	case BLASTED_CSC_BGS: return rBackward(R, r);
	default: return r;
	}
}
VF_PROP(operators_on_one_thread, 200000, 5000000, "at least 3 (block) rows and entries on both sides of the diagonal")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op;
	op.type = s.pick({BLASTED_JACOBI, BLASTED_GS, BLASTED_SGS, BLASTED_CSC_BGS, BLASTED_LEVEL_SGS, BLASTED_NO_PREC}); if(cfg.bs > 1 && op.type == BLASTED_CSC_BGS) op.type = BLASTED_GS;
	MatOpt o; o.huge = 12000; o.vals = s.flip() ? DIAGOK : HMATRIX; o.sym = op.type == BLASTED_LEVEL_SGS; o.nmax = cfg.bs == 1 ? (s.chance(1,25) ? 60 : 12) : (s.chance(1,25) ? 20 : 6);
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A);
	op.na = 1+(int)s.draw(4); op.nb = 1+(int)s.draw(3); op.chunk = 1+(int)s.draw(s.flip() ? 3 : 100); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	if(op.type == BLASTED_SGS && s.chance(1,4)) op.ai = INIT_A_NONE; // a triangular substitution needs no initialisation
	bool lo = false, up = false; for(int i = 0; i < m.n; i++) { lo = lo || m.rp[i] < m.di[i]; up = up || m.di[i]+1 < m.rp[i+1]; }
	c.nontrivial(m.n > 2 && lo && up);
	c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(500).c_str());
	PrecP p = makePrec(A, op); rt::reset(); VF_CHECK(p->dim() == m.N(), "dim() is %d, expected %d", (int)p->dim(), m.N());
	const int rounds = 1+(int)s.draw(2);
	for(int r = 0; r < rounds; r++) {
		if(r) { changeVals(s, m, o.vals); A.setVals(m); A0.setVals(m); c.note("new values: %s", m.str(500).c_str()); }
		rt::Policy pol; pol.nthreads = 1; rt::set(pol); p->compute(); Ref R(m);
		const int napp = 1+(int)s.draw(2);
		for(int q = 0; q < napp; q++) {
			Arr<double> rv(genVec(s, m.N())), rv0(rv), z(m.N(), op.ai == INIT_A_NONE ? 3.0 : junk(s));
			p->apply(rv.data(), z.data());
			VF_CHECK(rv.same(rv0), "applying changed the input vector"); z.intact("the output vector"); rv.intact("the input vector");
			cmpVM(z.data(), R, reference(R, op.type, op.na, VM(rv0.vec())), tname(op.type), 2+op.na);
		}
	}
	VF_CHECK(A.same(A0), "the matrix was changed"); A.intact();
}
VF_PROP(jacobi_on_many_threads, 60000, 1200000, "several threads and at least 3 (block) rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); MatOpt o; o.vals = DIAGOK; o.nmax = cfg.bs == 1 ? 12 : 6; Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row);
	Opt op; op.type = s.chance(1,5) ? BLASTED_NO_PREC : BLASTED_JACOBI; PrecP p = makePrec(A, op); Ref R(m); const int rounds = 1+(int)s.draw(2);
	for(int r = 0; r < rounds; r++) {
		if(r) { changeVals(s, m, DIAGOK); A.setVals(m); R.~Ref(); new(&R) Ref(m); }
		rt::Policy pol = rt::gen(s, 7); rt::set(pol); c.note("%s row=%d %s %s", ostr(op).c_str(), cfg.row, rt::describe(pol).c_str(), m.str(400).c_str()); c.nontrivial(pol.nthreads > 1 && m.n > 2);
		p->compute(); Arr<double> rv(genVec(s, m.N())), z(m.N(), junk(s)); pol = rt::gen(s, 7); rt::set(pol);
		p->apply(rv.data(), z.data()); z.intact("the output vector");
		cmpVM(z.data(), R, reference(R, op.type, 1, VM(rv.vec())), tname(op.type));
	}
}
static int depth(const Mat& m, bool lower) {
	IV lev(m.n, 0); int mx = 0;
	for(int q = 0; q < m.n; q++) { const int i = lower ? q : m.n-1-q;
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(lower ? m.ci[k] < i : m.ci[k] > i) lev[i] = std::max(lev[i], lev[m.ci[k]]+1);
		mx = std::max(mx, lev[i]); }
	return mx;
}
VF_PROP(sgs_on_many_threads, 100000, 2500000, "several threads with preemption, a substitution chain of at least 2, bounded delay enforced")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); MatOpt o; o.vals = s.flip() ? DIAGOK : HMATRIX; o.nmax = cfg.bs == 1 ? 10 : 6; Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row);
	const int lag = (int)s.draw(3), d = std::max(depth(m,true), depth(m,false));
	Opt op; op.type = BLASTED_SGS; op.chunk = 1+(int)s.draw(4); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI, INIT_A_NONE}); op.na = d*(2*lag+1) + lag + 1 + (s.chance(1,4) ? (int)s.draw(3) : 0);
	if((double)op.na*m.v.size() > 4e5) return; // long chains of a large matrix
	PrecP p = makePrec(A, op); rt::Policy pol = rt::gen(s, 6); rt::set(pol); p->compute();
	const int rounds = 1+(int)s.draw(2); Ref R(m);
	for(int r = 0; r < rounds; r++) {
		pol = rt::gen(s, 6, lag); if(pol.gap == 0 && s.flip()) pol.gap = 1+(int)s.draw(4); rt::set(pol);
		c.note("%s row=%d depth=%d %s %s", ostr(op).c_str(), cfg.row, d, rt::describe(pol).c_str(), m.str(400).c_str());
		Arr<double> rv(genVec(s, m.N())), rv0(rv), z(m.N(), op.ai == INIT_A_NONE ? 5.0 : junk(s));
		p->apply(rv.data(), z.data());
		if(!rt::lagEnforced(2, op.na)) return;
		VF_CHECK(rv.same(rv0), "applying changed the input vector"); z.intact("the output vector");
		c.nontrivial(d >= 2 && rt::preemptions() > 0);
		cmpVM(z.data(), R, rSGS(R, VM(rv0.vec())), "symmetric Gauss-Seidel", 3);
	}
}

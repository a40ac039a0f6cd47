// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.2
// C13: level scheduling
#include "relax.hpp"
#include <levelschedule.hpp>
using namespace vf;
using namespace blasted;

static void checkLevels(const Mat& m, const std::vector<int>& lv) {
	VF_CHECK(lv.size() >= 2 && lv[0] == 0 && lv.back() == m.n, "the levels do not run from 0 to %d", m.n);
	for(size_t l = 0; l+1 < lv.size(); l++) {
		VF_CHECK(lv[l] < lv[l+1], "level %zu is empty or out of order: %d to %d", l, lv[l], lv[l+1]);
		for(int i = lv[l]; i < lv[l+1]; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) VF_CHECK(m.ci[k] == i || m.ci[k] < lv[l] || m.ci[k] >= lv[l+1], "rows %d and %d of level %zu (%d to %d) are coupled", i, m.ci[k], l, lv[l], lv[l+1]-1);
	}
}
VF_PROP(levels, 120000, 3000000, "at least 4 rows, between 2 and n-1 levels")
{
	Src& s = c.s; MatOpt o; o.huge = 12000; o.sym = true; o.nmax = s.chance(1,10) ? 80 : 14; Mat m = genMat(s, 1, o); Raw A(m, false), A0(A);
	auto raw = A.craw(); c.note("%s", m.str(800).c_str());
	std::vector<int> lv = computeLevels<double,int>(&raw); checkLevels(m, lv);
	VF_CHECK(A.same(A0), "the matrix was changed"); A.intact();
	c.nontrivial(m.n >= 4 && lv.size() >= 3 && (int)lv.size() <= m.n);
}
VF_PROP(level_solves, 200000, 5000000, "several threads with preemption, coupled rows, at least 4 (block) rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op; op.type = s.flip() ? BLASTED_LEVEL_SGS : BLASTED_ASYNC_LEVEL_ILU0;
	MatOpt o; o.huge = 12000; o.sym = true; o.vals = op.type == BLASTED_LEVEL_SGS && s.flip() ? DIAGOK : HMATRIX; o.nmax = cfg.bs == 1 ? (s.chance(1,20) ? 40 : 12) : 6;
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A);
	op.scale = s.flip(); op.chunk = 1+(int)s.draw(5); op.nb = 1+(int)s.draw(3); op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS});
	PrecP p = makePrec(A, op); const int rounds = 1+(int)s.draw(2); Ref R(m);
	for(int r = 0; r < rounds; r++) {
		if(r) { changeVals(s, m, o.vals); A.setVals(m); A0.setVals(m); R.~Ref(); new(&R) Ref(m); }
		rt::Policy pol = rt::gen(s, 6); if(op.type == BLASTED_ASYNC_LEVEL_ILU0) pol.nthreads = 1; rt::set(pol); p->compute();
		const bool relax = op.type == BLASTED_LEVEL_SGS && s.flip();
		pol = rt::gen(s, 7); if(pol.gap == 0 && s.flip()) pol.gap = 1+(int)s.draw(5); rt::set(pol);
		c.note("%s row=%d relax=%d %s %s", ostr(op).c_str(), cfg.row, relax, rt::describe(pol).c_str(), m.str(400).c_str());
		Arr<double> rv(genVec(s, m.N())), rv0(rv), z(m.N(), std::numeric_limits<double>::quiet_NaN());
		if(relax) {
			DV x0 = genVec(s, m.N()); z = Arr<double>(x0); SolveParams<double> sp; sp.maxits = 1+(int)s.draw(4); sp.ctol = s.flip(); sp.rtol = sp.atol = 0.9; sp.dtol = 1.1; p->setApplyParams(sp); c.note("steps=%d from %s", sp.maxits, vstr(x0).c_str());
			p->apply_relax(rv.data(), z.data());
			VM b(rv0.vec()), x(x0); for(int k = 0; k < sp.maxits; k++) { rGSStep(R, b, x, false); rGSStep(R, b, x, true); }
			cmpVM(z.data(), R, x, "level-scheduled relaxation", 2+2*sp.maxits);
		} else {
			p->apply(rv.data(), z.data());
			if(op.type == BLASTED_LEVEL_SGS) cmpVM(z.data(), R, rSGS(R, VM(rv0.vec())), "level-scheduled symmetric Gauss-Seidel", 3);
			else cmpVec(z.data(), refILUApply(m, refILU(m, op.scale), op.scale, rv0.vec()), 1e-10L, "level-scheduled incomplete LU");
		}
		VF_CHECK(rv.same(rv0), "the input vector was changed"); z.intact("the output vector"); VF_CHECK(A.same(A0), "the matrix was changed");
		c.nontrivial(m.n >= 4 && m.nnz() > m.n && pol.nthreads > 1 && (rt::preemptions() > 0 || !rt::deterministic()));
	}
}

// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.25
// C11: relaxation iterates, fixed points and stopping
#include "relax.hpp"
using namespace vf;
using namespace blasted;

static void steps(Case& c, bool jacobiTol)
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op; op.relax = true;
	op.type = jacobiTol ? BLASTED_JACOBI : s.pick({BLASTED_JACOBI, BLASTED_GS, BLASTED_SGS, BLASTED_LEVEL_SGS});
	MatOpt o; o.huge = 12000; o.vals = s.pick({DIAGOK, HMATRIX, DOMINANT}); o.sym = op.type == BLASTED_LEVEL_SGS; o.nmax = cfg.bs == 1 ? (s.chance(1,25) ? 40 : 10) : (s.chance(1,25) ? 15 : 5);
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A);
	op.na = 1+(int)s.draw(4); op.chunk = 1+(int)s.draw(s.flip() ? 3 : 100); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI, INIT_A_NONE});
	c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(500).c_str());
	PrecP p = makePrec(A, op); rt::Policy pol = rt::gen(s, 5); if(op.type == BLASTED_GS || op.type == BLASTED_SGS) pol.nthreads = 1; rt::set(pol);
	p->compute(); Ref R(m);
	const int calls = 1+(int)s.draw(2);
	for(int q = 0; q < calls; q++) {
		if(s.chance(1,3) && q) { changeVals(s, m, o.vals); A.setVals(m); A0.setVals(m); p->compute(); R.~Ref(); new(&R) Ref(m); c.note("new values %s", m.str(400).c_str()); }
		SolveParams<double> sp; sp.maxits = (int)s.draw(s.chance(1,3) ? 12 : 4); sp.ctol = jacobiTol || (s.flip() && op.type != BLASTED_JACOBI);
		auto tol = [&](double lo) { return s.chance(1,3) ? lo : std::pow(10.0, -(double)s.draw(10)*0.5); };
		sp.rtol = tol(0); sp.atol = tol(0); sp.dtol = s.flip() ? 1e10 : std::pow(10.0, (double)s.draw(7)*0.5);
		p->setApplyParams(sp);
		DV x0 = s.chance(1,4) ? DV(m.N(), 0.0) : genVec(s, m.N()), b = genVec(s, m.N());
		const bool fixed = s.chance(1,4);
		if(fixed) { LV t = mulMat(m, toLV(x0)); for(int i = 0; i < m.N(); i++) b[i] = (double)t[i]; }
		if(jacobiTol && s.flip() && sp.maxits) { double k = std::ldexp(1.0, -(int)s.draw(14)); for(auto& v : x0) v *= k; for(auto& v : b) v *= k; }
		Arr<double> bv(b), bv0(bv), x(x0);
		pol = rt::gen(s, 5); if(op.type == BLASTED_GS || op.type == BLASTED_SGS) pol.nthreads = 1; rt::set(pol);
		c.note("relax: steps=%d checking=%d rtol=%g atol=%g dtol=%g fixed=%d x=%s b=%s %s", sp.maxits, (int)sp.ctol, sp.rtol, sp.atol, sp.dtol, fixed, vstr(x0).c_str(), vstr(b).c_str(), rt::describe(pol).c_str());
		p->apply_relax(bv.data(), x.data());
		VF_CHECK(bv.same(bv0), "relaxation changed the right hand side"); x.intact("the solution vector"); bv.intact("the right hand side");
		if(sp.maxits == 0) { cmpSame(x.data(), x0.data(), m.N(), "solution after no steps"); continue; }
		VM rb(b), rx(x0); ld ref = 0; int stop = sp.maxits; bool unsure = false;
		for(int k = 0; k < sp.maxits; k++) {
			VM old(rx);
			switch(op.type) {
			case BLASTED_JACOBI: rJacobiStep(R, rb, rx); break;
			case BLASTED_GS: rGSStep(R, rb, rx, false); break;
			default: rGSStep(R, rb, rx, false); rGSStep(R, rb, rx, true);
			}
			if(op.type == BLASTED_JACOBI && sp.ctol) {
				ld d = 0, e = 0; for(int i = 0; i < m.N(); i++) { d += (rx.x[i]-old.x[i])*(rx.x[i]-old.x[i]); e += rx.mag[i]+old.mag[i]; }
				d = sqrtl(d); e = e*1e-12L*R.kappa + 1e-300L; static thread_local ld refe; if(k == 0) { ref = d; refe = e; }
				// lower and upper bounds of the quantities compared
				auto cmp = [&](ld lo, ld hi, ld t) { return t <= 0 ? 0 : hi < t ? 1 : lo >= t ? 0 : -1; };
				int a = cmp(d-e, d+e, sp.atol), r = 0, v = 0;
				if(k > 0 && ref > refe) { ld lo = (d-e)/(ref+refe), hi = (d+e)/(ref-refe); r = cmp(lo, hi, sp.rtol); const int nv = cmp(lo, hi, (ld)sp.dtol*(1+1e-12L)); v = nv == 1 ? 0 : nv == 0 ? 1 : -1; }
				// in the first step the ratio is 1 or undefined, which meets no tolerance here
				else if(k > 0) r = -1;
				if(a == 1 || r == 1 || v == 1) { stop = k+1; break; }
				if(a < 0 || r < 0 || v < 0) { unsure = true; break; }
			}
		}
		if(unsure) continue;
		c.nontrivial(m.n > 2 && m.nnz() > m.n && (jacobiTol ? stop >= 2 && stop < sp.maxits : sp.maxits >= 2));
		cmpVM(x.data(), R, rx, jacobiTol ? "solution at the stopping step" : "solution after the given number of steps", 2+2*stop);
	}
	VF_CHECK(A.same(A0), "the matrix was changed");
}
VF_PROP(iterates, 160000, 4000000, "at least 3 coupled (block) rows and at least 2 steps")
{
	steps(c, false);
}
VF_PROP(jacobi_tolerances, 160000, 4000000, "at least 3 coupled (block) rows, stopping after at least 2 steps but before the maximum")
{
	steps(c, true);
}

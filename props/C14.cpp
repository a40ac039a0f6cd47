// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.2
// C14: preconditioners are functions of the current matrix and the input vector
#include "relax.hpp"
using namespace vf;
using namespace blasted;

static Opt genOpt(Src& s, const Cfg& cfg, bool nonone) {
	Opt op; op.type = s.pick({BLASTED_ILU0, BLASTED_SGS, BLASTED_GS, BLASTED_JACOBI, BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0, BLASTED_LEVEL_SGS, BLASTED_ASYNC_LEVEL_ILU0, BLASTED_CSC_BGS, BLASTED_NO_PREC});
	if(cfg.bs > 1 && op.type == BLASTED_CSC_BGS) op.type = BLASTED_ILU0;
	op.nb = 1+(int)s.draw(3); op.na = 1+(int)s.draw(3); op.chunk = 1+(int)s.draw(4); op.scale = s.flip(); op.info = s.chance(1,4);
	op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); if(!nonone && s.chance(1,6)) op.fi = INIT_F_NONE;
	op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI}); if(!nonone && op.type == BLASTED_SGS && s.chance(1,4)) op.ai = INIT_A_NONE;
	return op;
}
static bool sym(const Opt& o) { return o.type == BLASTED_LEVEL_SGS || o.type == BLASTED_ASYNC_LEVEL_ILU0; }
static bool relaxes(const Opt& o) { return o.type == BLASTED_JACOBI || o.type == BLASTED_GS || o.type == BLASTED_SGS || o.type == BLASTED_LEVEL_SGS; }
static double junk(Src& s) { return s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()}); }
static void same(const Arr<double>& x, const Arr<double>& y, const char* what) {
	for(size_t i = 0; i < x.size(); i++) if(!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) fail("%s: component %zu is %.17g, from a fresh preconditioner %.17g", what, i, x[i], y[i]);
}
static std::string pinfo(const PrecInfo& p) { std::string s; char b[40]; for(double v : p.f_info) { snprintf(b, 40, "%.17g ", v); s += b; } return s; }
static std::string pinfo2(PrecInfo i, const Opt& op) { if(op.fi == INIT_F_NONE) i.f_info[1] = 0; return pinfo(i); } // without initialisation, the starting point is the previous factorisation by definition

/// Another preconditioner for another matrix, made, used and (perhaps) destroyed in between
struct Other { std::unique_ptr<Raw> A; PrecP p; };
static void other(Case& c, std::vector<Other>& alive, const Cfg& mine) {
	Src& s = c.s; const Cfg cfg = s.flip() ? mine : genCfg(s); const Opt op = genOpt(s, cfg, true); MatOpt o; o.sym = sym(op); o.vals = HMATRIX; o.nmax = cfg.bs == 1 ? 12 : 6; o.grow = false; Mat m = genMat(s, cfg.bs, o);
	Other q; q.A.reset(new Raw(m, cfg.row)); q.p = makePrec(*q.A, op); c.note("other: %s n=%d bs=%d", ostr(op).c_str(), m.n, m.bs);
	if(s.chance(3,4)) { q.p->compute(); Arr<double> rv(genVec(s, m.N())), z(m.N(), 0.0); q.p->apply(rv.data(), z.data()); if(relaxes(op) && s.flip()) { SolveParams<double> sp; sp.rtol = sp.atol = 1e-30; sp.dtol = 1e10; sp.ctol = false; sp.maxits = 2; q.p->setApplyParams(sp); q.p->apply_relax(rv.data(), z.data()); } }
	if(s.flip()) alive.push_back(std::move(q));
	else { q.p.reset(); q.A.reset(); if(!alive.empty() && s.flip()) { alive.back().p.reset(); alive.pop_back(); } }
}

VF_PROP(histories_on_one_thread, 160000, 4000000, "at least two computes with changed values between them and an application after both")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); const Opt op = genOpt(s, cfg, false); MatOpt o; o.sym = sym(op); o.vals = HMATRIX; o.nmax = cfg.bs == 1 ? 10 : 5;
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A); rt::reset();
	c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(400).c_str());
	PrecP p = makePrec(A, op); const int ops = 2+(int)s.draw(7); int computes = 0; bool stale = true, changed = false, good = false;
	SolveParams<double> sp; sp.rtol = 1e-3; sp.atol = 1e-30; sp.dtol = 1e10; sp.ctol = false; sp.maxits = 1; p->setApplyParams(sp);
	std::vector<Other> others; Arr<double> kr(genVec(s, m.N())), kz(m.N(), 0.0); // vectors used again and again
	PrecP fresh; std::string info; // created when the values it was computed from were current; if lazy, only when it is needed
	const bool lazy = s.flip();
	auto need = [&]() { if(fresh) return; fresh = makePrec(A, op); fresh->setApplyParams(sp); const std::string i2 = pinfo2(fresh->compute(), op);
		VF_CHECK(info == i2, "information after recomputing is %s, from a fresh preconditioner %s", info.c_str(), i2.c_str()); };
	for(int k = 0; k < ops; k++) {
		if(s.chance(1,6)) other(c, others, cfg);
		switch(stale ? 0 : (int)s.draw(5)) {
		case 0: info = pinfo2(p->compute(), op); c.note("compute"); fresh.reset(); if(computes++ && changed) good = true; stale = false;
			if(!lazy || s.flip()) need(); break;
		case 1: case 2: { // the two see different old contents of the output
			const bool keep = s.flip(); Arr<double> nr(keep ? DV() : genVec(s, m.N())); Arr<double>& rv = keep ? kr : nr; if(keep) changeVec(s, kr); const Arr<double> rv0(rv);
			const double j1 = op.ai == INIT_A_NONE ? 1 : junk(s), j2 = op.ai == INIT_A_NONE ? 1 : junk(s); Arr<double> nz(keep ? 0 : m.N(), j1), zf(m.N(), j2); Arr<double>& z = keep ? kz : nz; if(keep) { if(op.ai == INIT_A_NONE) for(int i = 0; i < m.N(); i++) zf[i] = kz[i]; else if(s.flip()) for(int i = 0; i < m.N(); i++) kz[i] = j1; }
			c.note("apply to %s%s", vstr(rv.vec()).c_str(), keep ? " in the same arrays" : "");
			if(lazy && s.chance(1,3)) { p->apply(rv.data(), z.data()); z.intact("the output vector"); VF_CHECK(rv.same(rv0), "the input vector was changed"); break; } // nothing else comes between
			if(lazy && s.flip()) { p->apply(rv.data(), z.data()); need(); } else { need(); p->apply(rv.data(), z.data()); }
			fresh->apply(rv.data(), zf.data()); same(z, zf, "application"); z.intact("the output vector");
			VF_CHECK(rv.same(rv0), "the input vector was changed"); c.nontrivial(good && m.n > 1 && m.nnz() > m.n); } break;
		case 3: { changeVals(s, m, HMATRIX, false); A.setVals(m); A0.setVals(m); stale = true; changed = true; c.note("new values %s", m.str(300).c_str()); } break;
		default: if(relaxes(op)) { need(); if(s.flip()) { sp.maxits = (int)s.draw(4); sp.ctol = s.flip(); p->setApplyParams(sp); fresh->setApplyParams(sp); }
			const bool keep = s.flip(); Arr<double> nr(keep ? DV() : genVec(s, m.N())), nx(keep ? DV() : genVec(s, m.N())); Arr<double> &rv = keep ? kr : nr, &x = keep ? kz : nx; if(keep) { changeVec(s, kr); changeVec(s, kz); }
			const Arr<double> rv0(rv); Arr<double> xf(x); c.note("relax %d steps checking=%d", sp.maxits, (int)sp.ctol);
			p->apply_relax(rv.data(), x.data()); fresh->apply_relax(rv.data(), xf.data()); same(x, xf, "relaxation"); VF_CHECK(rv.same(rv0), "the right hand side was changed"); }
		}
		VF_CHECK(A.same(A0), "the matrix was changed"); A.intact();
	}
}
/// Under one and the same schedule of several threads, too, history must not matter
VF_PROP(histories_on_many_threads, 200000, 4000000, "several threads with preemption, coupled rows, values changed between computes")
{
	if(!rt::deterministic()) return;
	Src& s = c.s; const Cfg cfg = genCfg(s); const Opt op = genOpt(s, cfg, true); MatOpt o; o.sym = sym(op); o.vals = HMATRIX; o.nmax = cfg.bs == 1 ? 8 : 5;
	Mat m = genMat(s, cfg.bs, o), m1 = m; Raw A(m, cfg.row), A0(A);
	c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(300).c_str());
	PrecP p = makePrec(A, op), fresh = makePrec(A, op); rt::reset();
	// p: computed and applied with old values; fresh: never applied, computed only with the new values
	p->compute(); { Arr<double> rv(genVec(s, m.N())), z(m.N()); p->apply(rv.data(), z.data()); }
	std::vector<Other> others; if(s.chance(1,4)) other(c, others, cfg);
	const bool change = !s.chance(1,4);
	if(change) { changeVals(s, m, HMATRIX, false); A.setVals(m); A0.setVals(m); }
	fresh->compute(); c.note("new values %s", m.str(300).c_str());
	SolveParams<double> sp; sp.rtol = 1e-3; sp.atol = 1e-30; sp.dtol = 1e10; sp.ctol = false; sp.maxits = 1+(int)s.draw(3); p->setApplyParams(sp); fresh->setApplyParams(sp);
	rt::Policy pol = rt::gen(s, 5); if(pol.nthreads == 1) pol.nthreads = 2; if(s.flip()) { rt::set(pol); c.note("second compute with %s", rt::describe(pol).c_str()); }
	schedRecord(); p->compute(); schedReplay(); fresh->compute(); schedPlain();
	pol = rt::gen(s, 5); if(pol.nthreads == 1) pol.nthreads = 2; if(pol.gap == 0 && s.flip()) pol.gap = 2; rt::set(pol); c.note("use with %s", rt::describe(pol).c_str());
	Arr<double> rv(genVec(s, m.N())), rv0(rv); bool pre = false;
	for(int k = 0; k < 2; k++) {
		if(k && !relaxes(op)) break;
		if(k) { // relaxation
			Arr<double> x(genVec(s, m.N())), xf(x);
			schedRecord(); p->apply_relax(rv.data(), x.data()); schedReplay(); fresh->apply_relax(rv.data(), xf.data()); schedPlain(); same(x, xf, "relaxation under the same schedule");
		} else {
			Arr<double> z(m.N(), junk(s)), zf(m.N(), junk(s));
			schedRecord(); p->apply(rv.data(), z.data()); pre = rt::preemptions() > 0; schedReplay(); fresh->apply(rv.data(), zf.data()); schedPlain(); same(z, zf, "application under the same schedule");
			z.intact("the output vector");
		}
	}
	VF_CHECK(rv.same(rv0), "the input vector was changed"); VF_CHECK(A.same(A0), "the matrix was changed");
	c.nontrivial(change && pre && m.n > 1 && m.nnz() > m.n);
}

// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.06
// C15: sequential parts of incomplete LU variants ignore threads and schedules; on one thread all variants agree
#include "prec.hpp"
#include <solverops_ilu0.hpp>
#include <solverops_levels_ilu0.hpp>
#include <reorderingscaling.hpp>
using namespace vf;
using namespace blasted;

static rt::Policy many(Src& s) { rt::Policy p = rt::gen(s, 6); if(p.nthreads == 1) p.nthreads = 2+(int)s.draw(3); if(p.gap == 0 && !s.chance(1,8)) p.gap = 1+(int)s.draw(4); return p; }
/// Rows after the first that need rows before them: what a sweep out of order would get wrong
static bool coupled(const Mat& m) { int d = 0; for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] < i) d++; return d >= 2; }
static bool lowerAndUpper(const Mat& m) { int u = 0; for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] > i) u++; return coupled(m) && u >= 1; }
static DV inv(const IV& p) { DV r(p.size()); for(size_t i = 0; i < p.size(); i++) r[p[i]] = i; return r; }

/// Runs computes and applications on p, in parallel wherever the variant promises independence of it
template <class P> static void run(Case& c, P& p, Mat& m, Raw& A, Raw& A0, const Opt& op, bool tf, bool ta, const IV* perm)
{
	Src& s = c.s; const int rounds = 1+(int)s.draw(2);
	for(int r = 0; r < rounds; r++) {
		if(r) { changeVals(s, m, HMATRIX); A.setVals(m); A0.setVals(m); c.note("new values %s", m.str(300).c_str()); }
		rt::Policy pol = many(s); if(tf) pol.nthreads = 1; rt::set(pol); c.note("compute: %s", rt::describe(pol).c_str());
		p.compute(); bool pre = pol.nthreads > 1;
		Mat b = m; if(perm) { // B(i,j) = A(perm(i),perm(j))
			DV iv = inv(*perm); b.rp.assign(1,0); b.ci.clear(); b.v.clear();
			for(int i = 0; i < m.n; i++) { std::vector<std::pair<int,double>> row; const int o = (*perm)[i]; for(int k = m.rp[o]; k < m.rp[o+1]; k++) row.push_back({(int)iv[m.ci[k]], m.v[k]}); std::sort(row.begin(), row.end()); for(auto& e : row) { b.ci.push_back(e.first); b.v.push_back(e.second); } b.rp.push_back((int)b.ci.size()); }
			setDiag(b); }
		LMat f = refILU(b, op.scale); const int napp = 1+(int)s.draw(2);
		for(int q = 0; q < napp; q++) {
			pol = many(s); if(ta) pol.nthreads = 1; else pre = true; rt::set(pol); c.note("apply: %s", rt::describe(pol).c_str());
			Arr<double> rv(genVec(s, m.N())), rv0(rv), z(m.N(), s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN()}));
			p.apply(rv.data(), z.data()); z.intact("the output vector"); VF_CHECK(rv.same(rv0), "the input vector was changed");
			DV pr(rv0.vec()); if(perm) for(int i = 0; i < m.n; i++) pr[i] = rv0[(*perm)[i]];
			LV y = refILUApply(b, f, op.scale, pr), ref(y); if(perm) for(int i = 0; i < m.n; i++) ref[(*perm)[i]] = y[i];
			cmpVec(z.data(), ref, 1e-9L, "incomplete LU");
		}
		c.nontrivial(pre && lowerAndUpper(m) && (rt::preemptions() > 0 || !rt::deterministic()));
	}
	VF_CHECK(A.same(A0), "the matrix was changed");
}

/// Solvers made by the factory
VF_PROP(variants_from_the_factory, 160000, 4000000, "a part promised to be sequential is run with several threads on coupled rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op; MatOpt o; o.vals = HMATRIX; o.nmax = cfg.bs == 1 ? 10 : 5;
	op.type = s.pick({BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0, BLASTED_ASYNC_LEVEL_ILU0}); o.sym = op.type == BLASTED_ASYNC_LEVEL_ILU0 || s.flip();
	const bool tf = op.type == BLASTED_SAPILU0 || op.type == BLASTED_ASYNC_LEVEL_ILU0, ta = op.type == BLASTED_SFILU0;
	op.chunk = 1+(int)s.draw(4); op.scale = s.flip(); op.nb = 1+(int)s.draw(2); op.na = 1+(int)s.draw(2); op.info = s.chance(1,6);
	op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A); c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(400).c_str());
	PrecP p = makePrec(A, op); run(c, *p, m, A, A0, op, tf, ta, nullptr);
}

/// Solvers constructed directly, every combination of flags
template <int bs, StorageOptions stor> static void direct(Case& c)
{
	Src& s = c.s; Opt op; MatOpt o; o.vals = HMATRIX; o.nmax = bs == 1 ? 10 : 5; const int kind = (int)s.draw(bs == 1 ? 3 : 2); // plain, level, reordered
	o.sym = kind == 1 || s.flip(); op.chunk = 1+(int)s.draw(4); op.scale = s.flip(); op.nb = 1+(int)s.draw(2); op.na = 1+(int)s.draw(2); op.info = s.chance(1,4);
	op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	bool tf = s.flip(), ta = s.flip(); if(tf && ta) { if(s.flip()) tf = false; else ta = false; }
	Mat m = genMat(s, bs, o); Raw A(m, stor == RowMajor), A0(A);
	c.note("%s threadedfactor=%d threadedapply=%d %s bs=%d row=%d %s", kind == 0 ? "plain" : kind == 1 ? "level-scheduled" : "reordered", tf, ta, ostr(op).c_str(), bs, stor == RowMajor, m.str(400).c_str());
	if(kind == 0) {
		if constexpr(bs == 1) { AsyncILU0_SRPreconditioner<double,int> p(A.storage(), op.nb, op.na, op.scale, op.chunk, op.fi, op.ai, op.info, tf, ta); run(c, p, m, A, A0, op, tf, ta, nullptr); }
		else { AsyncBlockILU0_SRPreconditioner<double,int,bs,stor> p(A.storage(), op.nb, op.na, op.scale, op.chunk, op.fi, op.ai, tf, ta, op.info); run(c, p, m, A, A0, op, tf, ta, nullptr); }
	} else if(kind == 1) {
		if constexpr(bs == 1) { Async_Level_ILU0<double,int> p(A.storage(), op.nb, op.scale, op.chunk, op.fi, tf, op.info); run(c, p, m, A, A0, op, tf, false, nullptr); }
		else { Async_Level_BlockILU0<double,int,bs,stor> p(A.storage(), op.nb, op.scale, op.chunk, op.fi, tf, op.info); run(c, p, m, A, A0, op, tf, false, nullptr); }
	} else if constexpr(bs == 1) {
		struct RS : public ReorderingScaling<double,int,1> { IV p; void compute(const CRawBSRMatrix<double,int>& mat) override { setOrdering(p.data(), p.data(), (int)p.size()); } };
		RS rs; rs.p = s.perm(m.n); op.scale = true; std::string ps; for(int x : rs.p) ps += std::to_string(x)+" "; c.note("ordering [%s]", ps.c_str());
		ReorderedAsyncILU0_SRPreconditioner<double,int> p(A.storage(), &rs, op.nb, op.na, op.chunk, op.fi, op.ai, tf, ta); run(c, p, m, A, A0, op, tf, ta, &rs.p);
	}
}
VF_PROP(variants_constructed_directly, 160000, 4000000, "a part promised to be sequential is run with several threads on coupled rows")
{
	switch(c.s.draw(6)) { case 0: case 1: case 2: direct<1,ColMajor>(c); break; case 3: direct<4,RowMajor>(c); break; case 4: direct<4,ColMajor>(c); break; default: direct<5,ColMajor>(c); }
}

/// The result of a threaded factorisation, however far from exact, is applied the same way by every thread count and schedule
VF_PROP(sequential_application_of_any_factors, 100000, 2500000, "factors computed by preempted threads, coupled rows")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op; MatOpt o; o.vals = HMATRIX; o.nmax = cfg.bs == 1 ? 10 : 5;
	op.type = s.pick({BLASTED_SAPILU0, BLASTED_ASYNC_LEVEL_ILU0}); o.sym = op.type == BLASTED_ASYNC_LEVEL_ILU0;
	op.chunk = 1+(int)s.draw(3); op.scale = s.flip(); op.na = 1+(int)s.draw(3); op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row); c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(400).c_str());
	PrecP p = makePrec(A, op); rt::Policy pol = many(s); rt::set(pol); p->compute(); const bool pre = rt::preemptions() > 0 || !rt::deterministic();
	Arr<double> rv(genVec(s, m.N())), z0(m.N(), 3.0), z(m.N(), -5.0);
	rt::reset(); p->apply(rv.data(), z0.data());
	for(double v : z0.vec()) if(!std::isfinite(v)) return; // the factors may be anything
	pol = many(s); rt::set(pol); c.note("apply: %s", rt::describe(pol).c_str()); p->apply(rv.data(), z.data());
	cmpVec(z.data(), toLV(z0.vec()), 1e-12L, "application by several threads, against that by one");
	c.nontrivial(pre && lowerAndUpper(m));
}

VF_PROP(one_thread_all_agree, 100000, 2500000, "a structurally symmetric matrix with at least two off-diagonal couplings")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op; MatOpt o; o.vals = HMATRIX; o.sym = s.chance(3,4); o.nmax = cfg.bs == 1 ? (s.chance(1,30) ? 50 : 12) : 6; rt::reset();
	op.chunk = 1+(int)s.draw(5); op.scale = s.flip(); op.nb = 1+(int)s.draw(3); op.na = 1+(int)s.draw(3); op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row); c.note("%s row=%d %s", ostr(op).c_str(), cfg.row, m.str(400).c_str());
	Arr<double> rv(genVec(s, m.N())); DV first;
	for(auto t : {BLASTED_SEQILU0, BLASTED_ILU0, BLASTED_SFILU0, BLASTED_SAPILU0, BLASTED_ASYNC_LEVEL_ILU0}) {
		if(t == BLASTED_ASYNC_LEVEL_ILU0 && !o.sym) continue;
		op.type = t; PrecP p = makePrec(A, op); p->compute(); if(op.fi != INIT_F_NONE && s.chance(1,4)) p->compute();
		Arr<double> z(m.N(), 1e3); p->apply(rv.data(), z.data());
		if(t == BLASTED_SEQILU0) first = z.vec(); else { char w[80]; snprintf(w, 80, "%s on one thread, against seqilu0", tname(t)); cmpVec(z.data(), toLV(first), 1e-11L, w); }
	}
	c.nontrivial(lowerAndUpper(m));
}

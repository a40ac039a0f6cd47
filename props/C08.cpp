// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.2
// C08: sequential incomplete LU is the exact ILU(0)
#include "prec.hpp"
#include <solverops_ilu0.hpp>
using namespace vf;
using namespace blasted;

static void checkAll(Case& c, const Cfg cfg, bool thread1)
{
	Src& s = c.s; MatOpt o; o.huge = 12000; o.vals = HMATRIX; o.sym = s.flip();
	o.nmax = cfg.bs == 1 ? (s.chance(1,30) ? 60 : 12) : (s.chance(1,30) ? 20 : 6);
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row), A0(A);
	Opt op; op.type = thread1 ? BLASTED_ILU0 : BLASTED_SEQILU0;
	if(thread1) op.type = s.pick({BLASTED_ILU0, BLASTED_SFILU0, BLASTED_SAPILU0});
	op.chunk = s.chance(1,4) ? 1+(int)s.draw(100) : 1+(int)s.draw(4); op.scale = s.flip();
	op.nb = 1+(int)s.draw(3); op.na = 1+(int)s.draw(3); op.info = s.chance(1,4) && cfg.bs != 5 && !cfg.row;
	op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	rt::Policy pol = rt::gen(s, 5); if(thread1) pol.nthreads = 1; rt::set(pol);
	c.note("%s row=%d %s %s", ostr(op).c_str(), cfg.row, rt::describe(pol).c_str(), m.str(500).c_str());
	// a product position exists: i>k, j>k with (i,k),(k,j),(i,j) stored
	bool fill = false;
	for(int i = 0; i < m.n && !fill; i++) for(int a = m.rp[i]; a < m.di[i] && !fill; a++) for(int b = m.rp[i]; b < m.rp[i+1] && !fill; b++) fill = m.ci[b] > m.ci[a] && m.find(m.ci[a], m.ci[b]) >= 0;
	c.nontrivial(fill && m.n > 2);
	PrecP p = makePrec(A, op);
	VF_CHECK(p->dim() == m.N(), "dim() is %d, expected %d", (int)p->dim(), m.N());
	const int rounds = 1+(int)s.draw(3);
	for(int r = 0; r < rounds; r++) {
		if(r) { changeVals(s, m, HMATRIX); A.setVals(m); A0.setVals(m); c.note("new values: %s", m.str(500).c_str()); }
		p->compute();
		VF_CHECK(A.same(A0), "computing changed the matrix arrays"); A.intact();
		LMat f = refILU(m, op.scale);
		const int napp = 1+(int)s.draw(2);
		for(int q = 0; q < napp; q++) {
			Arr<double> rv(genVec(s, m.N())), rv0(rv), z(m.N(), s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN()}));
			p->apply(rv.data(), z.data());
			VF_CHECK(rv.same(rv0), "applying changed the input vector"); z.intact("the output vector"); rv.intact("the input vector");
			cmpVec(z.data(), refILUApply(m, f, op.scale, rv0.vec()), 1e-10L, "incomplete LU application");
		}
	}
	VF_CHECK(A.same(A0), "applying changed the matrix arrays");
}
VF_PROP(sequential_variant, 160000, 4000000, "at least 3 rows and a stored position that receives an elimination product")
{
	checkAll(c, genCfg(c.s), false);
}
VF_PROP(threaded_variants_on_one_thread, 160000, 4000000, "at least 3 rows and a stored position that receives an elimination product")
{
	checkAll(c, genCfg(c.s), true);
}

/// The factors themselves: their product is the matrix on the pattern
template <class Base> struct Open : public Base { using Base::Base; const double* vals() const { return this->iluvals; } const double* scl() const { return this->scale; } };
template <int bs, StorageOptions stor> static void factors(Case& c)
{
	Src& s = c.s; MatOpt o; o.vals = HMATRIX; o.nmax = bs == 1 ? 12 : 6;
	Mat m = genMat(s, bs, o); Raw A(m, stor == RowMajor);
	const bool scale = s.flip(); const int nb = 1+(int)s.draw(3), chunk = 1+(int)s.draw(5);
	const FactInit fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE});
	rt::Policy pol = rt::gen(s, 5); rt::set(pol);
	c.note("sequential factors bs=%d row=%d scale=%d build=%d finit=%d %s %s", bs, stor == RowMajor, scale, nb, (int)fi, rt::describe(pol).c_str(), m.str(500).c_str());
	c.nontrivial(m.n > 2 && m.nnz() > m.n+1);
	Arr<double> lu;
	if constexpr(bs == 1) { Open<AsyncILU0_SRPreconditioner<double,int>> p(A.storage(), nb, 1, scale, chunk, fi, INIT_A_ZERO, false, false, false); p.compute(); lu = Arr<double>(std::vector<double>(p.vals(), p.vals()+m.v.size())); }
	else { Open<AsyncBlockILU0_SRPreconditioner<double,int,bs,stor>> p(A.storage(), nb, 1, scale, chunk, fi, INIT_A_ZERO, false, false, false); p.compute(); lu = Arr<double>(std::vector<double>(p.vals(), p.vals()+m.v.size())); }
	// long double factors; the stored diagonal blocks of the block version are inverses
	const int b2 = bs*bs; LMat f(m);
	for(int k = 0; k < m.nnz(); k++) for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) f.blk(k)[r*bs+q] = lu[(size_t)k*b2 + (stor == RowMajor ? r*bs+q : q*bs+r)];
	if(bs > 1) for(int i = 0; i < m.n; i++) { std::vector<ld> inv(b2); VF_CHECK(invert(f.blk(m.di[i]), inv.data(), bs), "stored diagonal block %d is singular", i); std::copy(inv.begin(), inv.end(), f.blk(m.di[i])); }
	LV sc = scaleVec(m, scale);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) {
		const int j = m.ci[k];
		ld sum[b2], av[b2], bmag = 0;
		for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) {
			const ld a = sc[i*bs+r]*m.at(k,r,q)*sc[j*bs+q]; ld x, sm = 0, mag = fabsl(a);
			for(int kk = m.rp[i]; kk < m.rp[i+1] && m.ci[kk] < i && m.ci[kk] <= j; kk++) { const int p = m.find(m.ci[kk], j); if(p < 0) continue;
				for(int t = 0; t < bs; t++) { x = f.blk(kk)[r*bs+t]*f.blk(p)[t*bs+q]; sm += x; mag += fabsl(x); } }
			if(j >= i) { x = f.blk(k)[r*bs+q]; sm += x; mag += fabsl(x); }
			sum[r*bs+q] = sm; av[r*bs+q] = a; bmag = std::max(bmag, mag);
		}
		for(int z = 0; z < b2; z++)
			VF_CHECK(fabsl(sum[z]-av[z]) <= (bs == 1 ? 1e-13L : 1e-11L)*bmag + 1e-290L, "(%d,%d) item %d,%d: the factors multiply to %.17Lg, the matrix has %.17Lg", i, j, z/bs, z%bs, sum[z], av[z]);
	}
}
VF_PROP(factor_product, 100000, 2500000, "at least 3 rows and at least two off-diagonal entries")
{
	switch(c.s.draw(6)) { case 0: case 1: case 2: factors<1,ColMajor>(c); break; case 3: factors<4,RowMajor>(c); break; case 4: factors<4,ColMajor>(c); break; default: factors<5,ColMajor>(c); }
}
VF_PROP(application_without_initialisation_is_refused, 3000, 50000, "always")
{
	Src& s = c.s; Cfg cfg = genCfg(s); MatOpt o; o.nmax = 5; Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row);
	Opt op; op.type = s.pick({BLASTED_ILU0, BLASTED_SEQILU0, BLASTED_SFILU0, BLASTED_SAPILU0}); op.ai = INIT_A_NONE; op.scale = s.flip();
	rt::Policy pol = rt::gen(s, 3); pol.nthreads = 1; rt::set(pol); c.note("%s %s", ostr(op).c_str(), m.str(300).c_str()); c.nontrivial();
	PrecP p = makePrec(A, op); p->compute(); Arr<double> r(genVec(s, m.N())), z(m.N());
	bool thrown = false; try { p->apply(r.data(), z.data()); } catch(const std::runtime_error&) { thrown = true; }
	VF_CHECK(thrown, "an application without initialisation returned silently");
	thrown = false; try { p->apply_relax(r.data(), z.data()); } catch(const std::runtime_error&) { thrown = true; }
	VF_CHECK(thrown, "ILU relaxation returned silently");
}

// VF: exclude=sai.cpp,coomatrix.cpp
// VF: scale_asan=0.15
// C16: reported diagnostics are the true quantities
#include "prec.hpp"
#include <solverops_ilu0.hpp>
#include <solverops_levels_ilu0.hpp>
#include <ilu_pattern.hpp>
#ifndef VF_PUBLIC_ONLY
#include "async_ilu_factor.hpp"
#include "async_blockilu_factor.hpp"
#include "matrix_properties.hpp"
#endif
using namespace vf;
using namespace blasted;

struct SumMag { ld sum = 0, mag = 0; };
/// 1-norm over the pattern of S A S minus (unit lower)(upper); magnitude of everything that was added up
static SumMag remainder(const Mat& m, const LV& sc, const LMat& f) {
	const int bs = m.bs; SumMag out; std::vector<ld> sum(bs*bs);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) {
		const int j = m.ci[k];
		for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) {
			ld s = sc[i*bs+r]*m.at(k,r,q)*sc[j*bs+q]; out.mag += fabsl(s);
			for(int kk = m.rp[i]; kk < m.rp[i+1]; kk++) { const int l = m.ci[kk]; if(l >= i || l > j) continue; const int p = m.find(l, j); if(p < 0) continue;
				for(int t = 0; t < bs; t++) { const ld x = f.blk(kk)[r*bs+t]*f.blk(p)[t*bs+q]; s -= x; out.mag += fabsl(x); } }
			if(j >= i) { s -= f.blk(k)[r*bs+q]; out.mag += fabsl(f.blk(k)[r*bs+q]); }
			out.sum += fabsl(s);
		}
	}
	return out;
}
/// lower average, lower minimum, upper average, upper minimum, with magnitudes
static void dominance(const Mat& m, const LMat& f, ld dom[4], ld mag[4]) {
	const int bs = m.bs; dom[0] = dom[2] = 0; dom[1] = dom[3] = 1e4000L; for(int q = 0; q < 4; q++) mag[q] = 1;
	for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) {
		ld lo = 0, up = 0, d = 0;
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int q = 0; q < bs; q++) { const ld v = fabsl(f.blk(k)[r*bs+q]); if(m.ci[k] < i) lo += v; else if(m.ci[k] == i && q == r) d = v; else up += v; }
		up /= d; dom[0] += 1-lo; dom[1] = std::min(dom[1], 1-lo); dom[2] += 1-up; dom[3] = std::min(dom[3], 1-up);
		mag[0] = std::max(mag[0], 1+lo); mag[2] = std::max(mag[2], 1+up);
	}
	dom[0] /= m.N(); dom[2] /= m.N(); mag[1] = mag[0]; mag[3] = mag[2];
}
static bool finiteAll(const LMat& f) { for(ld v : f.v) if(!(fabsl(v) < 1e100L)) return false; return true; }
static void near(double v, ld ref, ld tol, const char* what) { VF_CHECK(fabsl(v-ref) <= tol, "%s is reported as %.17g, it is %.17Lg (tolerance %.3Lg)", what, v, ref, tol); }
/// Initial factors as defined
static bool initial(const Mat& m, const LV& sc, FactInit fi, LMat& f) {
	const int bs = m.bs; for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) f.blk(k)[r*bs+q] = sc[i*bs+r]*m.at(k,r,q)*sc[m.ci[k]*bs+q];
	if(fi == INIT_F_ZERO && bs > 1) for(auto& v : f.v) v = 0; // point-wise, the zero initialisation starts from the original matrix
	if(fi == INIT_F_SGS) { LMat g(f); std::vector<ld> inv(bs*bs), t(bs*bs);
		for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.di[i]; k++) { if(!invert(g.blk(m.di[m.ci[k]]), inv.data(), bs)) return false;
			for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) { ld x = 0; for(int z = 0; z < bs; z++) x += g.blk(k)[r*bs+z]*inv[z*bs+q]; t[r*bs+q] = x; }
			std::copy(t.begin(), t.end(), f.blk(k)); } }
	return true;
}
static void zeroGuess(const Mat& m, const LV& sc, SumMag& z) { LMat f(m); std::fill(f.v.begin(), f.v.end(), 0); z = remainder(m, sc, f); }
static LMat fromArray(const Mat& m, const double* lu, bool row) { const int bs = m.bs; LMat f(m); for(int k = 0; k < m.nnz(); k++) for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) f.blk(k)[r*bs+q] = lu[(size_t)k*bs*bs + (row ? r*bs+q : q*bs+r)]; return f; }
static void checkInfo(const Mat& m, bool scale, const LMat& f, FactInit fi, PrecInfo& pi, ld tol, bool init) {
	LV sc = scaleVec(m, scale);
	if(init) { LMat f0(m); if(initial(m, sc, fi, f0)) { SumMag r0 = remainder(m, sc, f0), z; zeroGuess(m, sc, z);
		if(!(m.bs == 1 && fi == INIT_F_ZERO && fabsl(pi.prec_rem_initial_norm()-z.sum) <= tol*z.mag)) near(pi.prec_rem_initial_norm(), r0.sum, tol*r0.mag+1e-290L, "the remainder before factorisation"); } }
	SumMag r = remainder(m, sc, f); near(pi.prec_remainder_norm(), r.sum, tol*r.mag+1e-290L, "the remainder after factorisation");
	ld dom[4], mag[4]; dominance(m, f, dom, mag);
	near(pi.lower_avg_diag_dom(), dom[0], tol*mag[0], "the average dominance of the lower factor"); near(pi.lower_min_diag_dom(), dom[1], tol*mag[1], "the minimum dominance of the lower factor");
	near(pi.upper_avg_diag_dom(), dom[2], tol*mag[2], "the average dominance of the upper factor"); near(pi.upper_min_diag_dom(), dom[3], tol*mag[3], "the minimum dominance of the upper factor");
}

/// Through the factory, where the factors are exact
VF_PROP(information_of_exact_factors, 120000, 3000000, "at least 3 (block) rows, off-diagonal entries in both triangles")
{
	Src& s = c.s; const Cfg cfg = genCfg(s); Opt op; MatOpt o; o.vals = HMATRIX; o.nmax = cfg.bs == 1 ? (s.chance(1,30) ? 40 : 10) : 5;
	op.type = s.pick({BLASTED_SEQILU0, BLASTED_ILU0, BLASTED_SFILU0, BLASTED_SAPILU0, BLASTED_ASYNC_LEVEL_ILU0}); o.sym = op.type == BLASTED_ASYNC_LEVEL_ILU0 || s.flip();
	op.chunk = 1+(int)s.draw(5); op.scale = s.flip(); op.nb = 1+(int)s.draw(3); op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE}); op.ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	Mat m = genMat(s, cfg.bs, o); Raw A(m, cfg.row); rt::Policy pol = rt::gen(s, 5); if(op.type != BLASTED_SEQILU0 && op.type != BLASTED_SFILU0) pol.nthreads = 1; rt::set(pol);
	op.info = true; PrecP p = makePrec(A, op); op.info = false; PrecP q = makePrec(A, op);
	c.note("%s row=%d %s %s", ostr(op).c_str(), cfg.row, rt::describe(pol).c_str(), m.str(400).c_str()); int lo = 0, up = 0; for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) { lo += m.ci[k] < i; up += m.ci[k] > i; }
	for(int r = 0; r < 2; r++) {
		if(r) { if(s.flip()) break; changeVals(s, m, HMATRIX); A.setVals(m); }
		PrecInfo pi = p->compute(); PrecInfo qi = q->compute();
		for(double v : qi.f_info) VF_CHECK(v == 0, "information that was not asked for is %g", v);
		checkInfo(m, op.scale, refILU(m, op.scale), op.fi, pi, 1e-10L, op.fi != INIT_F_NONE);
		Arr<double> rv(genVec(s, m.N())), z(m.N(), 1.0), y(m.N(), 2.0); rt::reset(); p->apply(rv.data(), z.data()); q->apply(rv.data(), y.data()); rt::set(pol);
		cmpVec(z.data(), toLV(y.vec()), 1e-12L, "application when information was asked for");
		c.nontrivial(m.n > 2 && lo > 0 && up > 0);
	}
}
/// Whatever the schedule left in the factors, the report describes them
template <class Base> struct Open : public Base { using Base::Base; const double* vals() const { return this->iluvals; } };
template <int bs, StorageOptions stor> static void inexact(Case& c)
{
	Src& s = c.s; Opt op; MatOpt o; o.vals = HMATRIX; o.nmax = bs == 1 ? 10 : 5; const bool level = s.chance(1,4); o.sym = level;
	op.chunk = 1+(int)s.draw(3); op.scale = s.flip(); op.nb = (int)s.draw(3); op.fi = s.pick({INIT_F_ORIGINAL, INIT_F_SGS, INIT_F_ZERO});
	if(op.fi == INIT_F_ZERO && op.nb == 0) op.nb = 1;
	Mat m = genMat(s, bs, o); Raw A(m, stor == RowMajor); rt::Policy pol = rt::gen(s, 6); if(pol.nthreads > 1 && pol.gap == 0 && s.flip()) pol.gap = 2; rt::set(pol);
	c.note("%s bs=%d row=%d level=%d %s %s", ostr(op).c_str(), bs, stor == RowMajor, level, rt::describe(pol).c_str(), m.str(400).c_str());
	PrecInfo pi; std::vector<double> lu;
	auto go = [&](auto&& p) { pi = p.compute(); lu.assign(p.vals(), p.vals()+m.v.size()); };
	if constexpr(bs == 1) { if(level) go(Open<Async_Level_ILU0<double,int>>(A.storage(), op.nb, op.scale, op.chunk, op.fi, true, true)); else go(Open<AsyncILU0_SRPreconditioner<double,int>>(A.storage(), op.nb, 1, op.scale, op.chunk, op.fi, INIT_A_ZERO, true, true, true)); }
	else { if(level) go(Open<Async_Level_BlockILU0<double,int,bs,stor>>(A.storage(), op.nb, op.scale, op.chunk, op.fi, true, true)); else go(Open<AsyncBlockILU0_SRPreconditioner<double,int,bs,stor>>(A.storage(), op.nb, 1, op.scale, op.chunk, op.fi, INIT_A_ZERO, true, true, true)); }
	LMat f = fromArray(m, lu.data(), stor == RowMajor); if(!finiteAll(f)) return;
	if(bs > 1) for(int i = 0; i < m.n; i++) { std::vector<ld> inv(bs*bs); if(!invert(f.blk(m.di[i]), inv.data(), bs)) return; // the diagonal blocks are kept inverted; leave out ill-conditioned ones
		ld a = 0, b = 0; for(int q = 0; q < bs*bs; q++) { a = std::max(a, fabsl(f.blk(m.di[i])[q])); b = std::max(b, fabsl(inv[q])); } if(!(a*b < 1e4L)) return; std::copy(inv.begin(), inv.end(), f.blk(m.di[i])); }
	ld dmin = 1; for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) dmin = std::min(dmin, fabsl(f.blk(m.di[i])[r*bs+r])); if(dmin < 1e-6L) return;
	checkInfo(m, op.scale, f, op.fi, pi, bs == 1 ? 1e-12L : 1e-8L, true);
	SumMag r = remainder(m, scaleVec(m, op.scale), f);
	c.nontrivial(m.n > 1 && r.sum > 1e-6L*r.mag);
}
VF_PROP(information_of_any_factors, 160000, 4000000, "factors whose remainder is far from zero")
{
	switch(c.s.draw(6)) { case 0: case 1: case 2: inexact<1,ColMajor>(c); break; case 3: inexact<4,RowMajor>(c); break; case 4: inexact<4,ColMajor>(c); break; default: inexact<5,ColMajor>(c); }
}
#ifndef VF_PUBLIC_ONLY
template <int bs, StorageOptions stor> static void functions(Case& c)
{
	Src& s = c.s; MatOpt o; o.vals = DIAGOK; o.nmax = bs == 1 ? 14 : 6; Mat m = genMat(s, bs, o), g = m; genVals(s, g, DIAGOK);
	if(s.chance(1,4)) for(int i = 0; i < g.n; i++) if(s.chance(1,3)) { const int r = (int)s.draw(bs); g.at(g.di[i],r,r) *= std::ldexp(1.0, s.range(-24,24)); } // far from or hardly dominant
	Raw A(m, stor == RowMajor), A0(A), F(g, stor == RowMajor); Arr<double> sc(m.N()), sc2(m.N());
	for(int i = 0; i < m.N(); i++) { sc[i] = 0.3+s.unit()*2; sc2[i] = bs == 1 ? 0.3+s.unit()*2 : sc[i]; }
	rt::Policy pol = rt::gen(s, 8); rt::set(pol); const int chunk = 1+(int)s.draw(5); const bool scale = s.flip();
	c.note("chunk=%d scale=%d %s %s factors %s", chunk, scale, rt::describe(pol).c_str(), m.str(250).c_str(), g.str(250).c_str());
	auto raw = A.craw(); LMat f(m); for(size_t q = 0; q < f.v.size(); q++) f.v[q] = g.v[q];
	if(bs == 1 || (bs == 4 && stor == ColMajor)) {
		ILUPositions<int> pl = compute_ILU_positions_CSR_CSR<double,int>(&raw); double r; LV l(m.N(), 1);
		// row and column scalings may differ in the point version
		SumMag ref; if(scale) { Mat t = m; for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int a = 0; a < bs; a++) for(int b = 0; b < bs; b++) t.at(k,a,b) = sc[i*bs+a]*m.at(k,a,b)*sc2[m.ci[k]*bs+b]; ref = remainder(t, l, f); } else ref = remainder(m, l, f);
		if constexpr(bs == 1) r = scale ? scalar_ilu0_nonlinear_res<double,int,true,true>(&raw, pl, chunk, sc.data(), sc2.data(), F.v.data()) : scalar_ilu0_nonlinear_res<double,int,false,false>(&raw, pl, chunk, nullptr, nullptr, F.v.data());
		else if constexpr(bs == 4 && stor == ColMajor) r = scale ? block_ilu0_nonlinear_res<double,int,4,ColMajor,true>(&raw, pl, sc.data(), F.v.data(), chunk) : block_ilu0_nonlinear_res<double,int,4,ColMajor,false>(&raw, pl, nullptr, F.v.data(), chunk);
		else r = 0;
		near(r, ref.sum, 1e-12L*ref.mag, "the remainder norm");
	}
	const std::array<double,4> d = diagonal_dominance<double,int,bs,stor>(F.storage()); ld dom[4], mag[4]; dominance(g, f, dom, mag);
	static const char* n[] = {"the average lower dominance", "the minimum lower dominance", "the average upper dominance", "the minimum upper dominance"};
	for(int q = 0; q < 4; q++) near(d[q], dom[q], 1e-12L*mag[q]*m.N(), n[q]);
	VF_CHECK(A.same(A0), "the matrix was changed"); c.nontrivial(m.n > 2 && m.nnz() > m.n);
}
VF_PROP(remainder_and_dominance_functions, 120000, 3000000, "at least 3 (block) rows and off-diagonal entries")
{
	switch(c.s.draw(6)) { case 0: case 1: case 2: functions<1,ColMajor>(c); break; case 3: functions<4,RowMajor>(c); break; case 4: functions<4,ColMajor>(c); break; default: functions<5,ColMajor>(c); }
}
#endif

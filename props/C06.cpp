// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp,coomatrix.cpp
// VF: scale_asan=0.25
// C06: conversion to sparse-column storage, and the column product under generated interleavings
#include "gen.hpp"
#include <map>
#include <scmatrixdefs.hpp>
using namespace vf;
using namespace blasted;

namespace blasted {
template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar,index> *const mat, const scalar a, const scalar *const __restrict xx, const scalar b, const scalar *const yy, scalar *const zz);
}

/// Row storage with the entries of the rows in any order
static void shuffleRows(Src& s, const Mat& m, Raw& r) {
	const int b2 = m.bs*m.bs; Raw o(r);
	for(int i = 0; i < m.n; i++) {
		int len = m.rp[i+1]-m.rp[i]; IV p = s.perm(len);
		for(int k = 0; k < len; k++) { int from = m.rp[i]+p[k], to = m.rp[i]+k; r.ci[to] = o.ci[from]; for(int q = 0; q < b2; q++) r.v[(size_t)to*b2+q] = o.v[(size_t)from*b2+q]; if(m.di[i] == from) r.di[i] = to; }
	}
}
template <int bs> static void convert(Case& c) {
	Src& s = c.s; MatOpt o; o.huge = 12000; o.vals = ARBITRARY; o.fulldiag = s.flip(); o.nmax = bs == 1 ? (s.chance(1,40) ? 120 : 14) : (s.chance(1,40) ? 40 : 8);
	Mat m = genMat(s, bs, o); if(m.nnz() == 0) { o.fulldiag = true; m = genMat(s, bs, o); }
	Raw r(m, true); if(s.flip()) shuffleRows(s, m, r); Raw r0(r);
	const int based = bs == 1 && s.flip() ? 1 : 0;
	rt::Policy p = rt::gen(s, 5); rt::set(p);
	c.note("%d-based %s", based, m.str(300).c_str());
	c.nontrivial(m.n > 1 && m.nnz() > m.n/2+1);
	CRawBSRMatrix<double,int> cr = r.craw();
	CRawBSCMatrix<double,int> cc;
	if(based) cc = convert_BSR_to_BSC_1based<double,int,1>(&cr); else convert_BSR_to_BSC<double,int,bs>(&cr, &cc);
	VF_CHECK(cc.nbcols == m.n, "%d columns, expected %d", cc.nbcols, m.n);
	std::vector<std::map<int,int>> cols(m.n); for(int i = 0; i < m.n; i++) for(int q = r.rp[i]; q < r.rp[i+1]; q++) cols[r.ci[q]][i] = q;
	int k = 0;
	for(int j = 0; j < m.n; j++) {
		VF_CHECK(cc.bcolptr[j]-based == k, "column pointer %d is %d, expected %d", j, cc.bcolptr[j], k+based);
		for(auto& e : cols[j]) { const int i = e.first, src = e.second;
			VF_CHECK(cc.browind[k]-based == i, "row index %d in column %d is %d, expected %d", k, j, cc.browind[k], i+based);
			for(int q = 0; q < bs*bs; q++) VF_CHECK(cc.vals[(size_t)k*bs*bs+q] == r.v[(size_t)src*bs*bs+q], "value of block (%d,%d) item %d is %.17g, expected %.17g", i, j, q, cc.vals[(size_t)k*bs*bs+q], r.v[(size_t)src*bs*bs+q]);
			if(i == j) VF_CHECK(cc.diagind[j]-based == k, "position of diagonal %d is %d, expected %d", j, cc.diagind[j], k+based);
			k++;
		}
		if(!cols[j].count(j)) VF_CHECK(cc.diagind[j]-based == -1, "column %d stores no diagonal entry but its position is %d", j, cc.diagind[j]);
	}
	VF_CHECK(cc.bcolptr[m.n]-based == k, "last column pointer is %d, expected %d", cc.bcolptr[m.n], k+based);
	VF_CHECK(r.same(r0), "the conversion changed its source"); r.intact();
	alignedDestroyCRawBSCMatrix(cc);
}
VF_PROP(conversions, 250000, 5000000, "at least 2 rows and more than half a row of entries")
{
	switch(c.s.draw(8)) { case 0: case 1: case 2: convert<1>(c); break; case 3: convert<3>(c); break; case 4: convert<4>(c); break; case 5: convert<5>(c); break; default: convert<7>(c); }
}

template <int bs, StorageOptions st> static void product(Case& c) {
	Src& s = c.s; MatOpt o; o.huge = 12000; o.vals = ARBITRARY; o.fulldiag = s.flip(); o.nmax = s.chance(1,40) ? 40 : 8;
	Mat m = genMat(s, bs, o); if(m.nnz() == 0) { o.fulldiag = true; m = genMat(s, bs, o); }
	const int N = m.N(); Raw r(m, st == RowMajor);
	CRawBSRMatrix<double,int> cr = r.craw(); CRawBSCMatrix<double,int> cc; convert_BSR_to_BSC<double,int,bs>(&cr, &cc);
	for(int rep = 0; rep < 2; rep++) {
		Arr<double> x(genVec(s, N)), x0(x), y(genVec(s, N)), y0(y), z(N, s.pick({0.0, 1e30, std::numeric_limits<double>::quiet_NaN()}));
		const double a = s.flip() ? genVal(s) : -1.5, b = s.flip() ? genVal(s) : 0.75; const bool alias = s.flip();
		rt::Policy p = rt::gen(s, 6); rt::set(p);
		c.note("bs=%d a=%g b=%g alias=%d %s %s x=%s", bs, a, b, alias, rt::describe(p).c_str(), m.str(200).c_str(), vstr(x.vec()).c_str());
		c.nontrivial(m.nnz() > m.n/2+1 && m.n > 1 && p.nthreads > 1);
		LV ref(N,0), mag(N,0);
		for(int i = 0; i < N; i++) { ref[i] = (ld)b*y[i]; mag[i] = fabsl(ref[i]); }
		for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int q = 0; q < bs; q++) for(int w = 0; w < bs; w++) { ld t = (ld)a*m.at(k,q,w)*x[m.ci[k]*bs+w]; ref[i*bs+q] += t; mag[i*bs+q] += fabsl(t); }
		double* out = alias ? y.data() : z.data();
		bcsc_gemv3<double,int,bs,st>(&cc, a, x.data(), b, y.data(), out);
		for(int i = 0; i < N; i++) VF_CHECK(fabsl(out[i]-ref[i]) <= 2.3e-16L*(4*N+8)*mag[i], "column product: component %d is %.17g, expected %.17Lg", i, out[i], ref[i]);
		VF_CHECK(x.same(x0) && (alias || y.same(y0)), "the column product changed an input vector"); x.intact("the input vector"); y.intact("the added vector"); z.intact("the result vector");
	}
	alignedDestroyCRawBSCMatrix(cc);
}
VF_PROP(products, 120000, 2500000, "at least 2 threads, 2 columns and an off-diagonal entry")
{
	switch(c.s.draw(3)) { case 0: product<4,ColMajor>(c); break; case 1: product<3,ColMajor>(c); break; default: product<7,RowMajor>(c); }
}

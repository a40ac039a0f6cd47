// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp,coomatrix.cpp
// VF: scale_asan=0.3
// C01: y = A x and z = a A x + b y against a long double dense product
#include "gen.hpp"
#include <blockmatrices.hpp>
using namespace vf;
using namespace blasted;

/// Arrays with the entries of each row in any order
struct RawM { int n, bs; Arr<int> rp, ci, di; Arr<double> v; };
static RawM shuffled(Src& s, const Mat& m, bool row) {
	Raw r(m, row); RawM o{m.n, m.bs, r.rp, r.ci, r.di, r.v}; const int b2 = m.bs*m.bs;
	if(!s.flip()) return o;
	for(int i = 0; i < m.n; i++) {
		int len = m.rp[i+1]-m.rp[i]; IV p = s.perm(len);
		for(int k = 0; k < len; k++) {
			o.ci[m.rp[i]+k] = r.ci[m.rp[i]+p[k]];
			for(int q = 0; q < b2; q++) o.v[(size_t)(m.rp[i]+k)*b2+q] = r.v[(size_t)(m.rp[i]+p[k])*b2+q];
			if(m.di[i] == m.rp[i]+p[k]) o.di[i] = m.rp[i]+k;
		}
	}
	return o;
}

template <class M> static void exercise(Case& c, const Mat& m, const M& A, const char* kind) {
	Src& s = c.s; const int N = m.N(), bs = m.bs;
	VF_CHECK(A.dim() == N, "%s: dim() is %d, expected %d", kind, A.dim(), N);
	const int reps = 1 + (int)s.draw(2);
	for(int rep = 0; rep < reps; rep++) {
		Arr<double> x(genVec(s, N)), x0(x), y(genVec(s, N)), y0(y);
		rt::Policy p = rt::gen(s, 6); rt::set(p);
		const bool g3 = s.flip();
		double a = 1, b = 0;
		LV ref(N,0), mag(N,0);
		if(g3) { a = s.flip() ? 0 : genVal(s); a = s.flip() ? a : 2.5; b = s.flip() ? 0 : genVal(s); b = s.flip() ? b : -1.5; }
		for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int q = 0; q < bs; q++) {
			ld t = (ld)a*m.at(k,r,q)*x[m.ci[k]*bs+q]; ref[i*bs+r] += t; mag[i*bs+r] += fabsl(t); }
		if(g3) for(int i = 0; i < N; i++) { ref[i] += (ld)b*y[i]; mag[i] += fabsl((ld)b*y[i]); }
		const bool alias = g3 && s.flip();
		Arr<double> z(N, s.pick({0.0, 1e30, -7.0, std::numeric_limits<double>::quiet_NaN()}));
		c.note("%s %s a=%g b=%g alias=%d %s x=%s y=%s", kind, g3 ? "gemv3" : "apply", a, b, alias, rt::describe(p).c_str(), vstr(x.vec()).c_str(), g3 ? vstr(y.vec()).c_str() : "-");
		double* out = alias ? y.data() : z.data();
		if(g3) A.gemv3(a, x.data(), b, y.data(), out); else A.apply(x.data(), out);
		for(int i = 0; i < N; i++) {
			ld tol = 2.3e-16L*(3*N+8)*mag[i];
			VF_CHECK(fabsl((ld)out[i]-ref[i]) <= tol, "%s %s: component %d is %.17g, expected %.17Lg", kind, g3 ? "gemv3" : "apply", i, out[i], ref[i]);
		}
		VF_CHECK(x.same(x0), "%s: the input vector was changed", kind);
		VF_CHECK(alias || y.same(y0), "%s: the added vector was changed", kind);
		x.intact("the input vector"); y.intact("the added vector"); z.intact("the result vector");
	}
}

template <int bs, StorageOptions st> static void view(Case& c, const Mat& m) {
	RawM r = shuffled(c.s, m, st == RowMajor), r0 = r; char nm[40]; snprintf(nm, 40, "view bs=%d %s", bs, st == RowMajor ? "row" : "col");
	if(c.s.flip()) { BSRMatrixView<double,int,bs,st> A(m.n, r.rp.data(), r.ci.data(), r.v.data(), r.di.data()); exercise(c, m, A, nm); }
	else {
		BSRMatrixView<double,int,bs,st> A(SRMatrixStorage<const double,const int>(r.rp.data(), r.ci.data(), r.v.data(), r.di.data(), r.rp.data()+1, m.n, m.nnz(), m.nnz(), bs));
		exercise(c, m, A, nm); }
	VF_CHECK(r.v.same(r0.v) && r.ci.same(r0.ci) && r.rp.same(r0.rp), "the matrix was changed by a product");
}
static void cview(Case& c, const Mat& m) {
	RawM r = shuffled(c.s, m, true), r0 = r;
	if(c.s.flip()) { CSRMatrixView<double,int> A(m.n, r.rp.data(), r.ci.data(), r.v.data(), r.di.data()); exercise(c, m, A, "csr view"); }
	else { CSRMatrixView<double,int> A(SRMatrixStorage<const double,const int>(r.rp.data(), r.ci.data(), r.v.data(), r.di.data(), r.rp.data()+1, m.n, m.nnz(), m.nnz(), 1)); exercise(c, m, A, "csr view"); }
	VF_CHECK(r.v.same(r0.v) && r.ci.same(r0.ci) && r.rp.same(r0.rp), "the matrix was changed by a product");
}
template <int bs> static void own(Case& c, const Mat& m) {
	RawM r = shuffled(c.s, m, true), r0 = r; char nm[40]; snprintf(nm, 40, "matrix bs=%d", bs);
	SRMatrixStorage<double,int> st(r.rp.data(), r.ci.data(), r.v.data(), r.di.data(), r.rp.data()+1, m.n, m.nnz(), m.nnz(), bs);
	{ BSRMatrix<double,int,bs> A(std::move(st)); exercise(c, m, A, nm); }
	VF_CHECK(r.v.same(r0.v) && r.ci.same(r0.ci) && r.rp.same(r0.rp), "the matrix was changed by a product");
}

VF_PROP(products, 300000, 8000000, "matrix of at least 2 block rows with at least one off-diagonal block")
{
	Src& s = c.s;
	const int kind = (int)s.draw(13);
	static const int bss[] = {1, 1, 3, 7, 3, 4, 5, 7, 3, 4, 7, 1, 1};
	MatOpt o; o.huge = 12000; o.vals = ARBITRARY; o.fulldiag = s.flip(); o.nmax = bss[kind] == 1 ? (s.chance(1,30) ? 160 : 14) : (s.chance(1,30) ? 40 : 8);
	Mat m = genMat(s, bss[kind], o);
	if(m.nnz() == 0) { o.fulldiag = true; m = genMat(s, bss[kind], o); }
	c.nontrivial(m.n > 1 && m.nnz() > m.n/2 && m.nnz() > 1);
	c.note("%s", m.str(300).c_str());
	switch(kind) {
	case 0: case 11: cview(c, m); break;
	case 1: case 12: own<1>(c, m); break;
	case 2: own<3>(c, m); break;
	case 3: own<7>(c, m); break;
	case 4: view<3,ColMajor>(c, m); break;
	case 5: view<4,ColMajor>(c, m); break;
	case 6: view<5,ColMajor>(c, m); break;
	case 7: view<7,ColMajor>(c, m); break;
	case 8: view<3,RowMajor>(c, m); break;
	case 9: view<4,RowMajor>(c, m); break;
	case 10: view<7,RowMajor>(c, m); break;
	}
}

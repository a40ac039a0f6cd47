// Reference Gauss-Seidel-like operations with componentwise error majorants
#pragma once
#include "prec.hpp"
namespace vf {
/// Matrix with inverted diagonal blocks
struct Ref {
	const Mat& m; LV dinv; ld kappa = 1; // largest condition number of a diagonal block
	explicit Ref(const Mat& a) : m(a), dinv((size_t)a.n*a.bs*a.bs) {
		const int b2 = m.bs*m.bs; std::vector<ld> t(b2);
		for(int i = 0; i < m.n; i++) { for(int q = 0; q < b2; q++) t[q] = m.v[(size_t)m.di[i]*b2+q]; if(!invert(t.data(), &dinv[(size_t)i*b2], m.bs)) fail("internal: singular diagonal block generated");
			ld na = 0, ni = 0; for(int r = 0; r < m.bs; r++) { ld x = 0, y = 0; for(int q = 0; q < m.bs; q++) { x += fabsl(t[r*m.bs+q]); y += fabsl(dinv[(size_t)i*b2+r*m.bs+q]); } na = std::max(na,x); ni = std::max(ni,y); }
			kappa = std::max(kappa, na*ni); }
	}
};
/// A vector with a bound of the magnitudes that went into each component
struct VM { LV x, mag; explicit VM(size_t n) : x(n,0), mag(n,0) { } explicit VM(const DV& v) : x(v.begin(), v.end()), mag(v.size()) { for(size_t i = 0; i < v.size(); i++) mag[i] = fabsl(x[i]); } };
/// z_i = D^-1 (r_i - sum over the chosen part of a_ij y_j); magnitudes alike
inline void row(const Ref& R, int i, const VM& r, const VM& y, bool low, bool up, VM& z) {
	const Mat& m = R.m; const int bs = m.bs; LV t(bs), g(bs);
	for(int q = 0; q < bs; q++) { t[q] = r.x[i*bs+q]; g[q] = r.mag[i*bs+q]; }
	for(int k = m.rp[i]; k < m.rp[i+1]; k++) if((low && m.ci[k] < i) || (up && m.ci[k] > i)) for(int a = 0; a < bs; a++) for(int b = 0; b < bs; b++) {
		t[a] -= (ld)m.at(k,a,b)*y.x[m.ci[k]*bs+b]; g[a] += fabsl((ld)m.at(k,a,b))*y.mag[m.ci[k]*bs+b]; }
	for(int a = 0; a < bs; a++) { ld s = 0, h = 0; for(int b = 0; b < bs; b++) { ld d = R.dinv[((size_t)i*bs+a)*bs+b]; s += d*t[b]; h += fabsl(d)*g[b]; } z.x[i*bs+a] = s; z.mag[i*bs+a] = h; }
	if(bs > 1) { // inverses of blocks have small errors relative to the block only
		ld nd = 0, mg = 0; for(int a = 0; a < bs; a++) { mg = std::max(mg, g[a]); for(int b = 0; b < bs; b++) nd = std::max(nd, fabsl(R.dinv[((size_t)i*bs+a)*bs+b])); }
		for(int a = 0; a < bs; a++) z.mag[i*bs+a] = nd*mg*bs; }
}
inline VM rJacobi(const Ref& R, const VM& r) { VM z(r.x.size()); for(int i = 0; i < R.m.n; i++) row(R, i, r, r, false, false, z); return z; }
inline VM rForward(const Ref& R, const VM& r) { VM z(r.x.size()); for(int i = 0; i < R.m.n; i++) row(R, i, r, z, true, false, z); return z; }
inline VM rBackward(const Ref& R, const VM& r) { VM z(r.x.size()); for(int i = R.m.n-1; i >= 0; i--) row(R, i, r, z, false, true, z); return z; }
/// D y
inline VM rDiag(const Ref& R, const VM& y) { VM z(y.x.size()); const int bs = R.m.bs;
	for(int i = 0; i < R.m.n; i++) for(int a = 0; a < bs; a++) for(int b = 0; b < bs; b++) { ld d = R.m.at(R.m.di[i],a,b); z.x[i*bs+a] += d*y.x[i*bs+b]; z.mag[i*bs+a] += fabsl(d)*y.mag[i*bs+b]; }
	return z; }
inline VM rSGS(const Ref& R, const VM& r) { return rBackward(R, rDiag(R, rForward(R, r))); }
inline void rGSStep(const Ref& R, const VM& b, VM& x, bool backward) { for(int q = 0; q < R.m.n; q++) row(R, backward ? R.m.n-1-q : q, b, x, true, true, x); }
inline void rJacobiStep(const Ref& R, const VM& b, VM& x) { VM y(x); for(int i = 0; i < R.m.n; i++) row(R, i, b, y, true, true, x); }
/// Componentwise comparison
inline void cmpVM(const double* x, const Ref& R, const VM& ref, const char* what, ld f = 1) {
	const ld tol = f*2e-16L*(10+R.m.N())*4*(R.m.bs == 1 ? 1 : R.kappa*R.m.bs);
	for(ld g : ref.mag) if(!(g < 1e140L)) return; // close to (or after) overflow
	for(size_t i = 0; i < ref.x.size(); i++) if(!(fabsl((ld)x[i]-ref.x[i]) <= tol*ref.mag[i] + 1e-290L)) fail("%s: component %zu is %.17g, expected %.17Lg (error bound %.3Lg)", what, i, x[i], ref.x[i], tol*ref.mag[i]);
}
}

// Generators of matrices and vectors, and reference models in long double
#pragma once
#include "vf.hpp"
#include "rt.hpp"
#include <memory>
#include <set>
#include <srmatrixdefs.hpp>

namespace vf {

typedef std::vector<ld> LV;
typedef std::vector<double> DV;
typedef std::vector<int> IV;

/// Exactly sized 64-byte aligned array, surrounded by canaries in builds without AddressSanitizer
template <class T> class Arr {
	static const size_t PADB = 64;
	char* raw = nullptr; T* p = nullptr; size_t n_ = 0;
	void alloc(size_t n) {
		n_ = n; void* q = nullptr;
#ifdef VF_ASAN
		if(posix_memalign(&q, 64, n ? n*sizeof(T) : 1)) abort();
		raw = (char*)q; p = (T*)q;
#else
		if(posix_memalign(&q, 64, n*sizeof(T) + 2*PADB)) abort();
		raw = (char*)q; memset(raw, 0x5a, n*sizeof(T) + 2*PADB); p = (T*)(raw+PADB);
#endif
	}
public:
	Arr() { alloc(0); }
	explicit Arr(size_t n, T v = T()) { alloc(n); for(size_t i = 0; i < n; i++) p[i] = v; }
	explicit Arr(const std::vector<T>& v) { alloc(v.size()); std::copy(v.begin(), v.end(), p); }
	Arr(const Arr& o) { alloc(o.n_); std::copy(o.p, o.p+n_, p); }
	Arr& operator=(const Arr& o) { if(this != &o) { free(raw); alloc(o.n_); std::copy(o.p, o.p+n_, p); } return *this; }
	~Arr() { free(raw); }
	T* data() { return p; } const T* data() const { return p; }
	T* begin() { return p; } T* end() { return p+n_; }
	const T* begin() const { return p; } const T* end() const { return p+n_; }
	size_t size() const { return n_; }
	T& operator[](size_t i) { return p[i]; } const T& operator[](size_t i) const { return p[i]; }
	std::vector<T> vec() const { return std::vector<T>(p, p+n_); }
	bool same(const Arr& o) const { return n_ == o.n_ && (n_ == 0 || memcmp(p, o.p, n_*sizeof(T)) == 0); }
	/// Checks that nothing was written around the array
	void intact(const char* what) const {
#ifndef VF_ASAN
		for(size_t i = 0; i < PADB; i++)
			if(raw[i] != 0x5a || raw[PADB+n_*sizeof(T)+i] != 0x5a) fail("memory outside %s was overwritten", what);
#else
		(void)what;
#endif
	}
};

/// Square (block) sparse matrix in canonical form: blocks stored row-major, columns increasing
struct Mat {
	int n = 0, bs = 1; IV rp, ci, di; DV v;
	int N() const { return n*bs; }
	int nnz() const { return (int)ci.size(); }
	double& at(int k, int r, int c) { return v[((size_t)k*bs+r)*bs+c]; }
	double at(int k, int r, int c) const { return v[((size_t)k*bs+r)*bs+c]; }
	int find(int i, int j) const { for(int k = rp[i]; k < rp[i+1]; k++) if(ci[k] == j) return k; return -1; }
	LV dense() const {
		LV a((size_t)N()*N(), 0);
		for(int i = 0; i < n; i++) for(int k = rp[i]; k < rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
			a[(size_t)(i*bs+r)*N() + ci[k]*bs+c] += at(k,r,c);
		return a;
	}
	bool hasDiag() const { for(int d : di) if(d < 0) return false; return true; }
	std::string str(size_t lim = 900) const {
		std::string s; char b[64]; snprintf(b, 64, "n=%d bs=%d", n, bs); s = b;
		for(int i = 0; i < n && s.size() < lim; i++) { snprintf(b,64," |%d:",i); s += b;
			for(int k = rp[i]; k < rp[i+1]; k++) { snprintf(b,64," %d",ci[k]); s += b; if(bs == 1) { snprintf(b,64,"=%.4g",v[k]); s += b; } else if(n*bs <= 8) { s += "="; for(int q = 0; q < bs*bs; q++) { snprintf(b,64,"%.3g,",at(k,q/bs,q%bs)); s += b; } } } }
		return s;
	}
};

inline void setDiag(Mat& m) {
	m.di.assign(m.n, -1);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] == i) m.di[i] = k;
}

/// Adjacency matrix of a random pattern; diagonal present if fulldiag, symmetric if sym
inline std::vector<std::vector<char>> genAdj(Src& s, int n, bool sym, bool fulldiag) {
	std::vector<std::vector<char>> a(n, std::vector<char>(n, 0));
	const int kind = (int)s.draw(8);
	auto put = [&](int i, int j) { if(i >= 0 && j >= 0 && i < n && j < n) { a[i][j] = 1; if(sym) a[j][i] = 1; } };
	switch(kind) {
	case 0: { int e = (int)s.draw(2*n+1); for(int k = 0; k < e; k++) { int i = (int)s.draw(n), j = (int)s.draw(n); put(i,j); } } break;
	case 1: { int d = 1+(int)s.draw(9); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j && s.chance(d,10)) put(i,j); } break;
	case 2: { int b = 1+(int)s.draw(3); for(int i = 0; i < n; i++) for(int j = i-b; j <= i+b; j++) if(j >= 0 && j < n && j != i && !s.chance(1,6)) put(i,j); } break;
	case 3: { int w = 1+(int)s.draw(4); for(int i = 0; i < n; i++) { if((i+1) % w) { put(i,i+1); put(i+1,i); } put(i,i+w); put(i+w,i); } } break; // grid
	case 4: { for(int i = 1; i < n; i++) { put(0,i); put(i,0); } if(s.flip()) for(int i = 0; i < n-1; i++) { put(n-1,i); put(i,n-1); } } break; // arrow
	case 5: { for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j) put(i,j); } break;
	case 6: { int r = (int)s.draw(n); for(int j = 0; j < n; j++) { put(r,j); if(s.flip()) put(j,r); } for(int i = 0; i < n; i++) put(i, (int)s.draw(n)); } break; // dense row
	default: { for(int i = 1; i < n; i++) { int p = (int)s.draw(i); put(i,p); if(!s.chance(1,3)) put(p,i); } } // tree
	}
	for(int i = 0; i < n; i++) { if(fulldiag) a[i][i] = 1; }
	return a;
}

/// A value; small integers and fractions are simplest
inline double genVal(Src& s) {
	switch(s.draw(6)) {
	case 0: return 1.0;
	case 1: return (double)s.range(-4,4);
	case 2: return s.range(-16,16)/8.0;
	case 3: return s.unit()*2-1;
	case 4: return (s.flip()?-1:1)*std::ldexp(1+s.unit(), s.range(-8,8));
	default: return s.flip() ? 0.0 : s.unit();
	}
}
inline double genNz(Src& s) { double v = genVal(s); return v == 0 ? -1.0 : v; }

/// Power of two by which a whole set of values is scaled: absolute thresholds in the code show on tiny and huge data
inline double genMag(Src& s) { return s.chance(1,3) ? std::ldexp(1.0, s.pick({-45, -12, 30, -75, 9, -26})) : 1.0; }

enum Vals { ARBITRARY, DOMINANT, HMATRIX, DIAGOK };
/** ARBITRARY: anything. DIAGOK: diagonal blocks well conditioned, off-diagonals arbitrary moderate.
 * DOMINANT: strictly row diagonally dominant by rows, positive diagonal. HMATRIX: dominant one scaled by rows and columns.
 */
inline void genVals(Src& s, Mat& m, Vals kind) {
	const int bs = m.bs; m.v.assign((size_t)m.nnz()*bs*bs, 0.0);
	const bool rich = s.flip(); // random mantissas
	const int offk = (int)s.draw(3);
	for(auto& x : m.v) {
		if(kind == ARBITRARY) x = rich ? s.unit()*4-2 : genVal(s);
		else if(offk == 0) x = rich ? -s.unit()-0.05 : -1.0;
		else if(offk == 1) x = rich ? s.unit()*2-1 : (double)s.range(-2,2)/2;
		else x = rich ? (s.chance(1,8) ? 0.0 : s.unit()*3-1.5) : (double)s.range(-3,1);
	}
	if(kind == ARBITRARY) { const double g = genMag(s); for(auto& x : m.v) x *= g; return; }
	const double margin = s.pick({1.0, 0.5, 0.1, 4.0});
	for(int i = 0; i < m.n; i++) {
		if(m.di[i] < 0) continue;
		for(int r = 0; r < bs; r++) {
			double sum = 0;
			for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int c = 0; c < bs; c++) {
				if(kind == DIAGOK && k != m.di[i]) continue;
				if(k == m.di[i] && c == r) continue; sum += std::fabs(m.at(k,r,c)); }
			m.at(m.di[i],r,r) = sum + margin*(1 + (rich ? s.unit() : 0.0));
			if(kind == DIAGOK && s.chance(1,4)) m.at(m.di[i],r,r) *= -1;
		}
	}
	if(kind == HMATRIX) {
		const int how = (int)s.draw(4);
		if(how) {
			DV dr(m.N(),1.0), dc(m.N(),1.0);
			for(auto& x : dr) x = how & 1 ? std::ldexp(1.0, s.range(-5,5)) : 1.0;
			for(auto& x : dc) x = how & 2 ? (how == 3 ? 0.25+s.unit()*4 : std::ldexp(1.0, s.range(-5,5))) : 1.0;
			for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
				m.at(k,r,c) *= dr[i*bs+r]*dc[m.ci[k]*bs+c];
		}
	}
	const double g = genMag(s); for(auto& x : m.v) x *= g;
}

struct MatOpt { int nmax = 10; int nmin = 1; bool sym = false; bool fulldiag = true; Vals vals = HMATRIX; bool grow = true; /* now and then several times as large */ bool hub = true; /* a large one may have full rows */ int huge = 0; /* rows that a large one may have */ };
inline Mat genMat(Src& s, int bs, const MatOpt& o) {
	Mat m; m.bs = bs;
	int nmax = o.grow && o.nmax <= 16 && s.chance(1,60) ? o.nmax*6 : o.nmax;
	if(nmax > o.nmax && s.chance(1,25)) { // a large matrix with few entries per row: sizes that make a difference to buffers, chunks and thresholds
		m.n = 60/bs + (int)s.draw((o.huge && s.chance(1,4) ? o.huge : 1400)/bs); std::vector<std::set<int>> a(m.n);
		auto put = [&](int i, int j) { if(i >= 0 && j >= 0 && i < m.n && j < m.n) { a[i].insert(j); if(o.sym) a[j].insert(i); } };
		const int kind = (int)s.draw(o.hub && m.n <= 1500 ? 4 : 2), w = s.chance(1,3) ? 2+(int)s.draw(m.n/2+1) : 2+(int)s.draw(30); const bool near = kind || s.chance(2,3);
		for(int i = 0; i < m.n; i++) {
			if(o.fulldiag) put(i, i);
			switch(kind) {
			case 0: if(near) put(i, i+1), put(i, i-1); put(i, i+w); put(i, i-w); break;
			case 1: put(i, (int)s.draw(m.n)); put(i, (int)s.draw(m.n)); break;
			case 2: put(i, i-1); put(0, i); if(s.flip()) put(i, m.n-1); break;
			default: put(i, i/2); put(i, (int)s.draw(i+1)); if(i == m.n/2) for(int j = 0; j < m.n; j++) put(i, j);
			}
		}
		if(!(o.hub && m.n <= 1500) && s.chance(1,3)) { const int i = (int)s.draw(m.n), k = 20+(int)s.draw(150); for(int j = 0; j < k; j++) put(i, (int)s.draw(m.n)); } // one long row
		m.rp.push_back(0); for(auto& r : a) { m.ci.insert(m.ci.end(), r.begin(), r.end()); m.rp.push_back((int)m.ci.size()); }
		setDiag(m); genVals(s, m, o.vals);
		return m;
	}
	m.n = o.nmin + (int)s.draw(nmax-o.nmin+1);
	auto a = genAdj(s, m.n, o.sym, o.fulldiag);
	m.rp.push_back(0);
	for(int i = 0; i < m.n; i++) { for(int j = 0; j < m.n; j++) if(a[i][j]) m.ci.push_back(j); m.rp.push_back((int)m.ci.size()); }
	setDiag(m); genVals(s, m, o.vals);
	return m;
}
/// Other values for the same structure: all new, or only some of them changed, little, or so that sums stay the same
/// (safe: a dominant matrix stays one)
inline void changeVals(Src& s, Mat& m, Vals vals, bool safe = true) {
	const int b2 = m.bs*m.bs; const int kind = (int)s.draw(safe ? 7 : 8);
	auto blk = [&](int k, double f) { for(int q = 0; q < b2; q++) m.v[(size_t)k*b2+q] *= f; };
	auto diag = [&](int k) { for(int i = 0; i < m.n; i++) if(m.di[i] == k) return true; return false; };
	const int i = (int)s.draw(m.n), k = m.nnz() ? (int)s.draw(m.nnz()) : -1; const double small = s.pick({1-std::ldexp(1.0,-30), 0.5, 1-std::ldexp(1.0,-50), 0.75});
	if(kind == 0 || k < 0) { genVals(s, m, vals); return; }
	switch(kind) {
	case 1: for(int j = m.rp[i]; j < m.rp[i+1]; j++) if(j != m.di[i]) blk(j, -1); break; // one row
	case 2: for(int j = 0; j < m.nnz(); j++) if(!diag(j)) blk(j, -1); break; // all but the diagonal
	case 3: blk(k, diag(k) ? 2-small : small); break; // one block
	case 4: { const int q = (int)s.draw(b2); m.v[(size_t)k*b2 + q] *= diag(k) && q%(m.bs+1) == 0 ? 2-small : small; } break; // one number
	case 5: if(m.di[i] >= 0) blk(m.di[i], 2-small); break; // one diagonal block
	case 6: for(double& x : m.v) x *= 2; break;
	default: { IV off; for(int j = 0; j < m.nnz(); j++) if(!diag(j)) off.push_back(j); if(off.size() < 2) { genVals(s, m, vals); return; } // two blocks change places
		const int a = off[s.draw(off.size())], b = off[s.draw(off.size())]; for(int q = 0; q < b2; q++) std::swap(m.v[(size_t)a*b2+q], m.v[(size_t)b*b2+q]); }
	}
}
inline DV genVec(Src& s, int n) {
	DV v(n); const int k = (int)s.draw(5); const double g = genMag(s);
	for(int i = 0; i < n; i++) v[i] = g*(k == 0 ? (double)(i+1) : k == 1 ? genVal(s) : k == 2 ? s.unit()*2-1 : k == 3 ? (double)s.range(-3,3) : std::ldexp(s.unit()*2-1, s.range(-60,6)));
	return v;
}
/// Changes a vector where it stands, a little or wholly
template <class V> void changeVec(Src& s, V& v) {
	const int n = (int)v.size(); if(n == 0) return; const int i = (int)s.draw(n);
	switch(s.draw(6)) {
	case 0: { const DV w = genVec(s, n); for(int k = 0; k < n; k++) v[k] = w[k]; } break;
	case 1: v[i] += 1; break;
	case 2: std::swap(v[i], v[s.draw(n)]); break;
	case 3: for(int k = 0; k < n; k++) v[k] = -v[k]; break;
	case 4: for(int k = 1; k+1 < n; k++) v[k] = v[k]*0.5+1; break;
	default: break; // not at all
	}
}
inline std::string vstr(const DV& v, size_t lim = 300) { std::string o = "["; char b[40]; for(double x : v) { if(o.size() > lim) { o += "..."; break; } snprintf(b,40,"%.5g ",x); o += b; } return o+"]"; }

/// Arrays of a matrix as the library wants them
struct Raw {
	int n, bs; bool row; Arr<int> rp, ci, di; Arr<double> v;
	Raw() : n(0), bs(1), row(false) { }
	Raw(const Mat& m, bool rowmajor) : n(m.n), bs(m.bs), row(rowmajor), rp(m.rp), ci(m.ci), di(m.di), v(m.v.size()) { setVals(m); }
	void setVals(const Mat& m) {
		for(int k = 0; k < m.nnz(); k++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
			v[(size_t)k*bs*bs + (row ? r*bs+c : c*bs+r)] = m.at(k,r,c);
	}
	const int* rend() const { return rp.data()+1; }
	blasted::SRMatrixStorage<const double,const int> storage() const {
		return blasted::SRMatrixStorage<const double,const int>(rp.data(), ci.data(), v.data(), di.data(), rp.data()+1, n, (int)ci.size(), (int)ci.size(), bs);
	}
	blasted::CRawBSRMatrix<double,int> craw() const {
		return blasted::CRawBSRMatrix<double,int>(rp.data(), ci.data(), v.data(), di.data(), rp.data()+1, n, (int)ci.size(), (int)ci.size());
	}
	void intact() const { rp.intact("row pointers"); ci.intact("column indices"); di.intact("diagonal positions"); v.intact("matrix values"); }
	bool same(const Raw& o) const { return rp.same(o.rp) && ci.same(o.ci) && di.same(o.di) && v.same(o.v); }
};

// ---------- small dense algebra in long double
inline bool invert(const ld* a, ld* out, int b) {
	std::vector<ld> w(2*b*b); for(int i = 0; i < b; i++) for(int j = 0; j < b; j++) { w[i*2*b+j] = a[i*b+j]; w[i*2*b+b+j] = i==j; }
	for(int c = 0; c < b; c++) {
		int p = c; for(int i = c+1; i < b; i++) if(fabsl(w[i*2*b+c]) > fabsl(w[p*2*b+c])) p = i;
		if(w[p*2*b+c] == 0) return false;
		if(p != c) for(int j = 0; j < 2*b; j++) std::swap(w[p*2*b+j], w[c*2*b+j]);
		ld d = w[c*2*b+c]; for(int j = 0; j < 2*b; j++) w[c*2*b+j] /= d;
		for(int i = 0; i < b; i++) if(i != c) { ld f = w[i*2*b+c]; if(f != 0) for(int j = 0; j < 2*b; j++) w[i*2*b+j] -= f*w[c*2*b+j]; }
	}
	for(int i = 0; i < b; i++) for(int j = 0; j < b; j++) out[i*b+j] = w[i*2*b+b+j];
	return true;
}
inline LV solveDense(LV a, LV b) { // Gaussian elimination with pivoting
	int n = (int)b.size();
	for(int c = 0; c < n; c++) {
		int p = c; for(int i = c+1; i < n; i++) if(fabsl(a[(size_t)i*n+c]) > fabsl(a[(size_t)p*n+c])) p = i;
		if(p != c) { for(int j = 0; j < n; j++) std::swap(a[(size_t)p*n+j], a[(size_t)c*n+j]); std::swap(b[p], b[c]); }
		for(int i = c+1; i < n; i++) { ld f = a[(size_t)i*n+c]/a[(size_t)c*n+c]; if(f != 0) { for(int j = c; j < n; j++) a[(size_t)i*n+j] -= f*a[(size_t)c*n+j]; b[i] -= f*b[c]; } }
	}
	for(int i = n-1; i >= 0; i--) { for(int j = i+1; j < n; j++) b[i] -= a[(size_t)i*n+j]*b[j]; b[i] /= a[(size_t)i*n+i]; }
	return b;
}

/// Long double block matrix on the pattern of a Mat
struct LMat { const Mat* m; std::vector<ld> v;
	explicit LMat(const Mat& a) : m(&a), v(a.v.begin(), a.v.end()) { }
	ld* blk(int k) { return &v[(size_t)k*m->bs*m->bs]; } const ld* blk(int k) const { return &v[(size_t)k*m->bs*m->bs]; }
};
/// Symmetric scaling by the square roots of the diagonal
inline LV scaleVec(const Mat& m, bool scale) {
	LV sc(m.N(), 1);
	if(scale) for(int i = 0; i < m.n; i++) for(int r = 0; r < m.bs; r++) sc[i*m.bs+r] = 1/sqrtl((ld)m.at(m.di[i],r,r));
	return sc;
}
/// Exact ILU(0): strictly lower blocks hold L (unit diagonal), the rest U. IKJ over the stored pattern.
inline LMat refILU(const Mat& m, bool scale) {
	const int bs = m.bs, b2 = bs*bs; LMat f(m); LV sc = scaleVec(m, scale);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
		f.blk(k)[r*bs+c] *= sc[i*bs+r]*sc[m.ci[k]*bs+c];
	std::vector<ld> inv(b2), t(b2);
	for(int i = 0; i < m.n; i++)
		for(int kk = m.rp[i]; kk < m.rp[i+1] && m.ci[kk] < i; kk++) {
			int k = m.ci[kk];
			if(!invert(f.blk(m.di[k]), inv.data(), bs)) fail("internal: singular pivot in the reference factorisation");
			for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) { ld x = 0; for(int q = 0; q < bs; q++) x += f.blk(kk)[r*bs+q]*inv[q*bs+c]; t[r*bs+c] = x; }
			std::copy(t.begin(), t.end(), f.blk(kk));
			for(int jj = m.rp[i]; jj < m.rp[i+1]; jj++) if(m.ci[jj] > k) {
				int p = m.find(k, m.ci[jj]); if(p < 0) continue;
				for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) for(int q = 0; q < bs; q++) f.blk(jj)[r*bs+c] -= t[r*bs+q]*f.blk(p)[q*bs+c];
			}
		}
	return f;
}
/// Solve (I + strict lower of f) y = b, or (upper incl. diagonal) y = b; blocks
inline LV lowerUnitSolve(const Mat& m, const LMat& f, LV b) {
	const int bs = m.bs;
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] < i) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++)
		b[i*bs+r] -= f.blk(k)[r*bs+c]*b[m.ci[k]*bs+c];
	return b;
}
inline void diagSolve(const Mat& m, const LMat& f, int i, LV& b) {
	const int bs = m.bs; std::vector<ld> inv(bs*bs), t(bs, 0);
	if(!invert(f.blk(m.di[i]), inv.data(), bs)) fail("internal: singular diagonal block in a reference solve");
	for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) t[r] += inv[r*bs+c]*b[i*bs+c];
	for(int r = 0; r < bs; r++) b[i*bs+r] = t[r];
}
inline LV lowerSolve(const Mat& m, const LMat& f, LV b) { // (D+L) y = b
	const int bs = m.bs;
	for(int i = 0; i < m.n; i++) {
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] < i) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) b[i*bs+r] -= f.blk(k)[r*bs+c]*b[m.ci[k]*bs+c];
		diagSolve(m, f, i, b);
	}
	return b;
}
inline LV upperSolve(const Mat& m, const LMat& f, LV b) { // (D+U) y = b
	const int bs = m.bs;
	for(int i = m.n-1; i >= 0; i--) {
		for(int k = m.rp[i]; k < m.rp[i+1]; k++) if(m.ci[k] > i) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) b[i*bs+r] -= f.blk(k)[r*bs+c]*b[m.ci[k]*bs+c];
		diagSolve(m, f, i, b);
	}
	return b;
}
inline LV refILUApply(const Mat& m, const LMat& f, bool scale, const DV& r) {
	LV sc = scaleVec(m, scale), b(r.begin(), r.end());
	for(size_t i = 0; i < b.size(); i++) b[i] *= sc[i];
	LV z = upperSolve(m, f, lowerUnitSolve(m, f, b));
	for(size_t i = 0; i < b.size(); i++) z[i] *= sc[i];
	return z;
}
inline LV mulDiag(const Mat& m, const LV& x) { // D x
	const int bs = m.bs; LV y(x.size(), 0);
	for(int i = 0; i < m.n; i++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) y[i*bs+r] += (ld)m.at(m.di[i],r,c)*x[i*bs+c];
	return y;
}
inline LV mulMat(const Mat& m, const LV& x) {
	const int bs = m.bs; LV y(x.size(), 0);
	for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) y[i*bs+r] += (ld)m.at(k,r,c)*x[m.ci[k]*bs+c];
	return y;
}
inline LV toLV(const DV& x) { return LV(x.begin(), x.end()); }

inline ld maxabs(const LV& x) { ld m = 0; for(ld v : x) m = std::max(m, fabsl(v)); return m; }
/// Normwise comparison; NaN never passes
inline void cmpVec(const double* x, const LV& ref, ld tol, const char* what, ld scale = -1) {
	ld s = scale >= 0 ? scale : maxabs(ref);
	for(size_t i = 0; i < ref.size(); i++)
		if(!(fabsl((ld)x[i]-ref[i]) <= tol*s + 1e-290L)) fail("%s: component %zu is %.17g, expected %.17Lg (tolerance %.3Lg)", what, i, x[i], ref[i], tol*s);
}
inline void cmpSame(const double* x, const double* y, size_t n, const char* what) {
	for(size_t i = 0; i < n; i++) if(memcmp(&x[i],&y[i],8) && !(x[i] == y[i])) fail("%s: component %zu is %.17g, expected exactly %.17g", what, i, x[i], y[i]);
}

} // namespace vf

// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp,coomatrix.cpp
// VF: scale_asan=0.5
// C02: assembly histories against a dictionary of entries
#include "gen.hpp"
#include <blockmatrices.hpp>
#include <map>
using namespace vf;
using namespace blasted;

typedef std::map<std::pair<int,int>, ld> Dict; // scalar entries, stored ones only

template <int bs> struct Sys {
	Mat m;                                        // structure
	Arr<int> rp, ci, di; Arr<double> v;           // used when the matrix wraps our arrays
	std::unique_ptr<BSRMatrix<double,int,bs>> A;
	Dict d; ld mag = 1;                           // model; magnitude of everything ever added
	bool wrapped = false;
	void model() { for(int i = 0; i < m.n; i++) for(int k = m.rp[i]; k < m.rp[i+1]; k++) for(int r = 0; r < bs; r++) for(int c = 0; c < bs; c++) d[{i*bs+r, m.ci[k]*bs+c}] = m.at(k,r,c); }
};

template <int bs> static void readBack(Sys<bs>& S, const char* when) {
	const int N = S.m.N(); ld tol = 4e-15L*S.mag;
	rt::Policy p; rt::set(p);
	std::vector<double> x(N,0), y(N);
	if(N > 150) { // large: by products with vectors of small integers instead of columns
		uint64_t z = 88172645463325252ull+N; auto rnd = [&]() { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return z >> 11; };
		for(int t = 0; t < 6; t++) {
			Arr<double> xx((size_t)N), yy((size_t)N, 77.0); for(int i = 0; i < N; i++) xx[i] = (double)(rnd()%17)-8;
			LV e(N,0); std::vector<int> cnt(N,0); for(auto& q : S.d) { e[q.first.first] += q.second*xx[q.first.second]; cnt[q.first.first]++; }
			S.A->apply(xx.data(), yy.data());
			for(int i = 0; i < N; i++) VF_CHECK(fabsl((ld)yy[i]-e[i]) <= tol*16*cnt[i]*(1+cnt[i]), "%s: row %d times a vector is %.17g, expected %.17Lg", when, i, yy[i], e[i]);
		}
		if(S.wrapped) { S.rp.intact("row pointers"); S.ci.intact("column indices"); S.di.intact("diagonal positions"); S.v.intact("values"); }
		return;
	}
	for(int j = 0; j < N; j++) {
		Arr<double> xx((size_t)N), yy((size_t)N, 77.0); xx[j] = 1;
		S.A->apply(xx.data(), yy.data());
		for(int i = 0; i < N; i++) {
			auto it = S.d.find({i,j}); ld e = it == S.d.end() ? 0 : it->second;
			VF_CHECK(fabsl((ld)yy[i]-e) <= (it == S.d.end() ? 0 : tol), "%s: entry (%d,%d) of the matrix is %.17g, expected %.17Lg", when, i, j, yy[i], e);
		}
	}
	if(S.wrapped) { S.rp.intact("row pointers"); S.ci.intact("column indices"); S.di.intact("diagonal positions"); S.v.intact("values"); }
}

/// Another structure: any, or one with as many entries in each row, or the same one
static Mat otherStructure(Src& s, const Mat& m) {
	const int kind = (int)s.draw(4); MatOpt o; o.nmax = m.bs == 1 ? 9 : 5; o.grow = false; if(kind == 0 || m.n > 60) return genMat(s, m.bs, o);
	if(kind == 3) return m;
	Mat q = m;
	for(int i = 0; i < q.n; i++) { std::set<int> cols; if(m.di[i] >= 0) cols.insert(i); while((int)cols.size() < m.rp[i+1]-m.rp[i]) { int j = (int)s.draw(m.n); while(cols.count(j)) j = (j+1)%m.n; cols.insert(j); } if(s.chance(1,4)) continue; std::copy(cols.begin(), cols.end(), q.ci.begin()+q.rp[i]); }
	setDiag(q); return q;
}
template <int bs> static void restructure(Sys<bs>& S, const Mat& m) {
	if(S.wrapped) { S.rp.intact("row pointers"); S.ci.intact("column indices"); S.di.intact("diagonal positions"); S.v.intact("values"); }
	S.m = m; for(auto& x : S.m.v) x = 0;
	{ Arr<int> rp(m.rp), ci(m.ci); S.A->setStructure(m.n, ci.data(), rp.data()); rp.intact("given row pointers"); ci.intact("given column indices"); VF_CHECK(rp.vec() == m.rp && ci.vec() == m.ci, "setting the structure changed the given arrays"); }
	S.rp = Arr<int>(m.rp); S.ci = Arr<int>(m.ci); S.wrapped = false;
	VF_CHECK(S.A->dim() == m.N(), "dim() is %d after setting a structure of %d rows", S.A->dim(), m.N());
	S.A->setAllZero(); S.d.clear(); S.model();
}

template <int bs> static void create(Case& c, Sys<bs>& S) {
	Src& s = c.s; MatOpt o; o.vals = ARBITRARY; o.nmax = bs == 1 ? 9 : 5; S.m = genMat(s, bs, o);
	for(auto& x : S.m.v) x = std::floor(x*8)/8;
	S.wrapped = s.flip();
	S.rp = Arr<int>(S.m.rp); S.ci = Arr<int>(S.m.ci);
	c.note("%s wrapped=%d", S.m.str(250).c_str(), S.wrapped);
	if(S.wrapped) {
		Raw r(S.m, true); S.di = r.di; S.v = r.v;
		S.A.reset(new BSRMatrix<double,int,bs>(SRMatrixStorage<double,int>(S.rp.data(), S.ci.data(), S.v.data(), S.di.data(), S.rp.data()+1, S.m.n, S.m.nnz(), S.m.nnz(), bs)));
		S.model();
	} else {
		S.A.reset(new BSRMatrix<double,int,bs>());
		if(s.chance(1,4)) { // a structure that is then replaced
			if(s.flip()) { int rp0[] = {0,1,2}, ci0[] = {0,1}; S.A->setStructure(2, ci0, rp0); S.A->setAllZero(); }
			else { Mat q = otherStructure(s, S.m); c.note("first %s", q.str(150).c_str()); Mat keep = S.m; restructure(S, q); S.m = keep; S.d.clear(); S.rp = Arr<int>(S.m.rp); S.ci = Arr<int>(S.m.ci); }
		}
		S.A->setStructure(S.m.n, S.ci.data(), S.rp.data());
		VF_CHECK(S.A->dim() == S.m.N(), "dim() is %d after setting a structure of %d rows", S.A->dim(), S.m.N());
		for(auto& x : S.m.v) x = 0;
		S.model(); S.A->setAllZero();
	}
}
static double contrib(Src& s) { return s.range(-16,16)/8.0; }

/// A stored (block) entry: of a random row, or any, so that long rows are met; -1 if the row has none
static int pickEntry(Src& s, const Mat& m, int& i) {
	i = (int)s.draw(m.n);
	if(m.nnz() > 0 && m.n > 3 && s.flip()) { const int k = (int)s.draw(m.nnz()); i = (int)(std::upper_bound(m.rp.begin(), m.rp.end(), k)-m.rp.begin())-1; return k; }
	const int len = m.rp[i+1]-m.rp[i]; return len ? m.rp[i] + (int)s.draw(len) : -1;
}
/// A rectangular block of existing contiguous entries of a scalar matrix
static bool rect(Src& s, const Mat& m, int& i0, int& j0, int& bi, int& bj) {
	const int k = pickEntry(s, m, i0); if(k < 0) return false;
	j0 = m.ci[k]; int maxj = 1; while(k+maxj < m.rp[i0+1] && m.ci[k+maxj] == j0+maxj) maxj++;
	bj = 1 + (int)s.draw(maxj); int maxi = 1;
	while(i0+maxi < m.n) { bool ok = true; for(int j = 0; j < bj; j++) ok = ok && m.find(i0+maxi, j0+j) >= 0; if(!ok) break; maxi++; }
	bi = 1 + (int)s.draw(maxi); return true;
}
static bool diagRect(Src& s, const Mat& m, int& i0, int& b) {
	i0 = (int)s.draw(m.n); int mx = 1;
	while(i0+mx < m.n) { bool ok = true; for(int a = i0; a <= i0+mx && ok; a++) for(int q = i0; q <= i0+mx && ok; q++) ok = m.find(a,q) >= 0; if(!ok) break; mx++; }
	b = 1 + (int)s.draw(mx); return true;
}

template <int bs> static bool step(Case& c, Sys<bs>& S) {
	Src& s = c.s; Mat& m = S.m; rt::Policy p = rt::gen(s, 5); rt::set(p);
	auto add = [&](int i, int j, double x, bool set) { ld& e = S.d[{i,j}]; e = set ? x : e + x; S.mag = std::max(S.mag, fabsl(e)+fabsl((ld)x)); };
	const int op = (int)s.draw(8);
	switch(op) {
	case 0: case 1: case 2: { // insertion (0) or addition
		const bool set = op == 0; int i0, j0, bi = bs, bj = bs;
		if(bs == 1) { if(!rect(s, m, i0, j0, bi, bj)) return false; }
		else { int i; const int k = pickEntry(s, m, i); if(k < 0) return false; i0 = i*bs; j0 = m.ci[k]*bs; }
		Arr<double> b((size_t)bi*bj); for(auto& x : b) x = contrib(s);
		Arr<double> b0(b);
		c.note("%s(%d,%d %dx%d %s)", set ? "submit" : "update", i0, j0, bi, bj, vstr(b.vec(),80).c_str());
		if(set) S.A->submitBlock(i0, j0, b.data(), bi, bj); else S.A->updateBlock(i0, j0, b.data(), bi, bj);
		for(int r = 0; r < bi; r++) for(int q = 0; q < bj; q++) add(i0+r, j0+q, b[r*bj+q], set);
		VF_CHECK(b.same(b0), "the submitted buffer was changed"); b.intact("the submitted buffer");
	} break;
	case 3: { int i0, b = bs; if(bs == 1) diagRect(s, m, i0, b); else i0 = (int)s.draw(m.n)*bs;
		Arr<double> buf((size_t)b*b); for(auto& x : buf) x = contrib(s);
		c.note("updateDiag(%d %d %s)", i0, b, vstr(buf.vec(),80).c_str());
		S.A->updateDiagBlock(i0, buf.data(), b);
		for(int r = 0; r < b; r++) for(int q = 0; q < b; q++) add(i0+r, i0+q, buf[r*b+q], false);
		buf.intact("the submitted buffer");
	} break;
	case 4: c.note("setDiagZero"); S.A->setDiagZero(); for(auto& e : S.d) if(e.first.first/bs == e.first.second/bs) e.second = 0; break;
	case 5: { double f = s.pick({1.0, 2.0, 0.5, -1.0, 3.0, 0.0, -0.75}); c.note("scaleAll(%g)", f); S.A->scaleAll(f); for(auto& e : S.d) { e.second *= f; S.mag = std::max(S.mag, fabsl(e.second)); } } break;
	case 6: if(s.chance(1,3)) { c.note("setAllZero"); S.A->setAllZero(); for(auto& e : S.d) e.second = 0; }
		else if(s.chance(1,3)) { Mat q = otherStructure(s, m); c.note("setStructure %s", q.str(150).c_str()); restructure(S, q); } else return false; break;
	default: // a block that is not stored: everything must stay as it is
		if(bs > 1) { int i = (int)s.draw(m.n), j = (int)s.draw(m.n); if(m.find(i,j) >= 0) return false; Arr<double> b((size_t)bs*bs, 5.0);
			c.note("absent block (%d,%d)", i, j);
			if(s.flip()) S.A->submitBlock(i*bs, j*bs, b.data(), bs, bs); else S.A->updateBlock(i*bs, j*bs, b.data(), bs, bs); }
		else return false;
	}
	return true;
}

static void diagQueries(Case& c, Sys<1>& S) {
	(void)c; const int n = S.m.n; int first = -1; size_t zeros = 0; ld prod = 1, sum = 0, expo = 0, mn = INFINITY, mx = 0;
	for(int i = 0; i < n; i++) { ld v = S.d[{i,i}], a = fabsl(v); prod *= v; sum += a; if(a > 0) expo += fabsl(std::log(a)); mn = std::min(mn,a); mx = std::max(mx,a); if(a < 1e-14L) { zeros++; if(first < 0) first = i; } else if(a < 1e-10L) return; }
	VF_CHECK(S.A->zeroDiagonalRow() == first, "first row with a zero diagonal entry is reported as %d, expected %d", S.A->zeroDiagonalRow(), first);
	VF_CHECK(S.A->getNumZeroDiagonals() == zeros, "number of zero diagonal entries is reported as %zu, expected %zu", S.A->getNumZeroDiagonals(), zeros);
	double q = S.A->getDiagonalProduct();
	if(expo < 600) // otherwise the product, or a partial one, is beyond double's range
		VF_CHECK(fabsl(q-prod) <= 1e-12L*fabsl(prod)+1e-13L*S.mag*(zeros?1:0), "product of the diagonal is %g, expected %Lg", q, prod);
	q = S.A->getDiagonalAbsSum(); VF_CHECK(fabsl(q-sum) <= 1e-13L*S.mag*(n+1), "sum of the absolute diagonal is %g, expected %Lg", q, sum);
	q = S.A->getAbsMinDiagonalEntry(); VF_CHECK(fabsl(q-mn) <= 1e-13L*S.mag, "smallest absolute diagonal entry is %g, expected %Lg", q, mn);
	q = S.A->getAbsMaxDiagonalEntry(); VF_CHECK(fabsl(q-mx) <= 1e-13L*S.mag, "largest absolute diagonal entry is %g, expected %Lg", q, mx);
}

template <int bs> static void history(Case& c) {
	Sys<bs> S; create(c, S);
	readBack(S, "after creation");
	const int nops = 1 + (int)c.s.draw(10); int done = 0;
	for(int k = 0; k < nops; k++) { if(step(c, S)) done++; if(c.s.chance(1,4)) readBack(S, "during the history"); }
	readBack(S, "after the history");
	c.nontrivial(done >= 2 && S.m.n > 1);
}
VF_PROP(histories, 60000, 1000000, "at least two assembly operations on a matrix of at least 2 (block) rows")
{
	switch(c.s.draw(4)) { case 0: case 1: history<1>(c); break; case 2: history<3>(c); break; default: history<7>(c); }
}
VF_PROP(diagonal_queries, 30000, 400000, "at least 2 rows")
{
	Sys<1> S; create(c, S); const int nops = (int)c.s.draw(4);
	for(int k = 0; k < nops; k++) step(c, S);
	if(c.s.flip()) { // exact zeros at chosen places, everything else non-zero
		for(int i = 0; i < S.m.n; i++) { double v = c.s.chance(1,3) ? 0.0 : 0.5 + contrib(c.s)*0.25 + 4; S.A->submitBlock(i, i, &v, 1, 1); S.d[{i,i}] = v; S.mag = std::max<ld>(S.mag, 16); }
		c.note("diagonal set");
	}
	c.nontrivial(S.m.n > 1);
	diagQueries(c, S);
}

template <int bs> static void concurrent(Case& c) {
	Src& s = c.s; Sys<bs> S; create(c, S); const Mat& m = S.m;
	struct Op { int i0, j0, bi, bj, diag; std::vector<double> b; };
	rt::Policy p = rt::gen(s, 6); if(p.nthreads < 2) p.nthreads = 2;
	std::vector<std::vector<Op>> ops(p.nthreads); int total = 0;
	const int per = 1 + (int)s.draw(rt::deterministic() ? 5 : 40), hot = (int)s.draw(m.n);
	for(auto& l : ops) for(int k = 0; k < per; k++) {
		Op o; o.diag = s.flip();
		if(bs == 1) { bool ok = o.diag ? (diagRect(s, m, o.i0, o.bi), true) : rect(s, m, o.i0, o.j0, o.bi, o.bj); if(!ok) continue; if(o.diag) { o.j0 = o.i0; o.bj = o.bi; } }
		else { int i = s.flip() ? hot : (int)s.draw(m.n); int k2 = o.diag ? m.di[i] : m.rp[i] + (int)s.draw(m.rp[i+1]-m.rp[i]); o.i0 = i*bs; o.j0 = m.ci[k2]*bs; o.bi = o.bj = bs; }
		o.b.resize(o.bi*o.bj); for(auto& x : o.b) x = (double)s.range(-4,4);
		for(int r = 0; r < o.bi; r++) for(int q = 0; q < o.bj; q++) { ld& e = S.d[{o.i0+r,o.j0+q}]; e += o.b[r*o.bj+q]; S.mag = std::max(S.mag, fabsl(e)+400); }
		l.push_back(o); total++;
	}
	c.note("%s, %d additions", rt::describe(p).c_str(), total);
	rt::set(p);
	BSRMatrix<double,int,bs>& A = *S.A;
#pragma omp parallel for schedule(dynamic,1)
	for(int t = 0; t < p.nthreads; t++)
		for(const Op& o : ops[t]) { if(o.diag) A.updateDiagBlock(o.i0, o.b.data(), o.bi); else A.updateBlock(o.i0, o.j0, o.b.data(), o.bi, o.bj); }
	c.nontrivial(total >= 2);
	readBack(S, "after concurrent additions");
}
VF_PROP(concurrent_additions, 60000, 1000000, "at least two additions by different threads")
{
	switch(c.s.draw(4)) { case 0: case 1: concurrent<1>(c); break; case 2: concurrent<3>(c); break; default: concurrent<7>(c); }
}

template <int bs> static void equality(Case& c) {
	Src& s = c.s; MatOpt o; o.vals = ARBITRARY; o.nmax = 7; o.nmin = 2; Mat m = genMat(s, bs, o);
	Raw a(m, true), b(m, true); const double tol = s.pick({1e-12, 0.0, 0.25});
	bool exp[5] = {true,true,true,true,true}; int n2 = m.n; bool onlyfirst = false;
	const int kinds = (int)s.draw(4);
	for(int q = 0; q < kinds; q++) switch(s.draw(5)) {
	case 0: { int k = (int)s.draw(b.v.size()); double delta = s.flip() ? 0.5 : 1e-3; b.v[k] = a.v[k] + (s.flip() ? delta : -delta); } break;
	case 1: { int k = (int)s.draw(m.nnz()); b.ci[k] = (a.ci[k]+1+(int)s.draw(m.n-1)) % m.n; } break;
	case 2: { int k = (int)s.draw(m.n); b.di[k] = a.di[k] + 1; } break;
	case 3: { int k = 1 + (int)s.draw(m.n-1); b.rp[k] = a.rp[k] + 1; } break;
	default: if(s.flip()) { n2 = m.n-1; onlyfirst = true; }
	}
	for(size_t k = 0; k < a.v.size(); k++) if(std::fabs(a.v[k]-b.v[k]) > tol) exp[3] = false;
	for(size_t k = 0; k < a.ci.size(); k++) if(a.ci[k] != b.ci[k]) exp[2] = false;
	for(int k = 0; k < m.n; k++) { if(a.di[k] != b.di[k]) exp[4] = false; if(a.rp[k] != b.rp[k]) exp[1] = false; }
	BSRMatrix<double,int,bs> A(SRMatrixStorage<double,int>(a.rp.data(), a.ci.data(), a.v.data(), a.di.data(), a.rp.data()+1, m.n, m.nnz(), m.nnz(), bs)),
		B(SRMatrixStorage<double,int>(b.rp.data(), b.ci.data(), b.v.data(), b.di.data(), b.rp.data()+1, n2, b.rp[n2], b.rp[n2], bs));
	c.note("%s tol=%g n2=%d expected=%d%d%d%d%d", m.str(200).c_str(), tol, n2, exp[0], exp[1], exp[2], exp[3], exp[4]);
	auto r = A.isEqual(B, tol), r2 = B.isEqual(A, tol);
	c.nontrivial(kinds > 0);
	if(onlyfirst) { VF_CHECK(!r[0] && !r2[0], "matrices of different dimension are reported to have the same"); return; }
	static const char* w[] = {"dimension", "row pointers", "column indices", "values", "diagonal positions"};
	for(int k = 0; k < 5; k++) VF_CHECK(r[k] == exp[k] && r2[k] == exp[k], "equality of %s is reported as %d/%d, expected %d", w[k], (int)r[k], (int)r2[k], exp[k]);
}
VF_PROP(equality_queries, 30000, 400000, "at least one kind of difference introduced")
{
	switch(c.s.draw(4)) { case 0: case 1: equality<1>(c); break; case 2: equality<3>(c); break; default: equality<7>(c); }
}

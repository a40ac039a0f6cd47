// VF: exclude=sai.cpp,async_blockilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_sai.cpp,coomatrix.cpp
// VF: scale_asan=0.25
// C07: orderings, scalings and the reordered incomplete factorisation
#include "gen.hpp"
#include <blockmatrices.hpp>
#include <reorderingscaling.hpp>
#include <solverops_ilu0.hpp>
using namespace vf;
using namespace blasted;

/// An ordering and scaling with given vectors
template <int bs> struct RS : public ReorderingScaling<double,int,bs> {
	std::vector<IV> rseq, cseq; size_t calls = 0; // orderings to be set by successive computes
	void compute(const CRawBSRMatrix<double,int>&) override {
		if(rseq.empty()) return;
		const IV &r = rseq[calls % rseq.size()], &q = cseq[calls % cseq.size()]; calls++;
		this->setOrdering(r.empty() ? nullptr : r.data(), q.empty() ? nullptr : q.data(), (int)std::max(r.size(), q.size()));
	}
	void scales(const DV& r, const DV& q) { this->rowscale = r; this->colscale = q; }
};
static std::string istr(const IV& v) { std::string o; for(int x : v) o += std::to_string(x)+" "; return o; }
static DV genScale(Src& s, int n, bool& exact) {
	DV v(n); const bool p2 = s.flip(); exact = exact && p2;
	for(auto& x : v) x = p2 ? std::ldexp(s.flip() ? 1.0 : -1.0, s.range(-4,4)) : 0.3 + s.unit()*3;
	return v;
}

/// A permutation, sometimes one that moves only a few
static IV genPerm(Src& s, int n) {
	if(n < 2 || !s.chance(1,6)) return s.perm(n);
	IV p(n); for(int i = 0; i < n; i++) p[i] = i;
	const int k = (int)s.draw(3); for(int t = 0; t < k; t++) { const int a = (int)s.draw(n), b = (int)s.draw(n); std::swap(p[a], p[b]); }
	if(s.chance(1,4)) { const int r = (int)s.draw(n); std::rotate(p.begin(), p.begin()+r, p.end()); }
	return p;
}

/// Gives an ordering object its orderings: at once or one after the other, and perhaps others before
template <int bs> static void orderings(Case& c, RS<bs>& rs, const IV& p, const IV& q, bool before) {
	Src& s = c.s; const int n = (int)std::max(p.size(), q.size()); if(n == 0) return;
	if(before && s.chance(1,3)) { const int m = s.flip() ? n : 1+(int)s.draw(14); const IV a = s.perm(m), b = s.perm(m); rs.setOrdering(p.empty() ? nullptr : a.data(), q.empty() ? nullptr : b.data(), m); c.note("after other orderings of length %d", m); }
	if(s.chance(1,3)) { IV t; if(s.flip()) { t = q; rs.setOrdering(nullptr, q.empty() ? nullptr : t.data(), n); t = p; rs.setOrdering(p.empty() ? nullptr : t.data(), nullptr, n); } else { t = p; rs.setOrdering(p.empty() ? nullptr : t.data(), nullptr, n); t = q; rs.setOrdering(nullptr, q.empty() ? nullptr : t.data(), n); } for(int& x : t) x = -1; }
	else { IV a(p), b(q); rs.setOrdering(p.empty() ? nullptr : a.data(), q.empty() ? nullptr : b.data(), n); for(int& x : a) x = -1; for(int& x : b) x = -1; }
}
template <int bs> static void matrices(Case& c, bool owning) {
	Src& s = c.s; MatOpt o; o.huge = 12000; o.vals = ARBITRARY; o.fulldiag = s.flip(); o.nmax = bs == 1 ? (s.chance(1,40) ? 60 : 12) : 6;
	Mat m = genMat(s, bs, o); if(m.nnz() == 0 || owning) { o.fulldiag = true; m = genMat(s, bs, o); }
	const int n = m.n, b2 = bs*bs; Raw a(m, true);
	RS<bs> rs; IV p, q; bool exact = true; DV rsc, csc;
	const int how = (int)s.draw(4); if(how & 1) p = genPerm(s, n); if(how & 2) q = genPerm(s, n);
	const int hows = (int)s.draw(4); if(hows & 1) rsc = genScale(s, n, exact); if(hows & 2) csc = genScale(s, n, exact);
	orderings(c, rs, p, q, true);
	rs.scales(rsc, csc);
	VF_CHECK(rs.isRowReordering() == !p.empty(), "isRowReordering() is %d", (int)rs.isRowReordering());
	rt::Policy pol = rt::gen(s, 5); rt::set(pol);
	std::string ps, qs; for(int x : p) ps += std::to_string(x)+" "; for(int x : q) qs += std::to_string(x)+" ";
	c.note("rows [%s] columns [%s] row scales %s column scales %s %s %s owning=%d", ps.c_str(), qs.c_str(), vstr(rsc).c_str(), vstr(csc).c_str(), m.str(250).c_str(), rt::describe(pol).c_str(), owning);
	c.nontrivial(how != 0 && n > 2 && m.nnz() > n/2+1);
	Raw w(a);
	std::unique_ptr<BSRMatrix<double,int,bs == 4 ? 7 : bs>> own; // 4 has no owning matrix
	RawBSRMatrix<double,int> raw(w.rp.data(), w.ci.data(), w.v.data(), w.di.data(), w.rp.data()+1, n, m.nnz(), m.nnz());
	if(owning && bs != 4) own.reset(new BSRMatrix<double,int,bs == 4 ? 7 : bs>(n, w.rp.data(), w.ci.data(), w.v.data(), w.di.data()));
	const int rounds = 1 + (int)s.draw(3);
	for(int round = 0; round < rounds; round++) {
		if(round && s.flip()) { // another ordering and scaling for the same objects
			const bool rows = s.flip(), cols = s.flip(); if(rows) p = genPerm(s, n); if(cols) q = genPerm(s, n); orderings(c, rs, rows ? p : IV(), cols ? q : IV(), false);
			if(s.flip()) { if(s.flip()) rsc = genScale(s, n, exact); if(s.flip()) csc = genScale(s, n, exact); rs.scales(rsc, csc); }
			VF_CHECK(rs.isRowReordering() == !p.empty(), "isRowReordering() is %d", (int)rs.isRowReordering());
			ps = qs = ""; for(int x : p) ps += std::to_string(x)+" "; for(int x : q) qs += std::to_string(x)+" ";
			c.note("then rows [%s] columns [%s] row scales %s column scales %s", ps.c_str(), qs.c_str(), vstr(rsc).c_str(), vstr(csc).c_str());
		}
		if(own) own->reorderScale(*reinterpret_cast<RS<bs == 4 ? 7 : bs>*>(&rs), FORWARD);
		else { rs.applyScaling(raw, FORWARD); rs.applyOrdering(raw, FORWARD); }
		w.intact();
		// reference
		int k = 0; IV icol(n); for(int j = 0; j < n; j++) icol[q.empty() ? j : q[j]] = j;
		for(int i = 0; i < n; i++) {
			const int oi = p.empty() ? i : p[i];
			VF_CHECK(w.rp[i] == k, "row pointer %d is %d, expected %d", i, w.rp[i], k);
			std::vector<std::pair<int,int>> cols; for(int kk = m.rp[oi]; kk < m.rp[oi+1]; kk++) cols.push_back({icol[m.ci[kk]], kk});
			std::sort(cols.begin(), cols.end());
			for(auto& e : cols) {
				VF_CHECK(w.ci[k] == e.first, "row %d: column %d found where %d is expected", i, w.ci[k], e.first);
				double f = 1; const double rr = rsc.empty() ? 1 : rsc[oi], cc = csc.empty() ? 1 : csc[m.ci[e.second]];
				for(int z = 0; z < b2; z++) { f = a.v[(size_t)e.second*b2+z]; double ref = f*rr*cc, got = w.v[(size_t)k*b2+z];
					VF_CHECK(std::fabs(got-ref) <= 1e-15*(1+3*round)*std::fabs(ref), "entry (%d,%d) item %d is %.17g, expected %.17g", i, e.first, z, got, ref); }
				if(e.first == i) VF_CHECK(w.di[i] == k, "the diagonal of row %d is at %d, its recorded position is %d", i, k, w.di[i]);
				k++;
			}
		}
		VF_CHECK(w.rp[n] == k, "last row pointer is %d, expected %d", w.rp[n], k);
		if(own) own->reorderScale(*reinterpret_cast<RS<bs == 4 ? 7 : bs>*>(&rs), INVERSE);
		else { rs.applyOrdering(raw, INVERSE); rs.applyScaling(raw, INVERSE); }
		w.intact();
		for(int i = 0; i <= n; i++) VF_CHECK(w.rp[i] == m.rp[i], "undoing: row pointer %d is %d, expected %d", i, w.rp[i], m.rp[i]);
		for(int kk = 0; kk < m.nnz(); kk++) VF_CHECK(w.ci[kk] == m.ci[kk], "undoing: column index %d is %d, expected %d", kk, w.ci[kk], m.ci[kk]);
		for(int i = 0; i < n; i++) if(m.di[i] >= 0) VF_CHECK(w.di[i] == m.di[i], "undoing: diagonal position %d is %d, expected %d", i, w.di[i], m.di[i]);
		for(size_t z = 0; z < a.v.size(); z++) VF_CHECK(std::fabs(w.v[z]-a.v[z]) <= (exact ? 0 : 2e-15*(round+1))*std::fabs(a.v[z]), "undoing: value %zu is %.17g, expected %.17g", z, w.v[z], a.v[z]);
	}
}
VF_PROP(matrix_transformations, 240000, 5000000, "a permutation given, at least 3 rows and a matrix that is not diagonal")
{
	switch(c.s.draw(7)) { case 0: case 1: case 2: matrices<1>(c, c.s.flip()); break; case 3: matrices<4>(c, false); break; default: matrices<7>(c, c.s.flip()); }
}

template <int bs> static void vectors(Case& c) {
	Src& s = c.s; const int n = 1+(int)s.draw(s.chance(1,60) ? 1500 : 12);
	RS<bs> rs; IV p, q; DV rsc, csc; bool exact = true;
	const int how = (int)s.draw(4); if(how & 1) p = genPerm(s, n); if(how & 2) q = genPerm(s, n);
	const int hows = (int)s.draw(4); if(hows & 1) rsc = genScale(s, n, exact); if(hows & 2) csc = genScale(s, n, exact);
	orderings(c, rs, p, q, true);
	rs.scales(rsc, csc);
	Arr<double> v(genVec(s, n*bs)); DV ref = v.vec();
	const int ops = 1+(int)s.draw(4); c.nontrivial(n > 2 && (how || hows));
	for(int o = 0; o < ops; o++) {
		if(o && s.chance(1,5)) { const bool rows = s.flip(); (rows ? p : q) = genPerm(s, n); orderings(c, rs, rows ? p : IV(), rows ? IV() : q, false); c.note("another ordering of the %s", rows ? "rows" : "columns"); }
		rt::Policy pol = rt::gen(s, 5); rt::set(pol);
		const RSApplyMode mode = s.flip() ? INVERSE : FORWARD; const RSApplyDir dir = s.flip() ? COLUMN : ROW; const bool scal = s.flip();
		c.note("%s %s %s n=%d bs=%d %s", scal ? "scale" : "reorder", mode == FORWARD ? "forward" : "inverse", dir == ROW ? "row" : "column", n, bs, rt::describe(pol).c_str());
		if(scal) { rs.applyScaling(v.data(), mode, dir); const DV& f = dir == ROW ? rsc : csc; if(!f.empty()) for(int i = 0; i < n*bs; i++) ref[i] = mode == FORWARD ? ref[i]*f[i/bs] : ref[i]/f[i/bs]; }
		else { rs.applyOrdering(v.data(), mode, dir); const IV& f = dir == ROW ? p : q; if(!f.empty()) { DV t(ref); for(int i = 0; i < n; i++) for(int k = 0; k < bs; k++) { if(mode == FORWARD) ref[i*bs+k] = t[f[i]*bs+k]; else ref[f[i]*bs+k] = t[i*bs+k]; } } }
		v.intact("the vector");
		for(int i = 0; i < n*bs; i++) VF_CHECK(std::fabs(v[i]-ref[i]) <= 1e-15*std::fabs(ref[i]), "component %d is %.17g, expected %.17g", i, v[i], ref[i]);
	}
}
VF_PROP(vector_transformations, 150000, 3000000, "at least 3 (block) rows and a permutation or scaling given")
{
	switch(c.s.draw(3)) { case 0: vectors<1>(c); break; case 1: vectors<4>(c); break; default: vectors<7>(c); }
}

/// A with rows and columns so arranged that A(p(i),q(j)) = B(i,j)
static Mat unpermute(const Mat& b, const IV& p, const IV& q) {
	const int n = b.n; Mat a; a.n = n; a.bs = 1; std::vector<std::vector<std::pair<int,double>>> rows(n);
	for(int i = 0; i < n; i++) for(int k = b.rp[i]; k < b.rp[i+1]; k++) rows[p.empty() ? i : p[i]].push_back({q.empty() ? b.ci[k] : q[b.ci[k]], b.v[k]});
	a.rp.push_back(0); for(auto& r : rows) { std::sort(r.begin(), r.end()); for(auto& e : r) { a.ci.push_back(e.first); a.v.push_back(e.second); } a.rp.push_back((int)a.ci.size()); }
	setDiag(a); return a;
}
VF_PROP(reordered_ilu, 120000, 2500000, "a permutation that moves rows of a matrix with off-diagonal entries")
{
	Src& s = c.s; MatOpt o; o.nmax = 10; o.vals = HMATRIX; Mat b = genMat(s, 1, o); const int n = b.n;
	const int kind = (int)s.draw(4); // both alike, both, rows, columns
	auto orders = [&](IV& p, IV& q) { p.clear(); q.clear(); if(kind != 3) p = genPerm(s, n); if(kind == 0) q = p; else if(kind != 2) q = genPerm(s, n); };
	IV p, q; orders(p, q);
	Mat a = unpermute(b, p, q); Raw A(a, true);
	RS<1> rs; rs.rseq.push_back(p); rs.cseq.push_back(q);
	const bool tf = s.flip(), ta = s.flip(); rt::Policy pol = rt::gen(s, 4); if(tf || ta) pol.nthreads = 1; rt::set(pol);
	const FactInit fi = s.pick({INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS}); const ApplyInit ai = s.pick({INIT_A_ZERO, INIT_A_JACOBI});
	const int nb = 1+(int)s.draw(3), na = 1+(int)s.draw(3);
	std::string ps, qs; for(int x : p) ps += std::to_string(x)+" "; for(int x : q) qs += std::to_string(x)+" ";
	c.note("rows [%s] columns [%s] reordered matrix %s tf=%d ta=%d build=%d apply=%d finit=%d ainit=%d %s", ps.c_str(), qs.c_str(), b.str(250).c_str(), tf, ta, nb, na, (int)fi, (int)ai, rt::describe(pol).c_str());
	c.nontrivial(n > 2 && b.nnz() > n);
	ReorderedAsyncILU0_SRPreconditioner<double,int> P(A.storage(), &rs, nb, na, 1+(int)s.draw(4), fi, ai, tf, ta);
	const int rounds = 1+(int)s.draw(3);
	for(int r = 0; r < rounds; r++) {
		if(r) { // new values and, when both orderings are alike, a new ordering as well
			if(kind == 0) { b = a; IV np = genPerm(s, n); IV inv(n); for(int i = 0; i < n; i++) inv[np[i]] = i; b = unpermute(a, inv, inv); p = q = np; rs.rseq[0] = p; rs.cseq[0] = q; }
			changeVals(s, b, HMATRIX); a = unpermute(b, p, q); A.setVals(a);
			c.note("again with rows [%s] columns [%s] %s", istr(p).c_str(), istr(q).c_str(), b.str(250).c_str());
		}
		P.compute();
		Arr<double> rv(genVec(s, n)), rv0(rv), z(n, s.pick({0.0, 1e9, std::numeric_limits<double>::quiet_NaN()}));
		P.apply(rv.data(), z.data());
		DV pr(n); for(int i = 0; i < n; i++) pr[i] = rv[p.empty() ? i : p[i]];
		LMat f = refILU(b, true); LV y = refILUApply(b, f, true, pr), ref(n);
		for(int j = 0; j < n; j++) ref[q.empty() ? j : q[j]] = y[j];
		cmpVec(z.data(), ref, 1e-8L, "reordered incomplete LU");
		VF_CHECK(rv.same(rv0), "the input vector was changed"); z.intact("the output vector");
	}
}

// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp
// VF: scale_asan=0.2
// C04: import of well-formed Matrix Market files against a dictionary of entries
#include "gen.hpp"
#include "memfile.hpp"
#include <coomatrix.hpp>
#include <map>
using namespace vf;
using namespace blasted;

typedef std::map<std::pair<int,int>,double> Dict;
struct Text { std::string s; };

static std::string num(Src& s, double& v, bool integer) {
	char b[64];
	if(integer) { int k = s.range(-20,20); if(s.chance(1,20)) k *= 1000003; if(s.chance(1,40)) { const long long L = (long long)(k%1000003)*s.pick({2000000011LL, 4294967296LL, 450359962737049LL}); v = (double)L; snprintf(b, 64, "%lld", L); return b; } v = k; snprintf(b, 64, s.chance(1,8) ? "%+d" : "%d", k); return b; }
	static const char* f[] = {"%.17g", "%.3f", "%g", "%.16e", "%.4E", "%+.6g", "%.0f"};
	if(s.chance(1,12)) { std::string q = s.pick<std::string>({".5", "1.", "-.25e+1", "1e3", "+7", "-0.", "2E-3", "0000.125", "1.000000000000000000000001", "123456789012345678901234567890"}); v = strtod(q.c_str(), nullptr); return q; }
	double x = s.chance(1,10) ? 0.0 : s.flip() ? s.unit()*2-1 : std::ldexp(1+s.unit(), s.range(-40,40))*(s.flip()?-1:1);
	snprintf(b, 64, f[s.draw(7)], x); v = strtod(b, nullptr); return b;
}
static std::string ws(Src& s) { return s.pick<std::string>({" ", "  ", "\t", " \t "}); }

/// A coordinate file holding the entries in a random order
static std::string coordFile(Src& s, const std::vector<std::tuple<int,int,std::string>>& es, int nr, int nc, bool integer, const char* eol, bool shuffle) {
	std::string t = "%%MatrixMarket" + ws(s) + "matrix" + ws(s) + "coordinate" + ws(s) + (integer ? "integer" : "real") + ws(s) + "general" + (s.chance(1,6) ? " " : "") + eol;
	int nco = (int)s.draw(4); for(int i = 0; i < nco; i++) t += s.pick<std::string>({"% a comment", "%", "%%MatrixMarket matrix array real symmetric", "% 3 3 1", "%%%%"}) + (s.chance(1,12) ? std::string(s.pick({70, 255, 1100, 9000}), s.pick({'x', '%', ' '})) : "") + eol;
	t += (s.chance(1,8) ? " " : "") + std::to_string(nr) + ws(s) + std::to_string(nc) + ws(s) + std::to_string(es.size()) + (s.chance(1,8) ? "  " : "") + eol;
	IV p((int)es.size()); for(size_t i = 0; i < p.size(); i++) p[i] = (int)i;
	if(shuffle) p = s.perm((int)es.size());
	for(size_t i = 0; i < p.size(); i++) {
		auto& e = es[p[i]];
		if(s.chance(1,20)) t += eol;
		t += (s.chance(1,8) ? "   " : "") + std::to_string(std::get<0>(e)+1) + ws(s) + std::to_string(std::get<1>(e)+1) + ws(s) + std::get<2>(e) + (s.chance(1,10) ? " " : "");
		if(i+1 < p.size() || !s.chance(1,4)) t += eol;
	}
	if(s.chance(1,10)) t += eol;
	return t;
}

template <int bs> static void checkStorage(const SRMatrixStorage<double,int>& S, const Dict& d, int n, bool row, const char* what) {
	const int nb = n/bs; std::map<std::pair<int,int>,std::vector<double>> blocks;
	for(auto& e : d) { auto& b = blocks[{e.first.first/bs, e.first.second/bs}]; if(b.empty()) b.assign(bs*bs, 0.0); int r = e.first.first%bs, c = e.first.second%bs; b[row ? r*bs+c : c*bs+r] = e.second; }
	const int nz = (int)blocks.size();
	VF_CHECK(S.nbrows == nb && S.nnzb == nz && S.nbstored == nz, "%s: %d rows, %d blocks, %d stored; expected %d rows, %d blocks", what, S.nbrows, S.nnzb, S.nbstored, nb, nz);
	VF_CHECK(S.browptr.size() == nb+1 && S.bcolind.size() == nz && S.vals.size() == nz*bs*bs && S.diagind.size() == nb && S.browendptr.size() == nb, "%s: an array has the wrong length", what);
	auto it = blocks.begin(); int k = 0;
	for(int i = 0; i < nb; i++) {
		VF_CHECK(S.browptr[i] == k, "%s: row pointer %d is %d, expected %d", what, i, S.browptr[i], k);
		for(; it != blocks.end() && it->first.first == i; ++it, ++k) {
			VF_CHECK(S.bcolind[k] == it->first.second, "%s: column index %d is %d, expected %d (row %d)", what, k, S.bcolind[k], it->first.second, i);
			for(int q = 0; q < bs*bs; q++) VF_CHECK(S.vals[k*bs*bs+q] == it->second[q], "%s: row %d column %d item %d is %.17g, expected %.17g", what, i, it->first.second, q, S.vals[k*bs*bs+q], it->second[q]);
			if(it->first.second == i) VF_CHECK(S.diagind[i] == k, "%s: position of diagonal %d is %d, expected %d", what, i, S.diagind[i], k);
		}
		VF_CHECK(S.browendptr[i] == k, "%s: row end pointer %d is %d, expected %d", what, i, S.browendptr[i], k);
	}
	VF_CHECK(S.browptr[nb] == nz, "%s: last row pointer is %d, expected %d", what, S.browptr[nb], nz);
}
template <int bs> static void convert(Src& s, const COOMatrix<double,int>& coo, const Dict& d, int n) {
	const bool row = s.flip(); char nm[60]; snprintf(nm, 60, "conversion to bs=%d %s", bs, row ? "row" : "col");
	SRMatrixStorage<double,int> S = getSRMatrixFromCOO<double,int,bs>(coo, row ? "rowmajor" : "colmajor");
	checkStorage<bs>(S, d, n, row, nm);
	bool threw = false;
	if(bs > 1 && s.chance(1,8)) { try { getSRMatrixFromCOO<double,int,bs>(coo, "diagonal"); } catch(const std::exception&) { threw = true; } VF_CHECK(threw, "an invalid block storage order is accepted"); }
}

/// Whether a row-pointer array and block list with diagonal form a matrix a product can be taken with
static void product(Src& s, const std::string& path, const Dict& d, int n, int bs) {
	Arr<double> x((size_t)n), y((size_t)n, 5.0); for(int i = 0; i < n; i++) x[i] = 1.0/(i+1);
	if(bs == 1) { BSRMatrix<double,int,1> A = constructBSRMatrixFromMatrixMarketFile<double,int,1>(path); VF_CHECK(A.dim() == n, "a matrix built from a file has dimension %d, expected %d", A.dim(), n); A.apply(x.data(), y.data()); }
	else { BSRMatrix<double,int,7> A = constructBSRMatrixFromMatrixMarketFile<double,int,7>(path); VF_CHECK(A.dim() == n, "a matrix built from a file has dimension %d, expected %d", A.dim(), n); A.apply(x.data(), y.data()); }
	LV r((size_t)n, 0), mg((size_t)n, 0); for(auto& e : d) { ld t = (ld)e.second*x[e.first.second]; r[e.first.first] += t; mg[e.first.first] += fabsl(t); }
	for(int i = 0; i < n; i++) VF_CHECK(fabsl(y[i]-r[i]) <= 1e-14L*(n+4)*mg[i], "product with a matrix built from a file: component %d is %.17g, expected %.17Lg", i, y[i], r[i]);
}

VF_PROP(coordinate_files, 400000, 8000000, "at least 3 entries given in an order different from row order")
{
	Src& s = c.s;
	const int bs = s.pick({1,1,3,4,7}); const bool square = bs > 1 || !s.chance(1,4);
	int n = bs == 1 ? 1 + (int)s.draw(s.chance(1,40) ? (s.chance(1,12) ? 3000 : 200) : 12) : bs*(1+(int)s.draw(s.chance(1,400) ? 420 : s.chance(1,40) ? 40 : 5)), nc = square ? n : 1 + (int)s.draw(12);
	const bool integer = s.chance(1,4);
	const int kind = (int)s.draw(4); // 0: diagonal present, every row; 1: every row has something; 2,3: some rows may be empty
	Dict d; std::vector<std::tuple<int,int,std::string>> es;
	const int dens = 1 + (int)s.draw(9);
	const bool holes = s.flip(); // whole block rows without entries
	for(int i = 0; i < n; i++) {
		std::set<int> cols; if(kind == 0 && i < nc) cols.insert(i);
		const bool skip = kind >= 2 && (holes ? ((i/bs)*2654435761u >> 7) % 3 == 0 : s.chance(1,4));
		if(!skip) { int k = (int)s.draw(dens+1); if(kind < 2) k = std::max(k, 1); for(int q = 0; q < k; q++) cols.insert((int)s.draw(nc)); }
		for(int j : cols) { double v; std::string t = num(s, v, integer); d[{i,j}] = v; es.emplace_back(i, j, t); }
	}
	const char* eol = s.chance(1,6) ? "\r\n" : "\n";
	std::string text = coordFile(s, es, n, nc, integer, eol, true);
	c.note("bs=%d file:\n%s", bs, text.substr(0,1200).c_str());
	c.nontrivial(es.size() >= 3);
	MemFile f(text);
	COOMatrix<double,int> coo; coo.readMatrixMarket(f.path());
	VF_CHECK(coo.numrows() == n && coo.numcols() == nc && coo.numnonzeros() == (int)es.size(), "sizes read as %d x %d with %d entries, the file says %d x %d with %zu", coo.numrows(), coo.numcols(), coo.numnonzeros(), n, nc, es.size());
	auto& E = coo.getEntries(); auto& rp = coo.getRowPtrs();
	VF_CHECK(E.size() == d.size() && rp.size() == (size_t)n+1, "%zu entries and %zu row pointers, expected %zu and %d", E.size(), rp.size(), d.size(), n+1);
	auto it = d.begin(); int k = 0;
	for(int i = 0; i < n; i++) { VF_CHECK(rp[i] == k, "row pointer %d of the coordinate matrix is %d, expected %d", i, rp[i], k);
		for(; it != d.end() && it->first.first == i; ++it, ++k) VF_CHECK(E[k].rowind == i && E[k].colind == it->first.second && E[k].value == it->second, "entry %d is (%d,%d)=%.17g, expected (%d,%d)=%.17g", k, E[k].rowind, E[k].colind, E[k].value, i, it->first.second, it->second); }
	VF_CHECK(rp[n] == (int)d.size(), "last row pointer of the coordinate matrix is %d, expected %zu", rp[n], d.size());
	if(square) {
		if(s.flip()) convert<1>(s, coo, d, n);
		switch(bs) { case 3: convert<3>(s, coo, d, n); break; case 4: convert<4>(s, coo, d, n); break; case 7: convert<7>(s, coo, d, n); break; }
		if(d.size() && s.chance(1,4)) product(s, f.path(), d, n, bs == 7 ? 7 : 1);
	} else convert<1>(s, coo, d, n);
	if(es.size() > 1 && s.chance(1,3)) { // the order in the file does not matter
		MemFile g(coordFile(s, es, n, nc, integer, eol, true));
		COOMatrix<double,int> coo2; coo2.readMatrixMarket(g.path()); auto& F = coo2.getEntries();
		VF_CHECK(F.size() == E.size(), "another order of the file gives another number of entries");
		for(size_t i = 0; i < E.size(); i++) VF_CHECK(E[i].rowind == F[i].rowind && E[i].colind == F[i].colind && E[i].value == F[i].value, "another order of the file gives another entry %zu", i);
	}
	if(s.chance(1,6)) { // reading again into the same object, at times after a file that ends too early
		if(s.chance(1,3) && es.size()) { const int cut = (int)s.draw(es.size()); auto part = es; part.resize(cut); std::string t = "%%MatrixMarket matrix coordinate real general\n" + std::to_string(n) + " " + std::to_string(nc) + " " + std::to_string(es.size()) + "\n"; for(auto& e : part) t += std::to_string(std::get<0>(e)+1) + " " + std::to_string(std::get<1>(e)+1) + " 1\n"; MemFile g(t); bool threw = false; try { coo.readMatrixMarket(g.path()); } catch(const std::exception&) { threw = true; } VF_CHECK(threw, "a file with too few entries is accepted"); }
		const int n2 = s.chance(1,4) ? n : 1+(int)s.draw(9); Dict e; std::vector<std::tuple<int,int,std::string>> es2; int want = s.chance(1,3) ? (int)es.size() : (int)s.draw(12);
		for(int t = 0; t < 3*want && (int)es2.size() < want; t++) { int i = (int)s.draw(n2), j = (int)s.draw(n2); if(e.count({i,j})) continue; std::string x = std::to_string(s.range(-9,9)); e[{i,j}] = atof(x.c_str()); es2.emplace_back(i, j, x); }
		MemFile g(coordFile(s, es2, n2, n2, false, "\n", true)); coo.readMatrixMarket(g.path()); VF_CHECK(coo.numrows() == n2 && coo.numcols() == n2 && coo.numnonzeros() == (int)es2.size() && coo.getEntries().size() == es2.size(), "sizes of a second file read as %d x %d with %d entries, it has %d with %zu", coo.numrows(), coo.numcols(), coo.numnonzeros(), n2, es2.size());
		convert<1>(s, coo, e, n2);
	}
}

VF_PROP(dense_files, 60000, 1000000, "at least 2 numbers")
{
	Src& s = c.s; const int nr = 1+(int)s.draw(9), nc = s.flip() ? 1 : 1+(int)s.draw(4); const bool integer = s.chance(1,4); const char* eol = s.chance(1,6) ? "\r\n" : "\n";
	std::string t = "%%MatrixMarket matrix array " + std::string(integer ? "integer" : "real") + " general" + eol;
	int nco = (int)s.draw(3); for(int i = 0; i < nco; i++) t += std::string("% c") + eol;
	t += std::to_string(nr) + ws(s) + std::to_string(nc) + eol;
	DV v(nr*nc); for(auto& x : v) { t += num(s, x, integer); t += s.flip() ? eol : " "; }
	c.note("%s", t.c_str()); c.nontrivial(v.size() > 1);
	MemFile f(t); device_vector<double> r = readDenseMatrixMarket<double>(f.path());
	VF_CHECK(r.size() == v.size(), "a dense file of %zu numbers reads as %zu", v.size(), (size_t)r.size());
	for(size_t i = 0; i < v.size(); i++) VF_CHECK(r[i] == v[i], "number %zu of a dense file reads as %.17g, expected %.17g", i, r[i], v[i]);
	device_vector<float> q = readDenseMatrixMarket<float>(f.path());
	for(size_t i = 0; i < v.size(); i++) VF_CHECK(fabs(q[i]-v[i]) <= 6e-8*fabs(v[i])+1e-37, "number %zu of a dense file reads as %.9g in single precision, expected %.9g", i, q[i], v[i]);
}

// VF: exclude=sai.cpp,async_blockilu_factor.cpp,async_ilu_factor.cpp,solverops_jacobi.cpp,solverops_sgs.cpp,solverops_ilu0.cpp,solverops_levels_sgs.cpp,solverops_levels_ilu0.cpp,relaxation_chaotic.cpp,solverfactory.cpp,solverops_base.cpp,solverops_sai.cpp,ilu_pattern.cpp,levelschedule.cpp,matrix_properties.cpp
// VF: scale_asan=0.25
// C05: arbitrary bytes offered to the Matrix Market readers
#include "gen.hpp"
#include "memfile.hpp"
#include <coomatrix.hpp>
#include <sstream>
#include <sys/resource.h>
using namespace vf;
using namespace blasted;

static std::string lower(std::string t) { for(char& ch : t) ch = (char)tolower((unsigned char)ch); return t; }

/// What the bytes say, read leniently; where ok is false, nothing may be delivered
struct Facts { bool ok = false; bool strict = false; long nr = 0, nc = 0, nz = 0; std::vector<std::tuple<long,long,double>> es; DV v; bool big = false; std::string why; };
static Facts facts(const std::string& text, bool dense) {
	Facts f; std::istringstream in(text); std::string l; std::getline(in, l);
	std::vector<std::string> h; { std::istringstream is(l); std::string t; while(is >> t) h.push_back(t); }
	f.why = "header";
	if(h.size() != 5 || h[0] != "%%MatrixMarket") return f;
	if(lower(h[2]) != (dense ? "array" : "coordinate")) return f;
	if(lower(h[3]) != "real" && lower(h[3]) != "integer") return f;
	if(lower(h[4]) != "general") return f;
	bool got = false; while(std::getline(in, l)) { if(l[0] == '%') continue; if(l.find_first_not_of(" \t\r\v\f") == std::string::npos) continue; got = true; break; }
	f.why = "no size line";
	if(!got) return f;
	std::istringstream is(l); std::vector<std::string> t; std::string w; while(is >> w) t.push_back(w);
	f.why = "size line";
	if(t.size() < (dense ? 2u : 3u)) return f;
	long sz[3] = {0,0,0};
	for(int i = 0; i < (dense ? 2 : 3); i++) { char* e; errno = 0; sz[i] = strtol(t[i].c_str(), &e, 10); if(e == t[i].c_str() || errno || sz[i] < 0 || sz[i] > 2147483647L) return f; if(sz[i] > 200000) f.big = true; }
	f.nr = sz[0]; f.nc = sz[1]; f.nz = dense ? f.nr*f.nc : sz[2];
	f.why = "entries";
	if(f.nz > 1000000) return f; // no generated file has that many
	for(long i = 0; i < f.nz; i++) {
		if(dense) { double v; if(!(in >> v)) return f; f.v.push_back(v); }
		else { int r, c; double v; if(!(in >> r >> c >> v) || r < 1 || c < 1 || r > f.nr || c > f.nc) return f; f.es.emplace_back(r-1, c-1, v); }
	}
	f.ok = true; return f;
}

static std::string badNum(Src& s) {
	return s.pick<std::string>({"0", "-1", "1", "2", "7", "1000", "-5", "2147483647", "2147483648", "99999999999999999999", "-2147483648", "abc", "1.5", "nan", "inf", "1e999", "", "0x10", "3x", "+2", "1e3", "%", "--3", "1,2", "100000", "65536", "46341"});
}
static std::string genText(Src& s, bool dense) {
	std::vector<std::vector<std::string>> L; // lines of tokens
	int n = 1+(int)s.draw(5), nc = s.flip() ? n : 1+(int)s.draw(5);
	L.push_back({"%%MatrixMarket", "matrix", dense ? "array" : "coordinate", s.pick<std::string>({"real","real","integer"}), "general"});
	int nco = (int)s.draw(3); for(int i = 0; i < nco; i++) L.push_back({"%", "note"});
	auto val = [&]{ return std::to_string(s.range(-9,9)) + (s.flip() ? ".25" : ""); };
	if(dense) { L.push_back({std::to_string(n), std::to_string(nc)}); for(int i = 0; i < n*nc; i++) L.push_back({val()}); }
	else {
		std::vector<std::vector<std::string>> E; for(int i = 0; i < n; i++) for(int j = 0; j < nc; j++) if(s.flip() || (i == j)) E.push_back({std::to_string(i+1), std::to_string(j+1), val()});
		L.push_back({std::to_string(n), std::to_string(nc), std::to_string(E.size())});
		if(s.flip()) { IV p = s.perm((int)E.size()); for(int k : p) L.push_back(E[k]); } else for(auto& e : E) L.push_back(e);
	}
	const size_t sizeline = 1+(size_t)nco;
	auto join = [&]{ std::string t; for(size_t i = 0; i < L.size(); i++) { for(size_t k = 0; k < L[i].size(); k++) t += (k ? " " : "") + L[i][k]; t += "\n"; } return t; };
	const int nm = (int)s.draw(4); std::string t; bool flat = false;
	for(int m = 0; m < nm; m++) {
		if(flat) { // byte level
			if(t.empty()) break;
			size_t p = (size_t)s.draw(t.size());
			switch(s.draw(5)) {
			case 0: t.resize(p); break;
			case 1: t[p] = (char)s.draw(256); break;
			case 2: t.insert(p, 1, (char)s.draw(256)); break;
			case 3: t.erase(p, 1+(size_t)s.draw(4)); break;
			default: t.insert(p, t.substr((size_t)s.draw(t.size()), (size_t)s.draw(20)));
			}
			continue;
		}
		switch(s.draw(10)) {
		case 0: { auto& h = L[0]; if(h.empty()) break; size_t k = (size_t)s.draw(h.size());
			static const std::vector<std::string> subs[] = {{"%%MatrixMarket","%MatrixMarket","%%matrixmarket","MatrixMarket","","%"},{"matrix","vector","Matrix",""},{"coordinate","array","Coordinate","sparse","","coord"},
				{"real","integer","complex","pattern","patter","Real","double","","COMPLEX"},{"general","symmetric","skew-symmetric","skewsymmetric","hermitian","General","Symmetric","","diag"}};
			h[k] = s.pick(subs[std::min<size_t>(k,4)]); } break;
		case 1: if(s.flip()) L[0].push_back("extra"); else if(L[0].size()) L[0].pop_back(); break;
		case 2: if(sizeline < L.size()) { auto& z = L[sizeline]; if(z.size()) z[(size_t)s.draw(z.size())] = badNum(s); } break;
		case 3: if(sizeline < L.size()) { auto& z = L[sizeline]; if(s.flip()) z.push_back(badNum(s)); else if(z.size()) z.pop_back(); } break;
		case 4: case 5: if(L.size() > sizeline+1) { auto& e = L[sizeline+1+(size_t)s.draw(L.size()-sizeline-1)]; if(e.size()) e[(size_t)s.draw(e.size())] = badNum(s); } break;
		case 6: L.resize((size_t)s.draw(L.size()+1)); if(L.empty()) L.push_back({}); break;
		case 7: L.erase(L.begin()+(long)s.draw(L.size())); if(L.empty()) L.push_back({}); break;
		case 8: { size_t a = (size_t)s.draw(L.size()), b = (size_t)s.draw(L.size()); auto x = L[a]; L.insert(L.begin()+(long)b, x); } break;
		default: t = join(); flat = true; m--; if(nm > 3) break;
		}
		if(m < -1) m = 0;
	}
	if(!flat) t = join();
	if(s.chance(1,12)) while(!t.empty() && t.back() == '\n') t.pop_back();
	return t;
}

static void capMemory() {
#ifndef VF_ASAN
	static bool done = false; if(done) return; done = true;
	struct rlimit r; r.rlim_cur = r.rlim_max = 2ull<<30; setrlimit(RLIMIT_AS, &r);
#endif
}

static void offer(Case& c, const std::string& text, bool dense) {
	capMemory();
	Facts f = facts(text, dense);
	c.note("offered as a %s file:\n%s\n(reference: %s)", dense ? "dense" : "coordinate", text.substr(0,900).c_str(), f.ok ? "well-formed" : f.why.c_str());
	if(f.big && !rt::deterministic()) return; // the sanitizer does not turn exhausted memory into an exception
	MemFile mf(text); bool threw = false;
	if(dense) {
		device_vector<double> r; try { r = readDenseMatrixMarket<double>(mf.path()); } catch(...) { threw = true; }
		if(threw) return; // refusing is always allowed here; C04 demands acceptance of well-formed files
		VF_CHECK(f.ok, "a malformed dense file (%s) was accepted and delivered %zu numbers", f.why.c_str(), (size_t)r.size());
		VF_CHECK(r.size() == f.v.size(), "a dense file of %zu numbers delivered %zu", f.v.size(), (size_t)r.size());
		for(size_t i = 0; i < r.size(); i++) VF_CHECK(r[i] == f.v[i], "number %zu of a dense file was delivered as %.17g, it is %.17g", i, r[i], f.v[i]);
	} else {
		COOMatrix<double,int> coo; try { coo.readMatrixMarket(mf.path()); } catch(...) { threw = true; }
		if(threw) return;
		auto& E = coo.getEntries();
		VF_CHECK(f.ok, "a malformed coordinate file (%s) was accepted and delivered a matrix of %d x %d with %zu entries", f.why.c_str(), coo.numrows(), coo.numcols(), E.size());
		VF_CHECK(coo.numrows() == f.nr && coo.numcols() == f.nc && coo.numnonzeros() == f.nz && (long)E.size() == f.nz, "the delivered sizes %d x %d with %d (%zu) entries differ from the declared ones", coo.numrows(), coo.numcols(), coo.numnonzeros(), E.size());
		std::vector<std::tuple<long,long,double>> got; for(auto& e : E) got.emplace_back(e.rowind, e.colind, e.value);
		auto& rp = coo.getRowPtrs(); VF_CHECK((long)rp.size() == f.nr+1, "%zu row pointers for %ld rows", rp.size(), f.nr);
		for(long i = 0; i < f.nr; i++) { VF_CHECK(rp[i] <= rp[i+1] && rp[i] >= 0 && rp[i+1] <= f.nz, "row pointers are not increasing at row %ld", i); for(int k = rp[i]; k < rp[i+1]; k++) VF_CHECK(E[k].rowind == i && (k == rp[i] || E[k-1].colind <= E[k].colind), "entry %d is out of order or in another row", k); }
		std::sort(got.begin(), got.end()); std::sort(f.es.begin(), f.es.end());
		VF_CHECK(got == f.es, "the delivered entries are not those of the file");
	}
}

VF_PROP(mutated_files, 800000, 12000000, "file differs from every well-formed one or is unusual: at least 12 bytes long")
{
	Src& s = c.s; const bool dense = s.chance(1,3); std::string t = genText(s, dense);
	c.nontrivial(t.size() >= 12);
	offer(c, t, s.chance(1,12) ? !dense : dense);
}
VF_PROP(token_soup, 200000, 3000000, "at least 3 lines")
{
	Src& s = c.s; const bool dense = s.chance(1,3); std::string t; int lines = (int)s.draw(9);
	t = s.chance(1,8) ? "" : std::string("%%MatrixMarket matrix ") + (dense ? "array" : "coordinate") + " real general\n";
	for(int l = 0; l < lines; l++) { int k = (int)s.draw(5); for(int i = 0; i < k; i++) t += s.pick<std::string>({"1","2","3","4","0","-1","2.5","1 1 1","% ","5","2 2 2","x","\r","\t"," ","-2e-3","12345678901"}) + (s.chance(1,6) ? "" : " "); t += s.chance(1,15) ? std::string(1,'\0') : "\n"; }
	c.nontrivial(lines >= 3);
	offer(c, t, dense);
}
VF_PROP(raw_bytes, 40000, 200000, "at least 4 bytes")
{
	Src& s = c.s; std::string t; int n = (int)s.draw(80); if(s.flip()) t = "%%MatrixMarket matrix coordinate real general\n"; for(int i = 0; i < n; i++) t += (char)s.draw(256);
	c.nontrivial(n >= 4); offer(c, t, s.chance(1,3));
}
VF_PROP(missing_files, 400, 4000, "every case")
{
	Src& s = c.s; c.nontrivial(true);
	std::string p = s.pick<std::string>({"/nonexistent/file.mtx", "", "/", "/proc/self", "/dev/null"}); bool dense = s.flip(), threw = false;
	p += std::string((size_t)s.draw(3), '/');
	c.note("path '%s' dense=%d", p.c_str(), dense);
	try { if(dense) readDenseMatrixMarket<double>(p); else { COOMatrix<double,int> coo; coo.readMatrixMarket(p); } } catch(...) { threw = true; }
	VF_CHECK(threw, "a file that is not there delivered data");
}
